// C01: a reported SUCCESS is a certificate: the returned point and multipliers,
// re-evaluated independently, satisfy the first-order conditions to the target
// tolerance, and every reported number is the re-evaluated one.
#include "solver.hpp"
using namespace pn;
using mc::Ctx;

static void judge(Ctx &c, const Prb &P, const Cfg &g, const Solver &s, ConvergenceFlag f, const std::string &w) {
  const RS &r = *s.results_;
  auto say = [&](const char *t) { return w + ": " + t + "; flag " + str(int(f)) + " iterations " + str(r.num_iters) + "/" + str(r.al_iters) + " x=" + str(r.x_opt) + " lam=" + str(r.data_lams_opt); };
  c.require(r.converged == f, "flag", say("returned flag is not the one of the results"));
  c.require(r.num_iters <= g.max_iters, "too-many-iterations", say("num_iters exceeds max_iters"));
  c.require(r.al_iters <= g.max_al, "too-many-iterations", say("al_iters exceeds max_al_iters"));
  if (f == MAX_ITERS_REACHED)
    c.require(r.num_iters == g.max_iters, "wrong-reason", say("MAX_ITERS_REACHED before max_iters"));
  if (f == UNINIT)
    c.require(r.al_iters == g.max_al, "wrong-reason", say("no flag although no limit was reached"));
  c.require(r.x_opt.allFinite() && r.data_lams_opt.allFinite(), "not-finite", say("iterate"));
  c.require(P.M->isNormalized(r.x_opt), "off-manifold", say("iterate left the manifold"));
  int off = 0;
  for (size_t i = 0; i < P.nrs.size(); i++) {
    c.require(same(r.lams_opt[i], r.data_lams_opt.segment(off, P.nrs[i])), "blocks", say("multiplier block differs from the stacked vector"));
    off += P.nrs[i];
  }
  c.count(f == SUCCESS ? "success" : f == MAX_ITERS_REACHED ? "max iterations" : "max AL iterations");
  if (f != SUCCESS)
    return;
  c.require(r.mu > 0 && r.mu <= std::max(g.mu, s.mu_upper_), "penalty", say("reported penalty"));
  Cert t = certify(P, r.x_opt, r.data_lams_opt, r.mu);
  auto res = [&](double a, double b) { return " reported " + str(a) + " actual " + str(b); };
  const double big = 1 + infn(r.data_lams_opt) + infn(r.x_opt);
  const double eps = 1e-11 * big * big;
  c.require(t.dual <= g.tol * (1 + 1e-9) + eps, "not-stationary", say("gradient of the Lagrangian") + res(r.dual_infeas, t.dual));
  c.require(t.prim <= g.tol * (1 + 1e-9) + eps, "not-feasible", say("primal residual") + res(r.prim_infeas, t.prim));
  c.require(std::abs(t.dual - r.dual_infeas) <= eps, "dual-infeas", say("dual_infeas") + res(r.dual_infeas, t.dual));
  c.require(std::abs(t.prim - r.prim_infeas) <= eps, "prim-infeas", say("prim_infeas") + res(r.prim_infeas, t.prim));
  c.require(close(r.constraint_violations, t.viol, 1e-9, eps), "violations", say("constraint_violations"));
  c.require(close(r.value, t.value, 1e-11, eps), "value", say("value") + res(r.value, t.value));
  // what the residual means for each kind of constraint
  Ev e = evaluate(P, r.x_opt);
  for (int i = 0; i < P.nc(); i++) {
    const Comp &k = P.comps[size_t(i)];
    const double tl = g.tol * (1 + 1e-9) + eps, cv = e.c[i], lam = r.data_lams_opt[i];
    if (k.k == EQ)
      c.require(std::abs(cv) <= tl, "not-feasible", say("equality violated"));
    if (k.k == NEG) {
      c.require(cv <= tl, "not-feasible", say("inequality violated"));
      c.require(lam >= -tl / r.mu, "multiplier-sign", say("negative multiplier of an inequality"));
      c.require(std::min(-cv, r.mu * lam) <= tl, "complementarity", say("slack inequality with a multiplier"));
    }
    if (k.k == BOX)
      c.require(cv >= k.lo - tl && cv <= k.hi + tl, "not-feasible", say("bound violated"));
    if (k.k == L1)
      c.require(std::abs(lam) <= 1 + tl / r.mu, "multiplier-sign", say("multiplier of an L1 penalty exceeds 1"));
  }
}
static void run(Ctx &c, const Prb &P, const Cfg &g, int xk, int lk) {
  auto s = make_solver(*P.p, g);
  Vec x0 = start_point(P, xk), l0 = pick_l0(P.nc(), lk);
  const std::string w = P.name + " " + g.name() + " start " + str(x0) + " " + str(l0);
  if (g.hess == HessianApprox::BFGS && P.M->nx() != P.M->ndx())
    c.prune();
  s->setup();
  ConvergenceFlag f;
  try {
    f = s->solve(x0, l0);
  } catch (const std::runtime_error &e) {
    c.count("stopped with an exception");
    c.require(s->results_->converged != SUCCESS, "success-and-exception", w + ": SUCCESS recorded although the solve threw");
    return;
  }
  c.step(s->results_->num_iters + 1);
  judge(c, P, g, *s, f, w);
  c.obs(hashm(s->results_->x_opt, mc::mix(s->results_->num_iters, s->results_->al_iters * 4 + unsigned(f + 1))));
}
static void gallery(Ctx &c) {
  Prb P = pick_prb(c, N_FAMILIES, c.thorough ? 2 : 1);
  c.shard();
  int xk = c.choose(3, "x0"), lk = P.nc() ? c.choose(3, "l0") : 0;
  run(c, P, pick_cfg(c, true, true), xk, lk);
}
static void pairs(Ctx &c) {
  Prb P = pick_prb(c, N_FAMILIES, 2);
  if (P.nrs.size() < 2)
    c.prune();
  c.shard();
  int xk = c.choose(3, "x0"), lk = c.choose(2, "l0");
  run(c, P, pick_cfg(c, true, true), xk, lk);
}
int main(int argc, char **argv) {
  mc::Main m("C01");
  m.note = "7 problem families (quadratic, nonconvex, nonlinear least squares, unit circle, SO(3)xR, product sets, infeasible) x every "
           "list of up to 2 constraint blocks of the 4 kinds x 3 starts x up to 3 starting multipliers x every configuration within 2 "
           "deviations (LDLT, KKT system, multiplier update, Hessian, line search, rho, mu, beta, tolerance, iteration limits); "
           "states are distinct (solution, iterations, flag) outcomes";
  m.assumptions = {"residuals measured with the reported penalty", "rounding allowance 1e-11 (1+|x|+|lam|)^2"};
  const bool t = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  m.add("gallery", gallery, t ? 3 : 2);
  m.add("pairs", pairs, t ? 2 : 1);
  return m.run(argc, argv);
}
