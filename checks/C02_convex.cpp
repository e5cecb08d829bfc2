// C02: strictly convex quadratic problems are solved from every start in every
// configuration; the minimiser is found independently by enumerating active sets.
#include "solver.hpp"
using namespace pn;
using mc::Ctx;

static bool run(Ctx &c, QP &qp, const Cfg &g, int xk, int lk, const Oracle &o, const char *finding = nullptr) {
  Prb &P = qp.P;
  auto s = make_solver(*P.p, g);
  if (!finding)
    s->max_iters = 400; // a proximal term makes the convergence linear
  s->setup();
  Vec x0 = pick_x0(c, int(qp.q.size()), xk), l0 = pick_l0(P.nc(), lk);
  std::string w = P.name + " " + g.name() + " start " + str(x0) + " " + str(l0);
  ConvergenceFlag f = s->solve(x0, l0);
  const RS &r = *s->results_;
  c.step(r.num_iters + 1);
  c.require(f == SUCCESS, finding ? finding : "not-solved",
            w + " flag " + str(int(f)) + " after " + str(r.num_iters) + "/" + str(r.al_iters) + " iterations, prim " + str(r.prim_infeas) +
                " dual " + str(r.dual_infeas) + " x " + str(r.x_opt) + " expected " + str(o.x));
  // complementarity is measured with the penalty: the multipliers are known up
  // to prim/mu, and the minimiser moves accordingly
  double err = infn(r.x_opt - o.x), n = double(x0.size()), m = double(P.nc());
  const double lmin = Eigen::SelfAdjointEigenSolver<Mat>(qp.Q).eigenvalues().minCoeff();
  const double J = P.nc() ? evaluate(P, x0).J.norm() : 0;
  const double bound = 1.1 * (std::sqrt(n) * r.dual_infeas + J * std::sqrt(m) * r.prim_infeas / r.mu) / lmin + 1e3 * r.prim_infeas + 1e-9;
  c.require(err <= bound, "wrong-minimiser", w + " x=" + str(r.x_opt) + " expected " + str(o.x) + " accuracy " + str(bound));
  c.count(std::string("iters<=") + (r.num_iters <= 5 ? "5" : r.num_iters <= 20 ? "20" : r.num_iters <= 50 ? "50" : "100"));
  c.obs(hashm(r.x_opt, mc::mix(r.num_iters, r.al_iters)));
  return true;
}
// the primal-dual system: every combination of constraints
static void primal_dual(Ctx &c) {
  QP qp = pick_qp(c, c.thorough ? 3 : 2, 2, 4);
  c.shard();
  Oracle o = active_sets(qp.P, qp.Q, qp.q);
  if (!o.found || !o.licq)
    c.prune();
  int xk = c.choose(3, "x0"), lk = qp.P.nc() ? c.choose(2, "l0") : 0;
  Cfg g = pick_cfg(c, false, false, true, KKT_PRIMAL_DUAL, 1e-5);
  run(c, qp, g, xk, lk, o);
}
// the classic system: equalities and at most one scalar inequality, beta = 1/2
static void classic(Ctx &c) {
  QP qp = pick_qp(c, c.thorough ? 3 : 2, 2, 4);
  c.shard();
  int ineq = 0;
  for (const Comp &k : qp.P.comps)
    ineq += k.k != EQ;
  Oracle o = active_sets(qp.P, qp.Q, qp.q);
  if (!o.found || !o.licq || ineq > 1)
    c.prune();
  int xk = c.choose(3, "x0"), lk = qp.P.nc() ? c.choose(2, "l0") : 0;
  Cfg g = pick_cfg(c, false, false, false, KKT_CLASSIC, 1e-5);
  run(c, qp, g, xk, lk, o);
}
// three blocks, one configuration of each system
static void blocks3(Ctx &c) {
  QP qp = pick_qp(c, 3, 3, 2, 2);
  if (qp.P.nrs.size() < 3)
    c.prune();
  c.shard();
  Oracle o = active_sets(qp.P, qp.Q, qp.q);
  if (!o.found || !o.licq)
    c.prune();
  int xk = c.choose(2, "x0");
  Cfg g;
  g.kkt = KKT_PRIMAL_DUAL;
  g.beta = c.pick(std::vector<double>{0.5, 1.}, "beta");
  run(c, qp, g, xk, 0, o);
}
// inputs listed in known_findings.txt: the step of the classic system is not a
// descent direction of the primal-dual merit function
static void findings(Ctx &c) {
  int k = c.choose(3, "input");
  QP r;
  const int n = k == 1 ? 2 : 1;
  r.Q = qp_hess(n, 0);
  r.q = Vec::Zero(n);
  r.P.M = polymorphic<Manifold>(VSpace(n));
  r.P.cost = quad_cost(r.Q, r.q, 0.5);
  r.P.name = "QP n=" + std::to_string(n);
  Cfg g;
  int xk = 0;
  if (k == 0) {
    qp_block(r.P, n, EQ, 0);
    qp_block(r.P, n, L1, 1);
  } else if (k == 1) {
    qp_block(r.P, n, NEG, 2);
    qp_block(r.P, n, NEG, 1);
    xk = 1;
  } else {
    qp_block(r.P, n, EQ, 0);
    g.beta = 0.75;
  }
  r.P.build();
  Oracle o = active_sets(r.P, r.Q, r.q);
  run(c, r, g, xk, 0, o, k == 0 ? "finding-l1-penalty" : k == 1 ? "finding-classic-two-inequalities" : "finding-classic-beta");
}
int main(int argc, char **argv) {
  mc::Main m("C02");
  m.note = "strictly convex quadratic problems in up to 3 variables: 4 Hessians x 3 linear terms x all lists of up to 2 (3) constraint "
           "blocks from 9 (equality, inequality, box; 1-3 rows) x 3 starting points x 2 starting multipliers x all configurations "
           "within 2 (thorough 3) deviations from the defaults; each real solve is compared with the minimiser found by enumerating "
           "every active set; states are distinct (solution, iteration count) outcomes";
  m.assumptions = {"LICQ holds at the minimiser and the problem is feasible", "L1 penalties excluded (known finding)",
                   "classic KKT system: beta = 1/2 and at most one scalar inequality (known findings)"};
  const bool t = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  m.add("primal-dual", primal_dual, t ? 3 : 2);
  m.add("classic", classic, t ? 3 : 2);
  m.add("blocks3", blocks3);
  m.add("findings", findings);
  return m.run(argc, argv);
}
