// C08: every step a solve takes is a Newton step of the documented system and
// decreases the merit function; observed on every iteration of every solve.
#include "steps.hpp"
using namespace pn;
using mc::Ctx;

// the level of regularisation of the previous step of the inner loop; negative:
// not known, because some level was too close to singular to be decided
struct Level {
  double last = 0;
};
// components whose projection is not the identity at the given iterate
static void check_active(Ctx &c, const Prb &P, const Local &l, const RS &r, const std::string &w) {
  int off = 0;
  c.require(r.active_set.size() == P.nrs.size(), "active-set", w + ": number of blocks");
  for (size_t i = 0; i < P.nrs.size(); i++) {
    c.require(r.active_set[i].size() == P.nrs[i], "active-set", w + ": size of block " + str(i));
    for (int j = 0; j < P.nrs[i]; j++, off++)
      c.require(r.active_set[i][j] == bool(l.ac[off]), "active-set", w + ": component " + str(j) + " of block " + str(i) + " is reported " + (r.active_set[i][j] ? "active" : "inactive"));
  }
}
static void check_step(Ctx &c, const Prb &P, const Cfg &g, const Step &s, const WS &w, const RS &r, Solver &sol, const std::string &nm, Level &lev) {
  const int n = P.M->ndx(), m = P.nc();
  auto say = [&](const std::string &t) {
    return nm + " iteration " + str(s.newton) + " at x=" + str(s.x) + " lam=" + str(s.lam) + " lame=" + str(s.lame) + " mu=" + str(s.mu) + ": " + t;
  };
  const Vec dx = w.pd_step.head(n), dl = w.pd_step.tail(m);
  const double a = w.alpha_opt;
  c.require(w.pd_step.allFinite() && std::isfinite(a), "not-finite", say("step"));
  c.require(a > 0 && a <= 1, "step-length", say("alpha " + str(a)));
  // 1. the update
  Vec xn = P.M->integrate(s.x, Vec(a * dx)), ln = s.lam + a * dl;
  c.require(close(r.x_opt, xn, 1e-12, 1e-13), "update", say("x_opt=" + str(r.x_opt) + " expected " + str(xn)));
  c.require(close(r.data_lams_opt, ln, 1e-12, 1e-13), "update", say("lams=" + str(r.data_lams_opt) + " expected " + str(ln)));
  // 2. the linear system
  Local l = local(P, s, g.beta);
  const double sc = 1 + infn(l.e.g) + infn(l.e.J) * (1 + infn(s.lam) + infn(l.lplus) + infn(l.lpd)) + infn(l.e.c);
  const double last = s.inner ? lev.last : 0.; // the search restarts with every subproblem
  lev.last = -1;
  if (l.tie < 1e-9 * sc) {
    c.count("near a kink");
    return;
  }
  check_active(c, P, l, r, say("active set"));
  Mat H;
  switch (g.hess) {
  case HessianApprox::IDENTITY: H = Mat::Identity(n, n); break;
  case HessianApprox::BFGS: H = w.objective_hessian; break;
  default: H = l.e.H;
  }
  if (g.hess == HessianApprox::EXACT) {
    int off = 0;
    for (size_t i = 0; i < P.cons.size(); i++) {
      Mat h = Mat::Zero(n, n);
      P.cons[i].func().vectorHessianProduct(s.x, l.lpd.segment(off, P.nrs[i]), h);
      H += h;
      off += P.nrs[i];
    }
  }
  if (s.rho > 0)
    H += l.ph;
  const bool pd = g.kkt == KKT_PRIMAL_DUAL;
  const Eigen::VectorXi &act = pd ? l.ap : l.ac;
  const Vec &est = pd ? l.lpd : l.lplus;
  Vec D(m); // dual block
  for (int i = 0; i < m; i++)
    D[i] = pd ? g.beta * s.mu * (1 + act[i]) : s.mu;
  const Vec ls = s.lam + dl;
  const double size = 1 + infn(H) * infn(dx) + infn(l.e.J) * (infn(ls) + infn(dx) + 1e-5 * (infn(s.lam) + infn(dl))) + infn(l.e.g) + infn(l.pg);
  for (int i = 0; i < m; i++) {
    double row = (act[i] ? l.e.J.row(i).dot(dx) : 0.) - D[i] * dl[i];
    double rhs = -(pd ? g.beta : 1.) * s.mu * (est[i] - s.lam[i]);
    c.require(std::abs(row - rhs) <= 1e-8 * size, "dual-row", say("row " + str(i) + " of the step equations: " + str(row) + " expected " + str(rhs) + " step " + str(w.pd_step)));
  }
  Vec res = H * dx + l.e.J.transpose() * ls + l.e.g + l.pg;
  const double d2 = dx.squaredNorm();
  double delta = d2 > 0 ? -res.dot(dx) / d2 : 0;
  const double tol = 1e-8 * size;
  c.require(infn(res + delta * dx) <= tol, "primal-rows", say("(H+dI)dx+J'(lam+dlam)+grad=" + str(res + delta * dx) + " step " + str(w.pd_step)));
  // 3. the regularisation: none where the reduced Hessian is positive definite,
  // enough of it elsewhere
  Mat R = H;
  for (int i = 0; i < m; i++)
    if (act[i])
      R += l.e.J.row(i).transpose() * l.e.J.row(i) / D[i];
  R = (0.5 * (R + R.transpose())).eval();
  const double ev = n ? Eigen::SelfAdjointEigenSolver<Mat>(R).eigenvalues().minCoeff() : 1;
  const double big = 1 + infn(R);
  const double dtol = d2 > 0 ? std::max(tol / std::sqrt(d2), 1e-10) : INF;
  if (dtol < 1e-6) {
    c.require(delta >= -dtol, "negative-regularisation", say("delta " + str(delta)));
    // factorisations without 2x2 pivots may also give up on an indefinite H
    const double eh = n ? Eigen::SelfAdjointEigenSolver<Mat>(0.5 * (H + H.transpose())).eigenvalues().minCoeff() : 1;
    if (ev > 1e-9 * big && (g.ldlt == LDLTChoice::BUNCHKAUFMAN || eh > 1e-9 * big)) {
      c.require(std::abs(delta - sol.DELTA_INIT) <= dtol, "needless-regularisation", say("delta " + str(delta) + " although the smallest eigenvalue is " + str(ev)));
      c.count("regular");
    } else if (ev < -1e-9 * big) {
      c.require(delta >= sol.DELTA_MAX || ev + delta > -1e-9 * big - dtol, "missing-regularisation", say("delta " + str(delta) + " smallest eigenvalue " + str(ev)));
      c.count("regularised");
    }
  }
  if (g.ldlt == LDLTChoice::BUNCHKAUFMAN && last >= 0) {
    // the schedule: zero, then the first level (or a third of the last one),
    // then times 100 (8) until the reduced Hessian is positive definite
    double d = sol.DELTA_INIT, used = d;
    bool known = true;
    for (;;) {
      used = d;
      if (std::abs(ev + d) <= 1e-9 * (big + d)) {
        known = false;
        break;
      }
      if (ev + d > 0)
        break;
      if (d == 0)
        d = last == 0 ? sol.DELTA_NONZERO_INIT : std::max(sol.DELTA_MIN, sol.del_dec_k * last);
      else
        d *= last == 0 ? sol.del_inc_big : sol.del_inc_k;
      if (d > sol.DELTA_MAX) {
        known = false;
        break;
      }
    }
    if (known) {
      lev.last = used;
      if (dtol < 1e-3 * (1 + used))
        c.require(std::abs(delta - used) <= dtol + 1e-6 * used, "regularisation-level", say("delta " + str(delta) + " expected " + str(used) + " after " + str(last) + ", smallest eigenvalue " + str(ev)));
      c.count(used == 0 ? "level zero" : last == 0 ? "first level" : "level after another");
    }
  }
  // 4. the merit function decreases enough
  const double m0 = full_merit(P, s, s.x, s.lam, g.beta), m1 = full_merit(P, s, r.x_opt, r.data_lams_opt, g.beta);
  Vec gx = l.e.g + l.e.J.transpose() * l.lpd + l.pg, gl = g.beta * s.mu * (s.lam - l.lpd);
  const double dm = gx.dot(dx) + gl.dot(dl);
  const double noise = 1e-10 * (1 + std::abs(m0) + std::abs(m1)) + 1e-12 * sc * sc / s.mu;
  const auto &o = sol.ls_options;
  const bool floor = a <= o.alpha_min * (1 + 1e-9) || s.trials >= int(o.max_num_steps);
  if (std::abs(dm) < o.dphi_thresh * 1.01 + 1e-14)
    c.count("stationary direction");
  else if (floor)
    c.count(dm < 0 ? "smallest step" : "smallest step, ascent direction");
  else {
    c.require(m1 - m0 <= o.armijo_c1 * a * dm + noise, "no-decrease", say("merit " + str(m0) + " -> " + str(m1) + " alpha " + str(a) + " slope " + str(dm)));
    c.count("decrease");
  }
  // with the primal-dual system the direction is one of descent
  if (pd && delta < sol.DELTA_MAX && g.hess != HessianApprox::EXACT && ev > 1e-9 * big) {
    bool l1 = false;
    for (auto &k : P.comps)
      l1 = l1 || k.k == L1;
    if (!l1)
      c.require(dm <= noise, "ascent", say("slope " + str(dm) + " of the primal-dual direction"));
  }
}
static void run(Ctx &c, Prb &P, const Cfg &g, int xk, int lk) {
  if (g.hess == HessianApprox::BFGS && P.M->nx() != P.M->ndx())
    c.prune();
  Vec x0 = start_point(P, xk), l0 = pick_l0(P.nc(), lk);
  const std::string w = P.name + " " + g.name() + " start " + str(x0) + " " + str(l0);
  int steps = 0;
  Level lev;
  ConvergenceFlag f = UNINIT;
  try {
    f = run_steps(P, g, x0, l0, [&](const Step &s, const WS &ws, const RS &r, Solver &sol) {
      steps++;
      c.step(1);
      check_step(c, P, g, s, ws, r, sol, w, lev);
      c.obs(hashm(r.x_opt, hashm(r.data_lams_opt, hashm(ws.pd_step))));
    }, [&](const Step &s, const RS &r) {
      Local l = local(P, s, g.beta);
      if (l.tie >= 1e-9 * (1 + infn(l.e.g) + infn(l.e.J) * (1 + infn(s.lam) + infn(l.lplus) + infn(l.lpd)) + infn(l.e.c)))
        check_active(c, P, l, r, w + ": active set of the returned point");
    });
  } catch (const std::runtime_error &) {
    c.count("exception");
  }
}
static void gallery(Ctx &c) {
  Prb P = pick_prb(c, N_FAMILIES, c.thorough ? 2 : 1);
  c.shard();
  int xk = c.choose(3, "x0"), lk = P.nc() ? c.choose(3, "l0") : 0;
  Cfg g = pick_cfg(c);
  g.max_iters = c.thorough ? 15 : 5;
  run(c, P, g, xk, lk);
}
static void pairs(Ctx &c) {
  Prb P = pick_prb(c, N_FAMILIES, 2);
  if (P.nrs.size() < 2)
    c.prune();
  c.shard();
  int xk = c.choose(3, "x0"), lk = c.choose(2, "l0");
  Cfg g = pick_cfg(c);
  g.max_iters = c.thorough ? 15 : 5;
  run(c, P, g, xk, lk);
}
// nearly flat concave objectives: the inertia correction descends to its
// smallest levels, stays there, and climbs again where the curvature changes
struct Flat : Cost {
  double a, b;
  Flat(int n, double a, double b) : Cost(n, n), a(a), b(b) {}
  double call(const ConstVectorRef &x) const override { return -a * x.squaredNorm() / 2 + b * x.array().pow(4).sum() / 12 + 0.1 * a * x.sum(); }
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override { g = -a * x.array() + b * x.array().cube() / 3 + 0.1 * a; }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override {
    H.setZero();
    H.diagonal() = -a + b * x.array().square();
  }
};
static void levels(Ctx &c) {
  double a = c.pick<double>({1e-3, 3e-5, 1e-6, 1e-9, 1., 50.}, "curvature"), b = c.pick<double>({0., 1e-3, 1.}, "quartic");
  int n = c.range(1, 2, "n");
  Prb P;
  P.M = polymorphic<Manifold>(VSpace(n));
  P.cost = std::make_shared<Flat>(n, a, b * a);
  P.name = "flat -" + str(a) + "x^2/2+" + str(a * b) + "x^4/12 n=" + str(n);
  if (c.flip("constraint"))
    P.add(lin_fun(Mat::Ones(1, n), Vec::Constant(1, -0.5)), EQ);
  P.build();
  c.shard();
  Cfg g;
  g.kkt = c.flip("pd") ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
  g.hess = HessianApprox::EXACT;
  g.max_iters = c.thorough ? 15 : 8;
  double dmin = c.pick<double>({1e-14, 1e-3, 1e-6}, "DELTA_MIN"), first = c.pick<double>({1e-4, 1e-8, 1.}, "DELTA_NONZERO_INIT"),
         init = c.pick<double>({0., 1e-5}, "DELTA_INIT");
  int fac = c.choose(2, "factors");
  g.tune = [=](Solver &s) {
    s.DELTA_MIN = dmin;
    s.DELTA_NONZERO_INIT = first;
    s.DELTA_INIT = init;
    if (fac) {
      s.del_inc_k = 3;
      s.del_inc_big = 17;
      s.del_dec_k = 0.5;
    }
  };
  g.extra = " levels " + str(dmin) + " " + str(first) + " " + str(init) + " factors " + str(fac);
  run(c, P, g, c.choose(3, "x0"), 0);
}
int main(int argc, char **argv) {
  mc::Main m("C08");
  m.note = "the solver gallery (7 problem families, lists of up to 2 constraint blocks, 3 starts, starting multipliers) x configurations "
           "within 2 deviations, first 5 (thorough 15) Newton iterations of each solve: every iteration is checked against the step "
           "equations assembled from the definitions; states are distinct (iterate, step) pairs";
  m.assumptions = {"linear systems solved to 1e-8 relative accuracy", "points within 1e-9 of a kink of a projection are skipped"};
  const bool t = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  m.add("levels", levels);
  m.add("gallery", gallery, 2);
  m.add("pairs", pairs, t ? 2 : 1);
  return m.run(argc, argv);
}
