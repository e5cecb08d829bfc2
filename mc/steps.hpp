// Observation of single Newton steps inside real solves.
#pragma once
#include "solver.hpp"

namespace pn {
// Forwards to another cost; reports where the derivatives are requested, which
// is once per Newton iteration, at the current iterate.
struct SpyCost : Cost {
  CostP inner;
  std::function<void(const ConstVectorRef &)> at_gradient, at_value;
  explicit SpyCost(CostP c) : Cost(c->nx(), c->ndx()), inner(c) {}
  double call(const ConstVectorRef &x) const override {
    if (at_value)
      at_value(x);
    return inner->call(x);
  }
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override {
    if (at_gradient)
      at_gradient(x);
    inner->computeGradient(x, g);
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override { inner->computeHessian(x, H); }
};
struct FnCallback : helpers::base_callback<double> {
  std::function<void(const WS &, const RS &)> f;
  void call(const WS &w, const RS &r) override { f(w, r); }
};
struct Step {
  Vec x, lam, lame, xprev; // before
  double mu = 0, rho = 0, merit_before = 0;
  int newton = 0; // index of the iteration
  int trials = 0; // points evaluated by the line search
  int inner = 0;  // index of the iteration within its inner loop
};
// the quantities of one iterate, computed from their definitions
struct Local {
  Ev e;
  Vec zc, zp;       // shifted constraints of the two systems
  Vec lplus, lpd;   // first-order and primal-dual multiplier estimates
  Eigen::VectorXi ac, ap; // active components
  double tie;       // distance to the nearest kink of either projection
  Vec pg;           // proximal term
  Mat ph;
  double pv = 0;
};
inline double kink(const Comp &k, double mu, double z) {
  switch (k.k) {
  case EQ: return 1e9;
  case NEG: return std::abs(z);
  case BOX: return std::min(std::abs(z - k.lo), std::abs(z - k.hi));
  case L1: return std::min(std::abs(z - mu), std::abs(z + mu));
  }
  return 0;
}
inline Local local(const Prb &P, const Step &s, double beta) {
  Local l;
  l.e = evaluate(P, s.x, true);
  l.zc = l.e.c + s.mu * s.lame;
  l.zp = l.zc - beta * s.mu * s.lam;
  l.lplus = (l.zc - prox(P, s.mu, l.zc)) / s.mu;
  l.lpd = (l.zp - prox(P, s.mu, l.zp)) / (beta * s.mu);
  l.tie = 1e9;
  l.ac.resize(P.nc());
  l.ap.resize(P.nc());
  for (int i = 0; i < P.nc(); i++) {
    const Comp &k = P.comps[size_t(i)];
    l.ac[i] = active1(k, s.mu, l.zc[i]);
    l.ap[i] = active1(k, s.mu, l.zp[i]);
    l.tie = std::min({l.tie, kink(k, s.mu, l.zc[i]), kink(k, s.mu, l.zp[i])});
  }
  const int n = P.M->ndx();
  l.pg = Vec::Zero(n);
  l.ph = Mat::Zero(n, n);
  if (s.rho > 0) { // rho/2 |x (-) x_prev|^2
    Vec d = P.M->difference(s.xprev, s.x);
    Mat D = Mat::Zero(n, n);
    P.M->Jdifference(s.xprev, s.x, D, 1);
    l.pg = s.rho * D.transpose() * d;
    l.ph = s.rho * D.transpose() * D;
    l.pv = s.rho * d.squaredNorm() / 2;
  }
  return l;
}
inline double full_merit(const Prb &P, const Step &s, const Vec &x, const Vec &lam, double beta) {
  double v = merit(P, evaluate(P, x), lam, s.lame, s.mu, beta);
  if (s.rho > 0)
    v += s.rho * P.M->difference(s.xprev, x).squaredNorm() / 2;
  return v;
}
// Runs one solve of the problem and hands over every Newton step it takes.
using StepFn = std::function<void(const Step &, const WS &, const RS &, Solver &)>;
// The solve may end at an iterate which was evaluated without a step from it.
using EndFn = std::function<void(const Step &, const RS &)>;
inline ConvergenceFlag run_steps(Prb &P, const Cfg &g, const Vec &x0, const Vec &l0, const StepFn &fn, const EndFn &end = nullptr) {
  auto spy = std::make_shared<SpyCost>(P.cost);
  Problem prob(P.M, spy, P.cons);
  auto s = make_solver(prob, g);
  s->setup();
  Step cur;
  bool fresh = false;
  size_t al = size_t(-1);
  spy->at_gradient = [&](const Eigen::Ref<const Vec> &x) {
    const RS &r = *s->results_;
    const WS &w = *s->workspace_;
    cur.x = x;
    cur.lam = r.data_lams_opt;
    cur.lame = w.data_lams_prev;
    cur.xprev = w.x_prev;
    cur.mu = r.mu;
    cur.rho = r.rho;
    cur.newton = int(r.num_iters);
    cur.trials = 0;
    cur.inner = r.al_iters == al ? cur.inner + 1 : 0;
    al = r.al_iters;
    fresh = true;
  };
  spy->at_value = [&](const Eigen::Ref<const Vec> &) { cur.trials++; };
  auto cb = std::make_shared<FnCallback>();
  cb->f = [&](const WS &w, const RS &r) {
    // the call after the loop is not a step
    if (!fresh || r.converged != UNINIT || r.al_iters >= s->max_al_iters)
      return;
    fresh = false;
    fn(cur, w, r, *s);
  };
  s->registerCallback(cb);
  ConvergenceFlag f = s->solve(x0, l0);
  if (end && fresh)
    end(cur, *s->results_);
  return f;
}
// everything a solve reports
struct Outcome {
  ConvergenceFlag f = UNINIT;
  Vec x, lam;
  size_t it = 0, al = 0;
  double merit = 0, value = 0, prim = 0, dual = 0, mu = 0;
};
inline Outcome outcome(const Solver &s, ConvergenceFlag f) {
  const RS &r = *s.results_;
  return {f, r.x_opt, r.data_lams_opt, r.num_iters, r.al_iters, r.merit, r.value, r.prim_infeas, r.dual_infeas, r.mu};
}
inline bool equal(const Outcome &a, const Outcome &b) {
  auto e = [](double p, double q) { return p == q || (p != p && q != q); };
  return a.f == b.f && same(a.x, b.x) && same(a.lam, b.lam) && a.it == b.it && a.al == b.al && e(a.merit, b.merit) && e(a.value, b.value) && e(a.prim, b.prim) && e(a.dual, b.dual) && e(a.mu, b.mu);
}
inline Prb small_problem(mc::Ctx &c, int count) {
  Prb P;
  int k = c.choose(count, "problem");
  const int n = 2;
  P.M = polymorphic<Manifold>(VSpace(n));
  P.cost = quad_cost(qp_hess(n, 2), Vec::LinSpaced(n, -3, 2));
  P.name = "P" + std::to_string(k);
  switch (k) {
  case 0: P.add(qp_rows(n, 0), EQ); P.add(qp_rows(n, 1), NEG); break;
  case 1: { // nonlinear least squares, curved equality
    P.cost = std::make_shared<QRes>(std::make_shared<QuadF>(n, 2, 2), Mat(2. * Mat::Identity(2, 2)), Vec(Vec::LinSpaced(2, 0.25, -1.)), 0.5);
    P.add(nl_rows(n, 0), EQ);
    break;
  }
  case 2: { // nonconvex, box
    Mat Q = Mat::Identity(n, n);
    Q(1, 1) = -0.5;
    P.cost = quad_cost(Q, Vec::LinSpaced(n, -0.5, 0.25));
    P.add(nl_rows(n, 0), BOX, -0.5, 1.);
    break;
  }
  case 3: break; // unconstrained
  case 4: { // circle
    P.M = polymorphic<Manifold>(SO2{});
    Vec t = P.M->integrate(P.M->neutral(), Vec(Vec::Constant(1, 0.9)));
    P.cost = std::make_shared<QDist>(P.M, t);
    P.add(std::make_shared<Wave>(P.M, 0.25), NEG);
    break;
  }
  case 5: P.add(nl_rows(n, 2), L1); break;
  case 6: P.add(qp_rows(n, 0), EQ); P.add(lin_fun(Mat::Ones(1, n), Vec::Constant(1, 1.)), EQ); break; // infeasible
  }
  P.build();
  return P;
}
} // namespace pn
