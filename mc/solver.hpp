// Problems, solver configurations and reference computations for the harnesses
// of the whole solver.
#pragma once
#include "functions.hpp"
#include "proxsuite-nlp/helpers/history-callback.hpp"
#include "proxsuite-nlp/prox-solver.hpp"

namespace pn {
using Problem = ProblemTpl<double>;
using CObj = ConstraintObjectTpl<double>;
using Solver = ProxNLPSolverTpl<double>;
using WS = WorkspaceTpl<double>;
using RS = ResultsTpl<double>;
using VRef = Eigen::Ref<Vec>;

// ---- problems ------------------------------------------------------------
struct Prb {
  polymorphic<Manifold> M{VSpace(1)};
  CostP cost;
  std::vector<CObj> cons;
  std::vector<Comp> comps; // every scalar constraint component, stacked
  std::vector<int> nrs;
  std::string name;
  std::unique_ptr<Problem> p;
  int nc() const { return int(comps.size()); }
  void add(std::shared_ptr<C2F> f, const polymorphic<CSet> &s, const std::vector<Comp> &cs) {
    cons.emplace_back(f, s);
    nrs.push_back(int(cs.size()));
    comps.insert(comps.end(), cs.begin(), cs.end());
  }
  void add(std::shared_ptr<C2F> f, SetKind k, double lo = 0, double hi = 0) {
    const int nr = f->nr();
    std::vector<Comp> cs(size_t(nr), Comp{k, lo, hi});
    switch (k) {
    case EQ: add(f, polymorphic<CSet>(EqSet{}), cs); break;
    case NEG: add(f, polymorphic<CSet>(NegSet{}), cs); break;
    case BOX: add(f, polymorphic<CSet>(BoxSet(Vec::Constant(nr, lo), Vec::Constant(nr, hi))), cs); break;
    case L1: add(f, polymorphic<CSet>(L1Set{}), cs); break;
    }
    name += std::string(k == EQ ? " eq" : k == NEG ? " neg" : k == BOX ? " box" : " l1") + std::to_string(nr);
  }
  Problem &build() {
    p = std::make_unique<Problem>(M, cost, cons);
    return *p;
  }
};
// 1/2 x'Qx + q'x
inline CostP quad_cost(const Mat &Q, const Vec &q, double k = 0) {
  auto f = std::make_shared<QuadF>(int(Q.rows()), 1, 0);
  f->A[0] = Q;
  f->b[0] = q;
  f->c[0] = k;
  return downcast_function_to_cost<double>(C2P(f));
}
inline std::shared_ptr<C2F> lin_fun(const Mat &A, const Vec &b) { return std::make_shared<LinF>(A, b); }
inline std::shared_ptr<QuadF> quad_fun(const Mat &A, const Vec &b, double k) { // one row
  auto f = std::make_shared<QuadF>(int(A.rows()), 1, 0);
  f->A[0] = A;
  f->b[0] = b;
  f->c[0] = k;
  return f;
}

// ---- configurations: deviations from the defaults, bounded by the scenario --
struct Cfg {
  LDLTChoice ldlt = LDLTChoice::BUNCHKAUFMAN;
  KktSystem kkt = KKT_CLASSIC;
  MultiplierUpdateMode mode = MultiplierUpdateMode::NEWTON;
  HessianApprox hess = HessianApprox::GAUSS_NEWTON;
  LSInterpolation interp = LSInterpolation::CUBIC;
  double rho = 0, mu = 1e-2, beta = 0.5, tol = 1e-6;
  size_t max_iters = 100, max_al = 1000;
  std::function<void(Solver &)> tune; // last word on the solver
  std::string extra;                  // what it does
  std::string name() const {
    std::ostringstream o;
    o << "{ldlt " << int(ldlt) << " kkt " << int(kkt) << " mode " << int(mode) << " hess " << int(hess) << " interp " << int(interp)
      << " rho " << rho << " mu " << mu << " beta " << beta << " tol " << tol << " iters " << max_iters << "/" << max_al << extra << "}";
    return o.str();
  }
};
// kkt < 0: the choice of the KKT system is one of the deviations
inline Cfg pick_cfg(mc::Ctx &c, bool hess_all = true, bool limits = false, bool betas = true, int kkt = -1, double tight = 1e-8) {
  Cfg g;
  auto e = [&](auto &&vals, auto &dst, const char *l) {
    int k = c.env(int(vals.size()), l);
    dst = vals[size_t(k)];
  };
  e(std::vector<LDLTChoice>{LDLTChoice::BUNCHKAUFMAN, LDLTChoice::DENSE, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN}, g.ldlt, "ldlt");
  if (kkt < 0)
    e(std::vector<KktSystem>{KKT_CLASSIC, KKT_PRIMAL_DUAL}, g.kkt, "kkt");
  else
    g.kkt = KktSystem(kkt);
  e(std::vector<MultiplierUpdateMode>{MultiplierUpdateMode::NEWTON, MultiplierUpdateMode::PRIMAL, MultiplierUpdateMode::PRIMAL_DUAL}, g.mode, "mode");
  if (hess_all)
    e(std::vector<HessianApprox>{HessianApprox::GAUSS_NEWTON, HessianApprox::EXACT, HessianApprox::BFGS, HessianApprox::IDENTITY}, g.hess, "hess");
  else
    e(std::vector<HessianApprox>{HessianApprox::GAUSS_NEWTON, HessianApprox::EXACT}, g.hess, "hess");
  e(std::vector<LSInterpolation>{LSInterpolation::CUBIC, LSInterpolation::QUADRATIC, LSInterpolation::BISECTION}, g.interp, "interp");
  e(std::vector<double>{0, 1e-3, 0.5}, g.rho, "rho");
  e(std::vector<double>{1e-2, 0.3, 1e-4}, g.mu, "mu");
  if (betas)
    e(std::vector<double>{0.5, 1., 0.25, 0.75}, g.beta, "beta");
  e(std::vector<double>{1e-6, 1e-3, tight}, g.tol, "tol");
  if (limits) {
    e(std::vector<size_t>{30, 1, 2, 4}, g.max_iters, "max_iters");
    e(std::vector<size_t>{1000, 1, 2}, g.max_al, "max_al");
  }
  return g;
}
inline std::unique_ptr<Solver> make_solver(Problem &p, const Cfg &g) {
  Linesearch<double>::Options ls;
  ls.interp_type = g.interp;
  auto s = std::make_unique<Solver>(p, g.tol, g.mu, g.rho, QUIET, 1e-9, 0.1, 0.9, 1., 1., g.ldlt, ls);
  s->kkt_system_ = g.kkt;
  s->mul_update_mode = g.mode;
  s->hess_approx = g.hess;
  s->max_iters = g.max_iters;
  s->max_al_iters = g.max_al;
  s->setDualPenalty(g.beta);
  if (g.tune)
    g.tune(*s);
  return s;
}

// ---- reference evaluation -------------------------------------------------
struct Ev {
  double f = 0;
  Vec g, c;
  Mat H, J;
};
inline Ev evaluate(const Prb &P, const Vec &x, bool hess = false) {
  Ev e;
  const int n = P.M->ndx();
  e.f = P.cost->call(x);
  e.g = Vec::Zero(n);
  P.cost->computeGradient(x, e.g);
  e.c.resize(P.nc());
  e.J = Mat::Zero(P.nc(), n);
  int off = 0;
  for (size_t i = 0; i < P.cons.size(); i++) {
    e.c.segment(off, P.nrs[i]) = P.cons[i].func()(x);
    Mat J = Mat::Zero(P.nrs[i], n);
    P.cons[i].func().computeJacobian(x, J);
    e.J.middleRows(off, P.nrs[i]) = J;
    off += P.nrs[i];
  }
  if (hess) {
    e.H = Mat::Zero(n, n);
    P.cost->computeHessian(x, e.H);
  }
  return e;
}
inline Vec prox(const Prb &P, double mu, const Vec &z) {
  Vec r(z.size());
  for (long i = 0; i < z.size(); i++)
    r[i] = prox1(P.comps[size_t(i)], mu, z[i]);
  return r;
}
inline double gvalue(const Prb &P, const Vec &p) {
  double r = 0;
  for (long i = 0; i < p.size(); i++)
    r += value1(P.comps[size_t(i)], p[i]);
  return r;
}
// the documented primal-dual merit function
inline double merit(const Prb &P, const Ev &e, const Vec &lam, const Vec &lame, double mu, double beta) {
  Vec z = e.c + mu * lame - beta * mu * lam, p = prox(P, mu, z);
  double env = gvalue(P, p) + (z - p).squaredNorm() / (2 * mu);
  return e.f + env / beta + beta * mu * lam.squaredNorm() / 2;
}
struct Cert {
  double value, prim, dual;
  Vec viol;
};
inline Cert certify(const Prb &P, const Vec &x, const Vec &lam, double mu) {
  Ev e = evaluate(P, x);
  Cert r;
  r.value = e.f;
  r.dual = infn(e.g + e.J.transpose() * lam);
  Vec d = e.c - prox(P, mu, e.c + mu * lam);
  r.viol = Vec::Zero(long(P.nrs.size()));
  int off = 0;
  for (size_t i = 0; i < P.nrs.size(); i++) {
    r.viol[long(i)] = infn(d.segment(off, P.nrs[i]));
    off += P.nrs[i];
  }
  r.prim = infn(r.viol);
  return r;
}
// minimiser of a strictly convex QP by enumeration of active sets
struct Oracle {
  bool found = false, licq = false, strict = true;
  Vec x, lam;
};
inline Oracle active_sets(const Prb &P, const Mat &Q, const Vec &q) {
  // c(x) = J x + c0 (affine)
  const int n = int(Q.rows()), m = P.nc();
  Ev e0 = evaluate(P, Vec::Zero(n));
  Oracle best;
  std::vector<int> st(size_t(m), 0), cnt(size_t(m), 0);
  for (int i = 0; i < m; i++)
    cnt[size_t(i)] = P.comps[size_t(i)].k == EQ ? 1 : P.comps[size_t(i)].k == NEG ? 2 : 3;
  for (;;) {
    // fixed multipliers (and linear term) or active rows
    std::vector<int> act;
    Vec rhs = -q;
    Vec lam = Vec::Zero(m), target = Vec::Zero(m);
    for (int i = 0; i < m; i++) {
      const Comp &k = P.comps[size_t(i)];
      int s = st[size_t(i)];
      if (k.k == EQ)
        act.push_back(i);
      else if (k.k == NEG) {
        if (s == 1)
          act.push_back(i);
      } else if (k.k == BOX) {
        if (s) {
          act.push_back(i);
          target[i] = s == 1 ? k.lo : k.hi;
        }
      } else if (s == 0)
        act.push_back(i);
      else
        lam[i] = s == 1 ? 1 : -1;
    }
    const int a = int(act.size());
    Mat K = Mat::Zero(n + a, n + a);
    Vec b(n + a);
    K.topLeftCorner(n, n) = Q;
    b.head(n) = rhs - e0.J.transpose() * lam;
    for (int i = 0; i < a; i++) {
      K.block(n + i, 0, 1, n) = e0.J.row(act[size_t(i)]);
      K.block(0, n + i, n, 1) = e0.J.row(act[size_t(i)]).transpose();
      b[n + i] = target[act[size_t(i)]] - e0.c[act[size_t(i)]];
    }
    Eigen::FullPivLU<Mat> lu(K);
    Vec sol = lu.solve(b);
    if ((K * sol - b).cwiseAbs().maxCoeff() < 1e-9) {
      Vec x = sol.head(n);
      for (int i = 0; i < a; i++)
        lam[act[size_t(i)]] = sol[n + i];
      Vec cv = e0.J * x + e0.c;
      bool ok = true;
      double margin = 1;
      for (int i = 0; i < m && ok; i++) {
        const Comp &k = P.comps[size_t(i)];
        int s = st[size_t(i)];
        double t = 1e-10;
        auto need = [&](double slack) {
          ok = ok && slack >= -t;
          margin = std::min(margin, slack);
        };
        if (k.k == NEG)
          s ? need(lam[i]) : need(-cv[i]);
        else if (k.k == BOX) {
          if (s == 0)
            need(cv[i] - k.lo), need(k.hi - cv[i]);
          else
            need(s == 1 ? -lam[i] : lam[i]);
        } else if (k.k == L1)
          s == 0 ? need(1 - std::abs(lam[i])) : need(s == 1 ? cv[i] : -cv[i]);
      }
      if (ok && !best.found) {
        best.found = true;
        best.x = x;
        best.lam = lam;
        best.strict = margin > 1e-6;
        // every row which is active at the minimiser counts, also with a zero multiplier
        Mat A = Mat::Zero(m, n);
        int ra = 0;
        for (int i = 0; i < m; i++) {
          const Comp &k = P.comps[size_t(i)];
          auto at = [&](double v) { return std::abs(cv[i] - v) < 1e-9; };
          if (k.k == EQ || ((k.k == NEG || k.k == L1) && at(0)) || (k.k == BOX && (at(k.lo) || at(k.hi))))
            A.row(ra++) = e0.J.row(i);
        }
        best.licq = ra == 0 || Eigen::FullPivLU<Mat>(A.topRows(ra)).rank() == ra;
      }
    }
    int i = 0;
    while (i < m && ++st[size_t(i)] >= cnt[size_t(i)])
      st[size_t(i++)] = 0;
    if (i == m)
      break;
  }
  return best;
}
inline std::vector<VRef> blocks(const Prb &P, Vec &lam) {
  std::vector<VRef> r;
  int off = 0;
  for (int k : P.nrs) {
    r.emplace_back(lam.segment(off, k));
    off += k;
  }
  return r;
}
} // namespace pn
namespace pn {
// ---- a grid of quadratic programs ----------------------------------------
struct QP {
  Prb P;
  Mat Q;
  Vec q;
};
inline Mat qp_hess(int n, int k) {
  Mat Q = Mat::Identity(n, n);
  if (k == 1)
    for (int i = 0; i < n; i++)
      Q(i, i) = 1 + 9. * (n == 1 ? 1 : i) / std::max(1, n - 1);
  if (k == 2) {
    Q = Mat::Constant(n, n, 1.);
    Q.diagonal().array() += 1.;
  }
  if (k == 3) { // ill-scaled
    Q *= 0.05;
    Q(0, 0) = 20;
  }
  return Q;
}
inline std::shared_ptr<C2F> qp_rows(int n, int k) {
  Mat A;
  Vec b;
  if (k == 0) {
    A = Mat::Ones(1, n);
    b = Vec::Constant(1, -1.);
  } else if (k == 1) {
    A = Mat::Ones(1, n);
    A(0, n - 1) = -2;
    b = Vec::Constant(1, 0.5);
  } else {
    A = Mat::Identity(n, n);
    b = Vec::LinSpaced(n, 0, -0.5);
    if (n == 1)
      b[0] = 0.25;
  }
  return lin_fun(A, b);
}
inline void qp_block(Prb &P, int n, int kind, int rows) {
  P.add(qp_rows(n, rows), SetKind(kind), -0.5, 1.);
  P.name += "r" + std::to_string(rows);
}
inline QP pick_qp(mc::Ctx &c, int nmax, int maxblocks, int nQ = 3, int nq = 3, int nkinds = 3) {
  QP r;
  const int n = c.range(1, nmax, "n");
  const int hk = c.choose(nQ, "Q");
  const int qk = c.choose(nq, "q");
  r.Q = qp_hess(n, hk);
  r.q = qk == 0 ? Vec(Vec::Zero(n)) : qk == 1 ? Vec(Vec::LinSpaced(n, -3, 2)) : Vec(Vec::LinSpaced(n, 1.5, 4));
  r.P.M = polymorphic<Manifold>(VSpace(n));
  r.P.cost = quad_cost(r.Q, r.q, 0.5);
  r.P.name = "QP n=" + std::to_string(n) + " Q" + std::to_string(hk) + " q" + std::to_string(qk);
  const int nb = c.range(0, maxblocks, "blocks");
  for (int b = 0; b < nb; b++) {
    int k = c.choose(3 * nkinds, "block"); // kinds in the order EQ NEG BOX L1
    qp_block(r.P, n, k % nkinds, k / nkinds);
  }
  r.P.build();
  return r;
}
inline Vec pick_x0(mc::Ctx &c, int n, int k) { // a few starting points
  (void)c;
  Vec x(n);
  for (int i = 0; i < n; i++)
    x[i] = k == 0 ? 0. : k == 1 ? 3. - 2 * i : -20. * (i + 1);
  return x;
}
inline Vec pick_l0(int m, int k) {
  Vec l(m);
  for (int i = 0; i < m; i++)
    l[i] = k == 0 ? 0. : k == 1 ? 1. + i : -5. + 3 * i;
  return l;
}

// ---- nonlinear, nonconvex, infeasible and curved problems -----------------
// rows of a constraint on a vector space of dimension n
inline std::shared_ptr<C2F> nl_rows(int n, int k) {
  if (k == 0) // sphere |x|^2/2 - 1/2
    return quad_fun(Mat::Identity(n, n), Vec::Zero(n), -0.5);
  if (k == 1) // saddle
  {
    Mat A = Mat::Identity(n, n);
    A(n - 1, n - 1) = -2;
    return quad_fun(A, Vec::Constant(n, 0.5), 0.25);
  }
  return std::make_shared<QuadF>(n, 2, 1);
}
// distance-like residual and a nonlinear scalar function on any manifold
struct Wave : C2F { // sum of sin of the tangent coordinates about the neutral element
  polymorphic<Manifold> M;
  double shift;
  Wave(const polymorphic<Manifold> &m, double s) : C2F(m->nx(), m->ndx(), 1), M(m), shift(s) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    Vec d = M->difference(M->neutral(), x);
    return Vec::Constant(1, d.array().sin().sum() - shift);
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    Vec d = M->difference(M->neutral(), x);
    Mat D(M->ndx(), M->ndx());
    D.setZero();
    M->Jdifference(M->neutral(), x, D, 1);
    J = d.array().cos().matrix().transpose() * D;
  }
};
enum Family { F_QP, F_NONCONVEX, F_LEASTSQ, F_SO2, F_SO3, F_PRODSET, F_INFEASIBLE, N_FAMILIES };
inline SetKind kind4(int k) { return SetKind(k); }
inline Prb pick_prb(mc::Ctx &c, int families = N_FAMILIES, int maxblocks = 2) {
  Prb P;
  const int fam = c.choose(families, "family");
  auto block = [&](int n) { // one of 12
    int k = c.choose(12, "block");
    P.add(k / 4 == 2 ? qp_rows(n, 1) : nl_rows(n, k / 4), kind4(k % 4), -0.5, 1.);
  };
  switch (fam) {
  case F_QP: {
    QP q = pick_qp(c, 2, maxblocks, 2, 2, 4);
    return std::move(q.P);
  }
  case F_NONCONVEX: { // indefinite quadratic cost
    const int n = c.range(1, 2, "n");
    Mat Q = Mat::Identity(n, n);
    Q(n - 1, n - 1) = -0.5;
    if (n > 1)
      Q(0, 1) = Q(1, 0) = 0.75;
    P.M = polymorphic<Manifold>(VSpace(n));
    P.cost = quad_cost(Q, Vec::LinSpaced(n, -0.5, 0.25));
    P.name = "nonconvex n=" + std::to_string(n);
    const int nb = c.range(0, maxblocks, "blocks");
    for (int i = 0; i < nb; i++)
      block(n);
    break;
  }
  case F_LEASTSQ: {
    const int n = c.range(1, 2, "n"), gn = c.choose(2, "gauss-newton");
    P.M = polymorphic<Manifold>(VSpace(n));
    auto q = std::make_shared<QRes>(std::make_shared<QuadF>(n, 2, 2), Mat(2. * Mat::Identity(2, 2)), Vec(Vec::LinSpaced(2, 0.25, -1.)), 0.5);
    q->gauss_newton_ = gn;
    P.cost = q;
    P.name = "least squares n=" + std::to_string(n);
    const int nb = c.range(0, maxblocks, "blocks");
    for (int i = 0; i < nb; i++)
      block(n);
    break;
  }
  case F_SO2:
  case F_SO3: {
    if (fam == F_SO2)
      P.M = polymorphic<Manifold>(SO2{});
    else {
      Prod pr;
      pr.addComponent(SO3{});
      pr.addComponent(VSpace(1));
      P.M = polymorphic<Manifold>(pr);
    }
    const int nd = P.M->ndx();
    Vec t = P.M->integrate(P.M->neutral(), Vec(Vec::LinSpaced(nd, 0.9, 0.2)));
    Mat W = Mat::Identity(nd, nd);
    W(0, 0) = 3;
    P.cost = std::make_shared<QDist>(P.M, t, W);
    P.name = fam == F_SO2 ? "SO2" : "SO3xR";
    const int nb = c.range(0, std::min(2, maxblocks), "blocks");
    for (int i = 0; i < nb; i++) {
      int k = c.choose(8, "block");
      if (k < 4)
        P.add(std::make_shared<Wave>(P.M, 0.25), kind4(k), -0.5, 0.1);
      else
        P.add(std::make_shared<DiffF>(P.M, P.M->integrate(P.M->neutral(), Vec(Vec::Constant(nd, -0.3)))), kind4(k - 4), -0.5, 0.4);
    }
    break;
  }
  case F_PRODSET: {
    const int n = 2;
    P.M = polymorphic<Manifold>(VSpace(n));
    P.cost = quad_cost(qp_hess(n, 2), Vec::LinSpaced(n, -3, 2));
    P.name = "product set";
    auto f = std::make_shared<QuadF>(n, 3, 1);
    for (int k = 0; k < 3; k++)
      f->A[size_t(k)] *= c.choose(2, "curved") ? 0.5 : 0.;
    int k1 = c.choose(4, "first"), k2 = c.choose(4, "second");
    auto mk = [](int k, int d) -> polymorphic<CSet> {
      switch (k) {
      case EQ: return polymorphic<CSet>(EqSet{});
      case NEG: return polymorphic<CSet>(NegSet{});
      case BOX: return polymorphic<CSet>(BoxSet(Vec::Constant(d, -0.5), Vec::Constant(d, 1.)));
      }
      return polymorphic<CSet>(L1Set{});
    };
    ProdSet S(std::vector<polymorphic<CSet>>{mk(k1, 1), mk(k2, 2)}, std::vector<Eigen::Index>{1, 2});
    Comp a{kind4(k1), -0.5, 1.}, b{kind4(k2), -0.5, 1.};
    P.add(f, polymorphic<CSet>(S), std::vector<Comp>{a, b, b});
    if (c.flip("extra"))
      P.add(qp_rows(n, 0), NEG);
    break;
  }
  case F_INFEASIBLE: {
    const int n = c.range(1, 2, "n");
    P.M = polymorphic<Manifold>(VSpace(n));
    P.cost = quad_cost(qp_hess(n, 0), Vec::LinSpaced(n, -3, 2));
    P.name = "infeasible n=" + std::to_string(n);
    const int k = c.choose(4, "how");
    Mat A = Mat::Ones(1, n);
    if (k == 0)
      P.add(lin_fun(A, Vec::Constant(1, 0.)), EQ), P.add(lin_fun(A, Vec::Constant(1, -1.)), EQ);
    else if (k == 1)
      P.add(lin_fun(A, Vec::Constant(1, 1.)), NEG), P.add(lin_fun(-A, Vec::Constant(1, 1.)), NEG);
    else if (k == 2)
      P.add(quad_fun(Mat::Identity(n, n), Vec::Zero(n), 1.), EQ);
    else
      P.add(quad_fun(Mat::Identity(n, n), Vec::Zero(n), 2.), BOX, -0.5, 1.);
    break;
  }
  }
  P.build();
  return P;
}
inline Vec start_point(const Prb &P, int k) {
  const int nd = P.M->ndx();
  Vec v(nd);
  const bool flat = P.M->nx() == nd;
  for (int i = 0; i < nd; i++)
    v[i] = k == 0 ? (flat ? 0. : 0.1) : k == 1 ? (flat ? 3. - 2 * i : 1. - 0.4 * i) : flat ? -20. * (i + 1) : -2. + 0.7 * i;
  return P.M->integrate(P.M->neutral(), v);
}
} // namespace pn
