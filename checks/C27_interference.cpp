// MC-FLAGS: -O1 -fsanitize-coverage=trace-pc -pthread
// C27: operations and solves that have no object in common but constants do
// not interfere, however their threads are scheduled or their calls nested.
// The scheduler is driven by the basic blocks of the real code: one thread is
// stopped at a chosen block, another one runs, the first goes on.
#include "solver.hpp"
#include "proxsuite-nlp/bfgs-strategy.hpp"
#include "proxsuite-nlp/ldlt-allocator.hpp"
#include "proxsuite-nlp/linesearch-armijo.hpp"
#include "proxsuite-nlp/modelling/autodiff/finite-difference.hpp"
#include <semaphore.h>
#include <thread>
using namespace pn;
using mc::Ctx;
#define PLAIN __attribute__((no_sanitize_coverage))

// ---- the scheduler -------------------------------------------------------
namespace sched {
struct Side {
  bool on = false;      // inside a task
  bool record = false;  // remember where the points are
  uint64_t n = 0;       // blocks so far
  uint64_t target = ~0ull;
  std::vector<uint64_t> *points = nullptr; // first two visits of each block
  std::unordered_map<void *, int> *seen = nullptr;
  void (*yield)() = nullptr;
  bool yielded = false;
};
thread_local Side *self = nullptr;
PLAIN static void hit(Side *s, void *pc) {
  if (s->record) {
    if (++(*s->seen)[pc] <= 2)
      s->points->push_back(s->n);
  } else if (s->n == s->target) {
    s->yielded = true;
    s->yield();
  }
  s->n++;
}
} // namespace sched
extern "C" PLAIN void __sanitizer_cov_trace_pc() {
  sched::Side *s = sched::self;
  if (!s || !s->on)
    return;
  s->on = false; // nothing of the scheduler is a point
  sched::hit(s, __builtin_return_address(0));
  s->on = true;
}

// ---- tasks ---------------------------------------------------------------
struct Out {
  std::vector<double> v;
  std::string text;
  void operator()(double d) { v.push_back(d); }
  void operator()(const Eigen::Ref<const Mat> &m) {
    v.push_back(double(m.rows()));
    for (long j = 0; j < m.cols(); j++)
      for (long i = 0; i < m.rows(); i++)
        v.push_back(m(i, j));
  }
  bool operator==(const Out &o) const { // bit by bit
    return v.size() == o.v.size() && text == o.text && (v.empty() || memcmp(v.data(), o.v.data(), v.size() * sizeof(double)) == 0);
  }
};
struct Task {
  std::function<void(Out &)> run;
  Out out;
  sched::Side side;
  void go() {
    sched::self = &side;
    side.on = true;
    try {
      run(out);
    } catch (const std::exception &e) {
      side.on = false;
      out.text += std::string("exception ") + e.what();
    }
    side.on = false;
    sched::self = nullptr;
  }
};
// constants that two threads may share
struct Shared {
  polymorphic<Manifold> flat{VSpace(3)}, curved{SO3{}}, prod{VSpace(1)}, bundle{TangentBundleTpl<SO2>(SO2{})};
  std::shared_ptr<C2F> quad, lin, diff, comp, lindiff;
  std::shared_ptr<Cost> sum, cast;
  std::vector<polymorphic<CSet>> sets;
  std::unique_ptr<Problem> problem;
  std::unique_ptr<autodiff::finite_difference_wrapper<double, autodiff::TOC1>> fd1;
  std::unique_ptr<autodiff::finite_difference_wrapper<double, autodiff::TOC2>> fd2;
  Shared() {
    Prod p;
    p.addComponent(SO3{});
    p.addComponent(VSpace(2));
    p.addComponent(TangentBundleTpl<SO2>(SO2{}));
    prod = polymorphic<Manifold>(p);
    quad = std::make_shared<QuadF>(3, 2, 1);
    Mat A(2, 3);
    A << 1, -2, 0.5, 0, 3, 1;
    lin = std::make_shared<LinF>(A, Vec::LinSpaced(2, 0.5, -1));
    diff = std::make_shared<DiffF>(prod, prod->integrate(prod->neutral(), Vec(Vec::LinSpaced(prod->ndx(), -0.4, 0.7))));
    comp = std::make_shared<ComposeFunctionTpl<double>>(std::make_shared<QuadF>(2, 2, 0), lin);
    lindiff = std::make_shared<LinDiffF>(flat, Vec::LinSpaced(3, 1, 2), A, Vec::LinSpaced(2, 0, 1));
    auto f = std::make_shared<QuadF>(3, 1, 2), g = std::make_shared<QuadF>(3, 1, 0);
    cast = downcast_function_to_cost<double>(C2P(f));
    auto s = std::make_shared<CSum>(3, 3);
    s->addComponent(cast, 0.5);
    s->addComponent(downcast_function_to_cost<double>(C2P(g)), -2.);
    s->addComponent(downcast_function_to_cost<double>(C2P(std::make_shared<QuadF>(3, 1, 3))), 1.5);
    sum = s;
    sets.push_back(polymorphic<CSet>(EqSet{}));
    sets.push_back(polymorphic<CSet>(NegSet{}));
    sets.push_back(polymorphic<CSet>(BoxSet(Vec::Constant(3, -0.5), Vec::Constant(3, 1.))));
    sets.push_back(polymorphic<CSet>(L1Set{}));
    for (auto &k : sets)
      k->setProxParameter(0.5);
    ProdSet ps(std::vector<polymorphic<CSet>>{sets[1], sets[3]}, std::vector<Eigen::Index>{1, 2});
    ps.setProxParameter(0.5);
    sets.push_back(polymorphic<CSet>(ps));
    problem = std::make_unique<Problem>(flat, sum, std::vector<CObj>{CObj(quad, sets[0]), CObj(lin, sets[1]), CObj(comp, sets[3])});
    fd1 = std::make_unique<autodiff::finite_difference_wrapper<double, autodiff::TOC1>>(*flat, *quad, 1e-4);
    fd2 = std::make_unique<autodiff::finite_difference_wrapper<double, autodiff::TOC2>>(*prod, *diff, 1e-4);
  }
};
using SharedP = std::shared_ptr<Shared>;

static Vec data(int n, int v, double lo = -1.3, double hi = 1.9) {
  Vec x = Vec::LinSpaced(n, lo, hi);
  if (n == 1)
    x[0] = lo;
  return v ? Vec(-0.75 * x.reverse() + Vec::Constant(n, 0.3)) : x;
}
static Mat kkt(int np, int nd, int v) {
  const int n = np + nd;
  Mat a = Mat::Zero(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++)
      a(i, j) = a(j, i) = ((i * 3 + j * 5 + v * 7) % 6 - 2) * 0.25;
  for (int i = 0; i < n; i++)
    a(i, i) = i < np ? 6 + i + v : -5 - i - v;
  return a;
}
static void space(Out &o, const Manifold &M, int v) {
  const int n = M.ndx();
  Vec d = data(n, v, -0.8, 0.9), e = data(n, 1 - v, -0.2, 0.7);
  Vec x = M.integrate(M.neutral(), d), y = M.integrate(x, e);
  o(x), o(y), o(M.difference(x, y)), o(M.interpolate(x, y, 0.3));
  for (int a = 0; a < 2; a++) {
    Mat J = Mat::Zero(n, n), K = Mat::Zero(n, n), T = Mat::Identity(n, n);
    M.Jintegrate(x, e, J, a);
    M.Jdifference(x, y, K, a);
    M.JintegrateTransport(x, e, T, a);
    o(J), o(K), o(T);
  }
  o(M.isNormalized(x));
}
static void function(Out &o, const C2F &f, const Vec &x, int v) {
  o(f(x));
  Mat J = Mat::Zero(f.nr(), f.ndx()), H = Mat::Zero(f.ndx(), f.ndx());
  f.computeJacobian(x, J);
  f.vectorHessianProduct(x, data(f.nr(), v), H);
  o(J), o(H), o(f.computeJacobian(x));
}
static void cost(Out &o, const Cost &f, const Vec &x) {
  o(f.call(x));
  Vec g = Vec::Zero(f.ndx());
  Mat H = Mat::Zero(f.ndx(), f.ndx());
  f.computeGradient(x, g);
  f.computeHessian(x, H);
  o(g), o(H), o(f.computeGradient(x)), o(f.computeHessian(x));
}
static Cfg config(int k) {
  Cfg g;
  g.max_iters = 12;
  g.tol = 1e-5;
  switch (k) {
  case 1: g.ldlt = LDLTChoice::DENSE, g.interp = LSInterpolation::QUADRATIC; break;
  case 2: g.ldlt = LDLTChoice::BLOCKSPARSE, g.kkt = KKT_PRIMAL_DUAL; break;
  case 3: g.ldlt = LDLTChoice::EIGEN, g.mode = MultiplierUpdateMode::PRIMAL; break;
  case 4: g.hess = HessianApprox::BFGS, g.mode = MultiplierUpdateMode::PRIMAL_DUAL; break;
  case 5: g.hess = HessianApprox::EXACT, g.interp = LSInterpolation::BISECTION; break;
  case 6: g.hess = HessianApprox::IDENTITY, g.mu = 0.3, g.rho = 1e-3; break;
  }
  return g;
}
constexpr int N_CFG = 7;
static Prb solve_problem(int v) { // 0, 1: same shape, 2: other shape and space
  Prb P;
  if (v < 2) {
    const int n = 2;
    P.M = polymorphic<Manifold>(VSpace(n));
    Mat Q = qp_hess(n, 2 - v);
    auto r = std::make_shared<QuadF>(n, 1, v);
    r->A[0] = Q;
    P.cost = downcast_function_to_cost<double>(C2P(r));
    P.add(quad_fun(Mat::Identity(n, n), Vec::Constant(n, 0.25 * v), -0.5), EQ);
    P.add(qp_rows(n, 2 - v), v ? L1 : BOX, -0.5, 1.);
  } else {
    P.M = polymorphic<Manifold>(SO3{});
    Vec t = P.M->integrate(P.M->neutral(), Vec(Vec::LinSpaced(3, 0.9, 0.2)));
    P.cost = std::make_shared<QDist>(P.M, t, Mat(Mat::Identity(3, 3)));
    P.add(std::make_shared<Wave>(P.M, 0.25), NEG);
  }
  P.build();
  return P;
}
static void results(Out &o, const Solver &s) {
  const RS &r = *s.results_;
  o(r.x_opt), o(r.data_lams_opt), o(double(r.converged)), o(double(r.num_iters)), o(double(r.al_iters)), o(r.merit), o(r.value);
  o(r.prim_infeas), o(r.dual_infeas), o(r.mu), o(r.rho), o(r.constraint_violations);
  for (auto &a : r.active_set)
    for (long i = 0; i < a.size(); i++)
      o(double(a[i]));
  o(s.workspace_->kkt_matrix), o(s.workspace_->dmerit_dir);
}
static void solve(Out &o, int cfg, int v, const std::function<void(Solver &)> &tune = {}) {
  Prb P = solve_problem(v);
  Cfg g = config(v == 2 && cfg == 4 ? 0 : cfg);
  auto s = make_solver(*P.p, g);
  s->setup();
  if (tune)
    tune(*s);
  s->solve(start_point(P, 1), Vec(Vec::LinSpaced(P.nc(), 0.5, -0.5)));
  results(o, *s);
}

// ---- kinds of operations -------------------------------------------------
struct Kind {
  std::string name;
  std::function<std::function<void(Out &)>(int v, SharedP)> make;
};
static const std::vector<Kind> &kinds() {
  static const std::vector<Kind> all = [] {
    std::vector<Kind> r;
    for (int ch = 0; ch < 4; ch++)
      r.push_back({"ldlt" + std::to_string(ch), [ch](int v, SharedP) -> std::function<void(Out &)> {
                     static const LDLTChoice CH[] = {LDLTChoice::DENSE, LDLTChoice::BLOCKSPARSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::EIGEN};
                     return [=](Out &o) {
                       auto f = allocate_ldlt_from_sizes<double>({2}, {1, 2}, CH[ch]);
                       Mat a = kkt(2, 3, v);
                       boost::apply_visitor([&](auto &&l) {
                         l.compute(a);
                         Vec b = data(5, v);
                         l.solveInPlace(b);
                         o(b);
                         l.compute(Mat(a * 2.));
                         Vec b2 = data(5, 1 - v);
                         l.solveInPlace(b2);
                         o(b2);
                       }, f);
                     };
                   }});
    r.push_back({"bunch-kaufman", [](int v, SharedP) {
                   return [=](Out &o) {
                     Mat a = kkt(3, 3, v);
                     for (int i = 0; i < 6; i++)
                       a(i, i) = i % 2 ? 0. : 0.25;
                     Eigen::BunchKaufman<Mat> f(a);
                     o(f.solve(data(6, v)));
                     o(f.matrixLDLT());
                     for (long i = 0; i < 6; i++)
                       o(double(f.pivots()[i]));
                   };
                 }});
    r.push_back({"large bunch-kaufman", [](int v, SharedP) {
                   return [=](Out &o) { // wider than one panel
                     Mat a = kkt(20, 20, v);
                     Eigen::BunchKaufman<Mat> f(40);
                     f.compute(a);
                     o(f.solve(data(40, v)));
                   };
                 }});
    r.push_back({"large dense ldlt", [](int v, SharedP) {
                   return [=](Out &o) {
                     Mat a = kkt(20, 20, v) + 40. * Mat(Vec::LinSpaced(40, 1, 2).asDiagonal());
                     linalg::DenseLDLT<double> f(a);
                     Vec b = data(40, v);
                     f.solveInPlace(b);
                     o(b), o(Vec(f.vectorD()));
                   };
                 }});
    r.push_back({"spaces", [](int v, SharedP s) {
                   return [=](Out &o) { space(o, *s->flat, v), space(o, *s->curved, v); };
                 }});
    r.push_back({"product space", [](int v, SharedP s) {
                   return [=](Out &o) {
                     space(o, *s->prod, v);
                     Prod p = Prod(polymorphic<Manifold>(VSpace(1)), polymorphic<Manifold>(SO2{})) * polymorphic<Manifold>(SO2{});
                     space(o, p, v);
                   };
                 }});
    r.push_back({"bundle", [](int v, SharedP s) {
                   return [=](Out &o) { space(o, *s->bundle, v); };
                 }});
    r.push_back({"residuals", [](int v, SharedP s) {
                   return [=](Out &o) {
                     function(o, *s->lin, data(3, v), v), function(o, *s->lindiff, data(3, v), v);
                     function(o, *s->comp, data(3, v), v), function(o, *s->quad, data(3, v), v);
                   };
                 }});
    r.push_back({"difference", [](int v, SharedP s) {
                   return [=](Out &o) {
                     Vec x = s->prod->integrate(s->prod->neutral(), data(s->prod->ndx(), v, -0.6, 0.8));
                     o((*s->diff)(x)), o(s->diff->computeJacobian(x));
                   };
                 }});
    r.push_back({"slice", [](int v, SharedP s) {
                   return [=](Out &o) { function(o, *compose<double>(std::make_shared<QuadF>(2, 1, v), s->quad), data(3, v), v); };
                 }});
    r.push_back({"cost sum", [](int v, SharedP s) {
                   return [=](Out &o) { cost(o, *s->sum, data(3, v)), cost(o, *s->cast, data(3, v)); };
                 }});
    r.push_back({"cost algebra", [](int v, SharedP s) {
                   return [=](Out &o) {
                     auto a = s->cast + s->cast;
                     auto b = (v ? 2. : 0.25) * s->cast;
                     *a += *b;
                     *a *= 3. - v;
                     auto d = a->clone();
                     d->addComponent(s->cast, -1.);
                     cost(o, *d, data(3, v));
                     for (double w : d->weights_)
                       o(w);
                   };
                 }});
    r.push_back({"quadratic residual", [](int v, SharedP s) {
                   return [=](Out &o) {
                     QRes q(s->quad, Mat(Mat::Identity(2, 2) * (2. + v)), data(2, v), 0.5);
                     cost(o, q, data(3, v));
                     q.gauss_newton_ = false;
                     cost(o, q, data(3, 1 - v));
                   };
                 }});
    r.push_back({"distance cost", [](int v, SharedP s) {
                   return [=](Out &o) {
                     const int n = s->prod->ndx();
                     QDist q(s->prod, s->prod->integrate(s->prod->neutral(), data(n, 1 - v, -0.3, 0.5)), Mat(Mat::Identity(n, n) * (1. + v)));
                     cost(o, q, s->prod->integrate(s->prod->neutral(), data(n, v, -0.6, 0.8)));
                   };
                 }});
    for (int k = 0; k < 5; k++)
      r.push_back({"set" + std::to_string(k), [k](int v, SharedP s) -> std::function<void(Out &)> {
                     return [=](Out &o) {
                       const CSet &S = *s->sets[size_t(k)];
                       Vec z = data(3, v), p = Vec::Zero(3), q = Vec::Zero(3);
                       S.projection(z, p);
                       o(S.computeMoreauEnvelope(z, q));
                       o(p), o(q), o(S.evaluate(p));
                       Mat J = kkt(3, 0, v), K = kkt(3, 0, 1 - v);
                       S.applyProjectionJacobian(z, J);
                       S.applyNormalConeProjectionJacobian(z, K);
                       o(J), o(K);
                       Eigen::Matrix<bool, -1, 1> act(3);
                       S.computeActiveSet(z, act);
                       for (int i = 0; i < 3; i++)
                         o(double(act[i]));
                     };
                   }});
    r.push_back({"set copies", [](int v, SharedP s) {
                   return [=](Out &o) { // each copy has its own proximal parameter
                     for (auto &k : s->sets) {
                       polymorphic<CSet> a(k);
                       a->setProxParameter(0.1 + v);
                       Vec z = data(3, v), p = Vec::Zero(3);
                       a->projection(z, p);
                       o(p), o(a->computeMoreauEnvelope(z, p)), o(a->mu()), o(a->mu_inv());
                     }
                   };
                 }});
    r.push_back({"problem", [](int v, SharedP s) {
                   return [=](Out &o) {
                     WS w(*s->problem);
                     RS res(*s->problem);
                     s->problem->evaluate(data(3, v), w);
                     s->problem->computeDerivatives(data(3, v), w);
                     w.data_lams_pdal.head(w.data_lams_pdal.size()) = data(int(w.data_lams_pdal.size()), v); // in place
                     s->problem->computeHessians(data(3, v), w, true);
                     o(w.objective_value), o(w.objective_gradient), o(w.objective_hessian), o(w.data_cstr_values), o(w.data_jacobians);
                     for (auto &h : w.cstr_vector_hessian_prod)
                       o(h);
                     std::ostringstream os;
                     os << res << *std::dynamic_pointer_cast<CSum>(s->sum);
                     o.text += os.str();
                   };
                 }});
    r.push_back({"bfgs", [](int v, SharedP) {
                   return [=](Out &o) {
                     BFGSStrategy<double, BFGSType::Hessian> b(3);
                     BFGSStrategy<double, BFGSType::InverseHessian> d(3);
                     Mat B = Mat::Identity(3, 3), D = B;
                     for (int i = 0; i < 3; i++) {
                       Vec x = data(3, v) * (i + 1), g = Vec(x.array().cube() + x.array());
                       b.update(x, g, B), d.update(x, g, D);
                       o(B), o(D);
                     }
                   };
                 }});
    r.push_back({"line search", [](int v, SharedP) {
                   return [=](Out &o) {
                     for (auto k : {LSInterpolation::CUBIC, LSInterpolation::QUADRATIC, LSInterpolation::BISECTION}) {
                       Linesearch<double>::Options op;
                       op.interp_type = k;
                       op.armijo_c1 = 0.1;
                       double a = 0;
                       o(ArmijoLinesearch<double>(op).run([&](double t) { return -t + (v ? 9 : 30) * t * t * t; }, 0., -1., a));
                       o(a);
                     }
                   };
                 }});
    r.push_back({"finite differences", [](int v, SharedP s) {
                   return [=](Out &o) {
                     Mat J = Mat::Zero(2, 3), H = Mat::Zero(s->prod->ndx(), s->prod->ndx());
                     s->fd1->computeJacobian(data(3, v), J);
                     Vec x = s->prod->integrate(s->prod->neutral(), data(s->prod->ndx(), v, -0.6, 0.8));
                     s->fd2->vectorHessianProduct(x, data(s->diff->nr(), v), H);
                     o(J), o(H);
                   };
                 }});
    r.push_back({"polymorphic", [](int v, SharedP s) {
                   return [=](Out &o) {
                     std::vector<polymorphic<Manifold>> m{s->flat, s->curved, s->prod};
                     m.push_back(m[size_t(v)]);
                     std::swap(m[0], m[2]);
                     m[1] = m[0];
                     polymorphic<Manifold> t(std::move(m[3]));
                     for (int i = 0; i < 3; i++)
                       o(m[size_t(i)]->neutral());
                     o(t->neutral());
                   };
                 }});
    return r;
  }();
  return all;
}

// ---- scheduling ----------------------------------------------------------
static Task *TA = nullptr, *TB = nullptr;
static sem_t wakeA, wakeB;
static bool doneB = false;
static void helper() {
  for (;;) {
    sem_wait(&wakeB);
    TB->go();
    doneB = true;
    sem_post(&wakeA);
  }
}
static void wait(sem_t &s) {
  while (sem_wait(&s))
    ;
}
static void yieldA() { // let the other thread run, until it is done or stops itself
  sem_post(&wakeB);
  wait(wakeA);
}
static void yieldB() {
  sem_post(&wakeA);
  wait(wakeB);
}
static void interleave(Task &a, Task &b) {
  static pid_t owner = 0;
  if (owner != getpid()) {
    owner = getpid();
    sem_init(&wakeA, 0, 0);
    sem_init(&wakeB, 0, 0);
    std::thread(helper).detach();
  }
  TA = &a, TB = &b;
  doneB = false;
  a.side.yield = yieldA, b.side.yield = yieldB;
  a.go();
  if (!doneB) // the other one never ran, or stands where it was stopped
    yieldA();
}
static std::string differs(const Out &a, const Out &b) {
  std::ostringstream o;
  o.precision(17);
  for (size_t i = 0; i < std::max(a.v.size(), b.v.size()); i++)
    if (i >= a.v.size() || i >= b.v.size() || memcmp(&a.v[i], &b.v[i], 8)) {
      o << "result " << i << " of " << a.v.size() << "/" << b.v.size();
      if (i < a.v.size() && i < b.v.size())
        o << ": " << a.v[i] << " alone, " << b.v[i] << " with the other thread";
      return o.str();
    }
  return "text '" + a.text + "' alone, '" + b.text + "' with the other thread";
}
struct Solo {
  Out out;
  std::vector<uint64_t> points, once; // first two visits of every block; user calls
};
static Solo alone(const std::function<std::function<void(Out &)>()> &make) {
  Solo s;
  std::unordered_map<void *, int> seen;
  {
    Task warm{make()};
    warm.go(); // initialises what is initialised once
  }
  for (int i = 0; i < 2; i++) {
    Task t{make()};
    if (i == 0) {
      t.side.record = true;
      t.side.points = &s.points;
      t.side.seen = &seen;
    }
    t.go();
    if (i == 0)
      s.out = t.out;
    else if (!(s.out == t.out))
      throw mc::Violation{"not-repeatable", "an operation gives another result when it is repeated: " + differs(s.out, t.out)};
  }
  return s;
}
static const Solo &cached(int what, int key, int v, const std::function<std::function<void(Out &)>()> &make) {
  static std::map<std::tuple<int, int, int>, Solo> m;
  const auto id = std::make_tuple(what, key, v);
  auto it = m.find(id);
  if (it == m.end())
    it = m.emplace(id, alone(make)).first;
  return it->second;
}
static void judge(Ctx &c, const Solo &sa, const Solo &sb, Task &a, Task &b, const std::string &w) {
  if (!a.side.yielded) // a shorter path than alone: the threads ran one after the other
    c.count("first thread not stopped");
  c.require(sa.out == a.out, "interference", w + ": first thread, " + differs(sa.out, a.out));
  c.require(sb.out == b.out, "interference", w + ": second thread, " + differs(sb.out, b.out));
  c.step(a.side.n + b.side.n);
  c.count("schedules");
}
static void operations(Ctx &c) {
  const auto &K = kinds();
  const int i = c.choose(int(K.size()), "first"), j = c.choose(int(K.size()), "second");
  const bool share = c.flip("shared constants");
  const int vb = i == j || c.thorough ? c.choose(2, "data of the second") : 1;
  c.shard();
  auto mk = [&](int k, int v, const SharedP &s) { return K[size_t(k)].make(v, s); };
  const Solo &sa = cached(0, i, 0, [&, s = SharedP()]() mutable { return mk(i, 0, s ? s : s = std::make_shared<Shared>()); });
  const Solo &sb = cached(0, j, vb, [&, s = SharedP()]() mutable { return mk(j, vb, s ? s : s = std::make_shared<Shared>()); });
  if (sa.points.empty())
    c.prune();
  const bool twice = c.thorough && i == j && share;
  const int k = c.choose(int(sa.points.size()), "stop the first at block");
  // thorough: the second one is stopped too, and the first one goes on before it
  const int l = twice ? c.choose(int(sb.points.size()) / 8 + 1, "stop the second at block") : 0;
  static std::map<std::tuple<int, int>, SharedP> pool; // constants, made once
  auto constants = [&](int which) {
    SharedP &p = pool[{which, 0}];
    if (!p)
      p = std::make_shared<Shared>();
    return p;
  };
  Task a{mk(i, 0, constants(0))}, b{mk(j, vb, constants(share ? 0 : 1))};
  a.side.target = sa.points[size_t(k)];
  if (l)
    b.side.target = sb.points[size_t(l - 1) * 8];
  interleave(a, b);
  judge(c, sa, sb, a, b, K[size_t(i)].name + " stopped at block " + str(long(a.side.target)) + " while " + K[size_t(j)].name + (share ? " (shared constants)" : "") + " runs" + (l ? " up to block " + str(long(b.side.target)) : ""));
  c.obs(mc::mix(uint64_t(i * 64 + j), sa.points[size_t(k)]));
}
static void solves(Ctx &c) {
  const int ca = c.choose(N_CFG, "first"), v = c.choose(3, "problem of the second");
  const int cb = c.thorough ? c.choose(N_CFG, "second") : ca;
  c.shard();
  auto mk = [](int cfg, int v) { return std::function<void(Out &)>([=](Out &o) { solve(o, cfg, v); }); };
  const Solo &sa = cached(1, ca, 0, [&] { return mk(ca, 0); });
  const Solo &sb = cached(1, cb, v, [&] { return mk(cb, v); });
  const int k = c.choose(int(sa.points.size()), "stop the first at block");
  Task a{mk(ca, 0)}, b{mk(cb, v)};
  a.side.target = sa.points[size_t(k)];
  interleave(a, b);
  judge(c, sa, sb, a, b, "solve " + config(ca).name() + " stopped at block " + str(long(a.side.target)) + " while another one " + config(cb).name() + " runs on problem " + str(v));
  c.obs(mc::mix(uint64_t(ca), sa.points[size_t(k)]));
}
// a user function or callback of one solve runs another solve
struct Outer : C2F {
  using C2F::computeJacobian;
  std::shared_ptr<C2F> f;
  std::function<void()> hook;
  Outer(std::shared_ptr<C2F> g) : C2F(g->nx(), g->ndx(), g->nr()), f(g) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    hook();
    Vec r = (*f)(x);
    hook();
    return r;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    f->computeJacobian(x, J);
    hook();
  }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
    hook();
    f->vectorHessianProduct(x, v, H);
  }
};
struct HookCb : helpers::base_callback<double> {
  std::function<void()> hook;
  void call(const WS &, const RS &) override { hook(); }
};
static void nested(Ctx &c) {
  const int ca = c.choose(N_CFG, "outer"), vo = c.choose(2, "outer problem"), cb = c.choose(N_CFG, "inner"), vi = c.choose(3, "inner problem");
  c.shard();
  auto outer = [&](Out &o, const std::function<void()> &hook) {
    Prb P = solve_problem(vo), H;
    H.M = P.M;
    auto q = std::make_shared<Outer>(std::make_shared<QuadF>(2, 1, vo));
    std::dynamic_pointer_cast<QuadF>(q->f)->A[0] = qp_hess(2, 2 - vo);
    q->hook = hook;
    H.cost = downcast_function_to_cost<double>(C2P(q));
    for (size_t i = 0; i < P.cons.size(); i++) {
      auto f = std::make_shared<Outer>(P.cons[i].func_);
      f->hook = hook;
      H.add(f, P.cons[i].set_, std::vector<Comp>(P.comps.begin(), P.comps.begin() + P.nrs[i]));
    }
    H.build();
    auto s = make_solver(*H.p, config(ca));
    s->max_iters = 6;
    s->setup();
    auto cb_ = std::make_shared<HookCb>();
    cb_->hook = hook;
    s->registerCallback(cb_);
    s->solve(start_point(P, 1), Vec(Vec::LinSpaced(P.nc(), 0.5, -0.5)));
    results(o, *s);
  };
  static std::map<int, Out> solo_o, solo_i;
  Out &ro = solo_o[ca * 2 + vo], &ri = solo_i[cb * 3 + vi];
  if (ro.v.empty())
    outer(ro, [] {});
  if (ri.v.empty())
    solve(ri, cb, vi);
  int calls = 0, inner = 0;
  const std::string w = "solve inside a user call of another solve: outer " + config(ca).name() + " problem " + str(vo) + ", inner " + config(cb).name() + " problem " + str(vi);
  Out o;
  std::string bad;
  outer(o, [&] {
    calls++;
    if (c.env(2, "solve here")) {
      Out in;
      solve(in, cb, vi);
      inner++;
      if (!(in == ri))
        bad = "inner solve at call " + str(calls) + ": " + differs(ri, in);
    }
  });
  c.require(bad.empty(), "nested-inner", w + ": " + bad);
  c.require(o == ro, "nested-outer", w + ": outer solve with " + str(inner) + " inner ones: " + differs(ro, o));
  c.step(size_t(calls));
  c.count("nested solves", size_t(inner));
  c.obs(mc::mix(uint64_t(ca * 64 + cb), uint64_t(calls)));
}
int main(int argc, char **argv) {
  mc::Main m("C27");
  m.note = "states: stop blocks; transitions: basic blocks run under the scheduler; traces: one schedule each, two real threads handing over at a basic block of the real code; results compared bit by bit with those of the operation alone";
  m.assumptions = {"the two threads share nothing but constants: spaces, residual functions, sums of them, constraint sets whose proximal parameter is not set meanwhile, and problems; quadratic residual costs, solvers, workspaces and results are not shared",
                   "hand-over at the first two visits of every basic block (sequential consistency between them); one preemption, or two (thorough)",
                   "what is initialised once (function-local constants) has been initialised before"};
  m.add("operations", operations);
  m.add("solves", solves);
  const char *tier = getenv("VERIF_TIER");
  m.add("nested", nested, tier && std::string(tier) == "thorough" ? 2 : 1);
  return m.run(argc, argv);
}
