// C17: derivatives returned by the modelling classes are the derivatives of
// the value at the point they are asked for, whatever was called before.
#include "functions.hpp"
using namespace pn;
using mc::Ctx;

struct Fun {
  std::string name;
  C2P f;
  polymorphic<Manifold> space;
  std::function<Vec(const Vec &)> val; // oracle
  // exact second derivative expected (false: the value of a curved
  // difference, whose curvature the library does not claim)
  bool second = true;
};
static Mat mat(int m, int n, int salt) {
  Mat a(m, n);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++)
      a(i, j) = ((3 * i + 2 * j + salt + i * j) % 7 - 3) * 0.5;
  return a;
}
static Mat spd(int n, int salt) {
  Mat a = mat(n, n, salt);
  return a * a.transpose() + Mat::Identity(n, n);
}
static Vec vecn(int n, int salt) { return mat(n, 1, salt + 1); }

static polymorphic<Manifold> space_of(int k) {
  switch (k) {
  case 0: return VSpace(1);
  case 1: return VSpace(3);
  case 2: return TangentBundleTpl<VSpace>(2);
  case 3: return SO2{};
  case 4: return SO3{};
  case 5: return TangentBundleTpl<SO3>(SO3{});
  default: { Prod p; p.addComponent(VSpace(2)); p.addComponent(SO2{}); p.addComponent(SO3{}); return p; }
  }
}
static bool flat(int k) { return k < 3; }
static Vec at(const Manifold &M, int k, double amp = 0.6) {
  Vec v(M.ndx());
  static const double a[] = {0.7, -0.4, 0.25, -0.9, 0.55, 0.1, -0.65, 0.35, 0.8};
  for (int i = 0; i < M.ndx(); i++)
    v[i] = amp * a[(i * (k + 1) + 2 * k) % 9];
  return M.integrate(M.neutral(), v);
}
// a user's cost on a space: half of the weighted squared distance to neutral
struct UserCost : Cost {
  polymorphic<Manifold> sp;
  explicit UserCost(const polymorphic<Manifold> &m) : Cost(*m), sp(m) {}
  double call(const ConstVectorRef &x) const override { return 0.75 * sp->difference(sp->neutral(), x).squaredNorm(); }
  void computeGradient(const ConstVectorRef &x, VectorRef out) const override {
    Mat J = Mat::Zero(sp->ndx(), sp->ndx());
    sp->Jdifference(sp->neutral(), x, J, 1);
    out = 1.5 * J.transpose() * sp->difference(sp->neutral(), x);
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef out) const override {
    Mat J = Mat::Zero(sp->ndx(), sp->ndx());
    sp->Jdifference(sp->neutral(), x, J, 1);
    out = 1.5 * J.transpose() * J;
  }
};
static const int NF = 10;
static Fun make(Ctx &c, int kind) {
  Fun o{"", nullptr, VSpace(1), nullptr};
  if (kind == 0) { // linear
    int n = c.range(1, 3, "n"), m = c.range(1, 3, "m");
    bool off = c.flip("offset");
    Mat A = mat(m, n, n);
    Vec b = off ? vecn(m, 2) : Vec(Vec::Zero(m));
    o.f = off ? std::make_shared<LinF>(A, b) : std::make_shared<LinF>(A);
    o.space = VSpace(n);
    o.val = [A, b](const Vec &x) -> Vec { return A * x + b; };
    o.name = "linear";
  } else if (kind == 1 || kind == 2) { // (linear of) difference to a point
    int s = c.choose(7, "space");
    o.space = space_of(s);
    auto sp = o.space;
    Vec t = at(*sp, 3);
    o.second = flat(s);
    if (kind == 1) {
      o.f = std::make_shared<DiffF>(sp, t);
      o.val = [sp, t](const Vec &x) -> Vec { return sp->difference(t, x); };
      o.name = "difference";
    } else {
      int m = c.range(1, 2, "m");
      Mat A = mat(m, sp->ndx(), 1);
      Vec b = vecn(m, 3);
      o.f = std::make_shared<LinDiffF>(sp, t, A, b);
      o.val = [sp, t, A, b](const Vec &x) -> Vec { return A * sp->difference(t, x) + b; };
      o.name = "linear-difference";
    }
  } else if (kind == 3) { // composition of quadratics
    int n = c.range(1, 3, "n"), k = c.range(1, 3, "k"), m = c.range(1, 2, "m");
    auto g = std::make_shared<QuadF>(n, k, 1);
    auto f = std::make_shared<QuadF>(k, m, 2);
    o.f = compose<double>(f, g);
    o.space = VSpace(n);
    o.val = [f, g](const Vec &x) -> Vec { return (*f)((*g)(x)); };
    o.name = "composition";
  } else if (kind == 4) { // three-fold composition, both associations
    bool left = c.flip("assoc");
    auto f = std::make_shared<QuadF>(2, 1, 0), g = std::make_shared<QuadF>(3, 2, 1), h = std::make_shared<QuadF>(2, 3, 3);
    C2P fp = f, gp = g, hp = h;
    C2P fg = compose<double>(fp, gp), gh = compose<double>(gp, hp);
    o.f = left ? compose<double>(fg, hp) : compose<double>(fp, gh);
    o.space = VSpace(2);
    o.val = [=](const Vec &x) -> Vec { return (*f)((*g)((*h)(x))); };
    o.name = "three-fold composition";
  } else if (kind == 5) { // quadratic cost of a residual, exact Hessian
    int n = c.range(1, 3, "n"), m = c.range(1, 2, "m");
    auto r = std::make_shared<QuadF>(n, m, 1);
    Mat W = spd(m, 2);
    Vec s = vecn(m, 4);
    double k = 0.75;
    auto q = std::make_shared<QRes>(r, W, s, k);
    q->gauss_newton_ = false;
    o.f = q;
    o.space = VSpace(n);
    o.val = [=](const Vec &x) -> Vec { Vec e = (*r)(x); return Vec::Constant(1, 0.5 * e.dot(W * e) + s.dot(e) + k); };
    o.name = "quadratic residual cost";
  } else if (kind == 6) { // distance
    int s = c.choose(7, "space");
    o.space = space_of(s);
    auto sp = o.space;
    int ctor = c.choose(3, "ctor");
    Vec t = ctor == 2 ? sp->neutral() : at(*sp, 3);
    Mat W = ctor == 0 ? spd(sp->ndx(), 1) : Mat(Mat::Identity(sp->ndx(), sp->ndx()));
    o.f = ctor == 0 ? std::make_shared<QDist>(sp, t, W) : ctor == 1 ? std::make_shared<QDist>(sp, t) : std::make_shared<QDist>(sp);
    o.second = flat(s);
    o.val = [=](const Vec &x) -> Vec { Vec e = sp->difference(t, x); return Vec::Constant(1, 0.5 * e.dot(W * e)); };
    o.name = "distance";
  } else if (kind == 7) { // function cast to a cost
    int n = c.range(1, 3, "n");
    auto r = std::make_shared<QuadF>(n, 1, 1);
    o.f = downcast_function_to_cost<double>(C2P(r));
    o.space = VSpace(n);
    o.val = [=](const Vec &x) -> Vec { return (*r)(x); };
    o.name = "function cast to cost";
  } else if (kind == 9) { // a user's cost built from a space
    int s = c.choose(7, "space");
    o.space = space_of(s);
    auto sp = o.space;
    o.f = std::make_shared<UserCost>(sp);
    o.second = flat(s);
    o.val = [=](const Vec &x) -> Vec { return Vec::Constant(1, 0.75 * sp->difference(sp->neutral(), x).squaredNorm()); };
    o.name = "user cost";
  } else { // weighted sum of costs used as a function
    int n = c.range(1, 3, "n");
    auto r = std::make_shared<QuadF>(n, 1, 1);
    auto s = std::make_shared<CSum>(n, n);
    Vec t = vecn(n, 2);
    CostP a = downcast_function_to_cost<double>(C2P(r)), b = std::make_shared<QDist>(VSpace(n), t);
    s->addComponent(a, 2.);
    s->addComponent(b, -0.5);
    s->addComponent(a);
    o.f = s;
    o.space = VSpace(n);
    o.val = [=](const Vec &x) -> Vec { return 3. * (*r)(x) - Vec::Constant(1, 0.25 * (x - t).squaredNorm()); };
    o.name = "cost sum";
  }
  return o;
}
// one observation of the function at a point
static const int NO = 4;
static void observe(Ctx &c, const Fun &o, int what, const Vec &x, const std::string &w) {
  const Manifold &M = *o.space;
  const int nd = M.ndx(), m = o.f->nr();
  auto jac = [&](const Vec &p) -> Mat {
    return num_jac(m, nd, [&](const Vec &e) -> Vec { return o.val(M.integrate(p, e)); }, 1e-5);
  };
  auto cost = std::dynamic_pointer_cast<Cost>(o.f);
  std::string s = o.name + " " + w + " at " + str(x) + ": ";
  if (what == 0) {
    Vec r = (*o.f)(x), e = o.val(x);
    c.require(r.size() == m && close(r, e, 1e-11, 1e-11), "value", s + str(r) + " expected " + str(e));
    if (cost)
      c.require(close(cost->call(x), e[0], 1e-11, 1e-11), "value", s + str(cost->call(x)));
  } else if (what == 1) {
    Mat e = jac(x), b = Mat::Constant(m + 2, nd + 2, 44.);
    o.f->computeJacobian(x, b.block(1, 1, m, nd));
    Mat J = b.block(1, 1, m, nd);
    c.require(close(J, e, 1e-6, 1e-6), "jacobian", s + str(J) + " expected " + str(e));
    b.block(1, 1, m, nd).setConstant(44.);
    c.require((b.array() == 44.).all(), "jacobian-out", s);
    c.require(same(static_cast<C1F *>(o.f.get())->computeJacobian(x), J), "jacobian-allocated", s);
    if (cost) {
      Vec g = Vec::Constant(nd + 2, 44.);
      cost->computeGradient(x, g.segment(1, nd));
      c.require(close(g.segment(1, nd), e.transpose(), 1e-6, 1e-6) && g[0] == 44. && g[nd + 1] == 44., "gradient", s + str(g));
      c.require(same(cost->computeGradient(x), g.segment(1, nd)), "gradient-allocated", s);
    }
  } else if (what == 2 && o.second) {
    Vec v(m);
    for (int i = 0; i < m; i++)
      v[i] = (w.size() + size_t(x.sum() > 0)) % 2 ? 0.5 - 1.25 * i : -0.75 + i;
    auto vh = [&](const Vec &p) -> Mat {
      // derivative of J(p)'v by central differences of an accurate Jacobian
      Mat H(nd, nd);
      const double h = 1e-3;
      for (int i = 0; i < nd; i++)
        for (int j = 0; j < nd; j++) {
          auto f = [&](double a, double b) {
            Vec e = Vec::Zero(nd);
            e[i] += a;
            e[j] += b;
            return v.dot(o.val(M.integrate(p, e)));
          };
          // polynomials of degree at most four: the error is O(h^2)
          H(i, j) = (f(h, h) - f(h, -h) - f(-h, h) + f(-h, -h)) / (4 * h * h);
        }
      return H;
    };
    Mat e = vh(x), b = Mat::Constant(nd + 2, nd + 2, 44.);
    o.f->vectorHessianProduct(x, v, b.block(1, 1, nd, nd));
    Mat H = b.block(1, 1, nd, nd);
    c.require(close(H, e, 1e-4, 1e-4), "vector-hessian", s + str(H) + " expected " + str(e));
    b.block(1, 1, nd, nd).setConstant(44.);
    c.require((b.array() == 44.).all(), "vector-hessian-out", s);
  } else if (what == 3 && cost && o.second) {
    Vec v = Vec::Ones(1);
    Mat H = Mat::Constant(nd, nd, 44.), G = H;
    o.f->vectorHessianProduct(x, v, G);
    cost->computeHessian(x, H);
    c.require(close(H, G, 1e-12, 1e-12) && close(H, H.transpose(), 1e-9, 1e-9), "hessian", s + str(H));
    c.require(same(cost->computeHessian(x), H), "hessian-allocated", s);
  }
  c.step();
  c.obs(mc::mix(hashm(x, mc::hash_str(o.name)), uint64_t(what)));
}
static void histories(Ctx &c) {
  Fun o = make(c, c.choose(NF, "function"));
  const Manifold &M = *o.space;
  c.require(o.f->nx() == M.nx() && o.f->ndx() == M.ndx() && o.f->nr() == o.val(M.neutral()).size(), "dimensions", o.name);
  const int N = c.thorough ? 5 : 4, P = 2;
  std::string w;
  for (int t = 0; t < N; t++) {
    int k = c.choose(NO * P, "call");
    if (t == 0)
      c.shard();
    static const char *nm[] = {"value", "jacobian", "vhp", "hessian"};
    w += std::string(nm[k % NO]) + "@" + str(k / NO) + " ";
    // only the last call is judged; the earlier ones are its history
    if (t + 1 < N) {
      Vec x = at(M, 4 + k / NO);
      Mat J(o.f->nr(), M.ndx()), H(M.ndx(), M.ndx());
      if (k % NO == 0) (*o.f)(x);
      if (k % NO == 1) o.f->computeJacobian(x, J);
      if (k % NO == 2) o.f->vectorHessianProduct(x, Vec::Constant(o.f->nr(), 2.), H);
      if (k % NO == 3)
        if (auto q = std::dynamic_pointer_cast<Cost>(o.f)) q->computeHessian(x, H);
    } else
      observe(c, o, k % NO, at(M, 4 + k / NO), "after " + w);
  }
  c.sample(o.name, w);
}
static void points(Ctx &c) {
  Fun o = make(c, c.choose(NF, "function"));
  c.shard();
  for (int p = 0; p < 6; p++)
    for (int k = 0; k < NO; k++)
      observe(c, o, k, at(*o.space, p, p == 5 ? 0.02 : 0.9), "");
}
// Gauss-Newton and exact modes, slopes, constants, target updates
static void quadratic(Ctx &c) {
  int n = c.range(1, 3, "n"), m = c.range(1, 3, "m");
  int ctor = c.choose(3, "ctor");
  auto r = std::make_shared<QuadF>(n, m, 1);
  Mat W = spd(m, 3);
  Vec s = ctor == 0 ? vecn(m, 2) : Vec(Vec::Zero(m));
  double k = ctor == 2 ? 0. : 1.5;
  QRes q = ctor == 0 ? QRes(r, W, s, k) : ctor == 1 ? QRes(r, W, k) : QRes(r, W);
  c.require(q.gauss_newton_, "gauss-newton-default", "");
  const int N = c.thorough ? 5 : 4;
  std::string w;
  for (int t = 0; t < N; t++) {
    int op = c.choose(8, "op");
    if (t == 0)
      c.shard();
    Vec x = at(VSpace(n), 3 + (op & 1));
    Vec e = (*r)(x);
    Mat J = static_cast<C1F &>(*r).computeJacobian(x);
    w += str(op) + " ";
    switch (op / 2) {
    case 0:
      c.require(close(q.call(x), 0.5 * e.dot(W * e) + s.dot(e) + k, 1e-12, 1e-12), "quadratic-value", w);
      break;
    case 1:
      c.require(close(q.computeGradient(x), J.transpose() * (W * e + s), 1e-12, 1e-12), "quadratic-gradient", w);
      break;
    case 2: {
      Mat H = J.transpose() * W * J;
      if (!q.gauss_newton_) {
        Mat B(n, n);
        r->vectorHessianProduct(x, W * e + s, B);
        H += B;
      }
      c.require(close(q.computeHessian(x), H, 1e-12, 1e-12), "quadratic-hessian", w + str(q.computeHessian(x)) + " expected " + str(H));
      break;
    }
    case 3:
      if (op & 1)
        q.gauss_newton_ = !q.gauss_newton_;
      else {
        k = k + 1;
        q.constant_ = k;
        s = s + Vec::Ones(m);
        q.slope_ = s;
        W = W + Mat::Identity(m, m);
        q.weights_ = W;
      }
    }
    c.step();
    c.obs(mc::mix(hashm(e, mc::hash_str(w)), uint64_t(ctor)));
  }
}
static void target(Ctx &c) {
  int k = c.choose(7, "space");
  auto sp = space_of(k);
  QDist d(sp, at(*sp, 1));
  Vec t = at(*sp, 1);
  std::string w;
  for (int i = 0; i < 4; i++) {
    int op = c.choose(4, "op");
    if (i == 0)
      c.shard();
    w += str(op) + " ";
    if (op < 2) {
      t = at(*sp, 2 + op);
      d.updateTarget(t);
    } else {
      Vec x = at(*sp, 4 + op);
      Vec e = sp->difference(t, x);
      Mat J(sp->ndx(), sp->ndx());
      sp->Jdifference(t, x, J, 1);
      c.require(close(d.call(x), 0.5 * e.squaredNorm(), 1e-12, 1e-12), "distance-value", w);
      c.require(close(d.computeGradient(x), J.transpose() * e, 1e-12, 1e-12), "distance-gradient", w);
      c.require(close(d.computeHessian(x), J.transpose() * J, 1e-12, 1e-12), "distance-hessian", w);
    }
    c.require(same(d.getTarget(), t), "distance-target", w);
    c.step();
  }
  Vec bad = t * QNAN;
  if (!sp->isNormalized(bad)) {
    bool th = false;
    try { DiffF f(sp, bad); } catch (const std::runtime_error &) { th = true; }
    c.require(th, "invalid-target", "a target off the manifold is accepted");
  }
}
int main(int argc, char **argv) {
  mc::Main m("C17");
  m.note = "states: distinct (function, point, observation); transitions: choices and judged calls; traces: histories of calls on the real objects, each judged against numeric or closed-form derivatives of the value";
  m.assumptions = {"the residual of a distance on a curved space has no second derivative in the library: curvature is claimed on flat spaces and for residuals that provide it",
                   "weight matrices are symmetric"};
  m.add("histories", histories);
  m.add("points", points);
  m.add("quadratic", quadratic);
  m.add("target", target);
  return m.run(argc, argv);
}
