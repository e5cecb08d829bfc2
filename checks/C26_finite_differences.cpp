// C26: the finite-difference wrappers are second-order accurate derivatives of
// the wrapped function on every space, and pass everything else through.
#include "functions.hpp"
#include "proxsuite-nlp/modelling/autodiff/finite-difference.hpp"
using namespace pn;
using mc::Ctx;
using FD1 = autodiff::finite_difference_wrapper<double, autodiff::TOC1>;
using FD2 = autodiff::finite_difference_wrapper<double, autodiff::TOC2>;

struct Spc {
  std::shared_ptr<Manifold> m;
  std::string name;
};
static Spc space(int k) {
  switch (k) {
  case 0: return {std::make_shared<VSpace>(1), "R1"};
  case 1: return {std::make_shared<VSpace>(3), "R3"};
  case 2: return {std::make_shared<SO2>(), "SO2"};
  case 3: return {std::make_shared<SO3>(), "SO3"};
  case 4: {
    Prod p{polymorphic<Manifold>(SO2()), polymorphic<Manifold>(VSpace(2))};
    return {std::make_shared<Prod>(p), "SO2xR2"};
  }
  case 5: return {std::make_shared<TangentBundleTpl<SO2>>(SO2()), "T(SO2)"};
  default: {
    Prod p{polymorphic<Manifold>(VSpace(1)), polymorphic<Manifold>(SO3()), polymorphic<Manifold>(SO2())};
    return {std::make_shared<Prod>(p), "R1xSO3xSO2"};
  }
  }
}
static Vec point(const Manifold &m, int k) {
  Vec v(m.ndx());
  for (int i = 0; i < v.size(); i++)
    v[i] = k == 0 ? 0. : 0.3 * ((i * 2 + k) % 5) - 0.5;
  return m.integrate(m.neutral(), v);
}
// f_k(x) = ambient polynomial of degree `deg` in the coordinates of x, with exact
// directional derivatives through the space's own retraction (chain rule).
struct Poly : C1F {
  using C1F::computeJacobian;
  const Manifold &m;
  int deg;
  mutable int calls = 0, jcalls = 0;
  Poly(const Manifold &mm, int nr, int d) : C1F(mm.nx(), mm.ndx(), nr), m(mm), deg(d) {}
  double w(int k, int i) const { return 0.5 * ((k + 2 * i) % 4) - 0.7; }
  VectorXs operator()(const ConstVectorRef &x) const override {
    calls++;
    Vec r(nr());
    for (int k = 0; k < nr(); k++) {
      double l = 0;
      for (int i = 0; i < x.size(); i++)
        l += w(k, i) * x[i];
      r[k] = deg == 1 ? l + 1 : deg == 2 ? l * l - l + k : l * l * l + l * l;
    }
    return r;
  }
  Mat ambient(const Vec &x) const { // d r / d x (nr, nx)
    Mat J(nr(), nx());
    for (int k = 0; k < nr(); k++) {
      double l = 0;
      for (int i = 0; i < x.size(); i++)
        l += w(k, i) * x[i];
      double d = deg == 1 ? 1 : deg == 2 ? 2 * l - 1 : 3 * l * l + 2 * l;
      for (int i = 0; i < x.size(); i++)
        J(k, i) = d * w(k, i);
    }
    return J;
  }
  Mat exact(const Vec &x) const {
    // d x(+)e / d e at 0, by extrapolated differences of the retraction (smooth, known spaces)
    Mat T(nx(), ndx());
    for (int i = 0; i < ndx(); i++) {
      auto D = [&](double h) {
        Vec e = Vec::Zero(ndx());
        e[i] = h;
        return Vec((m.integrate(x, e) - m.integrate(x, -e)) / (2 * h));
      };
      T.col(i) = (4 * D(1e-3) - D(2e-3)) / 3;
    }
    return ambient(x) * T;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    jcalls++;
    J = exact(x);
  }
};
static void fill(Ctx &c, Mat &big, int r, int cc, int style) {
  big = Mat::Constant(r + 3, cc + 2, style == 0 ? 0. : style == 1 ? 1e8 : QNAN);
}
static bool border_ok(const Mat &big, int r, int cc, int style) {
  for (int i = 0; i < big.rows(); i++)
    for (int j = 0; j < big.cols(); j++)
      if (i < 1 || i >= 1 + r || j < 1 || j >= 1 + cc) {
        double e = style == 0 ? 0. : style == 1 ? 1e8 : QNAN;
        if (!(big(i, j) == e || (e != e && big(i, j) != big(i, j))))
          return false;
      }
  return true;
}
static void first(Ctx &c) {
  Spc s = space(c.choose(7, "space"));
  int nr = c.range(0, 3, "nr"), deg = c.range(1, 3, "deg");
  double eps = c.pick({1e-4, 1e-3, 1e-5, 1e-2}, "eps");
  c.shard();
  int style = c.choose(3, "buffer");
  Poly f(*s.m, nr, deg);
  FD1 fd(*s.m, f, eps);
  std::string w = s.name + " nr=" + str(nr) + " deg=" + str(deg) + " eps=" + str(eps) + ": ";
  c.require(fd.nx() == f.nx() && fd.ndx() == f.ndx() && fd.nr() == nr, "dims", w);
  int npts = c.thorough ? 6 : 4;
  for (int k = 0; k < npts; k++) {
    Vec x = point(*s.m, k), xc = x;
    int before = f.calls;
    Vec val = fd(x);
    c.require(f.calls == before + 1 && same(val, f(x)), "value-passthrough", w);
    Mat big;
    fill(c, big, nr, s.m->ndx(), style);
    fd.computeJacobian(x, big.block(1, 1, nr, s.m->ndx()));
    Mat J = big.block(1, 1, nr, s.m->ndx()), E = f.exact(x);
    // |third derivative| of the family along a unit direction is below 100
    double tol = 100 * eps * eps + 1e-12 / eps + 1e-9;
    c.require(close(J, E, 0, tol), "jacobian", w + "x=" + str(x) + " got " + str(J) + " expected " + str(E));
    if (deg <= 2 && s.m->nx() == s.m->ndx()) // exact for quadratics on a flat space
      c.require(close(J, E, 0, 1e-11 / eps), "jacobian-quadratic", w + str(J) + " expected " + str(E));
    c.require(border_ok(big, nr, s.m->ndx(), style) && same(x, xc), "writes-outside", w);
    Mat J2 = fd.computeJacobian(x); // allocating overload
    c.require(same(J2, J), "overload", w);
    // the step can be changed, and the wrapped function is not copied
    fd.fd_eps = eps * 2;
    Mat J3 = fd.computeJacobian(x);
    double tol3 = 400 * eps * eps + 1e-12 / eps + 1e-9;
    c.require(close(J3, E, 0, tol3), "jacobian-eps", w);
    fd.fd_eps = eps;
    c.step(4);
    c.obs(hashm(J, uint64_t(k)));
  }
}
// second derivatives: column i is the derivative of J'v along tangent direction i
static void second(Ctx &c) {
  Spc s = space(c.choose(7, "space"));
  int nr = c.range(0, 3, "nr"), deg = c.range(1, 3, "deg");
  double eps = c.pick({1e-4, 1e-3, 1e-2}, "eps");
  c.shard();
  int style = c.choose(3, "buffer");
  const int nd = s.m->ndx();
  Poly f(*s.m, nr, deg);
  FD2 fd(*s.m, f, eps);
  std::string w = s.name + " nr=" + str(nr) + " deg=" + str(deg) + " eps=" + str(eps) + ": ";
  c.require(fd.nx() == f.nx() && fd.ndx() == nd && fd.nr() == nr, "dims2", w);
  int npts = c.thorough ? 5 : 3;
  for (int k = 0; k < npts; k++) {
    Vec x = point(*s.m, k);
    c.require(same(fd(x), f(x)), "value-passthrough", w);
    Mat J(nr, nd);
    fd.computeJacobian(x, J);
    c.require(same(J, f.exact(x)), "jacobian-passthrough", w);
    for (int l = 0; l < 3; l++) {
      Vec v(nr);
      for (int i = 0; i < nr; i++)
        v[i] = l == 0 ? 1. : l == 1 ? (i == 0 ? -2. : 0.) : 0.5 * i - 1;
      Mat E(nd, nd);
      for (int i = 0; i < nd; i++) {
        auto D = [&](double h) {
          Vec e = Vec::Zero(nd);
          e[i] = h;
          return Vec((f.exact(s.m->integrate(x, e)) - f.exact(s.m->integrate(x, -e))).transpose() * v / (2 * h));
        };
        E.col(i) = (4 * D(1e-3) - D(2e-3)) / 3;
      }
      Mat big;
      fill(c, big, nd, nd, style);
      fd.vectorHessianProduct(x, v, big.block(1, 1, nd, nd));
      Mat H = big.block(1, 1, nd, nd);
      double tol = 200 * eps * eps + 1e-8;
      c.require(close(H, E, 0, tol), "vector-hessian", w + "v=" + str(v) + " x=" + str(x) + " got " + str(H) + " expected " + str(E));
      c.require(border_ok(big, nd, nd, style), "writes-outside", w);
      c.obs(hashm(H, uint64_t(l)));
      c.step();
    }
  }
}
// wrapping a first-order wrapper again, and agreement with exact second derivatives
static void nested(Ctx &c) {
  int n = c.range(1, 4, "n"), nr = c.range(1, 3, "nr"), salt = c.choose(4, "salt");
  c.shard();
  VSpace sp(n);
  QuadF q(n, nr, salt);
  FD1 f1(sp, q, 1e-4);
  FD2 f2(sp, f1, 1e-3), f3(sp, q, 1e-4);
  for (int k = 0; k < 4; k++) {
    Vec x = point(sp, k), v = Vec::LinSpaced(nr, 1, -0.5);
    Mat H(n, n), H2(n, n), H3(n, n);
    q.vectorHessianProduct(x, v, H);
    f2.vectorHessianProduct(x, v, H2);
    f3.vectorHessianProduct(x, v, H3);
    // dJ'v/dx of the polynomial is the symmetric part pattern of A
    c.require(close(H2, H, 0, 1e-6), "nested-hessian", str(H2) + " expected " + str(H));
    c.require(close(H3, H, 0, 1e-9), "exact-quadratic-hessian", str(H3) + " expected " + str(H));
    Mat J(nr, n), J1(nr, n);
    q.computeJacobian(x, J);
    f2.computeJacobian(x, J1);
    c.require(close(J1, J, 0, 1e-9), "nested-jacobian", str(J1));
    c.obs(hashm(H2));
    c.step(3);
  }
}
int main(int argc, char **argv) {
  mc::Main m("C26");
  m.note = "all test spaces (flat, curved, product, bundle), polynomial degrees 1-3, residual sizes 0-3, step sizes, points, output buffer contents";
  m.assumptions = {"reference derivatives: chain rule with Richardson-extrapolated retraction derivatives; error bounds proportional to the squared step"};
  m.add("first", first);
  m.add("second", second);
  m.add("nested", nested);
  return m.run(argc, argv);
}
