// C15: the library's spaces satisfy the laws of a manifold with retraction.
#include "manifolds.hpp"
using namespace pn;
using mc::Ctx;

struct Case {
  std::string name;
  polymorphic<Manifold> m;
};
template <int N> using VN = VectorSpaceTpl<double, N, 0>;
using TBV = TangentBundleTpl<VSpace>;
using TB2 = TangentBundleTpl<SO2>;
using TB3 = TangentBundleTpl<SO3>;
using TTB2 = TangentBundleTpl<TB2>;
using TBP = TangentBundleTpl<Prod>;

static Prod mixed() {
  Prod p;
  p.addComponent(VSpace(2));
  p.addComponent(SO3{});
  p.addComponent(TB2(SO2{}));
  return p;
}
static int ncases() { return 16; }
static Case make(int k) {
  switch (k) {
  case 0: return {"R1", VSpace(1)};
  case 1: return {"R3", VSpace(3)};
  case 2: return {"R2 (static)", VN<2>{}};
  case 3: return {"R1 (static)", VN<1>{}};
  case 4: return {"T(R1)", TBV(1)};
  case 5: return {"T(R3)", TBV(VSpace(3))};
  case 6: return {"T(R2 static)", TangentBundleTpl<VN<2>>(VN<2>{})};
  case 7: return {"T(SO2)", TB2(SO2{})};
  case 8: return {"T(SO3)", TB3(SO3{})};
  case 9: return {"T(T(SO2))", TTB2(TB2(SO2{}))};
  case 10: return {"R2 x SO3 x T(SO2)", mixed()};
  case 11: return {"T(R2 x SO3 x T(SO2))", TBP(mixed())};
  case 12: { Prod p; p.addComponent(TB3(SO3{})); p.addComponent(VSpace(1)); p.addComponent(SO2{}); return {"T(SO3) x R1 x SO2", p}; }
  case 13: { Prod p; p.addComponent(VSpace(0)); p.addComponent(TBV(2)); return {"R0 x T(R2)", p}; }
  case 14: return {"SO2 x SO2", Prod(polymorphic<Manifold>(SO2{}), polymorphic<Manifold>(SO2{}))};
  default: return {"R0", VSpace(0)};
  }
}
// tangent coordinates of each case without a bound on their size
static std::string flat(int k) {
  static const char *f[] = {"1", "111", "11", "1", "11", "111111", "1111", "01", "000111", "0111",
                            "1100001", "11000011111111", "00011110", "1111", "00", ""};
  return f[k];
}
static Vec far_(int k, Vec v, double s) {
  std::string f = flat(k);
  for (long i = 0; i < v.size(); i++)
    if (f[size_t(i)] == '1')
      v[i] *= s;
  return v;
}
// deterministic points: integrate small distinct tangent vectors from neutral
static Vec tangent(int n, int k, double amp) {
  static const double a[] = {0.7, -0.4, 0.25, -0.9, 0.55, 0.1, -0.65, 0.35, 0.8, -0.15, 0.45};
  Vec v(n);
  for (int i = 0; i < n; i++)
    v[i] = amp * a[(i * (k + 1) + 3 * k) % 11];
  return v;
}

static void laws(Ctx &c, const Manifold &M, const std::string &w, const Vec &x, const Vec &y,
                 const Vec &v, double u) {
  const int nx = M.nx(), nd = M.ndx();
  const double T = 1e-9;
  std::string at = w + " x=" + str(x) + " y=" + str(y) + " v=" + str(v) + " u=" + str(u) + ": ";
  auto eqx = [&](const Vec &a, const Vec &b) { return a.size() == nx && close(a, b, T, T); };
  Vec d = M.difference(x, y);
  c.require(d.size() == nd, "size", at);
  c.require(eqx(M.integrate(x, Vec::Zero(nd)), x), "zero-step", at + str(M.integrate(x, Vec::Zero(nd))));
  c.require(close(M.difference(x, x), Vec::Zero(nd), T, T), "zero-difference", at + str(M.difference(x, x)));
  c.require(eqx(M.integrate(x, d), y), "integrate-difference", at + str(M.integrate(x, d)));
  Vec xv = M.integrate(x, v);
  c.require(close(M.difference(x, xv), v, T, T), "difference-integrate", at + str(M.difference(x, xv)));
  c.require(M.isNormalized(xv) && M.isNormalized(x), "stays-on-manifold", at);
  // output-argument forms overwrite everything, and nothing else
  Vec big = Vec::Constant(nx + 2, 77.);
  M.integrate(x, v, big.segment(1, nx));
  c.require(same(big.segment(1, nx), xv) && big[0] == 77. && big[nx + 1] == 77., "integrate-out", at + str(big));
  big = Vec::Constant(nd + 2, 77.);
  M.difference(x, y, big.segment(1, nd));
  c.require(same(big.segment(1, nd), d) && big[0] == 77. && big[nd + 1] == 77., "difference-out", at + str(big));
  // interpolation: a geodesic from x to y
  Vec z = M.interpolate(x, y, u);
  c.require(z.size() == nx && close(M.difference(x, z), u * d, 1e-8, 1e-8), "interpolate",
            at + "at " + str(M.difference(x, z)) + " instead of " + str(Vec(u * d)));
  c.require(eqx(M.interpolate(x, y, 0.), x) && eqx(M.interpolate(x, y, 1.), y), "interpolate-ends", at);
  big = Vec::Constant(nx + 2, 77.);
  M.interpolate(x, y, u, big.segment(1, nx));
  c.require(same(big.segment(1, nx), z) && big[0] == 77. && big[nx + 1] == 77., "interpolate-out", at + str(big));
  // Jacobians
  for (int arg = 0; arg < 2; arg++) {
    std::string aa = at + "arg " + str(arg) + " ";
    Mat ref = num_jac(nd, nd, [&](const Vec &e) -> Vec {
      return M.difference(xv, arg == 0 ? M.integrate(M.integrate(x, e), v) : M.integrate(x, v + e));
    });
    Mat J = Mat::Constant(nd + 2, nd + 2, 55.);
    M.Jintegrate(x, v, J.block(1, 1, nd, nd), arg);
    Mat Ji = J.block(1, 1, nd, nd);
    c.require(close(Ji, ref, 1e-6, 1e-6), "Jintegrate", aa + str(Ji) + " expected " + str(ref));
    J.block(1, 1, nd, nd).setConstant(55.);
    c.require((J.array() == 55.).all(), "Jintegrate-out", aa);
    Mat in(nd, 2), tr;
    for (int i = 0; i < nd; i++)
      in.row(i) << 1. + i, 0.5 - 0.3 * i * i;
    Mat B = Mat::Constant(nd + 2, 4, 55.);
    B.block(1, 1, nd, 2) = in;
    M.JintegrateTransport(x, v, B.block(1, 1, nd, 2), arg);
    tr = B.block(1, 1, nd, 2);
    c.require(close(tr, Ji * in, 1e-9, 1e-9), "transport", aa + str(tr) + " expected " + str(Mat(Ji * in)));
    B.block(1, 1, nd, 2).setConstant(55.);
    c.require((B.array() == 55.).all(), "transport-out", aa);
    ref = num_jac(nd, nd, [&](const Vec &e) -> Vec {
      return arg == 0 ? M.difference(M.integrate(x, e), y) : M.difference(x, M.integrate(y, e));
    });
    J.setConstant(55.);
    M.Jdifference(x, y, J.block(1, 1, nd, nd), arg);
    Mat Jd = J.block(1, 1, nd, nd);
    c.require(close(Jd, ref, 1e-5, 1e-5), "Jdifference", aa + str(Jd) + " expected " + str(ref));
    J.block(1, 1, nd, nd).setConstant(55.);
    c.require((J.array() == 55.).all(), "Jdifference-out", aa);
  }
  c.step(18);
  c.obs(hashm(xv, hashm(d, mc::hash_str(w))));
}

static void all(Ctx &c) {
  int kk = c.choose(ncases(), "space");
  Case k = make(kk);
  const double far = c.pick<double>({1., 40., 3000.}, "far"); // states and velocities far from the origin
  int px = c.choose(c.thorough ? 5 : 4, "x"), py = c.choose(c.thorough ? 5 : 4, "y"), pv = c.choose(c.thorough ? 5 : 3, "v");
  double u = c.pick<double>({0., 0.25, 0.5, 1., 0.8}, "u");
  c.shard();
  const Manifold &M = *k.m;
  const double amp[] = {0., 0.5, 0.9, 0.7, 0.3};
  Vec n = M.neutral();
  c.require(n.size() == M.nx() && M.isNormalized(n), "neutral", k.name);
  c.require(int(flat(kk).size()) == M.ndx(), "tangent-size", k.name);
  Vec x = M.integrate(n, far_(kk, tangent(M.ndx(), px, amp[px]), far));
  Vec y = M.integrate(x, far_(kk, tangent(M.ndx(), py + 2, amp[py]), -far));
  laws(c, M, k.name, x, y, far_(kk, tangent(M.ndx(), pv + 5, amp[pv]), far), u);
  Vec r = M.rand();
  c.require(r.size() == M.nx() && r.allFinite() && M.isNormalized(r), "rand", k.name);
  c.require(M.tangentSpace().nx() == M.ndx() && M.tangentSpace().ndx() == M.ndx(), "tangent-space", k.name);
  if (px == 1 && py == 2)
    c.sample(k.name, str(x));
}
// Axis-aligned states: a single non-zero coordinate in the point, the other
// point and the tangent vector, so that no block can stand in for another.
static void axes(Ctx &c) {
  Case k = make(c.choose(ncases() - 1, "space"));
  const Manifold &M = *k.m;
  const int nd = M.ndx();
  int i = c.choose(nd, "i"), j = c.choose(nd, "j");
  c.shard();
  Vec n = M.neutral();
  for (int l = 0; l < nd; l++) {
    Vec a = Vec::Zero(nd), b = a, v = a;
    a[i] = 0.6;
    b[j] = -0.8;
    v[l] = 0.4;
    laws(c, M, k.name, M.integrate(n, a), M.integrate(n, b), v, 0.25);
  }
}
static void bundle(Ctx &c) {
  int k = c.choose(4, "base");
  int n = c.range(1, 3, "dim");
  c.shard();
  auto one = [&](const auto &T, const Manifold &B, const std::string &w) {
    c.require(T.nx() == B.nx() + B.ndx() && T.ndx() == 2 * B.ndx(), "bundle-sizes", w);
    Vec z = T.neutral();
    c.require(same(z.head(B.nx()), B.neutral()) && z.tail(B.ndx()).isZero(0), "bundle-neutral", w + str(z));
    c.require(T.getBaseSpace().nx() == B.nx() && T.getBaseSpace().ndx() == B.ndx(), "bundle-base", w);
    Vec x = B.integrate(B.neutral(), tangent(B.ndx(), 1, .5)), full(T.nx());
    full << x, tangent(B.ndx(), 2, 1.);
    c.require(same(T.getBasePoint(full), x), "bundle-base-point", w);
    Vec tv = tangent(T.ndx(), 3, 1.);
    c.require(same(T.getBaseTangent(tv), tv.head(B.ndx())), "bundle-base-tangent", w);
    Vec wr = full;
    T.getBasePointWrite(wr).setConstant(5.);
    c.require((wr.head(B.nx()).array() == 5.).all() && same(wr.tail(B.ndx()), full.tail(B.ndx())), "bundle-write", w);
    wr = tv;
    T.getTangentHeadWrite(wr).setConstant(5.);
    c.require((wr.head(B.ndx()).array() == 5.).all() && same(wr.tail(B.ndx()), tv.tail(B.ndx())), "bundle-write", w);
    full.head(B.nx()) *= 1.5; // off the base manifold, unless it is flat
    c.require(T.isNormalized(full) == B.isNormalized(full.head(B.nx())), "bundle-normalized", w);
    c.obs(hashm(full, mc::hash_str(w)));
  };
  if (k == 0)
    one(TBV(n), VSpace(n), "T(Rn)");
  if (k == 1)
    one(TB2(), SO2{}, "T(SO2)");
  if (k == 2)
    one(TB3(SO3{}), SO3{}, "T(SO3)");
  if (k == 3)
    one(TBP(mixed()), mixed(), "T(product)");
  VSpace v(n);
  Mat J = Mat::Zero(n, n);
  bool thrown = false;
  try {
    v.Jdifference(Vec::Zero(n), Vec::Zero(n), J, 2);
  } catch (const std::runtime_error &) {
    thrown = true;
  }
  c.require(thrown, "wrong-argument", "Jdifference accepts argument index 2");
}
int main(int argc, char **argv) {
  mc::Main m("C15");
  m.note = "states: distinct (space, point, difference) observations; transitions: choices and laws compared; traces: executions of the real spaces";
  m.assumptions = {"Pinocchio-backed spaces are absent here: curvature is exercised with SO(2) and SO(3) base spaces written in the harness",
                   "points and tangent vectors within the injectivity radius, on the enumerated grids"};
  m.add("laws", all);
  m.add("axes", axes);
  m.add("bundle", bundle);
  return m.run(argc, argv);
}
