// C14: a product of constraint sets acts blockwise, parameters included.
#include "pn.hpp"
using namespace pn;
using mc::Ctx;
using ActiveType = CSet::ActiveType;

struct Node {
  polymorphic<CSet> set;
  std::vector<Comp> comps;
  std::string desc;
};
static Node leaf(int k, int n, int salt) {
  if (k == 0)
    return {EqSet{}, std::vector<Comp>(n, Comp{EQ}), "eq" + str(n)};
  if (k == 1)
    return {NegSet{}, std::vector<Comp>(n, Comp{NEG}), "neg" + str(n)};
  if (k == 2)
    return {L1Set{}, std::vector<Comp>(n, Comp{L1}), "l1_" + str(n)};
  Vec lo(n), hi(n);
  std::vector<Comp> cs;
  for (int i = 0; i < n; i++) {
    lo[i] = -1. - 0.25 * i - 0.125 * salt;
    hi[i] = 0.5 + 0.5 * i + 0.25 * salt;
    cs.push_back({BOX, lo[i], hi[i]});
  }
  BoxSet b(lo, hi);
  return {b, cs, "box" + str(n)};
}
// A product of `k` components; a component may itself be a product (depth 1).
static Node build(Ctx &c, int maxk, int depth) {
  int k = c.range(0, maxk, "components");
  std::vector<polymorphic<CSet>> sets;
  std::vector<Eigen::Index> sizes;
  Node out{EqSet{}, {}, "("};
  for (int i = 0; i < k; i++) {
    int kind = c.choose(depth > 0 ? 5 : 4, "kind");
    Node n = kind == 4 ? build(c, 2, depth - 1) : leaf(kind, c.range(0, 2, "size"), i);
    sets.push_back(n.set);
    sizes.push_back(long(n.comps.size()));
    out.comps.insert(out.comps.end(), n.comps.begin(), n.comps.end());
    out.desc += n.desc + ",";
  }
  out.desc += ")";
  ProdSet p(sets, sizes);
  out.set = p;
  return out;
}

static void check_at(Ctx &c, const CSet &s, const std::vector<Comp> &cs, double mu,
                     const Vec &z, const std::string &w) {
  const int n = int(z.size());
  Vec p(n), q(n);
  double g = 0;
  Eigen::Matrix<bool, -1, 1> a(n);
  for (int i = 0; i < n; i++) {
    p[i] = prox1(cs[i], mu, z[i]);
    q[i] = z[i] - p[i];
    g += value1(cs[i], p[i]);
    a[i] = active1(cs[i], mu, z[i]);
  }
  std::string at = w + " mu=" + str(mu) + " z=" + str(z) + " ";
  Vec o = Vec::Constant(n, 99);
  s.projection(z, o);
  c.require(close(o, p, 1e-13, 1e-13), "product-projection", at + str(o) + " expected " + str(p));
  o.setConstant(99);
  s.normalConeProjection(z, o);
  c.require(close(o, q, 1e-13, 1e-13), "product-normal-cone", at + str(o) + " expected " + str(q));
  c.require(close(s.evaluate(p), g, 1e-13, 1e-13), "product-value", at + str(s.evaluate(p)));
  if (n) {
    o = z;
    s.projection(o, o);
    c.require(close(o, p, 1e-13, 1e-13), "product-in-place", at);
  }
  Vec env_out = Vec::Constant(n, 3);
  double env = s.computeMoreauEnvelope(z, env_out);
  c.require(close(env, g + q.squaredNorm() / (2 * mu), 1e-11, 1e-12), "product-envelope",
            at + str(env) + " expected " + str(g + q.squaredNorm() / (2 * mu)));
  c.require(close(env_out, q, 1e-13, 1e-13), "product-envelope-out", at);
  ActiveType act(n);
  for (int i = 0; i < n; i++)
    act[i] = !a[i];
  s.computeActiveSet(z, act);
  for (int i = 0; i < n; i++)
    c.require(act[i] == a[i], "product-active-set", at + "component " + str(i));
  Mat big = Mat::Constant(n + 2, 4, 9.0);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < 2; j++)
      big(i + 1, j + 1) = 1.0 + i + 10 * j;
  Mat bp = big, bn = big, ep = big, en = big;
  s.applyProjectionJacobian(z, bp.block(1, 1, n, 2));
  s.applyNormalConeProjectionJacobian(z, bn.block(1, 1, n, 2));
  for (int i = 0; i < n; i++)
    (a[i] ? ep : en).block(1 + i, 1, 1, 2).setZero();
  c.require(same(bp, ep), "product-projection-jacobian", at + str(bp));
  c.require(same(bn, en), "product-normal-jacobian", at + str(bn));
  c.step(9);
  c.obs(hashm(p, hashm(q, mc::hash_str(w))));
}
static Vec point(int n, int v) {
  static const double a[] = {-3, 0.75, 0., -0.4, 2.5, -1.0625, 0.125, 0.05, -0.05};
  Vec z(n);
  for (int i = 0; i < n; i++)
    z[i] = a[(i * (1 + v) + 2 * v) % 9];
  return z;
}

static void structure(Ctx &c) {
  Node nd = build(c, c.thorough ? 3 : 2, 1);
  c.shard();
  int n = int(nd.comps.size());
  // every sequence of three parameter values, evaluated after each
  const auto &P = *nd.set;
  const int T = c.thorough ? 3 : 2;
  for (int t = 0; t < T; t++) {
    double mu = c.pick<double>({0.05, 1.0, 0.4}, "mu");
    nd.set->setProxParameter(mu);
    c.require(P.mu() == mu && close(P.mu_inv(), 1 / mu, 1e-14), "product-mu", nd.desc);
    for (int v = 0; v < 4; v++)
      check_at(c, P, nd.comps, mu, point(n, v), nd.desc);
    if (t == 1) {
      polymorphic<CSet> cp(nd.set);
      cp->setProxParameter(9.);
      check_at(c, *nd.set, nd.comps, mu, point(n, 1), nd.desc + " after copy");
      check_at(c, *cp, nd.comps, 9., point(n, 2), nd.desc + " the copy");
    }
  }
  c.sample("product", nd.desc);
}
// Every point of a grid on a flat product of three different blocks.
static void grid(Ctx &c) {
  std::vector<polymorphic<CSet>> sets;
  std::vector<Eigen::Index> sizes;
  std::vector<Comp> comps;
  std::string d = "[";
  int perm = c.choose(24, "order");
  std::vector<int> kinds = {0, 1, 2, 3};
  for (int i = 0; i < perm; i++)
    std::next_permutation(kinds.begin(), kinds.end());
  int sz = c.choose(16, "sizes");
  for (int i = 0; i < 4; i++) {
    Node n = leaf(kinds[i], 1 + ((sz >> i) & 1), i);
    sets.push_back(n.set);
    sizes.push_back(long(n.comps.size()));
    comps.insert(comps.end(), n.comps.begin(), n.comps.end());
    d += n.desc + ",";
  }
  ProdSet p(sets, sizes);
  c.shard();
  p.setProxParameter(0.5);
  c.require(p.components().size() == 4 && p.blockSizes() == sizes, "product-accessors", d);
  int n = int(comps.size());
  const double al[] = {-2., 0., 0.5, 3.};
  Vec z(n);
  long tot = 1;
  int dims = std::min(n, c.thorough ? 8 : 5);
  for (int i = 0; i < dims; i++)
    tot *= 4;
  for (long k = 0; k < tot; k++) {
    long q = k;
    for (int i = 0; i < n; i++) {
      z[i] = al[i < dims ? q % 4 : (k + i) % 4];
      if (i < dims)
        q /= 4;
    }
    check_at(c, p, comps, 0.5, z, d);
  }
}
static void ctor_errors(Ctx &c) {
  int a = c.range(0, 3, "components"), b = c.range(0, 3, "sizes");
  c.shard();
  std::vector<polymorphic<CSet>> sets;
  std::vector<Eigen::Index> sizes;
  for (int i = 0; i < a; i++)
    sets.emplace_back(NegSet{});
  for (int i = 0; i < b; i++)
    sizes.push_back(1);
  bool thrown = false;
  try {
    ProdSet p(sets, sizes);
  } catch (const std::runtime_error &) {
    thrown = true;
  }
  c.require(thrown == (a != b), "product-ctor", str(a) + " components, " + str(b) + " sizes");
  c.obs(mc::mix(a, b));
}
int main(int argc, char **argv) {
  mc::Main m("C14");
  m.note = "states: distinct (structure, projection, normal-cone) observations; transitions: choices and compared operations; traces: executions of the real product compared with the componentwise oracle";
  m.assumptions = {"products of at most 3 components (4 in the flat grid), nesting depth 2, block sizes 0..2"};
  m.add("structure", structure);
  m.add("grid", grid);
  m.add("ctor_errors", ctor_errors);
  return m.run(argc, argv);
}
