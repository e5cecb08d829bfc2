// C13: every constraint set is a correct proximal operator.
#include "pn.hpp"
using namespace pn;
using mc::Ctx;
using ActiveType = CSet::ActiveType;

struct Inst {
  polymorphic<CSet> set;
  std::vector<Comp> comps;
  std::string desc;
};
static Inst make(Ctx &c, int n) {
  int k = c.choose(4, "kind");
  if (k == 0)
    return {EqSet{}, std::vector<Comp>(n, Comp{EQ}), "equality"};
  if (k == 1)
    return {NegSet{}, std::vector<Comp>(n, Comp{NEG}), "negative-orthant"};
  if (k == 3)
    return {L1Set{}, std::vector<Comp>(n, Comp{L1}), "l1"};
  // box: per-component bounds differ so that an index mix-up is visible
  std::vector<std::pair<double, double>> kinds = {
      {-1, 2}, {0.5, 0.5}, {-INF, 1}, {-2, INF}, {-INF, INF}, {-3, -1}, {1e-9, 1e3}};
  Vec lo(n), hi(n);
  std::vector<Comp> cs;
  int b = c.choose(int(kinds.size()), "bounds");
  for (int i = 0; i < n; i++) {
    auto q = kinds[size_t(b + 2 * i) % kinds.size()];
    lo[i] = q.first;
    hi[i] = q.second;
    cs.push_back({BOX, q.first, q.second});
  }
  BoxSet box(lo, hi);
  return {box, cs, "box" + str(lo) + str(hi)};
}

static std::vector<double> alphabet(double mu, bool thorough) {
  std::vector<double> a = {0.,   0.3,  -0.3, 1.,  -1., 2.,
                           -2.5, mu,   -mu,  1.5 * mu, -0.5 * mu, 1e6, 1e-15, -1e-15, 2.0000000000000004};
  if (thorough)
    for (double d : {-0.0, 0.5, 1e-9, -1e-9, -1e6, -3., 1e3, 1e-300, 7.25, -1.0000001})
      a.push_back(d);
  return a;
}

// All operations of the set at one point, against the scalar oracle.
static void check_point(Ctx &c, const CSet &s, const std::vector<Comp> &cs, double mu,
                        const Vec &z, const std::string &where) {
  const int n = int(z.size());
  Vec p_ref(n), nc_ref(n);
  double g = 0, sq = 0;
  for (int i = 0; i < n; i++) {
    p_ref[i] = prox1(cs[i], mu, z[i]);
    nc_ref[i] = z[i] - p_ref[i];
    g += value1(cs[i], p_ref[i]);
    sq += nc_ref[i] * nc_ref[i];
  }
  const double mag = 1 + infn(z);
  const double tol = 1e-13 * mag;
  Vec p = Vec::Constant(n, 777), q = Vec::Constant(n, 777);
  s.projection(z, p);
  c.require(close(p, p_ref, 1e-13, tol), "projection",
            where + " z=" + str(z) + " P=" + str(p) + " expected " + str(p_ref));
  s.normalConeProjection(z, q);
  c.require(close(q, nc_ref, 1e-13, tol), "normal-cone",
            where + " z=" + str(z) + " N=" + str(q) + " expected " + str(nc_ref));
  // Moreau decomposition of the values actually returned
  c.require(close(Vec(p + q), z, 1e-13, tol), "moreau-decomposition", where + str(z));
  // in place, as the solver calls it
  Vec zz = z;
  s.projection(zz, zz);
  c.require(close(zz, p_ref, 1e-13, tol), "projection-in-place", where + str(z) + str(zz));
  zz = z;
  s.normalConeProjection(zz, zz);
  c.require(close(zz, nc_ref, 1e-13, tol), "normal-cone-in-place", where + str(z) + str(zz));
  // idempotence for projections
  if (n && cs[0].k != L1) {
    Vec pp(n);
    s.projection(p, pp);
    c.require(close(pp, p, 1e-13, tol), "idempotence", where + str(z));
  }
  // value and envelope
  double ev = s.evaluate(p);
  c.require(close(ev, g, 1e-12, tol), "value", where + str(z) + " g=" + str(ev));
  if (mu > 0) {
    Vec out = Vec::Constant(n, 55);
    double env = s.computeMoreauEnvelope(z, out);
    double ref = g + sq / (2 * mu);
    // relative to the terms being summed
    c.require(std::abs(env - ref) <= 1e-11 * (g + sq / (2 * mu) + 1e-300) +
                                         1e-13 * mag * mag / mu * 1e-2 + 1e-13 * mag,
              "envelope", where + " z=" + str(z) + " env=" + str(env) + " expected " + str(ref));
    c.require(close(out, nc_ref, 1e-13, tol), "envelope-output", where + str(z));
    double env2 = s.evaluateMoreauEnvelope(z, out);
    c.require(close(env2, env, 1e-12, 1e-12), "envelope-variants", where + str(z));
  }
  // active set and generalized Jacobians
  ActiveType act(n);
  for (int i = 0; i < n; i++)
    act[i] = (i & 1);
  s.computeActiveSet(z, act);
  ActiveType act2(n);
  for (int i = 0; i < n; i++)
    act2[i] = !(i & 1);
  s.computeActiveSet(z, act2);
  for (int i = 0; i < n; i++) {
    c.require(act[i] == act2[i], "active-not-written", where + str(z));
    int a = active1(cs[i], mu, z[i]);
    c.require(bool(act[i]) == bool(a), "active-set",
                where + " component " + str(i) + " of z=" + str(z) + " active=" +
                    str(int(act[i])));
  }
  for (int m : {0, 1, 5}) {
    // Jacobian inside a larger matrix (strided Ref); guard rows/cols stay put
    Mat big = Mat::Constant(n + 2, m + 2, 9.0);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++)
        big(i + 1, j + 1) = 1.0 + i + 10 * j;
    Mat bigp = big, bign = big;
    s.applyProjectionJacobian(z, bigp.block(1, 1, n, m));
    s.applyNormalConeProjectionJacobian(z, bign.block(1, 1, n, m));
    Mat ep = big, en = big;
    for (int i = 0; i < n; i++) {
      if (act[i])
        ep.block(1 + i, 1, 1, m).setZero();
      else
        en.block(1 + i, 1, 1, m).setZero();
    }
    c.require(same(bigp, ep), "projection-jacobian",
              where + " z=" + str(z) + " J=" + str(bigp) + " expected " + str(ep));
    c.require(same(bign, en), "normal-cone-jacobian",
              where + " z=" + str(z) + " J=" + str(bign) + " expected " + str(en));
  }
  c.step(14);
  c.obs(hashm(p, hashm(q, mc::hash_str(where.substr(0, 6)))));
}

static void points(Ctx &c) {
  int n = c.range(0, 3, "n");
  Inst I = make(c, n);
  double mu = c.pick<double>({1e-2, 1., 0.3, 1e-9, 1e3, 0.5}, "mu");
  if (!c.thorough && n == 3 && !(mu == 0.3 || mu == 1e-2))
    c.prune();
  c.shard();
  I.set->setProxParameter(mu);
  c.require(I.set->mu() == mu && close(I.set->mu_inv(), 1. / mu, 1e-14), "mu-getter", I.desc);
  auto al = alphabet(mu, c.thorough && n < 3);
  // enumerate every point of the grid alphabet^n
  Vec z(n);
  for (int i = 0; i < n; i++)
    z[i] = al[size_t(c.choose(int(al.size()), "z"))];
  // I.set is copied to check that copies carry the parameters
  polymorphic<CSet> cp(I.set);
  check_point(c, *I.set, I.comps, mu, z, I.desc + " mu=" + str(mu));
  check_point(c, *cp, I.comps, mu, z, I.desc + " copy mu=" + str(mu));
  c.count(std::string("kind.") + I.desc.substr(0, 3));
  c.sample(I.desc.substr(0, 3), I.desc + " mu=" + str(mu) + " z=" + str(z));
}

// The prox really minimizes g(p) + |z-p|^2/(2 mu): brute force over a grid of
// candidate points (independent of the closed forms used above).
static void argmin(Ctx &c) {
  Inst I = make(c, 1);
  double mu = c.pick<double>({1., 0.25, 4.}, "mu");
  c.shard();
  I.set->setProxParameter(mu);
  for (int k = -64; k <= 64; k++) {
    Vec z(1), p(1);
    z[0] = k / 8.;
    I.set->projection(z, p);
    auto obj = [&](double y) {
      const Comp &q = I.comps[0];
      if ((q.k == EQ && y != 0) || (q.k == NEG && y > 0) ||
          (q.k == BOX && (y < q.lo || y > q.hi)))
        return INF;
      return value1(q, y) + (z[0] - y) * (z[0] - y) / (2 * mu);
    };
    double f = obj(p[0]);
    c.require(std::isfinite(f), "argmin-membership", I.desc + " z=" + str(z) + " p=" + str(p));
    for (int j = -256; j <= 256; j++) {
      double y = j / 16.;
      c.require(f <= obj(y) + 1e-12, "argmin",
                I.desc + " mu=" + str(mu) + " z=" + str(z) + " p=" + str(p) + " beaten by " + str(y));
      c.step();
    }
    // nonexpansive
    Vec z2(1), p2(1);
    for (int j = -64; j <= 64; j += 3) {
      z2[0] = j / 8.;
      I.set->projection(z2, p2);
      c.require(std::abs(p2[0] - p[0]) <= std::abs(z2[0] - z[0]) + 1e-12, "nonexpansive", I.desc);
    }
    c.obs(mc::mix(mc::hash_str(I.desc), mc::hash_double(p[0])));
  }
}

// Histories of setProxParameter / evaluations / copies: only the last
// parameter and the last point matter.
static void histories(Ctx &c) {
  int n = c.range(1, 2, "n");
  Inst I = make(c, n);
  c.shard();
  const int depth = c.thorough ? 5 : 4;
  double mu = 1;
  I.set->setProxParameter(mu);
  Vec zs[2] = {Vec::LinSpaced(n, -1.2, 0.7), Vec::LinSpaced(n, 2.6, -0.2)};
  std::string h = I.desc;
  polymorphic<CSet> cur(I.set);
  for (int d = 0; d < depth; d++) {
    int op = c.choose(6, "op");
    h += " op" + str(op);
    switch (op) {
    case 0:
    case 1:
      mu = op ? 0.05 : 2.0;
      cur->setProxParameter(mu);
      break;
    case 2: {
      Vec o(n);
      cur->computeMoreauEnvelope(zs[0], o);
      break;
    }
    case 3: {
      Mat J = Mat::Ones(n, 2);
      cur->applyNormalConeProjectionJacobian(zs[1], J);
      break;
    }
    case 4: {
      polymorphic<CSet> other(cur);
      other->setProxParameter(17.); // a copy is independent
      cur = polymorphic<CSet>(cur);
      break;
    }
    case 5: {
      polymorphic<CSet> moved(std::move(cur));
      cur = std::move(moved);
      break;
    }
    }
    c.require(cur->mu() == mu && close(cur->mu_inv(), 1. / mu, 1e-14), "mu-history", h);
    check_point(c, *cur, I.comps, mu, zs[d & 1], h);
  }
}

int main(int argc, char **argv) {
  mc::Main m("C13");
  m.note = "states: distinct (set, projection, normal-cone) observations; transitions: choice points and operations compared; traces: executions of the real sets compared with the scalar oracle";
  m.assumptions = {"values outside the enumerated alphabets, dimension > 3 and scalar types other than double are not explored",
                   "z values are finite; NaN/Inf inputs belong to the fault property"};
  m.add("points", points);
  m.add("argmin", argmin);
  m.add("histories", histories);
  return m.run(argc, argv);
}
