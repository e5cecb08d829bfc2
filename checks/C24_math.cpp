// C24: norms, finiteness tests, sign, closeness and polynomials mean what they say.
#include "pn.hpp"
#include "proxsuite-nlp/linesearch-armijo.hpp"
#include "proxsuite-nlp/math.hpp"
using namespace pn;
using mc::Ctx;
namespace M = proxsuite::nlp::math;

static const std::vector<double> VALS{0., -0., 1., -1., 2.5, -1e300, 1e-310, INF, -INF, QNAN};

static void norms(Ctx &c) {
  int r = c.range(0, 3, "rows"), k = c.range(0, 2, "cols");
  c.shard();
  if (r * k > (c.thorough ? 6 : 4))
    c.prune();
  Mat m(r, k);
  bool bad = false;
  double mx = 0;
  const size_t nv = r * k > 3 ? 7 : VALS.size();
  for (int i = 0; i < r; i++)
    for (int j = 0; j < k; j++) {
      double v = VALS[size_t(c.choose(int(nv), "v"))];
      m(i, j) = v;
      bad |= !std::isfinite(v);
      if (std::isfinite(v))
        mx = std::max(mx, std::abs(v));
    }
  c.require(M::check_value(m) == bad, "check-value", str(m));
  c.require(M::check_value(Mat(m.transpose())) == bad, "check-value", str(m));
  if (r * k > 0)
    c.require(M::check_value((m * 1.).col(0)) == !m.col(0).allFinite(), "check-value-expr", str(m));
  if (!bad) {
    c.require(M::infty_norm(m) == mx, "infty-norm", str(m) + " gives " + str(M::infty_norm(m)));
    if (r * k > 0 && std::isfinite(2 * mx))
      c.require(M::infty_norm(m * 2. - m) == mx, "infty-norm-expr", str(m));
    std::vector<Vec> parts;
    for (int j = 0; j < k; j++)
      parts.push_back(m.col(j));
    c.require(M::infty_norm(parts) == mx, "infty-norm-list", str(m));
    parts.insert(parts.begin(), Vec());
    parts.push_back(Vec::Constant(1, 1e301));
    c.require(M::infty_norm(parts) == 1e301, "infty-norm-list", "empty block first, largest last");
  }
  c.obs(hashm(m));
  c.step(4);
}
static void scalars(Ctx &c) {
  double a = c.pick(VALS, "a"), b = c.pick(VALS, "b");
  c.shard();
  c.require(M::check_value(a) == !std::isfinite(a), "check-scalar", str(a));
  c.require(M::check_scalar(float(b)) == !std::isfinite(float(b)), "check-scalar", str(b));
  double sg = M::sign(a);
  if (a == a)
    c.require(sg == (a > 0 ? 1. : a < 0 ? -1. : 0.), "sign", str(a) + " -> " + str(sg));
  c.require(M::sign(int(3)) == 1 && M::sign(int(-7)) == -1 && M::sign(0) == 0, "sign", "int");
  c.require(M::sign(0.25) == 1. && M::sign(-0.25) == -1., "sign", "fraction");
  if (std::isfinite(a) && std::isfinite(b) && std::isfinite(a - b)) {
    for (double p : {1e-12, 1e-3, 0.5}) {
      bool e = std::abs(a - b) < p * (1 + std::max(std::abs(a), std::abs(b)));
      c.require(M::scalar_close(a, b, p) == e && M::scalar_close(b, a, p) == e, "scalar-close", str(a) + " " + str(b) + " " + str(p));
    }
    c.require(M::scalar_close(a, a), "scalar-close", str(a));
    c.require(M::scalar_close(a, b) == (std::abs(a - b) < 2.220446049250313e-16 * (1 + std::max(std::abs(a), std::abs(b)))), "scalar-close-default", str(a) + " " + str(b));
  }
  c.obs(mc::mix(mc::hash_double(a), mc::hash_double(b)));
  c.step(4);
}
// coefficients in decreasing order of degree
static void polynomial(Ctx &c) {
  int deg = c.range(0, c.thorough ? 5 : 4, "degree");
  Vec co(deg + 1);
  std::vector<double> al = deg <= 3 ? std::vector<double>{0, 1, -2, 0.5} : std::vector<double>{0, -2, 0.5};
  for (int i = 0; i <= deg; i++)
    co[i] = c.pick(al, "c");
  c.shard();
  PolynomialTpl<double> p(co);
  std::string w = "coeffs " + str(co);
  c.require(p.degree() == deg && same(p.coeffs, co), "degree", w);
  PolynomialTpl<double> q = p;
  Vec cur = co;
  for (int k = 0; k <= deg + 1; k++) { // all derivatives, down to zero
    for (double x : {0., 1., -1., 0.5, -3., 10.}) {
      double e = 0, pw = 1;
      for (int i = int(cur.size()) - 1; i >= 0; i--, pw *= x)
        e += cur[i] * pw;
      c.require(close(q.evaluate(x), e, 1e-12, 1e-12), "evaluate", w + " derivative " + str(k) + " at " + str(x));
    }
    Vec nx = Vec::Zero(std::max<long>(1, cur.size() - 1));
    for (int i = 0; i + 1 < cur.size(); i++)
      nx[i] = cur[i] * double(cur.size() - 1 - i);
    PolynomialTpl<double> d = q.derivative();
    c.require(same(d.coeffs, nx), "derivative", w + " derivative " + str(k + 1) + " is " + str(d.coeffs) + " expected " + str(nx));
    c.require(same(q.coeffs, cur), "derivative-const", w);
    q = d;
    cur = nx;
    c.step(7);
  }
  c.obs(hashm(co));
}
int main(int argc, char **argv) {
  mc::Main m("C24");
  m.note = "all small matrices over a value set with signed zeros, subnormals, infinities and NaN; all pairs of scalars; all small polynomials and all their derivatives";
  m.assumptions = {"the norm of non-finite data is not specified"};
  m.add("norms", norms);
  m.add("scalars", scalars);
  m.add("polynomial", polynomial);
  return m.run(argc, argv);
}
