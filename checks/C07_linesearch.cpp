// C07: the Armijo line search, for every behaviour of the merit function.
// The merit function is the environment: at each trial step it may answer with
// sufficient decrease, borderline decrease, too little decrease, an increase,
// infinity, NaN, or throw; every sequence of answers is explored.
#include "pn.hpp"
#include "proxsuite-nlp/linesearch-armijo.hpp"
using namespace pn;
using mc::Ctx;
using LS = ArmijoLinesearch<double>;
using Opt = Linesearch<double>::Options;

enum Ans { DECREASE, BORDER, SHORT, SLIGHT, UP, HUGE_UP, A_INF, A_NAN, THROW, NANS };
static const char *ans_name[] = {"decrease", "border", "short", "slight-increase", "increase", "huge", "inf", "nan", "throw"};

struct Trial {
  double a, phi;
  bool threw;
};
static std::string show(const std::vector<Trial> &t) {
  std::string s;
  for (auto &q : t)
    s += " " + str(q.a) + (q.threw ? "->throw" : "->" + str(q.phi));
  return s;
}
// sufficient decrease; within rounding of the borderline either answer is right
static bool armijo(const Opt &o, double phi0, double d0, const Trial &t, double side) {
  const double eps = 8 * std::numeric_limits<double>::epsilon() * (std::abs(phi0) + std::abs(t.phi) + std::abs(d0) * t.a);
  return !t.threw && (t.phi == INF ? false : t.phi - phi0 <= o.armijo_c1 * t.a * d0 + side * eps);
}
static bool qualifies(const Opt &o, double phi0, double d0, const Trial &t) { return armijo(o, phi0, d0, t, -1); }
static bool may_qualify(const Opt &o, double phi0, double d0, const Trial &t) { return armijo(o, phi0, d0, t, 1); }
// the contract, checked on the recorded trials
static void judge(Ctx &c, const Opt &o, double phi0, double d0, const std::vector<Trial> &t, bool threw, double ret, double alpha, const std::string &w0) {
  const std::string w = w0 + show(t) + (threw ? " threw" : " returned phi=" + str(ret) + " alpha=" + str(alpha));
  c.require(!t.empty() && t[0].a == 1., "full-step-first", w);
  size_t first = 0; // first trial that could be evaluated
  while (first < t.size() && t[first].threw)
    first++;
  const double tol = 1e-12;
  if (first == t.size()) {
    c.require(threw, "failure-hidden", w + ": no trial could be evaluated, yet a result is returned");
    c.require(t.back().a <= o.alpha_min * (1 + tol), "gave-up-early", w);
    c.count("all-trials-throw");
  } else
    c.require(!threw, "exception-escaped", w);
  // trial steps
  for (size_t i = 1; i < t.size(); i++) {
    double p = t[i - 1].a, a = t[i].a;
    c.require(a >= o.alpha_min * (1 - tol) && a <= 1, "step-range", w);
    double lo = i <= first || o.interp_type == LSInterpolation::BISECTION ? 0.5 : o.contraction_min;
    double hi = i <= first || o.interp_type == LSInterpolation::BISECTION ? 0.5 : o.contraction_max;
    c.require(a >= std::max(o.alpha_min, lo * p) * (1 - tol) && a <= std::max(o.alpha_min, hi * p) * (1 + tol), "contraction", w + ": trial " + str(i));
    if (i > first) // never goes on after a step that qualifies
      for (size_t j = first; j < i; j++)
        c.require(!qualifies(o, phi0, d0, t[j]), "overlooked", w + ": trial " + str(j) + " already qualified");
  }
  c.require(t.size() <= first + 1 + o.max_num_steps, "too-many-trials", w);
  if (threw)
    return;
  bool found = false, found_v = false;
  for (auto &q : t)
    if (!q.threw && q.a == alpha) {
      found = true;
      found_v |= q.phi == ret || (q.phi != q.phi && ret != ret);
    }
  c.require(found, "unevaluated-step", w + ": the returned step was never evaluated");
  c.require(found_v, "value-mismatch", w + ": the returned value is not the value at the returned step");
  c.require(alpha >= o.alpha_min && alpha <= 1, "step-range", w);
  if (std::abs(d0) < o.dphi_thresh) {
    c.require(t.size() == first + 1 && alpha == t[first].a, "flat-slope", w);
    c.count("flat");
    return;
  }
  bool ok = may_qualify(o, phi0, d0, {alpha, ret, false});
  size_t steps = t.size() - 1 - first;
  if (ok)
    c.count("accepted");
  else {
    c.require(steps >= o.max_num_steps || t.back().a <= o.alpha_min * (1 + tol), "not-exhausted", w + ": gave up before the floor or the step limit");
    // no evaluated step qualifies either
    for (auto &q : t)
      c.require(!qualifies(o, phi0, d0, q), "better-step-lost", w);
    c.count("exhausted");
  }
}
// each interpolated trial is the minimiser of the polynomial through the data
// available (value and slope at 0, the last one or two values), if that lies
// within the bounds, and otherwise the bound where the polynomial is lower
static void interpolation(Ctx &c, const Opt &o, double phi0, double d0, const std::vector<Trial> &t, const std::string &w) {
  if (o.interp_type == LSInterpolation::BISECTION || d0 >= 0)
    return;
  std::vector<Trial> ev;
  for (size_t i = 0; i < t.size(); i++) {
    if (!ev.empty()) {
      const Trial &l = ev.back();
      const double p = t[i - 1].a;
      const double lo = o.contraction_min * p, hi = o.contraction_max * p;
      const bool cubic = o.interp_type == LSInterpolation::CUBIC && ev.size() > 1;
      const Trial &q = ev[ev.size() > 1 ? ev.size() - 2 : 0];
      long double c3 = 0, c2, scale = std::max(std::abs(d0), 1e-3);
      auto sane = [&](const Trial &s) { return std::abs(s.phi - phi0) < 1e5 * double(scale); };
      if (sane(l) && sane(q) && std::abs(phi0) < 1e5 * double(scale)) {
        long double y1 = ((long double)l.phi - phi0 - (long double)d0 * l.a) / ((long double)l.a * l.a);
        if (cubic) {
          long double y2 = ((long double)q.phi - phi0 - (long double)d0 * q.a) / ((long double)q.a * q.a);
          c3 = (y1 - y2) / ((long double)l.a - q.a);
          c2 = y1 - c3 * l.a;
        } else
          c2 = y1;
        long double xs = -1;
        bool open = false;
        if (!cubic)
          xs = -d0 / (2 * c2), open = !(c2 > 1e-6 * scale);
        else {
          long double disc = c2 * c2 - 3 * c3 * d0;
          open = disc < 1e-6 * scale * scale || std::abs(double(c3)) < 1e-4 * double(scale);
          if (!open)
            xs = (-c2 + std::sqrt(disc)) / (3 * c3);
        }
        auto g = [&](long double a) { return ((c3 * a + c2) * a + d0) * a; };
        if (!open) {
          double e = -1;
          if (xs > lo * (1 + 1e-3) && xs < hi * (1 - 1e-3))
            e = double(xs);
          else if ((xs < lo * (1 - 1e-3) || xs > hi * (1 + 1e-3)) && std::abs(double(g(lo) - g(hi))) > 1e-6 * double(scale) * hi)
            e = g(lo) < g(hi) ? lo : hi;
          if (e > 0) {
            e = std::max(e, o.alpha_min);
            c.require(std::abs(t[i].a - e) <= 1e-4 * e, cubic ? "cubic-trial" : "quadratic-trial", w + show(t) + ": trial " + str(i) + " expected " + str(e));
            c.count(cubic ? "cubic-trial" : "quadratic-trial");
          }
        }
      }
    }
    if (!t[i].threw)
      ev.push_back(t[i]);
  }
}
static Opt options(Ctx &c, bool rich) {
  Opt o;
  o.interp_type = c.pick({LSInterpolation::CUBIC, LSInterpolation::QUADRATIC, LSInterpolation::BISECTION}, "interp");
  int k = c.choose(rich ? 5 : 3, "options");
  if (k == 1)
    o.alpha_min = 0.2, o.contraction_min = 0.25, o.contraction_max = 0.75;
  if (k == 2)
    o.max_num_steps = 2, o.armijo_c1 = 0.25;
  if (k == 3)
    o.alpha_min = 1., o.max_num_steps = 3;
  if (k == 4)
    o.max_num_steps = 0;
  return o;
}
static void environment(Ctx &c) {
  Opt o = options(c, true);
  const double phi0 = c.pick({2., 0., -1e6}, "phi0");
  const double d0 = c.pick({-1., -1e-3, -1e4, -1e-14, 0., 1., 1e-3}, "dphi0"); // a slope can be positive when the step is not a descent direction
  const int horizon = c.thorough ? 7 : 5; // answers after the horizon: decrease
  std::vector<Trial> t;
  int depth = 0;
  auto phi = [&](double a) -> double {
    if (t.size() > 200)
      c.fail("unbounded", show(t));
    for (Trial q : std::vector<Trial>(t))
      if (q.a == a) { // the merit function is a function
        t.push_back(q);
        if (q.threw)
          throw std::runtime_error("merit");
        return q.phi;
      }
    if (depth == 2)
      c.shard();
    int k = depth < horizon ? c.choose(NANS, "phi") : DECREASE;
    depth++;
    double m = o.armijo_c1 * a * d0, v = 0;
    c.note(std::string("phi(") + str(a) + ") = " + ans_name[k]);
    switch (k) {
    case DECREASE: v = phi0 + 0.9 * a * d0 - 1e-3; break;
    case BORDER: v = phi0 + m; break;
    case SHORT: v = phi0 + 0.5 * m; break;
    case SLIGHT: v = phi0 + 1e-9 * std::max(1., std::abs(phi0)); break;
    case UP: v = phi0 + 10 * a; break;
    case HUGE_UP: v = 1e200; break;
    case A_INF: v = INF; break;
    case A_NAN: v = QNAN; break;
    case THROW: v = QNAN; break;
    }
    t.push_back({a, v, k == THROW});
    if (k == THROW)
      throw std::runtime_error("merit");
    return v;
  };
  LS ls(o);
  double alpha = -5, ret = 0;
  bool threw = false;
  try {
    ret = ls.run(phi, phi0, d0, alpha);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.shard();
  judge(c, o, phi0, d0, t, threw, ret, alpha, "interp " + str(int(o.interp_type)) + " phi0=" + str(phi0) + " dphi0=" + str(d0) + ":");
  interpolation(c, o, phi0, d0, t, "interp " + str(int(o.interp_type)) + " phi0=" + str(phi0) + " dphi0=" + str(d0) + ":");
  uint64_t h = mc::mix(uint64_t(o.interp_type), t.size());
  for (auto &q : t)
    h = mc::mix(mc::mix(h, mc::hash_double(q.a)), q.threw ? 99 : mc::hash_double(q.phi));
  c.obs(h);
  c.step(t.size());
}
// every trial throws except (possibly) those below a threshold
static void domain(Ctx &c) {
  Opt o;
  o.interp_type = c.pick({LSInterpolation::CUBIC, LSInterpolation::QUADRATIC, LSInterpolation::BISECTION}, "interp");
  o.alpha_min = c.pick({1e-6, 1e-3, 0.3, 1.}, "alpha_min");
  double edge = c.pick({2., 0.9, 0.4, 0.1, 1e-4, 1e-7, 0.}, "domain");
  int shape = c.choose(4, "shape");
  double d0 = c.pick({-1., -1e-14}, "dphi0");
  c.shard();
  std::vector<Trial> t;
  auto phi = [&](double a) -> double {
    if (t.size() > 200)
      c.fail("unbounded", show(t));
    if (a > edge) {
      t.push_back({a, QNAN, true});
      throw std::runtime_error("outside");
    }
    double v = shape == 0 ? -a : shape == 1 ? a : shape == 2 ? -a + 30 * a * a : std::sin(40 * a);
    t.push_back({a, v, false});
    return v;
  };
  LS ls(o);
  double alpha = -5, ret = 0;
  bool threw = false;
  try {
    ret = ls.run(phi, 0., d0, alpha);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  judge(c, o, 0., d0, t, threw, ret, alpha, "domain edge " + str(edge) + ":");
  // an exception that is not a runtime error is not swallowed
  bool other = false;
  try {
    ls.run([](double) -> double { throw std::logic_error("bug"); }, 0., d0, alpha);
  } catch (const std::logic_error &) {
    other = true;
  }
  c.require(other, "logic-error-swallowed", "");
  c.obs(mc::mix(mc::hash_double(edge), t.size()));
  c.step(t.size());
}
// polynomial merit functions: the interpolants are exact, so the trial after a
// rejected one must be the local minimiser when it lies inside the safeguards
static double clipmin(const std::function<double(double)> &f, double lo, double hi, bool has, double xs) {
  if (has && xs >= lo && xs <= hi)
    return xs;
  return f(lo) < f(hi) ? lo : hi;
}
static void polynomials(Ctx &c) {
  Opt o;
  o.interp_type = c.pick({LSInterpolation::CUBIC, LSInterpolation::QUADRATIC}, "interp");
  o.contraction_min = c.pick({0.5, 0.1, 0.01}, "cmin");
  o.contraction_max = c.pick({0.8, 0.95}, "cmax");
  o.armijo_c1 = c.pick({1e-4, 0.4}, "c1");
  const double d0 = c.pick({-1., -0.05, -20.}, "d0");
  double c2 = c.pick({1., 0., -1., 3., 30.}, "c2"), c3 = c.pick({0., 1., 4., 25., -0.5, 100.}, "c3");
  c2 *= std::abs(d0), c3 *= std::abs(d0);
  c.shard();
  const double phi0 = 0.5;
  auto f = [&](double a) { return ((c3 * a + c2) * a + d0) * a + phi0; };
  std::vector<Trial> t;
  LS ls(o);
  double alpha = -1;
  double ret = ls.run([&](double a) { t.push_back({a, f(a), false}); return f(a); }, phi0, d0, alpha);
  std::string w = "poly " + str(c3) + "," + str(c2) + "," + str(d0) + " interp " + str(int(o.interp_type)) + ":";
  judge(c, o, phi0, d0, t, false, ret, alpha, w);
  for (size_t i = 1; i < t.size(); i++) {
    double p = t[i - 1].a, lo = std::max(o.alpha_min, o.contraction_min * p), hi = std::max(o.alpha_min, o.contraction_max * p);
    if (lo == hi)
      continue;
    bool quad = o.interp_type == LSInterpolation::QUADRATIC || i == 1;
    // interpolant of the data available
    double q3 = 0, q2 = 0;
    if (quad)
      q2 = (t[i - 1].phi - phi0 - d0 * p) / (p * p);
    else
      q3 = c3, q2 = c2; // two samples and the slope determine the cubic itself
    auto g = [&](double a) { return ((q3 * a + q2) * a + d0) * a; };
    bool has = false;
    double xs = 0;
    if (std::abs(q3) > 1e-6 * std::abs(d0)) {
      double disc = q2 * q2 - 3 * q3 * d0;
      if (disc < 0)
        continue; // no stationary point: any step within the safeguards
      xs = (-q2 + std::sqrt(disc)) / (3 * q3);
      has = true;
    } else if (!quad)
      continue; // the cubic degenerates: any step within the safeguards
    else if (q2 > 1e-9 * std::abs(d0)) {
      xs = -d0 / (2 * q2);
      has = true;
    }
    double e = clipmin(g, lo, hi, has, xs);
    double slack = 1e-6;
    // near-ties between the two edges, or a stationary point at the edge, are open
    if (!has || xs < lo * (1 - 1e-6) || xs > hi * (1 + 1e-6)) {
      if (std::abs(g(lo) - g(hi)) < 1e-9 * std::abs(d0))
        continue;
      if (has && (std::abs(xs - lo) < 1e-6 || std::abs(xs - hi) < 1e-6))
        continue;
    }
    c.require(close(t[i].a, e, slack, slack * 1e-3), quad ? "quadratic-minimiser" : "cubic-minimiser",
              w + show(t) + ": trial " + str(i) + " expected " + str(e) + " within [" + str(lo) + "," + str(hi) + "]");
    c.count(has && e == xs ? (quad ? "interior-quadratic" : "interior-cubic") : "edge");
  }
  c.obs(mc::mix(mc::hash_double(alpha), t.size()));
  c.step(t.size());
}
// interpolation is stateless: a search gives the same answer after any other search
static void reuse(Ctx &c) {
  Opt o;
  auto interp = c.pick({LSInterpolation::CUBIC, LSInterpolation::QUADRATIC, LSInterpolation::BISECTION}, "interp");
  o.interp_type = interp;
  LS used(o);
  std::string w;
  for (int d = 0; d < (c.thorough ? 4 : 3); d++) {
    if (d == 1)
      c.shard();
    int k = c.choose(6, "search");
    auto f = [k](double a) -> double {
      if (k == 3 && a > 0.6)
        throw std::runtime_error("x");
      if (k == 4 && a > 0.3)
        return QNAN;
      return k == 0 ? -a + 0.6 * a * a : k == 1 ? -a + 3 * a * a * a : k == 2 ? -a : k == 5 ? a : -a + 8 * a * a;
    };
    if (c.flip("options")) { // options can be changed in between
      Opt o2 = o;
      o2.interp_type = LSInterpolation::QUADRATIC;
      o2.contraction_max = 0.9;
      used.setOptions(o2);
    } else
      used.setOptions(o);
    LS fresh(used.options_);
    double a1 = 0, a2 = 3;
    double r1 = used.run(f, 0., -1., a1), r2 = fresh.run(f, 0., -1., a2);
    c.require(a1 == a2 && (r1 == r2 || (r1 != r1 && r2 != r2)), "history", "search " + str(k) + " gives " + str(a1) + " after others, " + str(a2) + " alone");
    c.obs(mc::mix(mc::hash_double(a1), uint64_t(k)));
    c.step(2);
  }
}
// the polynomials themselves: values and derivatives (coefficients from the highest power down)
static void algebra(Ctx &c) {
  const int n = c.range(1, c.thorough ? 6 : 5, "coefficients");
  Vec k(n);
  for (int i = 0; i < n; i++)
    k[i] = c.pick({0., 1., -2.5, 0.75}, "coefficient");
  c.shard();
  PolynomialTpl<double> p(k);
  const PolynomialTpl<double> d = p.derivative();
  c.require(p.degree() == n - 1 && d.degree() == std::max(0, n - 2), "degree", str(k) + " derivative " + str(d.coeffs));
  for (double a : {0., 1., -0.5, 3.}) {
    double v = 0, dv = 0;
    for (int i = 0; i < n; i++) {
      v += k[i] * std::pow(a, n - 1 - i);
      if (i < n - 1)
        dv += k[i] * (n - 1 - i) * std::pow(a, n - 2 - i);
    }
    c.require(close(p.evaluate(a), v) && close(d.evaluate(a), dv), "polynomial-value", str(k) + " at " + str(a) + ": " + str(p.evaluate(a)) + " slope " + str(d.evaluate(a)));
    c.step(2);
  }
  c.require(same(p.coeffs, k), "polynomial-changed", str(k));
  c.obs(mc::hash_str(str(k)));
}
int main(int argc, char **argv) {
  mc::Main m("C07");
  m.note = "every sequence of up to 5 (6) answers of the merit function (decrease, borderline, too little, increase, infinite, NaN, exception), three interpolations, option sets; polynomial merit functions with exact interpolants; histories of searches";
  m.assumptions = {"the merit function is a function of the step", "cubic interpolants without a stationary point or with a vanishing leading coefficient only have to respect the safeguards"};
  m.add("environment", environment);
  m.add("domain", domain);
  m.add("polynomials", polynomials);
  m.add("algebra", algebra);
  m.add("reuse", reuse);
  return m.run(argc, argv);
}
