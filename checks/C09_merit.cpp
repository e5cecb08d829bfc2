// C09: merit function, multiplier estimates and directional derivative are the
// documented ones, at every grid point and along real solves.
#include "steps.hpp"
using namespace pn;
using mc::Ctx;

static double real_merit(Solver &s, const Vec &x, Vec lam, const Prb &P) {
  WS &w = *s.workspace_;
  s.problem().evaluate(x, w);
  s.computeMultipliers(lam, w);
  auto b = blocks(P, lam);
  return s.merit_fun.evaluate(x, b, w);
}
static void direct(Ctx &c) {
  Prb P = pick_prb(c, N_FAMILIES, 2);
  c.shard();
  const int n = P.M->ndx(), m = P.nc();
  Step st;
  st.x = start_point(P, c.choose(2, "x"));
  st.lam = pick_l0(m, m ? c.choose(3, "lam") : 0);
  st.lame = pick_l0(m, m ? c.choose(3, "lame") : 0);
  Cfg g;
  st.mu = g.mu = c.pick(std::vector<double>{1e-2, 0.3, 1.5}, "mu");
  g.beta = c.pick(std::vector<double>{0.5, 0.25, 0.75, 1.}, "beta");
  const std::string w = P.name + " x=" + str(st.x) + " lam=" + str(st.lam) + " lame=" + str(st.lame) + " mu=" + str(g.mu) + " beta=" + str(g.beta);
  auto s = make_solver(*P.p, g);
  s->setup();
  s->setPenalty(g.mu);
  WS &ws = *s->workspace_;
  ws.data_lams_prev = st.lame;
  Local l = local(P, st, g.beta);
  const double M = real_merit(*s, st.x, st.lam, P), ref = full_merit(P, st, st.x, st.lam, g.beta);
  const double sc = 1 + std::abs(ref);
  c.require(std::abs(M - ref) <= 1e-11 * sc, "merit-value", w + " merit " + str(M) + " expected " + str(ref));
  c.require(close(ws.data_lams_plus, l.lplus, 1e-11, 1e-12), "first-order-multiplier", w + " lams_plus " + str(ws.data_lams_plus) + " expected " + str(l.lplus));
  c.require(close(ws.data_lams_pdal, l.lpd, 1e-11, 1e-12), "primal-dual-multiplier", w + " lams_pdal " + str(ws.data_lams_pdal) + " expected " + str(l.lpd));
  s->computeProblemDerivatives(st.x, ws, boost::mpl::true_());
  auto lb = blocks(P, st.lam);
  s->merit_fun.computeGradient(lb, ws);
  Vec gx = ws.merit_gradient, gl = ws.merit_dual_gradient;
  c.require(close(gx, l.e.g + l.e.J.transpose() * l.lpd, 1e-10, 1e-11), "merit-gradient", w + " gradient " + str(gx));
  c.require(close(gl, Vec(g.beta * g.mu * (st.lam - l.lpd)), 1e-10, 1e-11), "merit-dual-gradient", w + " gradient in the multipliers " + str(gl));
  // the gradient is the derivative of the value
  const double h = 1e-6, J = 1 + infn(l.e.J);
  if (l.tie > 20 * h * J) {
    for (int i = 0; i < n + m; i++) {
      Vec e = Vec::Zero(n + m);
      e[i] = h;
      double p = real_merit(*s, P.M->integrate(st.x, Vec(e.head(n))), st.lam + e.tail(m), P);
      double q = real_merit(*s, P.M->integrate(st.x, Vec(-e.head(n))), st.lam - e.tail(m), P);
      double d = (p - q) / (2 * h), a = i < n ? gx[i] : gl[i - n];
      const double t = 1e-8 * sc + 1e-7 * (1 + infn(gx)) + 1e-9 * J * J * J / g.mu;
      c.require(std::abs(d - a) <= t, "not-the-derivative", w + " component " + str(i) + ": " + str(a) + " finite difference " + str(d));
    }
    c.count("differentiated");
  } else
    c.count("near a kink");
  c.step(1);
  c.obs(mc::mix(mc::hash_double(M), hashm(gx, hashm(gl))));
}
static void solves(Ctx &c) {
  Prb P = pick_prb(c, N_FAMILIES, c.thorough ? 2 : 1);
  c.shard();
  int xk = c.choose(3, "x0"), lk = P.nc() ? c.choose(3, "l0") : 0;
  Cfg g = pick_cfg(c);
  g.max_iters = c.thorough ? 10 : 5;
  if (g.hess == HessianApprox::BFGS && P.M->nx() != P.M->ndx())
    c.prune();
  Vec x0 = start_point(P, xk), l0 = pick_l0(P.nc(), lk);
  const std::string w = P.name + " " + g.name() + " start " + str(x0) + " " + str(l0);
  try {
    run_steps(P, g, x0, l0, [&](const Step &s, const WS &ws, const RS &r, Solver &) {
      c.step(1);
      Local l = local(P, s, g.beta);
      const double v = full_merit(P, s, r.x_opt, r.data_lams_opt, g.beta), v0 = full_merit(P, s, s.x, s.lam, g.beta);
      Vec z = evaluate(P, r.x_opt).c;
      const double big = 1 + infn(z) + s.mu * (infn(s.lame) + infn(r.data_lams_opt) + infn(s.lam));
      const double noise = 1e-11 * (1 + std::abs(v)) + 1e-13 * big * big / s.mu / g.beta * double(P.nc() + 1);
      c.require(std::abs(r.merit - v) <= noise, "reported-merit", w + " iteration " + str(s.newton) + " merit " + str(r.merit) + " expected " + str(v));
      const Vec dx = ws.pd_step.head(P.M->ndx()), dl = ws.pd_step.tail(P.nc());
      const double d = (l.e.g + l.e.J.transpose() * l.lpd + l.pg).dot(dx) + g.beta * s.mu * (s.lam - l.lpd).dot(dl);
      const double size = (infn(l.e.g) + infn(l.e.J) * infn(l.lpd) * double(P.nc()) + infn(l.pg)) * infn(dx) * double(dx.size()) + s.mu * (infn(s.lam) + infn(l.lpd)) * infn(dl) * double(P.nc());
      c.require(std::abs(ws.dmerit_dir - d) <= 1e-9 * size + 1e-14, "directional-derivative", w + " iteration " + str(s.newton) + " slope " + str(ws.dmerit_dir) + " expected " + str(d));
      c.count(r.merit < v0 ? "lower" : "not lower");
      c.obs(mc::mix(mc::hash_double(r.merit), mc::hash_double(d)));
    });
  } catch (const std::runtime_error &) {
    c.count("exception");
  }
}
int main(int argc, char **argv) {
  mc::Main m("C09");
  m.note = "direct: the solver gallery (7 problem families, all lists of up to 2 blocks) x 2 points x 3 x 3 multipliers x 3 penalties x 4 "
           "dual weights: value, multiplier estimates and gradients against their definitions and against central differences of the "
           "value; solves: merit value and slope reported at each of the first 5 (10) iterations of solves within 2 deviations";
  m.assumptions = {"finite differences only where no projection kink lies within 20 steps"};
  m.add("direct", direct);
  m.add("solves", solves, 2);
  return m.run(argc, argv);
}
