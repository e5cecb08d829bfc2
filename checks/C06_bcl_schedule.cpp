// C06: outer loop. A reference model of the bound-constrained-Lagrangian
// schedule runs in lockstep with every real solve: penalty, tolerances,
// multiplier and proximal centres, inner termination, outer decision, limits.
#include "steps.hpp"
using namespace pn;
using mc::Ctx;

struct Event {
  enum { EVAL, STEP, FINAL } kind;
  Vec x, lam, lame, xprev;
  double mu = 0, rho = 0, itol = 0, ptol = 0;
  size_t al = 0, num = 0;
  int flag = 0;
};
struct Sched {
  double mu_lower = 1e-9, mu_upper = 1, factor = 0.01, rho_factor = 1, pa = 0.1, pb = 0.9, da = 1, db = 1, itol_min = 1e-9, itol0 = 1, ptol0 = 1;
  std::string name() const {
    std::ostringstream o;
    o << "{mu_lower " << mu_lower << " mu_upper " << mu_upper << " factor " << factor << " rho_factor " << rho_factor << " prim " << pa << "/" << pb << " dual "
      << da << "/" << db << " inner_tol_min " << itol_min << " tol0 " << itol0 << "/" << ptol0 << "}";
    return o.str();
  }
};
static Sched pick_sched(Ctx &c) {
  Sched s;
  auto e = [&](std::vector<double> v, double &d, const char *l) { d = v[size_t(c.env(int(v.size()), l))]; };
  e({1e-9, 1e-4, 1e-3}, s.mu_lower, "mu_lower");
  e({1, 0.5, 2}, s.mu_upper, "mu_upper");
  e({0.01, 0.1, 0.3}, s.factor, "factor");
  e({1, 0.5}, s.rho_factor, "rho_factor");
  e({0.1, 0.3}, s.pa, "prim_alpha");
  e({0.9, 0.5}, s.pb, "prim_beta");
  e({1, 0.6}, s.da, "dual_alpha");
  e({1, 0.7}, s.db, "dual_beta");
  e({1e-9, 1e-3}, s.itol_min, "inner_tol_min");
  e({1, 0.1}, s.itol0, "inner_tol0");
  e({1, 10, 0.05}, s.ptol0, "prim_tol0");
  return s;
}
static void lockstep(Ctx &c, Prb &P, const Cfg &g, const Sched &q, const Vec &x0, const Vec &l0, const std::string &nm) {
  auto spy = std::make_shared<SpyCost>(P.cost);
  Problem prob(P.M, spy, P.cons);
  auto s = make_solver(prob, g);
  s->mu_lower_ = q.mu_lower;
  s->mu_upper_ = q.mu_upper;
  s->inner_tol_min = q.itol_min;
  s->inner_tol0 = q.itol0;
  s->prim_tol0 = q.ptol0;
  s->bcl_params.prim_alpha = q.pa;
  s->bcl_params.prim_beta = q.pb;
  s->bcl_params.dual_alpha = q.da;
  s->bcl_params.dual_beta = q.db;
  s->bcl_params.mu_update_factor = q.factor;
  s->bcl_params.rho_update_factor = q.rho_factor;
  s->setup();
  std::vector<Event> ev;
  spy->at_gradient = [&](const Eigen::Ref<const Vec> &x) {
    const RS &r = *s->results_;
    const WS &w = *s->workspace_;
    Event e;
    e.kind = Event::EVAL;
    e.x = x;
    e.lam = r.data_lams_opt;
    e.lame = w.data_lams_prev;
    e.xprev = w.x_prev;
    e.mu = r.mu;
    e.rho = r.rho;
    e.itol = s->inner_tol_;
    e.ptol = s->prim_tol_;
    e.al = r.al_iters;
    e.num = r.num_iters;
    ev.push_back(e);
  };
  auto cb = std::make_shared<FnCallback>();
  cb->f = [&](const WS &, const RS &r) {
    Event e;
    e.kind = Event::STEP;
    e.x = r.x_opt;
    e.lam = r.data_lams_opt;
    e.al = r.al_iters;
    e.num = r.num_iters;
    ev.push_back(e);
  };
  s->registerCallback(cb);
  ConvergenceFlag flag = UNINIT;
  bool threw = false;
  try {
    flag = s->solve(x0, l0);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  if (threw) {
    c.count("exception");
  } else {
    c.require(!ev.empty() && ev.back().kind == Event::STEP, "no-final-callback", nm);
    ev.back().kind = Event::FINAL; // the call after the loop
    ev.back().flag = flag;
  }
  // ---- the model
  double mu = g.mu, rho = g.rho, itol = 0, ptol = 0;
  Vec lam = l0, lame = l0, x = x0, xprev = x0;
  size_t al = 0, num = 0;
  auto failure = [&] {
    ptol = std::max(q.ptol0 * std::pow(mu, q.pa), g.tol);
    itol = std::max(q.itol0 * std::pow(mu, q.da), q.itol_min);
  };
  auto success = [&] {
    ptol = std::max(ptol * std::pow(mu / q.mu_upper, q.pb), g.tol);
    itol = std::max(itol * std::pow(mu / q.mu_upper, q.db), q.itol_min);
  };
  failure();
  auto eq = [](double a, double b) { return close(a, b, 1e-12, 0); };
  for (size_t i = 0; i < ev.size(); i++) {
    const Event &e = ev[i];
    auto say = [&](const std::string &t) { return nm + " outer " + str(al) + " inner " + str(num) + " x=" + str(x) + ": " + t; };
    if (e.kind == Event::FINAL) {
      const bool lim = num == g.max_iters, alim = al == g.max_al;
      c.require(lim || alim, "stopped-early", say("solve ended with flag " + str(e.flag)));
      if (!lim)
        c.require(e.flag == UNINIT, "flag", say("flag " + str(e.flag) + " at the limit of outer iterations"));
      break;
    }
    c.require(e.kind == Event::EVAL, "callback", say("unexpected callback"));
    c.step(1);
    c.require(e.al == al && e.num == num, "counters", say("al_iters " + str(e.al) + " num_iters " + str(e.num)));
    c.require(eq(e.mu, mu), "penalty", say("penalty " + str(e.mu) + " expected " + str(mu)));
    c.require(eq(e.rho, rho), "proximal-parameter", say("rho " + str(e.rho) + " expected " + str(rho)));
    c.require(eq(e.itol, itol), "inner-tolerance", say("inner tolerance " + str(e.itol) + " expected " + str(itol)));
    c.require(eq(e.ptol, ptol), "primal-tolerance", say("primal tolerance " + str(e.ptol) + " expected " + str(ptol)));
    c.require(close(e.x, x, 1e-12), "iterate", say("iterate " + str(e.x)));
    c.require(close(e.lam, lam, 1e-10, 1e-12), "multipliers", say("multipliers " + str(e.lam) + " expected " + str(lam)));
    c.require(close(e.lame, lame, 1e-10, 1e-12), "multiplier-centre", say("multiplier centre " + str(e.lame) + " expected " + str(lame)));
    c.require(close(e.xprev, xprev, 1e-12), "proximal-centre", say("proximal centre " + str(e.xprev) + " expected " + str(xprev)));
    lam = e.lam;
    lame = e.lame;
    Step st;
    st.x = x, st.lam = lam, st.lame = lame, st.xprev = xprev, st.mu = mu, st.rho = rho;
    Local l = local(P, st, g.beta);
    const Vec gl = l.e.g + l.e.J.transpose() * lam;
    const double dual = infn(gl), prim = infn(l.e.c - prox(P, mu, l.e.c + mu * lam));
    const bool pd = g.kkt == KKT_PRIMAL_DUAL;
    const double inner = std::max(infn(gl + l.pg), (pd ? g.beta : 1.) * mu * infn((pd ? l.lpd : l.lplus) - lam));
    const double outer = std::max(prim, dual), noise = 1e-12 * (1 + infn(l.e.c) + infn(l.e.g) + infn(l.e.J) * infn(lam) + mu * infn(lame));
    auto tie = [&](double a, double b) { return std::abs(a - b) <= noise + 1e-9 * b; };
    if (tie(inner, itol) || tie(outer, g.tol) || tie(prim, ptol)) {
      c.count("too close to call");
      return;
    }
    if (i + 1 == ev.size()) // the exception
      return;
    const Event &nx = ev[i + 1];
    const bool done = inner < itol || outer < g.tol;
    if (nx.kind == Event::STEP) {
      c.require(!done, "inner-termination", say("another step although the criterion " + str(inner) + " is below " + str(itol)));
      c.require(nx.num == num && nx.al == al, "counters", say("callback counters " + str(nx.num) + "/" + str(nx.al)));
      x = nx.x;
      lam = nx.lam;
      num++;
      i++;
      if (num < g.max_iters)
        continue;
      // the limit: the solve ends with this flag
      c.require(i + 1 < ev.size() && ev[i + 1].kind == Event::FINAL && ev[i + 1].flag == MAX_ITERS_REACHED, "limit", say("no stop with MAX_ITERS_REACHED at the iteration limit"));
      c.count("iteration limit");
      return;
    }
    c.require(done, "inner-termination", say("inner loop ended although the criterion " + str(inner) + " exceeds " + str(itol)));
    xprev = x;
    if (outer < g.tol) {
      c.require(nx.kind == Event::FINAL && nx.flag == SUCCESS, "outer-termination", say("no success although the residuals are " + str(prim) + " " + str(dual)));
      c.require(close(nx.lam, lam, 1e-12) && close(nx.x, x, 1e-12), "result", say("the returned point is not the certified one"));
      c.count("success");
      return;
    }
    if (nx.kind == Event::FINAL)
      c.require(nx.flag != SUCCESS, "outer-termination", say("success although the residuals are " + str(prim) + " " + str(dual)));
    if (prim < ptol) {
      lame = g.mode == MultiplierUpdateMode::NEWTON ? lam : g.mode == MultiplierUpdateMode::PRIMAL ? l.lplus : l.lpd;
      lam = lame;
      success();
      c.count("accepted");
    } else {
      mu = mu == q.mu_lower ? g.mu : std::max(mu * q.factor, q.mu_lower);
      failure();
      c.count(mu == g.mu ? "penalty restarted" : "penalty decreased");
    }
    rho *= q.rho_factor;
    al++;
    c.obs(mc::mix(mc::hash_double(mu), mc::mix(mc::hash_double(ptol), hashm(lame))));
  }
}
static void schedule(Ctx &c) {
  Prb P = pick_prb(c, N_FAMILIES, c.thorough ? 2 : 1);
  c.shard();
  const int nk = c.thorough ? 3 : 2;
  int xk = c.choose(nk, "x0"), lk = P.nc() ? c.choose(2, "l0") : 0;
  Cfg g;
  auto e = [&](auto vals, auto &d, const char *l) { d = vals[size_t(c.env(int(vals.size()), l))]; };
  e(std::vector<KktSystem>{KKT_PRIMAL_DUAL, KKT_CLASSIC}, g.kkt, "kkt");
  e(std::vector<MultiplierUpdateMode>{MultiplierUpdateMode::NEWTON, MultiplierUpdateMode::PRIMAL, MultiplierUpdateMode::PRIMAL_DUAL}, g.mode, "mode");
  e(std::vector<double>{0, 0.1}, g.rho, "rho");
  e(std::vector<double>{1e-2, 0.5, 1e-4}, g.mu, "mu");
  e(std::vector<double>{0.5, 1}, g.beta, "beta");
  e(std::vector<double>{1e-6, 1e-3}, g.tol, "tol");
  e(std::vector<size_t>{30, 3}, g.max_iters, "max_iters");
  e(std::vector<size_t>{25, 2, 1}, g.max_al, "max_al");
  Sched q = pick_sched(c);
  Vec x0 = start_point(P, xk), l0 = pick_l0(P.nc(), lk);
  lockstep(c, P, g, q, x0, l0, P.name + " " + g.name() + " " + q.name() + " start " + str(x0) + " " + str(l0));
}
int main(int argc, char **argv) {
  mc::Main m("C06");
  m.note = "the solver gallery (7 problem families incl. infeasible ones) x 2-3 starts x 2 multipliers x all deviations of up to 2 of 19 "
           "solver and schedule parameters: a reference model of the outer loop in lockstep with the real solve, compared at every "
           "derivative evaluation; states are distinct (mu, tolerances, multiplier centre) after outer iterations";
  m.assumptions = {"decisions within 1e-9 of a threshold end the comparison of that solve"};
  m.add("schedule", schedule, 2);
  return m.run(argc, argv);
}
