// C04: what a solve returns depends on its inputs and settings only, not on
// what the solver, its problem or another solver did before.
#include "steps.hpp"
using namespace pn;
using mc::Ctx;

struct Full {
  Outcome o;
  Vec viol;
  std::vector<Eigen::Matrix<bool, -1, 1>> act;
  std::vector<Vec> trace; // every iterate seen by the callbacks
  bool operator==(const Full &b) const {
    if (!equal(o, b.o) || !same(viol, b.viol) || act.size() != b.act.size() || trace.size() != b.trace.size())
      return false;
    for (size_t i = 0; i < act.size(); i++)
      if (act[i].size() != b.act[i].size() || !(act[i].array() == b.act[i].array()).all())
        return false;
    for (size_t i = 0; i < trace.size(); i++)
      if (!same(trace[i], b.trace[i]))
        return false;
    return true;
  }
};
struct Boom {};
static void history(Ctx &c) {
  Prb P = small_problem(c, 7);
  auto spy = std::make_shared<SpyCost>(P.cost);
  Problem prob(P.M, spy, P.cons);
  Cfg g = pick_cfg(c, true, true);
  g.max_iters = std::min<size_t>(g.max_iters, 20);
  const bool bfgs = g.hess == HessianApprox::BFGS;
  if (bfgs && P.M->nx() != P.M->ndx())
    c.prune();
  const Vec xa = start_point(P, 1), xb = start_point(P, 0);
  Vec la = pick_l0(P.nc(), 1), lb = pick_l0(P.nc(), 2);
  auto full = [&](Solver &s, bool stacked) {
    Full r;
    auto cb = std::make_shared<FnCallback>();
    cb->f = [&](const WS &w, const RS &q) {
      r.trace.push_back(q.x_opt);
      r.trace.push_back(q.data_lams_opt);
      r.trace.push_back(Vec::Constant(1, w.alpha_opt));
    };
    s.clearCallbacks();
    s.registerCallback(cb);
    ConvergenceFlag f = stacked ? s.solve(xa, la) : s.solve(xa, blocks(P, la));
    s.clearCallbacks();
    r.o = outcome(s, f);
    r.viol = s.results_->constraint_violations;
    for (auto &a : s.results_->active_set)
      r.act.emplace_back(a);
    return r;
  };
  auto attempt = [](auto &&f) {
    try {
      f();
    } catch (const std::runtime_error &) {
    }
  };
  Full ref;
  {
    auto s = make_solver(prob, g);
    s->setup();
    ref = full(*s, true);
  }
  auto s = make_solver(prob, g), other = std::unique_ptr<Solver>();
  s->setup();
  const int depth = c.thorough ? 4 : 3;
  const int len = c.range(1, depth, "length");
  std::string w = P.name + " " + g.name() + ": ";
  bool needs_setup = false;
  for (int i = 0; i < len; i++) {
    const int op = c.choose(11, "op");
    if (i == 1)
      c.shard();
    static const char *N[] = {"solve elsewhere", "same solve", "truncated solve", "solve with other settings", "setup", "another solver on the problem", "solve interrupted by an exception", "solve with blocks", "setters", "verbose solve", "copied results"};
    w += std::string(i ? ", " : "") + N[op];
    switch (op) {
    case 0: attempt([&] { s->solve(xb, lb); }); needs_setup = true; break;
    case 1: attempt([&] { s->solve(xa, la); }); needs_setup = true; break;
    case 2:
      s->max_iters = 1;
      attempt([&] { s->solve(xb, lb); });
      s->max_iters = g.max_iters;
      needs_setup = true;
      break;
    case 3:
      s->mu_init_ = 0.7;
      s->target_tol = 1e-2;
      s->rho_init_ = 0.3;
      s->setDualPenalty(0.8);
      s->kkt_system_ = g.kkt == KKT_CLASSIC ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
      s->mul_update_mode = MultiplierUpdateMode::PRIMAL;
      attempt([&] { s->solve(xb, lb); });
      s->mu_init_ = g.mu;
      s->target_tol = g.tol;
      s->rho_init_ = g.rho;
      s->setDualPenalty(g.beta);
      s->kkt_system_ = g.kkt;
      s->mul_update_mode = g.mode;
      needs_setup = true;
      break;
    case 4: s->setup(); needs_setup = false; break;
    case 5: {
      Cfg h = g;
      h.mu = 0.9;
      h.rho = 0.1;
      other = make_solver(prob, h);
      other->setup();
      attempt([&] { other->solve(xb, lb); });
      break;
    }
    case 6: {
      int k = c.choose(4, "interrupt");
      int n = 0;
      spy->at_value = [&](const Eigen::Ref<const Vec> &) {
        if (n++ == 1 + 2 * k)
          throw Boom();
      };
      try {
        s->solve(xb, lb);
      } catch (const Boom &) {
      } catch (const std::runtime_error &) {
      }
      spy->at_value = nullptr;
      needs_setup = true;
      break;
    }
    case 7: attempt([&] { s->solve(xb, blocks(P, lb)); }); needs_setup = true; break;
    case 8:
      s->setPenalty(0.77);
      s->setProxParameter(2.);
      s->updateToleranceSuccess();
      break;
    case 9:
      s->verbose = VERBOSE;
      attempt([&] { s->solve(xb, lb); });
      s->verbose = QUIET;
      needs_setup = true;
      break;
    case 10: { // the results of an earlier solve are copied and overwritten
      RS copy(*s->results_);
      copy.x_opt.setConstant(QNAN);
      copy.data_lams_opt.setConstant(QNAN);
      for (auto &l : copy.lams_opt)
        l.setConstant(QNAN);
      break;
    }
    }
    c.step(1);
  }
  if (bfgs && needs_setup)
    s->setup(); // the quasi-Newton matrix is kept between solves
  Full got = full(*s, c.choose(2, "form") == 0);
  c.require(got == ref, "history-dependent",
            w + ": flag " + str(int(got.o.f)) + "/" + str(int(ref.o.f)) + " iterations " + str(got.o.it) + "/" + str(ref.o.it) + " x " + str(got.o.x) + " fresh " + str(ref.o.x));
  c.count(got.o.f == SUCCESS ? "success" : "no success");
  c.obs(mc::mix(hashm(got.o.x), mc::mix(got.o.it, uint64_t(len))));
}
int main(int argc, char **argv) {
  mc::Main m("C04");
  m.note = "7 problems x configurations within 1 deviation x every history of up to 3 (thorough 4) operations from 11 (solves from "
           "elsewhere, truncated, interrupted at one of 4 calls, with other settings, verbose, setup, setters, another solver on the "
           "same problem, copied results) followed by one solve, stacked or by blocks: bitwise equal to the same solve on a fresh solver, "
           "including every iterate; states are distinct (solution, iterations, history length)";
  m.assumptions = {"multipliers are passed explicitly", "BFGS: setup() before the compared solve"};
  m.add("history", history, 1);
  return m.run(argc, argv);
}
