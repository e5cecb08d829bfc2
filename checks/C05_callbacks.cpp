// MC-FLAGS: -O1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS
// C05: callbacks see every iterate, in order, exactly once, plus the final
// point; the stored history is a true, self-contained copy.
#include "steps.hpp"
using namespace pn;
using mc::Ctx;
using History = helpers::history_callback<double>;

struct Seen {
  Vec x, lam;
  double value, prim, dual, alpha, slope;
  size_t it, al;
};
struct Recorder : helpers::base_callback<double> {
  std::vector<Seen> s;
  std::vector<int> *order;
  int id;
  int throw_at = -1;
  void call(const WS &w, const RS &r) override {
    order->push_back(id);
    if (int(s.size()) == throw_at) {
      throw_at = -1;
      throw std::logic_error("callback");
    }
    s.push_back({r.x_opt, r.data_lams_opt, r.value, r.prim_infeas, r.dual_infeas, w.alpha_opt, w.dmerit_dir, r.num_iters, r.al_iters});
  }
};
static bool veq(double a, double b) { return a == b || (a != a && b != b); }

static void check_history(Ctx &c, const History &h, const std::vector<Seen> &s, bool pd, bool vals, bool res, const std::vector<int> &nrs, const std::string &w) {
  const auto &st = h.storage;
  const size_t n = s.size();
  auto size = [&](size_t k, bool on, const char *t) { c.require(k == (on ? n : 0), "history-length", w + ": " + t + " holds " + str(k) + " entries for " + str(n) + " calls"); };
  size(st.xs.size(), pd, "xs");
  size(st.lams.size(), pd, "lams");
  size(st.lams_view.size(), pd, "lams_view");
  size(st.values.size(), vals, "values");
  size(st.prim_infeas.size(), res, "prim_infeas");
  size(st.dual_infeas.size(), res, "dual_infeas");
  size(st.alphas.size(), true, "alphas");
  size(st.dmerit_dir.size(), true, "dmerit_dir");
  size(st.ls_alphas.size(), true, "ls_alphas");
  size(st.ls_values.size(), true, "ls_values");
  for (size_t k = 0; k < n; k++) {
    auto at = [&](const char *t) { return w + ": " + t + " of call " + str(k) + " is not what the solver had then"; };
    if (pd) {
      c.require(same(st.xs[k], s[k].x), "history-content", at("x"));
      c.require(same(st.lams[k], s[k].lam), "history-content", at("lams"));
      c.require(st.lams_view[k].size() == nrs.size(), "history-content", at("number of lams_view blocks"));
      int off = 0;
      for (size_t i = 0; i < nrs.size(); i++) {
        c.require(same(st.lams_view[k][i], s[k].lam.segment(off, nrs[i])), "history-content", at("lams_view"));
        off += nrs[i];
      }
    }
    if (vals)
      c.require(veq(st.values[k], s[k].value), "history-content", at("value"));
    if (res)
      c.require(veq(st.prim_infeas[k], s[k].prim) && veq(st.dual_infeas[k], s[k].dual), "history-content", at("residual"));
    c.require(veq(st.alphas[k], s[k].alpha) && veq(st.dmerit_dir[k], s[k].slope), "history-content", at("step length"));
  }
}
static void callbacks(Ctx &c) {
  Prb P = small_problem(c, 7);
  Cfg g = pick_cfg(c, true, true);
  g.max_iters = std::min<size_t>(g.max_iters, 15);
  if (g.hess == HessianApprox::BFGS && P.M->nx() != P.M->ndx())
    c.prune();
  const int flags = c.choose(8, "flags");
  c.shard();
  const bool pd = flags & 1, vals = flags & 2, res = flags & 4;
  const int order = c.choose(3, "order"); // history first, last, twice
  const int nsolves = c.range(1, 2, "solves");
  const int thrower = c.choose(c.thorough ? 5 : 3, "throw"); // 0: none, k: at the k-th call of the second recorder
  auto h = std::make_shared<History>(pd, vals, res), h2 = std::make_shared<History>(pd, vals, res);
  std::vector<int> seq;
  auto r1 = std::make_shared<Recorder>(), r2 = std::make_shared<Recorder>(), gone = std::make_shared<Recorder>();
  r1->order = r2->order = gone->order = &seq;
  r1->id = 1;
  r2->id = 2;
  gone->id = 9;
  auto s = make_solver(*P.p, g);
  s->setup();
  s->registerCallback(gone); // removed before anything happens
  s->clearCallbacks();
  std::vector<int> expect;
  if (order != 1)
    s->registerCallback(h);
  s->registerCallback(r1);
  if (order == 1)
    s->registerCallback(h);
  s->registerCallback(r2);
  if (order == 2)
    s->registerCallback(h2);
  // one more start: a point which needs no iteration
  const bool solved = c.flip("start at the solution");
  Vec xs, ls;
  if (solved) {
    Cfg d;
    d.tol = 1e-9;
    d.kkt = KKT_PRIMAL_DUAL;
    d.rho = g.rho;
    auto t = make_solver(*P.p, d);
    t->setup();
    if (t->solve(start_point(P, 0), pick_l0(P.nc(), 1)) != SUCCESS)
      c.prune();
    xs = t->results_->x_opt;
    ls = t->results_->data_lams_opt;
  }
  const std::string w = P.name + " " + g.name() + (solved ? " from the solution" : "") + " flags " + str(flags) + " order " + str(order) + " throw " + str(thrower);
  size_t before = 0;
  for (int k = 0; k < nsolves; k++) {
    const std::string wk = w + " solve " + str(k);
    Vec x0 = solved && !k ? xs : start_point(P, k), l0 = solved && !k ? ls : pick_l0(P.nc(), 1);
    if (thrower && k == nsolves - 1)
      r2->throw_at = int(r2->s.size()) + thrower - 1;
    bool threw = false, solver_threw = false;
    try {
      s->solve(x0, l0);
    } catch (const std::logic_error &) {
      threw = true;
    } catch (const std::runtime_error &) {
      solver_threw = true;
    }
    const RS &r = *s->results_;
    const size_t calls = r1->s.size() - before;
    c.step(calls);
    if (threw) {
      c.require(thrower && k == nsolves - 1, "spurious-exception", wk);
      c.require(int(calls) == thrower, "call-after-exception", wk + ": " + str(calls) + " calls although call " + str(thrower) + " threw");
      c.count("callback threw");
      // the interrupted call was seen by r1 and not recorded by r2
      r2->s.push_back(r1->s.back());
      break;
    }
    if (solver_threw) {
      c.count("solver threw");
      return;
    }
    c.require(r2->throw_at < 0 || thrower > int(calls), "swallowed", wk + ": the exception of a callback was swallowed");
    r2->throw_at = -1;
    c.require(calls == r.num_iters + 1, "call-count", wk + ": " + str(calls) + " calls for " + str(r.num_iters) + " iterations");
    c.require(r2->s.size() == r1->s.size(), "call-count", wk + ": callbacks called differently often");
    for (size_t i = 0; i < calls; i++) {
      const Seen &a = r1->s[before + i], &b = r2->s[before + i];
      c.require(same(a.x, b.x) && same(a.lam, b.lam), "callbacks-differ", wk);
      c.require(a.it == i, "iteration-number", wk + ": call " + str(i) + " reports iteration " + str(a.it));
      c.require(i == 0 || a.al >= r1->s[before + i - 1].al, "iteration-number", wk + ": al_iters went backwards");
      if (i + 1 < calls)
        c.require(a.alpha > 0 && a.alpha <= 1, "step-length", wk + ": alpha " + str(a.alpha));
    }
    const Seen &z = r1->s.back();
    c.require(same(z.x, r.x_opt) && same(z.lam, r.data_lams_opt) && veq(z.value, r.value) && veq(z.prim, r.prim_infeas) && veq(z.dual, r.dual_infeas), "final-call", wk + ": the last call does not see the returned point");
    // between the last step and the return the primal iterate does not move
    if (calls > 1)
      c.require(same(r1->s[r1->s.size() - 2].x, z.x), "final-call", wk + ": the returned point is not the last iterate");
    else
      c.count("no iteration");
    if (calls == 1)
      c.require(same(z.x, x0), "final-call", wk + ": no iteration, but the point is not x0");
    before = r1->s.size();
  }
  for (size_t i = 0; i < seq.size(); i++)
    c.require(seq[i] == (i % 2 ? 2 : 1), "order", w + ": callbacks not called in the order of registration");
  // the stored history outlives the solver and the problem
  std::vector<int> nrs = P.nrs;
  s.reset();
  P.p.reset();
  check_history(c, *h, r1->s, pd, vals, res, nrs, w);
  if (order == 2) {
    auto t = r1->s;
    // a callback registered after the one that threw did not see that call
    if (h2->storage.alphas.size() + 1 == t.size() && thrower)
      t.pop_back();
    check_history(c, *h2, t, pd, vals, res, nrs, w);
  }
  c.count("checked");
  c.obs(mc::mix(r1->s.size(), hashm(r1->s.back().x)));
}
int main(int argc, char **argv) {
  mc::Main m("C05");
  m.note = "7 problems x configurations within 1 deviation x 8 sets of history options x 3 registration orders x 1-2 solves x a callback "
           "throwing at one of the first 2 (4) calls; every call compared with an independent recorder, history read after the solver is "
           "destroyed, under the address sanitiser with library assertions; states are distinct (number of calls, final point)";
  m.assumptions = {"ls_alphas and ls_values: only one entry per call is required"};
  const bool t = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  m.add("callbacks", callbacks, t ? 2 : 1);
  return m.run(argc, argv);
}
