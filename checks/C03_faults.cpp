// C03: the problem's own functions fail at an arbitrary call: exception, NaN or
// infinity in a value, gradient, Jacobian or Hessian. No false success, no
// crash, no corrupted solver.
#include "steps.hpp"
using namespace pn;
using mc::Ctx;

struct UserError : std::logic_error {
  int token;
  explicit UserError(int t) : std::logic_error("user function failed"), token(t) {}
};
enum Where { VALUE, GRADIENT, HESSIAN, CVALUE, CJACOBIAN, CVHP, NWHERE };
enum What { THROW, NANV, PINF, MINF, NANLAST, NWHAT };
struct Plan {
  int where = -1, what = 0, at = 0;
  bool persistent = false;
  int calls[NWHERE] = {}, fired = 0;
  void hit(int w, Eigen::Ref<Mat> out) {
    const int k = calls[w]++;
    if (w != where || !(persistent ? k >= at : k == at))
      return;
    fired++;
    if (what == THROW)
      throw UserError(1000 * w + k);
    if (out.size() == 0)
      return;
    if (what == NANLAST)
      out(out.rows() - 1, out.cols() - 1) = QNAN;
    else
      out.setConstant(what == NANV ? QNAN : what == PINF ? INF : -INF);
  }
};
struct FCost : Cost {
  CostP f;
  Plan *p;
  FCost(CostP c, Plan *q) : Cost(c->nx(), c->ndx()), f(c), p(q) {}
  double call(const ConstVectorRef &x) const override {
    Mat v = Mat::Constant(1, 1, f->call(x));
    p->hit(VALUE, v);
    return v(0, 0);
  }
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override {
    Vec t = Vec::Zero(g.size());
    f->computeGradient(x, t);
    Mat m = t;
    p->hit(GRADIENT, m);
    g = m;
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override {
    Mat m = Mat::Zero(H.rows(), H.cols());
    f->computeHessian(x, m);
    p->hit(HESSIAN, m);
    H = m;
  }
};
struct FFun : C2F {
  C2P f;
  Plan *p;
  FFun(C2P g, Plan *q) : C2F(g->nx(), g->ndx(), g->nr()), f(g), p(q) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    Mat v = (*f)(x);
    p->hit(CVALUE, v);
    return v;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    Mat m = Mat::Zero(J.rows(), J.cols());
    f->computeJacobian(x, m);
    p->hit(CJACOBIAN, m);
    J = m;
  }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
    Mat m = Mat::Zero(H.rows(), H.cols());
    f->vectorHessianProduct(x, v, m);
    p->hit(CVHP, m);
    H = m;
  }
};
static void faults(Ctx &c) {
  Prb P = small_problem(c, c.thorough ? 7 : 5);
  int xk = c.choose(2, "x0");
  Plan plan;
  Prb Q;
  Q.M = P.M;
  Q.cost = std::make_shared<FCost>(P.cost, &plan);
  for (auto &o : P.cons)
    Q.cons.emplace_back(std::make_shared<FFun>(std::static_pointer_cast<C2F>(o.func_), &plan), o.set_);
  Problem prob(Q.M, Q.cost, Q.cons);
  Cfg g = pick_cfg(c, true, false);
  g.max_iters = c.thorough ? 25 : 15;
  if (g.hess == HessianApprox::BFGS && P.M->nx() != P.M->ndx())
    c.prune();
  Vec x0 = start_point(P, xk), l0 = pick_l0(P.nc(), 1);
  auto s = make_solver(prob, g);
  s->setup();
  // the undisturbed solve: how many calls there are, and the reference
  Outcome ref = outcome(*s, s->solve(x0, l0));
  const Plan clean = plan;
  plan = Plan{};
  plan.where = c.choose(NWHERE, "where");
  const int total = clean.calls[plan.where], cap = c.thorough ? 60 : 30;
  if (total == 0)
    c.prune();
  plan.what = c.choose(NWHAT, "what");
  plan.at = c.choose(std::min(total, cap), "call");
  c.shard();
  plan.persistent = c.flip("persistent");
  s = make_solver(prob, g);
  s->setup();
  auto history = std::make_shared<FnCallback>();
  history->f = [&](const WS &, const RS &) { c.step(1); };
  s->registerCallback(history);
  static const char *W[] = {"cost value", "gradient", "Hessian", "constraint value", "Jacobian", "vector-Hessian product"}, *H[] = {"throws", "NaN", "+inf", "-inf", "last entry NaN"};
  const std::string w = P.name + " " + g.name() + " start " + str(x0) + ": " + W[plan.where] + " " + H[plan.what] + (plan.persistent ? " from call " : " at call ") + str(plan.at);
  bool threw = false;
  ConvergenceFlag f = UNINIT;
  try {
    f = s->solve(x0, l0);
  } catch (const UserError &e) {
    threw = true;
    c.require(plan.what == THROW && e.token == 1000 * plan.where + plan.at, "wrong-exception", w + ": unexpected user exception");
    c.count("user exception propagated");
  } catch (const RuntimeError &e) {
    threw = true;
    c.require(plan.what != THROW, "wrong-exception", w + ": the user's exception was replaced by " + e.what());
    c.count("solver exception");
  } catch (const std::exception &e) {
    c.fail("wrong-exception", w + ": " + e.what());
  }
  if (plan.what == THROW && plan.fired)
    c.require(threw, "swallowed", w + ": the user's exception was swallowed");
  if (!threw) {
    const RS &r = *s->results_;
    c.require(r.x_opt.allFinite() && r.data_lams_opt.allFinite(), "not-finite", w + ": returned x=" + str(r.x_opt) + " lam=" + str(r.data_lams_opt));
    c.count(f == SUCCESS ? "absorbed, success" : "absorbed, no success");
    if (f == SUCCESS) {
      Cert t = certify(P, r.x_opt, r.data_lams_opt, r.mu);
      const double eps = 1e-11 * (1 + infn(r.data_lams_opt)) * (1 + infn(r.x_opt));
      c.require(t.dual <= g.tol * 1.001 + eps && t.prim <= g.tol * 1.001 + eps, "false-success", w + ": SUCCESS at x=" + str(r.x_opt) + " with residuals " + str(t.prim) + " " + str(t.dual));
      c.require(std::isfinite(r.prim_infeas) && std::isfinite(r.dual_infeas), "not-finite", w + ": reported residuals " + str(r.prim_infeas) + " " + str(r.dual_infeas));
    }
  } else
    c.require(s->results_->converged != SUCCESS, "false-success", w + ": SUCCESS recorded although the solve threw");
  c.obs(mc::mix(uint64_t(threw) * 4 + unsigned(f + 1), hashm(s->results_->x_opt)));
  // afterwards the same solver works as if nothing had happened
  if (g.hess == HessianApprox::BFGS)
    s->setup();
  plan = Plan{};
  Outcome again = outcome(*s, s->solve(x0, l0));
  c.require(equal(ref, again), "not-reusable", w + ": the next solve differs: " + str(int(ref.f)) + "/" + str(int(again.f)) + " iterations " + str(ref.it) + "/" + str(again.it) + " x " + str(ref.x) + "/" + str(again.x));
}
int main(int argc, char **argv) {
  mc::Main m("C03");
  m.note = "5 (7) problems x 2 starts x configurations within 1 (2) deviations x 6 user functions x every call of the undisturbed "
           "solve (first 30; thorough 60) x {throw, NaN, +inf, -inf, NaN in the last entry} x {once, from then on}; then one clean "
           "solve on the same solver; states are distinct outcomes";
  m.assumptions = {"BFGS: setup() is called before the solver is reused"};
  const bool t = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  m.add("faults", faults, t ? 2 : 1);
  return m.run(argc, argv);
}
