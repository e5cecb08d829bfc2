// MC-FLAGS: -O1 -fsanitize=address -fno-omit-frame-pointer
// C23: requests which cannot be served are refused with an exception, nothing
// is computed from them, and the object serves valid requests afterwards.
#include "steps.hpp"
#include "proxsuite-nlp/bfgs-strategy.hpp"
using namespace pn;
using mc::Ctx;

template <class F> static int refused(F &&f) { // 0 accepted, 1 refused
  try {
    f();
  } catch (const std::runtime_error &) {
    return 1;
  }
  return 0;
}
static void solver_calls(Ctx &c) {
  Prb P = small_problem(c, 7);
  Cfg g = pick_cfg(c, false, false);
  g.max_iters = 10;
  const int nx = P.M->nx(), m = P.nc(), nb = int(P.nrs.size());
  const Vec x0 = start_point(P, 1);
  Vec l0 = pick_l0(m, 1);
  Outcome ref;
  {
    auto s = make_solver(*P.p, g);
    s->setup();
    ref = outcome(*s, s->solve(x0, l0));
  }
  auto s = make_solver(*P.p, g);
  bool ready = false;
  const int len = c.range(1, c.thorough ? 4 : 3, "length");
  std::string w = P.name + " " + g.name() + ": ";
  for (int i = 0; i < len; i++) {
    const int op = c.choose(7, "op");
    if (i == 1)
      c.shard();
    switch (op) {
    case 0: s->setup(); ready = true; w += "setup, "; break;
    case 1: {
      w += "solve, ";
      ConvergenceFlag f = UNINIT;
      int r = refused([&] { f = s->solve(x0, l0); });
      c.require(r == !ready, "not-set-up", w + (ready ? "refused although set up" : "accepted without setup()"));
      if (!r)
        c.require(equal(ref, outcome(*s, f)), "differs", w + "result differs from a fresh solver");
      break;
    }
    case 2: {
      static const int D[] = {-1, 1, 2};
      int k = c.choose(4, "size");
      const int n = k == 3 ? 0 : nx + D[k];
      w += "solve with x0 of size " + str(n) + ", ";
      if (n == nx || n < 0)
        c.prune();
      c.require(refused([&] { s->solve(Vec(Vec::Constant(n, 0.5)), l0); }), "wrong-x0", w + "accepted");
      break;
    }
    case 3: {
      const int n = c.choose(m + 3, "size");
      w += "solve with " + str(n) + " multipliers, ";
      if (n == m || n == 0) // an empty vector stands for "keep the multipliers"
        c.prune();
      c.require(refused([&] { s->solve(x0, Vec(Vec::Zero(n))); }), "wrong-multipliers", w + "accepted");
      break;
    }
    case 4: {
      const int k = c.choose(nb + 2, "blocks");
      w += "solve with " + str(k) + " multiplier blocks, ";
      if (k == nb)
        c.prune();
      std::vector<Vec> d(size_t(k), Vec::Zero(1));
      for (int j = 0; j < k && j < nb; j++)
        d[size_t(j)] = Vec::Zero(P.nrs[size_t(j)]);
      std::vector<VRef> b;
      for (auto &v : d)
        b.emplace_back(v);
      c.require(refused([&] { s->solve(x0, b); }), "wrong-block-count", w + "accepted");
      break;
    }
    case 5: {
      if (!nb)
        c.prune();
      const int j = c.choose(nb, "block"), dn = c.choose(2, "longer") ? 1 : -1;
      w += "solve with block " + str(j) + (dn > 0 ? " too long, " : " too short, ");
      std::vector<Vec> d;
      std::vector<VRef> b;
      d.reserve(size_t(nb));
      for (int k = 0; k < nb; k++) {
        d.push_back(Vec::Zero(P.nrs[size_t(k)] + (k == j ? dn : 0)));
        b.emplace_back(d.back());
      }
      c.require(refused([&] { s->solve(x0, b); }), "wrong-block-size", w + "accepted");
      break;
    }
    case 6: { // a line search which does not exist
      if (!ready)
        c.prune();
      w += "solve with the Wolfe line search, ";
      s->ls_strat = LinesearchStrategy::WOLFE;
      int r = refused([&] { s->solve(x0, l0); });
      s->ls_strat = LinesearchStrategy::ARMIJO;
      c.require(r == (ref.it > 0), "wolfe", w + (r ? "refused although no step is needed" : "accepted"));
      break;
    }
    }
    c.step(1);
  }
  if (!ready)
    s->setup();
  Outcome got = outcome(*s, s->solve(x0, l0));
  c.require(equal(ref, got), "differs", w + "a valid solve afterwards differs: " + str(ref.x) + " / " + str(got.x));
  c.count("served afterwards");
  c.obs(mc::mix(uint64_t(len), hashm(got.x)));
}
static void settings(Ctx &c) {
  Prb P = pick_prb(c, N_FAMILIES, 1);
  Cfg g;
  const int k = c.choose(3, "setting");
  c.step(1);
  if (k == 0) { // BFGS needs a flat space
    g.hess = HessianApprox::BFGS;
    auto s = make_solver(*P.p, g);
    const bool flat = P.M->nx() == P.M->ndx();
    c.require(refused([&] { s->setup(); }) == !flat, "bfgs", P.name + (flat ? ": BFGS refused on a flat space" : ": BFGS accepted on a curved space"));
    c.count(flat ? "BFGS accepted" : "BFGS refused");
    if (!flat) {
      s->hess_approx = HessianApprox::GAUSS_NEWTON;
      s->setup();
      s->max_iters = 3;
      s->solve(start_point(P, 0), pick_l0(P.nc(), 0));
    }
  } else if (k == 1) { // not compiled in
    g.ldlt = LDLTChoice::PROXSUITE;
    auto s = make_solver(*P.p, g);
    c.require(refused([&] { s->setup(); }), "ldlt", P.name + ": a factorisation which is not available was accepted");
    s->ldlt_choice_ = LDLTChoice::DENSE;
    s->setup();
    s->max_iters = 3;
    s->solve(start_point(P, 0), pick_l0(P.nc(), 0));
    c.count("factorisation refused");
  } else {
    c.require(refused([&] { LinesearchStrategy(); allocate_ldlt_from_sizes<double>({P.M->ndx()}, {}, LDLTChoice(c.choose(3, "value") + 4)); }), "ldlt", "unknown factorisation accepted");
  }
}
static void construction(Ctx &c) {
  const int k = c.choose(7, "object");
  c.step(1);
  switch (k) {
  case 0: { // composition
    int a = c.range(1, 4, "left nx"), b = c.range(1, 4, "right nr");
    auto l = std::make_shared<QuadF>(a, 2), r = std::make_shared<QuadF>(2, b);
    c.require(refused([&] { ComposeFunctionTpl<double> f(l, r); }) == (a != b), "composition", "left takes " + str(a) + ", right returns " + str(b));
    break;
  }
  case 1: { // cast to a cost
    int m = c.range(0, 4, "nr");
    c.require(refused([&] { downcast_function_to_cost<double>(C2P(std::make_shared<QuadF>(2, m))); }) == (m != 1), "cost", "function with " + str(m) + " outputs");
    break;
  }
  case 2: { // product sets
    int a = c.range(0, 3, "sets"), b = c.range(0, 3, "sizes");
    std::vector<polymorphic<CSet>> s;
    for (int i = 0; i < a; i++)
      s.push_back(i % 2 ? polymorphic<CSet>(EqSet{}) : polymorphic<CSet>(NegSet{}));
    c.require(refused([&] { ProdSet p(s, std::vector<Eigen::Index>(size_t(b), 1)); }) == (a != b), "product-set", str(a) + " sets, " + str(b) + " sizes");
    break;
  }
  case 3: { // targets off the manifold
    int kind = c.choose(4, "space"), bad = c.choose(3, "target");
    polymorphic<Manifold> M = kind == 0 ? polymorphic<Manifold>(SO2{}) : kind == 1 ? polymorphic<Manifold>(SO3{}) : polymorphic<Manifold>(VSpace(2));
    if (kind == 3) {
      Prod p;
      p.addComponent(SO2{});
      p.addComponent(VSpace(2));
      M = polymorphic<Manifold>(p);
    }
    Vec t = M->neutral();
    if (bad == 1)
      t[0] += 0.5;
    if (bad == 2)
      t *= 1.001;
    const bool valid = bad == 0 || kind == 2;
    c.require(refused([&] { DiffF f(M, t); }) == !valid, "target", "space " + str(kind) + " target " + str(t));
    c.require(refused([&] { QDist f(M, t); }) == !valid, "target", "distance on space " + str(kind) + " target " + str(t));
    const int n = M->ndx();
    c.require(refused([&] { LinDiffF f(M, t, Mat::Identity(n, n), Vec::Zero(n)); }) == !valid, "target", "linear difference on space " + str(kind) + " target " + str(t));
    break;
  }
  case 4: { // parts of a point of a product space
    Prod p;
    p.addComponent(SO2{});
    p.addComponent(VSpace(2));
    int n = c.range(0, 6, "size");
    c.require(refused([&] { Vec v = Vec::Zero(n); p.split(VRef(v)); }) == (n != p.nx()), "split", "point of size " + str(n));
    c.require(refused([&] { Vec v = Vec::Zero(n); p.split_vector(VRef(v)); }) == (n != p.ndx()), "split", "vector of size " + str(n));
    break;
  }
  case 5: { // quasi-Newton memory without a dimension
    BFGSStrategy<double, BFGSType::Hessian> b;
    Mat H = Mat::Identity(2, 2);
    c.require(!b.isValid(), "bfgs", "an empty strategy calls itself valid");
    const int op = c.choose(2, "op");
    c.require(refused([&] {
                if (op)
                  b.init(Vec::Zero(2), Vec::Zero(2));
                else
                  b.update(Vec::Zero(2), Vec::Zero(2), H);
              }),
              "bfgs", "an empty strategy was used");
    break;
  }
  case 6: { // derivative of the retraction with respect to an argument which does not exist
    int arg = c.range(-1, 4, "arg");
    VSpace V(2);
    Mat J = Mat::Zero(2, 2);
    Vec x = Vec::Ones(2);
    c.require(refused([&] { V.Jintegrate(x, x, J, arg); }) == 0 || (arg != 0 && arg != 1), "argument", "Jintegrate argument " + str(arg));
    c.require(refused([&] { V.Jdifference(x, x, J, arg); }) == (arg != 0 && arg != 1), "argument", "Jdifference argument " + str(arg));
    break;
  }
  }
  c.count("construction");
  c.obs(mc::mix(7, uint64_t(k)));
}
int main(int argc, char **argv) {
  mc::Main m("C23");
  m.note = "7 problems x configurations within 1 deviation x every sequence of up to 3 (4) requests from {setup, valid solve, x0 of the "
           "wrong size, multipliers of every wrong size, every wrong number of blocks, each block too long or short, unavailable line "
           "search}, each checked against the model {set up, not set up} and followed by a valid solve which must equal a fresh one; "
           "solver settings and object constructions with every small wrong dimension";
  m.assumptions = {"an empty multiplier vector is a valid request"};
  const bool t = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  m.add("requests", solver_calls, t ? 1 : 1);
  m.add("settings", settings);
  m.add("construction", construction);
  return m.run(argc, argv);
}
