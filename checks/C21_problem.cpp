// C21: a problem is its ordered list of constraint blocks; evaluation and
// derivatives fill exactly the block of each constraint.
#include "functions.hpp"
#include "proxsuite-nlp/problem-base.hpp"
#include "proxsuite-nlp/workspace.hpp"
using namespace pn;
using mc::Ctx;
using Prob = ProblemTpl<double>;
using CObj = ConstraintObjectTpl<double>;
using WS = WorkspaceTpl<double>;

// A set that wants constraint Hessians in Gauss-Newton mode.
struct HSet : NegSet {
  bool disableGaussNewton() const override { return false; }
};
static polymorphic<CSet> make_set(int k, int nr) {
  switch (k % 6) {
  case 0: return polymorphic<CSet>(EqSet{});
  case 1: return polymorphic<CSet>(NegSet{});
  case 2: return polymorphic<CSet>(BoxSet(Vec::Constant(nr, -1.), Vec::Constant(nr, 2.)));
  case 3: return polymorphic<CSet>(L1Set{});
  case 5: return polymorphic<CSet>(HSet{});
  default: {
    std::vector<polymorphic<CSet>> cs{polymorphic<CSet>(EqSet{}), polymorphic<CSet>(NegSet{})};
    std::vector<Eigen::Index> sz{nr / 2, nr - nr / 2};
    return polymorphic<CSet>(ProdSet(cs, sz));
  }
  }
}
struct Blk {
  std::shared_ptr<QuadF> f;
  int set;
  double mu = -1;
};
static Vec point(int n, int k) {
  Vec x(n);
  for (int i = 0; i < n; i++)
    x[i] = 0.5 * k - 0.75 + 0.5 * i;
  return x;
}
static void judge(Ctx &c, const Prob &p, const Cost &cost, const std::vector<Blk> &L, const std::string &w, bool deep) {
  const int n = p.nx();
  const size_t N = L.size();
  c.require(p.getNumConstraints() == N, "count", w);
  int tot = 0;
  std::vector<int> idx;
  for (size_t i = 0; i < N; i++) {
    c.require(p.getIndex(i) == tot && p.getConstraintDim(i) == L[i].f->nr(), "index", w + " block " + str(i));
    c.require(&p.getConstraint(i).func() == L[i].f.get(), "constraint-order", w + " block " + str(i));
    c.require(p.getConstraint(i).nr() == L[i].f->nr(), "constraint-nr", w);
    if (L[i].mu >= 0)
      c.require(p.getConstraint(i).set_->mu() == L[i].mu, "set-identity", w + " block " + str(i));
    idx.push_back(tot);
    tot += L[i].f->nr();
  }
  c.require(p.getTotalConstraintDim() == tot && p.getIndices() == idx, "total", w);
  c.require(&p.cost() == &cost, "cost", w);
  // segments
  Vec v = Vec::LinSpaced(std::max(tot, 1), 1, std::max(tot, 1)).head(tot);
  std::vector<Eigen::Ref<Vec>> views;
  Vec data = v;
  helpers::createConstraintWiseView<double, Vec>(p, data, views);
  c.require(views.size() == N, "views", w);
  for (size_t i = 0; i < N; i++) {
    Vec e = v.segment(idx[i], L[i].f->nr());
    c.require(same(p.getSegment(v, i), e) && same(p.getConstSegment(v, i), e) && same(views[i], e), "segment", w);
    views[i].setConstant(100. + double(i));
    p.getSegment(v, i).array() = 100. + double(i);
  }
  for (size_t i = 0; i < N; i++)
    for (int k = 0; k < L[i].f->nr(); k++)
      c.require(data[idx[i] + k] == 100. + double(i) && v[idx[i] + k] == 100. + double(i), "view-writes", w);
  Vec raw = Vec::Constant(1, 7);
  std::vector<Eigen::Ref<Vec>> al;
  helpers::allocateMultipliersOrResiduals(p, raw, al);
  c.require(raw.size() == tot && al.size() == N && infn(raw) == 0, "allocate", w);
  if (!deep)
    return;
  // evaluation
  WS ws(p);
  for (int k = 0; k < 2; k++) {
    Vec x = point(n, k);
    for (int fillv = 0; fillv < 2; fillv++) {
      ws.data_cstr_values.setConstant(fillv ? 1e6 : QNAN);
      ws.objective_value = QNAN;
      p.evaluate(x, ws);
      c.require(ws.objective_value == cost.call(x), "evaluate-cost", w);
      for (size_t i = 0; i < N; i++)
        c.require(same(ws.data_cstr_values.segment(idx[i], L[i].f->nr()), (*L[i].f)(x)), "evaluate-constraint", w + " block " + str(i));
      ws.data_jacobians.setConstant(fillv ? 1e6 : QNAN);
      ws.objective_gradient.setConstant(QNAN);
      Mat hes = Mat::Constant(long(N) * n, n, 3.);
      ws.data_hessians = hes;
      p.computeDerivatives(x, ws);
      c.require(same(ws.objective_gradient, static_cast<const Cost &>(cost).computeGradient(x)), "gradient", w);
      for (size_t i = 0; i < N; i++) {
        Mat J(L[i].f->nr(), n);
        L[i].f->computeJacobian(x, J);
        c.require(same(ws.data_jacobians.middleRows(idx[i], L[i].f->nr()), J), "jacobian", w + " block " + str(i));
      }
      c.require(same(ws.data_hessians, hes), "derivatives-touch-hessians", w);
      for (bool all : {false, true}) {
        ws.data_hessians.setConstant(-5.);
        ws.objective_hessian.setConstant(QNAN);
        ws.data_lams_pdal = Vec::LinSpaced(std::max(tot, 1), -1, 2).head(tot);
        ws.data_lams_plus.setConstant(1e9);
        if (all)
          p.computeHessians(x, ws, true);
        else
          p.computeHessians(x, ws);
        c.require(same(ws.objective_hessian, cost.computeHessian(x)), "hessian", w);
        for (size_t i = 0; i < N; i++) {
          bool use = all || L[i].set == 5;
          Mat H(n, n);
          if (use)
            L[i].f->vectorHessianProduct(x, ws.data_lams_pdal.segment(idx[i], L[i].f->nr()), H);
          else
            H.setConstant(-5.);
          c.require(same(ws.data_hessians.middleRows(long(i) * n, n), H), "vector-hessian", w + " block " + str(i) + (use ? " used" : " unused"));
        }
        c.step(3);
      }
      c.obs(hashm(ws.data_cstr_values, uint64_t(N)));
    }
  }
}
static Cost *mkcost(int n, std::shared_ptr<Cost> &keep) {
  keep = downcast_function_to_cost<double>(C2P(std::make_shared<QuadF>(n, 1, 2)));
  return keep.get();
}
// all lists of blocks (size, set kind), built by constructor or one by one
static void lists(Ctx &c) {
  const int n = c.range(1, 3, "n");
  const int N = c.range(0, c.thorough ? 4 : 3, "blocks");
  const int split = c.range(0, N, "constructed-with");
  std::vector<Blk> L;
  std::vector<CObj> objs;
  std::string w = "blocks";
  for (int i = 0; i < N; i++) {
    int nr = c.range(0, i < 2 ? 3 : 2, "nr");
    int set = N <= 2 || c.thorough && N == 3 ? c.choose(6, "set") : (i * 2 + nr) % 6;
    Blk b{std::make_shared<QuadF>(n, nr, i), set, 0.25 * (i + 1)};
    objs.emplace_back(b.f, make_set(set, nr));
    objs.back().set_->setProxParameter(b.mu);
    L.push_back(b);
    w += " " + str(nr) + "/" + str(set);
  }
  c.shard();
  std::shared_ptr<Cost> keep;
  mkcost(n, keep);
  std::vector<CObj> firstobjs(objs.begin(), objs.begin() + split);
  Prob p(VSpace(n), keep, firstobjs);
  std::vector<Blk> cur(L.begin(), L.begin() + split);
  judge(c, p, *keep, cur, w + " after construction", split == N);
  for (int i = split; i < N; i++) {
    if (i % 2)
      p.addConstraint(objs[size_t(i)]);
    else
      p.addConstraint(CObj(objs[size_t(i)]));
    cur.push_back(L[size_t(i)]);
    judge(c, p, *keep, cur, w + " after adding " + str(i), i + 1 == N);
  }
  c.require(p.nx() == n && p.ndx() == n, "dims", w);
}
// histories of adding, copying, assigning and changing the penalty of two problems
static void history(Ctx &c) {
  const int n = 2, depth = c.thorough ? 5 : 4;
  std::shared_ptr<Cost> k0, k1;
  mkcost(n, k0);
  mkcost(n, k1);
  const Cost *cost[2] = {k0.get(), k1.get()};
  std::unique_ptr<Prob> p[2] = {std::make_unique<Prob>(VSpace(n), k0), std::make_unique<Prob>(VSpace(n), k1)};
  std::vector<Blk> L[2];
  std::string w = "history";
  int serial = 0;
  for (int d = 0; d < depth; d++) {
    if (d == 2)
      c.shard();
    int op = c.choose(9, "op");
    w += " " + str(op);
    int t = op % 2;
    if (op < 6) { // add a block of size 0..2 to t
      int nr = op / 2, set = (serial + nr) % 6;
      Blk b{std::make_shared<QuadF>(n, nr, serial), set, 0.5};
      CObj o(b.f, make_set(set, nr));
      o.set_->setProxParameter(0.5);
      p[t]->addConstraint(o);
      o.set_->setProxParameter(9.); // the problem holds its own set
      L[t].push_back(b);
      serial++;
    } else if (op == 6) { // copy construct 1 from 0
      p[1] = std::make_unique<Prob>(*p[0]);
      L[1] = L[0];
      cost[1] = cost[0];
    } else if (op == 7) { // assign
      *p[0] = *p[1];
      L[0] = L[1];
      cost[0] = cost[1];
    } else { // penalty of every set of problem 0
      for (size_t i = 0; i < L[0].size(); i++) {
        p[0]->getConstraint(i).set_->setProxParameter(0.125);
        L[0][i].mu = 0.125;
      }
    }
    for (int q = 0; q < 2; q++)
      judge(c, *p[q], *cost[q], L[q], w + " problem " + str(q), d + 1 == depth);
  }
}
// spaces whose point and tangent dimensions differ
static void curved(Ctx &c) {
  int k = c.choose(3, "space"), N = c.range(0, 2, "blocks");
  c.shard();
  std::shared_ptr<Manifold> M;
  if (k == 0)
    M = std::make_shared<SO2>();
  else if (k == 1)
    M = std::make_shared<SO3>();
  else {
    Prod p{polymorphic<Manifold>(SO3()), polymorphic<Manifold>(VSpace(2))};
    M = std::make_shared<Prod>(p);
  }
  polymorphic<Manifold> pm = k == 0 ? polymorphic<Manifold>(SO2()) : k == 1 ? polymorphic<Manifold>(SO3()) : polymorphic<Manifold>(*std::static_pointer_cast<Prod>(M));
  const int nd = M->ndx();
  auto cost = std::make_shared<QDist>(pm, M->neutral(), Mat::Identity(nd, nd) * 2.);
  std::vector<CObj> cs;
  std::vector<Vec> tg;
  for (int i = 0; i < N; i++) {
    tg.push_back(M->integrate(M->neutral(), Vec::LinSpaced(nd, 0.1, 0.2 + 0.1 * i)));
    cs.emplace_back(std::make_shared<DiffF>(pm, tg.back()), make_set(i, nd));
  }
  Prob p(pm, cost, cs);
  c.require(p.nx() == M->nx() && p.ndx() == nd && p.getTotalConstraintDim() == N * nd, "curved-dims", str(k));
  WS ws(p);
  Vec x = M->integrate(M->neutral(), Vec::LinSpaced(nd, -0.3, 0.4));
  ws.data_cstr_values.setConstant(QNAN);
  ws.data_jacobians.setConstant(QNAN);
  p.evaluate(x, ws);
  p.computeDerivatives(x, ws);
  c.require(ws.objective_value == cost->call(x), "curved-value", "");
  for (int i = 0; i < N; i++) {
    c.require(close(ws.data_cstr_values.segment(i * nd, nd), M->difference(tg[size_t(i)], x), 1e-12), "curved-constraint", str(i));
    Mat J(nd, nd);
    M->Jdifference(tg[size_t(i)], x, J, 1);
    c.require(close(ws.data_jacobians.middleRows(i * nd, nd), J, 1e-12), "curved-jacobian", str(i));
  }
  c.step(4);
  c.obs(hashm(ws.data_cstr_values));
}
int main(int argc, char **argv) {
  mc::Main m("C21");
  m.note = "all lists of up to 3 (4) constraint blocks of sizes 0-3 and six set kinds, every split between constructor and later additions, all histories of 4 (5) building operations on two problems";
  m.assumptions = {"constraint functions are quadratic polynomials with distinct coefficients per block"};
  m.add("lists", lists);
  m.add("history", history);
  m.add("curved", curved);
  return m.run(argc, argv);
}
