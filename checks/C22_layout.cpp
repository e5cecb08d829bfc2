// C22: workspace and results are laid out like the problem: sizes, zero start,
// MC-FLAGS: -O1 -fsanitize=address -fno-omit-frame-pointer
// block views over the stacked storage, neutral point, self-contained copies.
#include "functions.hpp"
#include "proxsuite-nlp/results.hpp"
#include "proxsuite-nlp/workspace.hpp"
using namespace pn;
using mc::Ctx;
using Prob = ProblemTpl<double>;
using CObj = ConstraintObjectTpl<double>;
using WS = WorkspaceTpl<double>;
using RS = ResultsTpl<double>;
using VRefs = std::vector<Eigen::Ref<Vec>>;
using MRefs = std::vector<Eigen::Ref<Mat>>;

struct Shape {
  polymorphic<Manifold> m{VSpace(1)};
  std::vector<int> nrs;
  std::string name;
};
static polymorphic<Manifold> pick_space(Ctx &c, std::string &name) {
  int k = c.choose(6, "space");
  name = "space" + str(k);
  switch (k) {
  case 0: return polymorphic<Manifold>(TagSpace(1, 0.5));
  case 1: return polymorphic<Manifold>(TagSpace(3, -1.5));
  case 2: return polymorphic<Manifold>(SO2());
  case 3: return polymorphic<Manifold>(SO3());
  case 4: {
    Prod p{polymorphic<Manifold>(TagSpace(2, 2.)), polymorphic<Manifold>(SO3())};
    return polymorphic<Manifold>(p);
  }
  default: return polymorphic<Manifold>(VSpace(2));
  }
}
// constraint of arbitrary size on any space
struct AnyF : C2F {
  AnyF(const Manifold &m, int nr) : C2F(m.nx(), m.ndx(), nr) {}
  VectorXs operator()(const ConstVectorRef &) const override { return Vec::Zero(nr()); }
  void computeJacobian(const ConstVectorRef &, MatrixRef J) const override { J.setZero(); }
};
static Prob make_problem(const Shape &s, bool incremental) {
  const int nd = s.m->ndx();
  auto cost = std::make_shared<QDist>(s.m, s.m->neutral(), Mat::Identity(nd, nd));
  std::vector<CObj> cs;
  for (int nr : s.nrs)
    cs.emplace_back(std::make_shared<AnyF>(*s.m, nr), polymorphic<CSet>(EqSet{}));
  if (!incremental)
    return Prob(s.m, cost, cs);
  Prob p(s.m, cost);
  for (auto &o : cs)
    p.addConstraint(o);
  return p;
}
static int total(const Shape &s) {
  int t = 0;
  for (int r : s.nrs)
    t += r;
  return t;
}
// writing each stacked storage is seen through the views, and the other way round
static void views(Ctx &c, const Shape &s, Vec &data, VRefs &v, const std::string &w) {
  c.require(data.size() == total(s) && v.size() == s.nrs.size(), "view-size", w);
  for (long i = 0; i < data.size(); i++)
    data[i] = 10. + double(i);
  int off = 0;
  for (size_t b = 0; b < v.size(); b++) {
    c.require(v[b].size() == s.nrs[b], "view-block", w + " block " + str(b));
    for (int k = 0; k < s.nrs[b]; k++)
      c.require(v[b][k] == 10. + off + k, "view-read", w + " block " + str(b));
    v[b].setConstant(-1. - double(b));
    for (int k = 0; k < s.nrs[b]; k++)
      c.require(data[off + k] == -1. - double(b), "view-write", w + " block " + str(b));
    off += s.nrs[b];
  }
  c.step();
}
static void mviews(Ctx &c, Mat &data, MRefs &v, const std::vector<int> &rows, long cols, const std::string &w) {
  long tot = 0;
  for (int r : rows)
    tot += r;
  c.require(data.rows() == tot && data.cols() == cols && v.size() == rows.size(), "mview-size", w);
  for (long i = 0; i < data.rows(); i++)
    for (long j = 0; j < cols; j++)
      data(i, j) = 100. * double(i) + double(j);
  long off = 0;
  for (size_t b = 0; b < v.size(); b++) {
    c.require(v[b].rows() == rows[b] && v[b].cols() == cols, "mview-block", w);
    for (int i = 0; i < rows[b]; i++)
      for (long j = 0; j < cols; j++)
        c.require(v[b](i, j) == 100. * double(off + i) + double(j), "mview-read", w);
    v[b].setConstant(-2. - double(b));
    c.require(same(data.middleRows(off, rows[b]), Mat::Constant(rows[b], cols, -2. - double(b))), "mview-write", w);
    off += rows[b];
  }
  c.step();
}
#define VPAIR(d, v) views(c, s, ws.d, ws.v, w + " " #v)
static std::vector<std::pair<std::string, Eigen::Ref<Vec>>> vbuffers(WS &ws) {
  return {{"data_lams_prev", ws.data_lams_prev}, {"data_lams_trial", ws.data_lams_trial}, {"data_cstr_values", ws.data_cstr_values},
          {"data_shift_cstr_values", ws.data_shift_cstr_values}, {"data_lams_plus", ws.data_lams_plus},
          {"data_lams_plus_reproj", ws.data_lams_plus_reproj}, {"data_lams_pdal", ws.data_lams_pdal},
          {"data_lams_pdal_reproj", ws.data_lams_pdal_reproj}, {"data_shift_cstr_pdal", ws.data_shift_cstr_pdal},
          {"merit_dual_gradient", ws.merit_dual_gradient}, {"kkt_rhs", ws.kkt_rhs}, {"kkt_rhs_corr", ws.kkt_rhs_corr}, {"pd_step", ws.pd_step},
          {"x_prev", ws.x_prev}, {"x_trial", ws.x_trial}, {"prox_grad", ws.prox_grad}, {"dual_residual", ws.dual_residual},
          {"objective_gradient", ws.objective_gradient}, {"merit_gradient", ws.merit_gradient}, {"tmp_dx_scaled", ws.tmp_dx_scaled}};
}
static Shape shape(Ctx &c, int maxb) {
  Shape s;
  s.m = pick_space(c, s.name);
  int N = c.range(0, maxb, "blocks");
  for (int i = 0; i < N; i++) {
    s.nrs.push_back(c.range(0, 3, "nr"));
    s.name += " " + str(s.nrs.back());
  }
  return s;
}
template <class T> struct InDirt { // an object built in memory which is not zero
  void *mem;
  T *t;
  template <class... A> InDirt(A &&...a) {
    mem = aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
    memset(mem, 0xA5, sizeof(T));
    t = ::new (mem) T(std::forward<A>(a)...);
  }
  ~InDirt() {
    t->~T();
    free(mem);
  }
  T &operator*() { return *t; }
};
static void workspace(Ctx &c) {
  Shape s = shape(c, c.thorough ? 4 : 3);
  bool inc = c.flip("incremental");
  c.shard();
  LDLTChoice ch = c.pick({LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN}, "ldlt");
  if (ch == LDLTChoice::BLOCKSPARSE && std::count(s.nrs.begin(), s.nrs.end(), 0))
    c.prune(); // empty blocks have no block-sparse structure
  const std::string &w = s.name;
  Prob p = make_problem(s, inc);
  const long nx = s.m->nx(), nd = s.m->ndx(), nu = total(s), nt = nd + nu;
  InDirt<WS> ws_(p, ch); // nothing depends on what the memory held before
  WS &ws = *ws_;
  c.require(ws.objective_value == 0 && ws.alpha_opt == 0 && ws.dmerit_dir == 0, "scalars-zero", w);
  c.require(ws.nx == nx && ws.ndx == nd && ws.numdual == nu && ws.numblocks == s.nrs.size(), "ws-dims", w);
  c.require(ws.kkt_matrix.rows() == nt && ws.kkt_matrix.cols() == nt && infn(ws.kkt_matrix) == 0, "kkt-matrix", w);
  for (auto &b : vbuffers(ws)) {
    long e = b.first == "x_prev" || b.first == "x_trial" ? nx
             : b.first.substr(0, 5) == "data_" || b.first == "merit_dual_gradient" ? nu
             : b.first.substr(0, 3) == "kkt" || b.first == "pd_step" ? nt : nd;
    c.require(b.second.size() == e, "buffer-size", w + " " + b.first);
    c.require(infn(b.second) == 0, "buffer-zero", w + " " + b.first);
  }
  c.require(ws.kkt_err.size() == nt, "kkt-err", w);
  c.require(ws.signature.size() == nt && (ws.signature.array() == 0).all(), "signature", w);
  for (const Mat *m : {&ws.prox_hess, &ws.objective_hessian})
    c.require(m->rows() == nd && m->cols() == nd && infn(*m) == 0, "hess", w);
  for (const Mat *m : {&ws.data_jacobians, &ws.data_jacobians_proj})
    c.require(m->rows() == nu && m->cols() == nd && infn(*m) == 0, "jac", w);
  c.require(infn(ws.data_hessians) == 0, "hessians", w);
  VPAIR(data_lams_prev, lams_prev);
  VPAIR(data_lams_trial, lams_trial);
  VPAIR(data_cstr_values, cstr_values);
  VPAIR(data_shift_cstr_values, shift_cstr_values);
  VPAIR(data_lams_plus, lams_plus);
  VPAIR(data_lams_plus_reproj, lams_plus_reproj);
  VPAIR(data_lams_pdal, lams_pdal);
  VPAIR(data_lams_pdal_reproj, lams_pdal_reproj);
  VPAIR(data_shift_cstr_pdal, shift_cstr_pdal);
  mviews(c, ws.data_jacobians, ws.cstr_jacobians, s.nrs, nd, w + " jacobians");
  mviews(c, ws.data_jacobians_proj, ws.cstr_jacobians_proj, s.nrs, nd, w + " projected jacobians");
  mviews(c, ws.data_hessians, ws.cstr_vector_hessian_prod, std::vector<int>(s.nrs.size(), int(nd)), nd, w + " hessians");
  // the step is (primal, dual)
  for (long i = 0; i < nt; i++)
    ws.pd_step[i] = double(i) + 1;
  for (long i = 0; i < nd; i++)
    c.require(ws.prim_step[i] == double(i) + 1, "prim-step", w);
  for (long i = 0; i < nu; i++)
    c.require(ws.dual_step[i] == double(nd + i) + 1, "dual-step", w);
  c.require(ws.prim_step.size() == nd && ws.dual_step.size() == nu, "step-size", w);
  ws.dual_step.setConstant(-4);
  ws.prim_step.setConstant(-3);
  for (long i = 0; i < nt; i++)
    c.require(ws.pd_step[i] == (i < nd ? -3 : -4), "step-write", w);
  // no two buffers share storage
  auto bufs = vbuffers(ws);
  for (size_t a = 0; a < bufs.size(); a++) {
    for (size_t b = 0; b < bufs.size(); b++)
      bufs[b].second.setConstant(double(b));
    bufs[a].second.setConstant(-7);
    for (size_t b = 0; b < bufs.size(); b++)
      for (long i = 0; i < bufs[b].second.size(); i++)
        c.require(bufs[b].second[i] == (a == b ? -7. : double(b)), "buffer-overlap", w + " " + bufs[a].first + "/" + bufs[b].first);
  }
  // the factorisation has the size of the KKT system and solves with it
  Mat K = Mat::Zero(nt, nt);
  K.topLeftCorner(nd, nd) = Mat::Identity(nd, nd) * 3.;
  K.bottomRightCorner(nu, nu) = Mat::Identity(nu, nu) * -0.5;
  for (long i = 0; i < nu; i++)
    for (long j = 0; j < nd; j++)
      K(nd + i, j) = K(j, nd + i) = double((i + 2 * j) % 3) - 1;
  Vec rhs = Vec::LinSpaced(nt, 1, 2), sol = rhs;
  ws.kkt_matrix = K;
  boost::apply_visitor([&](auto &&f) { f.compute(ws.kkt_matrix); f.solveInPlace(sol); }, ws.ldlt_);
  c.require(close(K * sol, rhs, 1e-9, 1e-10), "ldlt", w);
  boost::apply_visitor(ComputeSignatureVisitor{ws.signature}, ws.ldlt_);
  auto in = computeInertiaTuple(ws.signature);
  c.require(in[0] == nd && in[1] == nu && in[2] == 0, "inertia", w);
  c.obs(mc::mix(mc::hash_str(w), uint64_t(ch)));
}
static void fresh(Ctx &c, const Shape &s, RS &r, const std::string &w) {
  const long nu = total(s);
  c.require(same(r.x_opt, s.m->neutral()), "x-neutral", w + str(r.x_opt));
  c.require(r.data_lams_opt.size() == nu && infn(r.data_lams_opt) == 0, "lams", w);
  c.require(r.constraint_violations.size() == long(s.nrs.size()) && infn(r.constraint_violations) == 0, "violations", w);
  c.require(r.active_set.size() == s.nrs.size(), "active-set", w);
  for (size_t i = 0; i < s.nrs.size(); i++)
    c.require(r.active_set[i].size() == s.nrs[i] && !r.active_set[i].any(), "active-set", w + " block " + str(i));
  c.require(r.num_iters == 0 && r.al_iters == 0 && r.mu == 0 && r.rho == 0 && r.prim_infeas == 0 && r.dual_infeas == 0, "counters", w);
  c.require(r.merit == 0 && r.value == 0, "scalars-zero", w);
  c.require(r.converged == UNINIT, "success-before-solve", w + " flag " + str(int(r.converged)));
}
static void fillr(RS &r, double t) {
  r.converged = MAX_ITERS_REACHED;
  r.merit = t + 1;
  r.value = t + 2;
  r.x_opt.setConstant(t + 3);
  for (long i = 0; i < r.data_lams_opt.size(); i++)
    r.data_lams_opt[i] = t + 10 + double(i);
  for (auto &a : r.active_set)
    for (long i = 0; i < a.size(); i++)
      a[i] = (i + int(t)) % 2;
  r.dual_infeas = t + 4;
  r.prim_infeas = t + 5;
  r.constraint_violations.setConstant(t + 6);
  r.num_iters = size_t(t) + 7;
  r.al_iters = size_t(t) + 8;
  r.mu = t + 9;
  r.rho = t + 0.5;
}
static void expect(Ctx &c, const Shape &s, RS &r, double t, const std::string &w) {
  c.require(r.converged == MAX_ITERS_REACHED && r.merit == t + 1 && r.value == t + 2 && r.dual_infeas == t + 4 && r.prim_infeas == t + 5 &&
                r.num_iters == size_t(t) + 7 && r.al_iters == size_t(t) + 8 && r.mu == t + 9 && r.rho == t + 0.5,
            "copy-scalars", w);
  c.require(same(r.x_opt, Vec::Constant(s.m->nx(), t + 3)), "copy-x", w);
  c.require(same(r.constraint_violations, Vec::Constant(long(s.nrs.size()), t + 6)), "copy-violations", w);
  int off = 0;
  c.require(r.lams_opt.size() == s.nrs.size() && r.data_lams_opt.size() == total(s), "copy-views", w);
  for (size_t b = 0; b < s.nrs.size(); b++) {
    c.require(r.lams_opt[b].size() == s.nrs[b], "copy-views", w);
    for (int k = 0; k < s.nrs[b]; k++, off++)
      c.require(r.lams_opt[b][k] == t + 10 + off && r.data_lams_opt[off] == t + 10 + off, "copy-lams", w + " block " + str(b));
    c.require(r.active_set[b].size() == s.nrs[b], "copy-active", w);
    for (int k = 0; k < s.nrs[b]; k++)
      c.require(r.active_set[b][k] == ((k + int(t)) % 2 == 1), "copy-active", w);
  }
  c.step();
}
static void results(Ctx &c) {
  Shape s = shape(c, c.thorough ? 4 : 3);
  bool inc = c.flip("incremental");
  c.shard();
  Prob p = make_problem(s, inc);
  InDirt<RS> r_(p);
  RS &r = *r_;
  fresh(c, s, r, s.name);
  std::ostringstream os;
  fillr(r, 1);
  os << r;
  // what is printed is what is stored, under its name
  auto line = [&](const std::string &label) { // the numbers after "label:"
    std::istringstream in(os.str());
    for (std::string l; std::getline(in, l);) {
      size_t k = l.find_first_not_of(' ');
      if (k != std::string::npos && l.compare(k, label.size() + 1, label + ":") == 0) {
        std::istringstream v(l.substr(k + label.size() + 1));
        std::vector<double> r;
        for (double d; v >> d;)
          r.push_back(d);
        return r;
      }
    }
    return std::vector<double>{-999};
  };
  using VD = std::vector<double>;
  auto is = [&](const std::string &label, const VD &v) { c.require(line(label) == v, "print", label + " in " + os.str()); };
  is("convergence", {double(r.converged)}), is("merit", {r.merit}), is("value", {r.value}), is("num_iters", {double(r.num_iters)});
  is("mu", {r.mu}), is("rho", {r.rho}), is("dual_infeas", {r.dual_infeas}), is("prim_infeas", {r.prim_infeas});
  is("cstr_values", VD(r.constraint_violations.data(), r.constraint_violations.data() + r.constraint_violations.size()));
  for (size_t i = 0; i < s.nrs.size(); i++) {
    VD act;
    for (long k = 0; k < r.active_set[i].size(); k++)
      act.push_back(r.active_set[i][k]);
    is("activeSet[" + str(i) + "]", act);
  }
  views(c, s, r.data_lams_opt, r.lams_opt, s.name + " lams_opt");
  c.obs(mc::hash_str(s.name));
}
// histories of copies, moves, assignments and destructions of results
static void copies(Ctx &c) {
  Shape s;
  s.m = polymorphic<Manifold>(SO2());
  s.nrs = c.pick(std::vector<std::vector<int>>{{2, 1}, {}, {1}, {0, 3}}, "shape");
  s.name = "results of " + str(s.nrs.size()) + " blocks";
  Prob p = make_problem(s, false);
  std::unique_ptr<RS> r[2] = {std::make_unique<RS>(p), std::make_unique<RS>(p)};
  double t[2] = {1, 100};
  fillr(*r[0], 1);
  fillr(*r[1], 100);
  std::string w = s.name;
  int depth = c.thorough ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    if (d == 1)
      c.shard();
    int op = c.choose(8, "op");
    w += " " + str(op);
    int i = op % 2, j = 1 - i;
    switch (op / 2) {
    case 0: // fill again
      t[i] += 10;
      fillr(*r[i], t[i]);
      break;
    case 1: // copy construct i from j; destroys the old i
      r[i] = std::make_unique<RS>(*r[j]);
      t[i] = t[j];
      break;
    case 2: // copy assign
      *r[i] = *r[j];
      t[i] = t[j];
      break;
    default: { // move through a temporary
      RS tmp(std::move(*r[j]));
      *r[i] = std::move(tmp);
      t[i] = t[j];
      r[j] = std::make_unique<RS>(p);
      fillr(*r[j], t[j]);
    }
    }
    for (int q = 0; q < 2; q++)
      expect(c, s, *r[q], t[q], w + ": result " + str(q));
    // writing one does not reach the other
    for (int q = 0; q < 2; q++) {
      fillr(*r[q], 1000);
      expect(c, s, *r[1 - q], t[1 - q], w + ": independent of " + str(q));
      for (auto &v : r[q]->lams_opt)
        v.setConstant(-1);
      expect(c, s, *r[1 - q], t[1 - q], w + ": views independent of " + str(q));
      fillr(*r[q], t[q]);
    }
  }
  c.obs(mc::hash_str(w));
}
int main(int argc, char **argv) {
  mc::Main m("C22");
  m.note = "all problems with up to 3 (4) constraint blocks of sizes 0-3 over six spaces, all factorisation choices, all histories of 4 (5) copies, moves and assignments of results";
  m.assumptions = {"copies of the solver's internal workspace are not specified"};
  m.add("workspace", workspace);
  m.add("results", results);
  m.add("copies", copies);
  return m.run(argc, argv);
}
