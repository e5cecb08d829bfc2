// C18: sums, scalings and compositions of costs and functions denote exactly
// the weighted list they were built from, and operands are never disturbed.
#include "functions.hpp"
using namespace pn;
using mc::Ctx;
using SumP = std::shared_ptr<CSum>;

struct Ref { // reference model of a weighted sum
  std::vector<int> id;
  std::vector<double> w;
};
struct Pool {
  std::vector<CostP> base;
  int n;
  Pool(int n_) : n(n_) {
    base.push_back(downcast_function_to_cost<double>(C2P(std::make_shared<QuadF>(n, 1, 0))));
    base.push_back(std::make_shared<QDist>(VSpace(n), Vec::LinSpaced(n, -1, 2)));
    auto q = std::make_shared<QRes>(std::make_shared<QuadF>(n, 2, 1), Mat::Identity(2, 2), Vec::Constant(2, 0.5), 0.25);
    base.push_back(q);
  }
};
static void judge(Ctx &c, const Pool &P, const CSum &s, const Ref &r, const std::string &w) {
  const int n = P.n;
  c.require(s.nx() == n && s.ndx() == n && s.nr() == 1, "dims", w);
  c.require(s.numComponents() == r.id.size() && s.components_.size() == r.id.size() && s.weights_.size() == r.id.size(),
            "count", w + " has " + str(s.numComponents()) + " terms, expected " + str(r.id.size()));
  for (size_t i = 0; i < r.id.size(); i++)
    c.require(s.components_[i] == P.base[size_t(r.id[i])] && s.weights_[i] == r.w[i], "terms", w + " term " + str(i));
  for (int k = 0; k < 2; k++) {
    Vec x(n);
    for (int i = 0; i < n; i++)
      x[i] = 0.5 * k - 0.75 + 0.5 * i;
    double v = 0;
    Vec g = Vec::Zero(n);
    Mat H = Mat::Zero(n, n);
    for (size_t i = 0; i < r.id.size(); i++) {
      auto &b = *P.base[size_t(r.id[i])];
      v += r.w[i] * b.call(x);
      g += r.w[i] * b.computeGradient(x);
      H += r.w[i] * b.computeHessian(x);
    }
    c.require(close(s.call(x), v, 1e-12, 1e-12), "value", w + str(s.call(x)) + " expected " + str(v));
    Vec gb = Vec::Constant(n + 2, 9.);
    s.computeGradient(x, gb.segment(1, n));
    c.require(close(gb.segment(1, n), g, 1e-12, 1e-12) && gb[0] == 9. && gb[n + 1] == 9., "gradient", w + str(gb));
    Mat Hb = Mat::Constant(n + 2, n + 2, 9.);
    s.computeHessian(x, Hb.block(1, 1, n, n));
    c.require(close(Hb.block(1, 1, n, n), H, 1e-12, 1e-12), "hessian", w);
    Hb.block(1, 1, n, n).setConstant(9.);
    c.require((Hb.array() == 9.).all(), "hessian", w);
    Mat J = Mat::Constant(1, n, 5.);
    s.computeJacobian(x, J);
    c.require(close(J, g.transpose(), 1e-12, 1e-12), "jacobian", w);
    Mat VH = Mat::Constant(n, n, 5.);
    s.vectorHessianProduct(x, Vec::Constant(1, -1.5), VH);
    c.require(close(VH, -1.5 * H, 1e-12, 1e-12), "vector-hessian", w);
  }
  std::ostringstream os, ex;
  os << s;
  ex << "CostSum(num_components=" << r.id.size() << ", weights=(";
  for (size_t i = 0; i < r.w.size(); i++)
    ex << (i ? ", " : "") << r.w[i];
  ex << "))";
  c.require(os.str() == ex.str(), "print", w + os.str() + " expected " + ex.str());
  c.step(8);
  uint64_t h = 17;
  for (size_t i = 0; i < r.id.size(); i++)
    h = mc::mix(mc::mix(h, uint64_t(r.id[i])), mc::hash_double(r.w[i]));
  c.obs(h);
}
static Ref cat(Ref a, const Ref &b) {
  a.id.insert(a.id.end(), b.id.begin(), b.id.end());
  a.w.insert(a.w.end(), b.w.begin(), b.w.end());
  return a;
}
static Ref scale(Ref a, double k) {
  for (auto &x : a.w)
    x = k * x;
  return a;
}
static void histories(Ctx &c) {
  const int n = 2;
  Pool P(n);
  SumP s[2] = {std::make_shared<CSum>(n, n), std::make_shared<CSum>(n, n)};
  Ref r[2];
  std::string w;
  const int N = c.thorough ? 6 : 5;
  for (int t = 0; t < N; t++) {
    int op = c.choose(16, "op");
    if (t == 1)
      c.shard();
    w += str(op) + " ";
    int a = op & 1, b = 1 - a;
    switch (op / 2) {
    case 0: *s[a] += P.base[size_t(t % 3)]; r[a] = cat(r[a], {{t % 3}, {1.}}); break;
    case 1: { double k = t == 1 ? 0. : 0.5 + t; s[a]->addComponent(P.base[size_t((t + 1) % 3)], k); r[a] = cat(r[a], {{(t + 1) % 3}, {k}}); break; }
    case 2: *s[a] += *s[b]; r[a] = cat(r[a], r[b]); break;
    case 3: *s[a] += *s[a]; r[a] = cat(r[a], r[a]); break;
    case 4: *s[a] *= -2.; r[a] = scale(r[a], -2.); break;
    case 5:
      if (a) { s[0] = 3. * *s[1]; r[0] = scale(r[1], 3.); }
      else { s[1] = *s[0] * 0.25; r[1] = scale(r[0], 0.25); }
      break;
    case 6:
      if (a) { s[0] = -*s[1]; r[0] = scale(r[1], -1.); }
      else { s[1] = s[0]->clone(); r[1] = r[0]; }
      break;
    case 7:
      if (a) { s[0] = P.base[0] + P.base[2]; r[0] = {{0, 2}, {1., 1.}}; }
      else {
        s[1] = -1.5 * P.base[1] + P.base[0]; // temporary sum + cost
        r[1] = {{1, 0}, {-1.5, 1.}};
      }
      break;
    }
    if (r[0].id.size() > 12 || r[1].id.size() > 12)
      c.prune();
    // both sums are observed after every operation: an operation disturbs only its target
    for (int i = 0; i < 2; i++) {
      c.require(s[i]->weights_ == r[i].w, "history-weights", w);
      c.require(s[i]->components_.size() == r[i].id.size(), "history-count", w);
      for (size_t j = 0; j < r[i].id.size(); j++)
        c.require(s[i]->components_[j] == P.base[size_t(r[i].id[j])], "history-terms", w);
    }
    uint64_t h = 3;
    for (int i = 0; i < 2; i++) {
      for (size_t j = 0; j < r[i].id.size(); j++)
        h = mc::mix(mc::mix(h, uint64_t(r[i].id[j])), mc::hash_double(r[i].w[j]));
      h = mc::mix(h, 99);
    }
    c.step(2);
    if (t + 1 < N)
      c.visit(mc::mix(h, uint64_t(t)), N - t);
  }
  for (int i = 0; i < 2; i++)
    judge(c, P, *s[i], r[i], w);
}
static void build(Ctx &c) {
  int n = c.range(1, 3, "n");
  Pool P(n);
  int k = c.range(0, 3, "terms");
  Ref r;
  std::vector<CostP> cs;
  for (int i = 0; i < k; i++) {
    r.id.push_back(c.choose(3, "term"));
    r.w.push_back(c.pick<double>({1., 0., -2.5}, "weight"));
    cs.push_back(P.base[size_t(r.id.back())]);
  }
  c.shard();
  CSum s(n, n, cs, r.w);
  judge(c, P, s, r, "constructed");
  CSum cp(s);
  cp *= 2.;
  cp.addComponent(P.base[0]);
  judge(c, P, s, r, "after modifying a copy");
  // a sum is itself a cost: nest it
  CSum o(n, n);
  auto sp = std::make_shared<CSum>(s);
  o.addComponent(sp, 2.);
  o += P.base[1];
  Vec x = Vec::LinSpaced(n, -0.5, 1.);
  c.require(close(o.call(x), 2 * s.call(x) + P.base[1]->call(x), 1e-12, 1e-12), "nested", "value");
  c.require(close(static_cast<Cost&>(o).computeGradient(x), 2 * static_cast<Cost&>(s).computeGradient(x) + P.base[1]->computeGradient(x), 1e-12, 1e-12), "nested", "gradient");
  c.require(close(static_cast<Cost&>(o).computeHessian(x), 2 * static_cast<Cost&>(s).computeHessian(x) + P.base[1]->computeHessian(x), 1e-12, 1e-12), "nested", "hessian");
  // moved-in sum plus cost
  SumP t = std::move(sp) + P.base[2];
  judge(c, P, *t, cat(r, {{2}, {1.}}), "sum + cost");
  for (size_t i = 0; i < 3; i++) {
    SumP u = 0.5 * P.base[i];
    judge(c, P, *u, {{int(i)}, {0.5}}, "scalar * cost");
    for (size_t j = 0; j < 3; j++)
      judge(c, P, *(P.base[i] + P.base[j]), {{int(i), int(j)}, {1., 1.}}, "cost + cost");
  }
}
static void compose_cast(Ctx &c) {
  int n = c.range(1, 3, "n"), k = c.range(1, 3, "k"), l = c.range(1, 3, "l"), m = c.range(1, 3, "m");
  c.shard();
  auto g = std::make_shared<QuadF>(n, k, 1);
  auto f = std::make_shared<QuadF>(l, m, 2);
  std::string w = "f: R" + str(l) + "->R" + str(m) + ", g: R" + str(n) + "->R" + str(k);
  bool th = false;
  try {
    auto h = compose<double>(C2P(f), C2P(g));
    c.require(k == l, "compose-mismatch", w + " accepted");
    c.require(h->nx() == n && h->ndx() == n && h->nr() == m && &h->left() == f.get() && &h->right() == g.get(), "compose-dims", w);
    Vec x = Vec::LinSpaced(n, -0.5, 1.);
    c.require(close((*h)(x), (*f)((*g)(x)), 1e-13, 1e-13), "compose-value", w);
    Mat J = static_cast<C1F &>(*h).computeJacobian(x);
    c.require(close(J, static_cast<C1F &>(*f).computeJacobian((*g)(x)) * static_cast<C1F &>(*g).computeJacobian(x), 1e-12, 1e-12), "compose-jacobian", w);
    if (m == 1) {
      CostP q = downcast_function_to_cost<double>(C2P(h));
      c.require(close(q->call(x), (*h)(x)[0], 1e-13, 1e-13) && close(q->computeGradient(x), J.transpose(), 1e-13, 1e-13), "compose-cost", w);
    }
  } catch (const std::runtime_error &) {
    th = true;
  }
  c.require(th == (k != l), "compose-mismatch", w);
  th = false;
  try {
    downcast_function_to_cost<double>(C2P(f));
  } catch (const std::runtime_error &) {
    th = true;
  }
  c.require(th == (m != 1), "cast-codimension", w);
  c.step(5);
  c.obs(uint64_t(((n * 4 + k) * 4 + l) * 4 + m));
}
int main(int argc, char **argv) {
  mc::Main m("C18");
  m.note = "states: distinct weighted term lists; transitions: choices and comparisons; traces: histories of algebra operations on the real classes against the list of weighted terms";
  m.assumptions = {"two sums, three base costs, histories of 5 (thorough 6) operations, sums of at most 12 terms; a temporary left operand of + is consumed, as documented"};
  m.add("histories", histories);
  m.add("build", build);
  m.add("compose-cast", compose_cast);
  return m.run(argc, argv);
}
