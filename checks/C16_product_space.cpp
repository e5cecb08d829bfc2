// C16: a Cartesian product is the ordered list of its factors, however built,
// and every operation acts factor by factor.
#include "manifolds.hpp"
using namespace pn;
using mc::Ctx;
using P = polymorphic<Manifold>;

static P leaf(int k, int tag) {
  switch (k) {
  case 0: return TagSpace(1, 10. + tag);
  case 1: return TagSpace(2, 20. + tag);
  case 2: return SO2{};
  case 3: return SO3{};
  case 4: return TangentBundleTpl<SO2>(SO2{});
  default: return TagSpace(0, 0);
  }
}
using List = std::vector<P>;
static Vec tan_(int n, int k) {
  static const double a[] = {0.7, -0.4, 0.25, -0.9, 0.55, 0.1, -0.65, 0.35, 0.8};
  Vec v(n);
  for (int i = 0; i < n; i++)
    v[i] = a[(i + 2 * k) % 9];
  return v;
}
static void same_list(Ctx &c, const Prod &p, const List &L, const std::string &w) {
  c.require(p.numComponents() == L.size(), "count", w + " has " + str(p.numComponents()) + " factors, expected " + str(L.size()));
  int nx = 0, nd = 0;
  for (size_t i = 0; i < L.size(); i++) {
    nx += L[i]->nx();
    nd += L[i]->ndx();
    const Manifold &m = p.getComponent(i);
    c.require(typeid(m) == typeid(*L[i]) && m.nx() == L[i]->nx() && same(m.neutral(), L[i]->neutral()), "factor",
              w + " factor " + str(i));
  }
  c.require(p.nx() == nx && p.ndx() == nd, "dims", w);
  Vec n = p.neutral(), x(nx), y(nx), v = tan_(nd, 1), d(nd), xv(nx);
  c.require(n.size() == nx && p.rand().size() == nx, "sizes", w);
  Mat J[4];
  for (auto &j : J)
    j = Mat::Zero(nd, nd);
  Mat T(nd, nd + 3), Ts[2]; // more columns than rows
  for (int i = 0; i < nd; i++)
    for (int j = 0; j < nd + 3; j++)
      T(i, j) = j ? 3 - 2 * i + 0.5 * j * j : 1 + i;
  Ts[0] = Ts[1] = T;
  std::vector<Vec> xs, vs;
  long a = 0, b = 0;
  for (size_t i = 0; i < L.size(); i++) {
    const Manifold &m = *L[i];
    long q = m.nx(), k = m.ndx();
    c.require(same(n.segment(a, q), m.neutral()), "neutral", w + str(n));
    Vec xi = m.integrate(m.neutral(), tan_(int(k), int(i)));
    Vec yi = m.integrate(m.neutral(), tan_(int(k), int(i) + 2));
    x.segment(a, q) = xi;
    y.segment(a, q) = yi;
    Vec vi = v.segment(b, k);
    xv.segment(a, q) = m.integrate(xi, vi);
    d.segment(b, k) = m.difference(xi, yi);
    Mat j(k, k);
    for (int t = 0; t < 2; t++) {
      m.Jintegrate(xi, vi, j, t);
      J[t].block(b, b, k, k) = j;
      m.Jdifference(xi, yi, j, t);
      J[2 + t].block(b, b, k, k) = j;
      m.JintegrateTransport(xi, vi, Ts[t].middleRows(b, k), t);
    }
    xs.push_back(xi);
    vs.push_back(vi);
    a += q;
    b += k;
  }
  auto eq = [](const Mat &s, const Mat &t) { return close(s, t, 1e-14, 1e-14); };
  c.require(eq(p.integrate(x, v), xv), "integrate", w);
  c.require(eq(p.difference(x, y), d), "difference", w);
  for (int t = 0; t < 2; t++) {
    Mat o = Mat::Constant(nd, nd, 4.);
    p.Jintegrate(x, v, o, t);
    c.require(eq(o, J[t]), "Jintegrate", w + str(o));
    o.setConstant(4.);
    p.Jdifference(x, y, o, t);
    c.require(eq(o, J[2 + t]), "Jdifference", w + str(o));
    o = T;
    p.JintegrateTransport(x, v, o, t);
    c.require(eq(o, Ts[t]), "transport", w + str(o));
  }
  c.require(same(p.merge(xs), x) && same(p.merge_vector(vs), v), "merge", w);
  const Vec cx = x, cv = v;
  auto s1 = p.split(Prod::ConstVectorRef(cx));
  auto s2 = p.split_vector(Prod::ConstVectorRef(cv));
  c.require(s1.size() == L.size() && s2.size() == L.size(), "split", w);
  Vec wx = x, wv = v;
  auto w1 = p.split(Prod::VectorRef(wx));
  auto w2 = p.split_vector(Prod::VectorRef(wv));
  for (size_t i = 0; i < L.size(); i++) {
    c.require(same(s1[i], xs[i]) && same(s2[i], vs[i]), "split", w);
    w1[i].setConstant(double(i));
    w2[i].setConstant(double(i));
  }
  for (long i = 0, f = 0, r = 0; i < nx; i++) {
    while (r >= L[size_t(f)]->nx()) { f++; r = 0; }
    c.require(wx[i] == double(f), "split-write", w);
    r++;
  }
  for (long i = 0, f = 0, r = 0; i < nd; i++) {
    while (r >= L[size_t(f)]->ndx()) { f++; r = 0; }
    c.require(wv[i] == double(f), "split-write", w);
    r++;
  }
  // normalised exactly when every factor is
  for (unsigned bad = 0; bad < (1u << L.size()); bad++) {
    Vec z = x;
    bool ok = true;
    a = 0;
    for (size_t i = 0; i < L.size(); i++) {
      long q = L[i]->nx();
      if (bad >> i & 1)
        z.segment(a, q) *= QNAN;
      ok &= L[i]->isNormalized(z.segment(a, q));
      a += q;
    }
    c.require(p.isNormalized(z) == ok, "isNormalized", w + " " + str(z));
  }
  c.step(12);
  c.obs(hashm(x, hashm(v, mc::mix(uint64_t(nx), L.size()))));
}
static void wrong_sizes(Ctx &c, const Prod &p, const std::string &w) {
  for (int e : {-1, 1}) {
    if (p.nx() + e >= 0) {
      bool t = false;
      const Vec x = Vec::Zero(p.nx() + e);
      try { p.split(Prod::ConstVectorRef(x)); } catch (const std::runtime_error &) { t = true; }
      c.require(t, "split-size", w);
    }
    if (p.ndx() + e >= 0) {
      bool t = false;
      const Vec x = Vec::Zero(p.ndx() + e);
      try { p.split_vector(Prod::ConstVectorRef(x)); } catch (const std::runtime_error &) { t = true; }
      c.require(t, "split-size", w);
    }
  }
}
static void lists(Ctx &c) {
  int n = c.range(0, c.thorough ? 4 : 3, "factors");
  List L;
  std::string w = "(";
  for (int i = 0; i < n; i++) {
    int k = c.choose(6, "kind");
    L.push_back(leaf(k, i));
    w += str(k) + ",";
  }
  c.shard();
  w += ")";
  same_list(c, Prod(L), L, w + " vector");
  Prod q;
  for (auto &m : L)
    q.addComponent(m);
  same_list(c, q, L, w + " added");
  wrong_sizes(c, q, w);
  Prod cp(q), as;
  as = q;
  Prod mv(std::move(cp));
  same_list(c, mv, L, w + " moved");
  same_list(c, as, L, w + " assigned");
  // nested: every split of the list into a left and a right product, as one
  // product (flattened) and as a product of products (kept as factors)
  for (int k = 0; k <= n; k++) {
    List A(L.begin(), L.begin() + k), B(L.begin() + k, L.end());
    Prod a(A), b(B);
    same_list(c, a * b, L, w + " product * product");
    same_list(c, a, A, w + " left operand");
    same_list(c, b, B, w + " right operand");
    Prod ab = a;
    ab.addComponent(b);
    same_list(c, ab, L, w + " addComponent(product)");
    if (k == 1)
      same_list(c, L[0] * b, L, w + " manifold * product");
    if (k == n - 1)
      same_list(c, a * L[size_t(n - 1)], L, w + " product * manifold");
    Prod nest{P(a), P(b)};
    same_list(c, nest, List{P(a), P(b)}, w + " of products");
  }
  if (n == 2) {
    same_list(c, L[0] * L[1], L, w + " manifold * manifold");
    same_list(c, Prod(L[0], L[1]), L, w + " pair");
    same_list(c, Prod{L[0], L[1]}, L, w + " list");
  }
  if (n == 3) {
    same_list(c, L[0] * L[1] * L[2], L, w + " left associated");
    same_list(c, L[0] * (L[1] * L[2]), L, w + " right associated");
    same_list(c, Prod{L[0], L[1], L[2]}, L, w + " list");
  }
  c.sample("product", w);
}
// histories of building operations on two products, against reference lists
static void histories(Ctx &c) {
  Prod p[2];
  List r[2];
  std::string w;
  const int N = c.thorough ? 5 : 4;
  int fresh = 0;
  for (int t = 0; t < N; t++) {
    int op = c.choose(9, "op");
    if (t == 1)
      c.shard();
    w += str(op) + " ";
    int a = op & 1, b = 1 - a;
    switch (op) {
    case 0: case 1: { P l = leaf(fresh % 3, fresh); fresh++; p[a].addComponent(l); r[a].push_back(l); break; }
    case 2: case 3: p[a].addComponent(p[b]); r[a].insert(r[a].end(), r[b].begin(), r[b].end()); break;
    case 4: case 5: p[a].addComponent(p[a]); { List s = r[a]; r[a].insert(r[a].end(), s.begin(), s.end()); } break;
    case 6: p[0] = p[1]; r[0] = r[1]; break;
    case 7: std::swap(p[0], p[1]); std::swap(r[0], r[1]); break;
    case 8: p[0] = p[1] * p[0]; { List s = r[1]; s.insert(s.end(), r[0].begin(), r[0].end()); r[0] = s; } break;
    }
    if (r[0].size() > 8 || r[1].size() > 8)
      c.prune();
    for (int i = 0; i < 2; i++) {
      c.require(p[i].numComponents() == r[i].size(), "history-count", w);
      for (size_t j = 0; j < r[i].size(); j++)
        c.require(same(p[i].getComponent(j).neutral(), r[i][j]->neutral()) && typeid(p[i].getComponent(j)) == typeid(*r[i][j]), "history-factor", w);
      c.step();
    }
  }
  for (int i = 0; i < 2; i++)
    same_list(c, p[i], r[i], w);
}
int main(int argc, char **argv) {
  mc::Main m("C16");
  m.note = "states: distinct (factor list, observation); transitions: choices and compared operations; traces: executions of the real product compared with the list of its factors";
  m.assumptions = {"at most 3 factors (thorough 4) of 6 kinds, nesting depth 2; histories of 4 (thorough 5) operations on two products"};
  m.add("lists", lists);
  m.add("histories", histories);
  return m.run(argc, argv);
}
