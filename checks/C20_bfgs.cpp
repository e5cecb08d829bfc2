// C20: the quasi-Newton strategy applies the documented update along every
// history of iterates, gradients, re-initialisations and copies.
#include "pn.hpp"
#include "proxsuite-nlp/bfgs-strategy.hpp"
using namespace pn;
using mc::Ctx;
using MatL = Eigen::Matrix<long double, -1, -1>;
using VecL = Eigen::Matrix<long double, -1, 1>;

struct Model { // reference model
  bool init = false;
  Vec x, g;
};
template <BFGSType T> static const char *nm() { return T == BFGSType::Hessian ? "Hessian" : "InverseHessian"; }

template <BFGSType T> static void judge(Ctx &c, BFGSStrategy<double, T> &b, Model &m, Mat &B, const Vec &x, const Vec &g, const std::string &w) {
  const int n = int(x.size());
  Mat B0 = B;
  Vec xc = x, gc = g;
  b.update(x, g, B);
  c.step();
  c.require(same(x, xc) && same(g, gc), "inputs", w);
  c.require(B.rows() == n && B.cols() == n, "shape", w);
  c.require(b.is_init && b.isValid(), "flags", w);
  if (!m.init) {
    c.require(same(B, B0), "first-update", w + "the first call must only remember the iterate");
    c.count("first");
  } else {
    VecL s = x.cast<long double>() - m.x.cast<long double>(), y = g.cast<long double>() - m.g.cast<long double>();
    long double sy = s.dot(y);
    if (sy > 0) {
      c.count("updates");
      c.require(b.is_psd, "psd-flag", w + "update with s'y > 0 must report a positive semidefinite matrix");
      VecL p = T == BFGSType::Hessian ? y : s, q = T == BFGSType::Hessian ? s : y;
      MatL V = MatL::Identity(n, n) - p * q.transpose() / sy;
      MatL R = V * B0.cast<long double>() * V.transpose() + p * p.transpose() / sy;
      double sc = std::max(1., double(R.cwiseAbs().maxCoeff())) * std::max(1., double((p.squaredNorm() * q.squaredNorm()) / (sy * sy)));
      c.require(close(B, R.cast<double>(), 1e-12, 1e-12 * sc), "update-formula", w + " got " + str(B) + " expected " + str(Mat(R.cast<double>())));
      // secant equation
      c.require(close(Vec(B * q.cast<double>()), Vec(p.cast<double>()), 1e-10, 1e-11 * sc * std::max(1., double(q.norm()))), "secant", w + str(B));
      if (infn(B0 - B0.transpose()) == 0)
        c.require(infn(B - B.transpose()) <= 1e-12 * sc, "symmetry", w + str(B));
      Eigen::SelfAdjointEigenSolver<Mat> e0(B0), e(B);
      if (e0.eigenvalues().minCoeff() > 0)
        c.require(e.eigenvalues().minCoeff() > -1e-10 * sc, "definite", w + str(B));
    } else {
      c.count("skips");
      c.require(!b.is_psd, "skip-flag", w + "a skipped update must be reported");
      c.require(same(B, B0), "skip", w + "s'y <= 0 must leave the matrix alone, got " + str(B));
    }
  }
  m.init = true;
  m.x = x;
  m.g = g;
  c.obs(hashm(B, uint64_t(b.is_psd)));
}
static Mat start(int n, int k) {
  if (k == 0)
    return Mat::Identity(n, n);
  if (k == 1) {
    Mat A = Mat::Constant(n, n, 0.5);
    A.diagonal().array() += 2.;
    return A;
  }
  if (k == 3) {
    Mat A = Mat::Zero(n, n); // not symmetric: the update must not silently symmetrise
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        A(i, j) = 1. + i - 2 * j;
    return A;
  }
  Mat A = Mat::Identity(n, n) * 1e-3;
  A(0, 0) = -1.;
  return A;
}
static Vec digits(Ctx &c, int n, const std::vector<double> &vals, const char *l) {
  Vec v(n);
  for (int i = 0; i < n; i++)
    v[i] = c.pick(vals, l);
  return v;
}
// every pair of steps (x, g) over a grid after a first iterate
template <BFGSType T> static void grid(Ctx &c) {
  const int n = c.range(1, c.thorough ? 3 : 2, "n");
  const std::vector<double> vx = n == 3 ? std::vector<double>{-1, 0, 2} : std::vector<double>{-1, 0, 0.5, 2};
  Mat B = start(n, c.choose(4, "start"));
  Vec s1 = digits(c, n, vx, "s1");
  Vec y1 = digits(c, n, vx, "y1");
  c.shard();
  Vec s2 = n == 1 || c.thorough && n < 3 ? digits(c, n, vx, "s2") : (Vec)(Vec::LinSpaced(n, 1, -2) * c.pick({1., -0.5}, "s2"));
  Vec y2 = n == 1 || c.thorough && n < 3 ? digits(c, n, vx, "y2") : (Vec)(Vec::LinSpaced(n, 2, 1) * c.pick({1., 0.25}, "y2"));
  BFGSStrategy<double, T> b(n);
  c.require(b.isValid() && !b.is_init && b.is_psd, "fresh", nm<T>());
  Model m;
  Vec x = Vec::LinSpaced(n, 0.5, -1), g = Vec::LinSpaced(n, 3, 1);
  std::string w = std::string(nm<T>()) + " s1=" + str(s1) + " y1=" + str(y1) + " s2=" + str(s2) + " y2=" + str(y2) + ": ";
  judge<T>(c, b, m, B, x, g, w + "first ");
  x += s1, g += y1;
  judge<T>(c, b, m, B, x, g, w + "second ");
  x += s2, g += y2;
  judge<T>(c, b, m, B, x, g, w + "third ");
}
// histories of updates, explicit initialisations, copies and moves on two strategies
template <BFGSType T> static void history(Ctx &c) {
  const int n = c.range(1, 3, "n");
  const int depth = c.thorough ? 5 : 4;
  const std::vector<std::pair<double, double>> pts{{0, 0}, {1, 2}, {-1, 1}, {1e3, -1e3}, {1e-7, 1e-7}};
  auto px = [&](int k) { Vec v = Vec::LinSpaced(n, 0.25, 1); return Vec(v * pts[size_t(k)].first); };
  auto pg = [&](int k) { Vec v = Vec::LinSpaced(n, 1, 0.5); return Vec(v * pts[size_t(k)].second); };
  std::unique_ptr<BFGSStrategy<double, T>> s[2] = {std::make_unique<BFGSStrategy<double, T>>(n), std::make_unique<BFGSStrategy<double, T>>(n)};
  Model m[2];
  Mat B[2] = {start(n, c.choose(3, "start")), Mat::Identity(n, n)};
  std::string w = nm<T>();
  for (int d = 0; d < depth; d++) {
    if (d == 2)
      c.shard();
    int op = c.choose(14, "op");
    w += " op" + str(op);
    int last = op < 10 ? op / 5 : op < 12 ? op - 10 : 0;
    if (op < 10)
      judge<T>(c, *s[last], m[last], B[last], px(op % 5), pg(op % 5), w + ": ");
    else if (op < 12) { // explicit initialisation keeps the matrix
      int k = c.choose(3, "pt");
      s[last]->init(px(k), pg(k));
      m[last] = {true, px(k), pg(k)};
      c.require(s[last]->is_init, "init-flag", w);
    } else if (op == 12) { // copy assignment
      *s[1] = *s[0];
      m[1] = m[0];
      B[1] = B[0];
    } else { // move into a fresh object (as setup() does)
      BFGSStrategy<double, T> t(n);
      t = std::move(*s[0]);
      *s[0] = BFGSStrategy<double, T>(n);
      s[1] = std::make_unique<BFGSStrategy<double, T>>(std::move(t));
      m[1] = m[0];
      m[0] = Model();
      B[1] = B[0];
    }
  }
}
// minimising a strictly convex quadratic along conjugate directions recovers the Hessian
template <BFGSType T> static void recover(Ctx &c) {
  const int n = c.range(1, 3, "n");
  Mat A = Mat::Zero(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++)
      A(i, j) = A(j, i) = i == j ? c.pick({3., 5.}, "a") : c.pick({-1., 0., 1.}, "a");
  Eigen::LLT<Mat> llt(A);
  if (llt.info() != Eigen::Success)
    c.prune();
  Mat B = start(n, c.choose(2, "start"));
  c.shard();
  BFGSStrategy<double, T> b(n);
  Model m;
  Vec x = Vec::LinSpaced(n, 1, 2);
  Mat U = Eigen::LLT<Mat>(A).matrixU().solve(Mat::Identity(n, n)); // A-conjugate directions
  judge<T>(c, b, m, B, x, A * x, "recover");
  for (int k = 0; k < n; k++) {
    x += U.col(k);
    judge<T>(c, b, m, B, x, A * x, "recover");
  }
  Mat R = T == BFGSType::Hessian ? A : Mat(A.inverse());
  c.require(close(B, R, 1e-8, 1e-8), "quadratic-termination", "after n conjugate steps " + str(B) + " expected " + str(R));
}
template <BFGSType T> static void invalid(Ctx &c) {
  bool viaupdate = c.flip("via");
  BFGSStrategy<double, T> b;
  c.require(!b.isValid() && !b.is_init, "default", nm<T>());
  Mat B = Mat::Identity(2, 2);
  Vec v = Vec::Ones(2);
  bool threw = false;
  try {
    if (viaupdate)
      b.update(v, v, B);
    else
      b.init(v, v);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.require(threw && !b.is_init && same(B, Mat::Identity(2, 2)), "invalid-throws", nm<T>());
  b = BFGSStrategy<double, T>(2); // becomes usable
  Model m;
  judge<T>(c, b, m, B, v, v, "revived");
  judge<T>(c, b, m, B, 2 * v, 3 * v, "revived");
}
int main(int argc, char **argv) {
  mc::Main m("C20");
  m.note = "both update types, dimensions 1-3, all step/gradient-difference grids over three updates, all histories of updates, initialisations, copies and moves";
  m.assumptions = {"non-degenerate magnitudes (1e-7 to 1e3); comparison within a tolerance scaled by the conditioning of the update"};
  m.add("grid-hessian", grid<BFGSType::Hessian>);
  m.add("grid-inverse", grid<BFGSType::InverseHessian>);
  m.add("history-hessian", history<BFGSType::Hessian>);
  m.add("history-inverse", history<BFGSType::InverseHessian>);
  m.add("recover-hessian", recover<BFGSType::Hessian>);
  m.add("recover-inverse", recover<BFGSType::InverseHessian>);
  m.add("invalid-hessian", invalid<BFGSType::Hessian>);
  m.add("invalid-inverse", invalid<BFGSType::InverseHessian>);
  return m.run(argc, argv);
}
