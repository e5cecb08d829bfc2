// MC-FLAGS: -O1
// C10: Bunch-Kaufman factorisation solves every symmetric/Hermitian indefinite
// system it accepts, and it accepts every numerically regular one.
#include "pn.hpp"
#include "proxsuite-nlp/linalg/bunchkaufman.hpp"
#include <Eigen/Eigenvalues>
using namespace pn;
using mc::Ctx;
using CMat = Eigen::MatrixXcd;
using BKL = Eigen::BunchKaufman<Mat, Eigen::Lower>;
using BKU = Eigen::BunchKaufman<Mat, Eigen::Upper>;
using BKC = Eigen::BunchKaufman<CMat, Eigen::Lower>;
using BKCU = Eigen::BunchKaufman<CMat, Eigen::Upper>;

template <class M> static double n1(const M &m) {
  return m.size() ? m.cwiseAbs().maxCoeff() : 0.;
}
template <class M> static bool finite(const M &m) {
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++)
      if (!(std::isfinite(std::real(m(i, j))) && std::isfinite(std::imag(m(i, j)))))
        return false;
  return true;
}
// ratio of extreme |eigenvalues|: 0 singular, 1 perfectly conditioned
template <class M> static double rcond(const M &a) {
  if (!a.rows())
    return 1;
  Eigen::SelfAdjointEigenSolver<M> es(a, Eigen::EigenvaluesOnly);
  auto l = es.eigenvalues().cwiseAbs().eval();
  return l.maxCoeff() == 0 ? 0 : l.minCoeff() / l.maxCoeff();
}
// only the triangle named by UpLo may be read
template <class M> static M poison(const M &a, bool lower) {
  M b = a;
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < a.rows(); i++)
      if (lower ? i < j : i > j)
        b(i, j) = QNAN;
  return b;
}
template <class M> static std::string strc(const M &m) {
  std::ostringstream os;
  os << "[";
  for (long i = 0; i < m.rows(); i++)
    for (long j = 0; j <= i; j++)
      os << m(i, j) << (j == i ? "; " : ",");
  os << "]";
  return os.str();
}
template <class BK, class M>
static void check(Ctx &c, const M &a, bool lower, const BK &bk, const std::string &tag,
                  bool every = true) {
  const long n = a.rows();
  double rc = rcond(a);
  std::string at = tag + (n <= 6 ? " A=" + strc(a) : " n=" + str(n));
  bool zero_row = n == 0 ? false : false;
  for (long i = 0; i < n; i++)
    if (a.row(i).cwiseAbs().maxCoeff() == 0)
      zero_row = true;
  c.require(bk.info() == Eigen::Success || bk.info() == Eigen::NumericalIssue,
            "bk-info-value", at);
  c.obs(mc::mix(mc::mix(uint64_t(bk.info() == 0), hashm(bk.pivots().template cast<double>())), lower));
  if (zero_row)
    c.require(bk.info() == Eigen::NumericalIssue, "bk-singular-accepted", at);
  if (rc > 1e-10)
    c.require(bk.info() == Eigen::Success, "bk-regular-rejected", at + " rcond=" + str(rc));
  c.count(bk.info() == Eigen::Success ? "accepted" : "rejected");
  if (bk.info() != Eigen::Success || rc < 1e-11) // ill-posed: no claim on the solution
    return;
  int npos2 = 0;
  for (long i = 0; i < n; i++)
    npos2 += bk.pivots()[i] < 0;
  c.count("pivots2x2:" + str(npos2 / 2));
  using S = typename M::Scalar;
  M B(n, 3);
  for (long i = 0; i < n; i++) {
    B(i, 0) = S(i == 0 ? 1 : 0);
    B(i, 1) = S(double(i % 3) - 1.);
    B(i, 2) = S(double(i + 1));
  }
  double na = n1(a) * double(n);
  auto resid = [&](const M &x, const M &b, const M &m, const char *key) {
    c.require(finite(x), key, at + " not finite");
    double r = n1((m * x - b).eval());
    c.require(r <= 1e-14 * (na * n1(x) + n1(b)), key,
              at + " residual " + str(r) + " |x|=" + str(n1(x)));
  };
  M X = bk.solve(B);
  resid(X, B, a, "bk-solve");
  // a right-hand side with a moderate solution: growth of the factors shows
  M X0(n, 2);
  for (long i = 0; i < n; i++) {
    X0(i, 0) = S(1. + double(i % 4) / 4.);
    X0(i, 1) = S(double((i * 5 + 2) % 7) - 3.5);
  }
  M B0 = a * X0;
  resid(M(bk.solve(B0)), B0, a, "bk-solve");
  M Bi = B;
  bk.solveInPlace(Bi);
  c.require(n1((Bi - X).eval()) == 0, "bk-solve-in-place", at);
  if (every && n) {
    // identity: the inverse is symmetric and right
    M id = M::Identity(n, n);
    M inv = bk.solve(id);
    resid(inv, id, a, "bk-inverse");
    // one column gives the same answer as the same column among several
    M x1 = bk.solve(B.col(2));
    c.require(n1((x1 - X.col(2)).eval()) <= 1e-12 * (n1(X) + 1e-300) / std::min(1., rc * 1e2),
              "bk-solve-columns", at);
  }
}

static Mat sym_from(Ctx &c, int n, const std::vector<double> &vals, int shard_after) {
  Mat a(n, n);
  int k = 0;
  for (int j = 0; j < n; j++)
    for (int i = j; i < n; i++) {
      a(i, j) = a(j, i) = c.pick(vals, "entry");
      if (++k == shard_after)
        c.shard();
    }
  c.shard();
  return a;
}
static void run_real(Ctx &c, const Mat &a, const std::string &tag) {
  const int n = int(a.rows());
  BKL l(poison(a, true));
  check(c, a, true, l, tag + " lower");
  BKU u(n);
  u.compute(poison(a, false));
  check(c, a, false, u, tag + " upper");
  if (l.info() == 0) // determinism across construction routes
    c.require(u.info() == 0 && same(l.matrixLDLT().triangularView<Eigen::Lower>().toDenseMatrix(),
                                    u.matrixLDLT().triangularView<Eigen::Lower>().toDenseMatrix()) &&
                  l.pivots() == u.pivots(),
              "bk-triangle-independence", tag + strc(a));
  c.sample(tag + " n=" + str(n), strc(a) + " pivots " + str(l.pivots().cast<double>()));
}

// a larger matrix made of small enumerated pieces under a stride permutation
static Mat big(int n, const Mat &s, int stride, double couple) {
  Mat a = Mat::Zero(n, n);
  const int k = int(s.rows());
  for (int b = 0; b < n; b += k)
    for (int i = 0; i < k; i++)
      for (int j = 0; j < k; j++)
        if (b + i < n && b + j < n)
          a(b + i, b + j) = s(i, j);
  if (n % k)
    for (int i = n - n % k; i < n; i++)
      a(i, i) = (i & 1) ? -2. : 3.;
  // low-rank coupling, deterministic and full of distinct sizes
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      a(i, j) += couple * (((i * 7 + 3) % 11) - 5.) * (((j * 7 + 3) % 11) - 5.) / 16.;
  Mat p(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      p(i, j) = a((i * stride) % n, (j * stride) % n);
  return p;
}

int main(int argc, char **argv) {
  mc::Main m("C10");
  m.note = "every symmetric matrix over a finite value set up to a size bound (real and Hermitian), "
           "every embedding of the small matrices into sizes that take the blocked path, and every "
           "sequence of computes/copies on one factorisation object, run on the real factorisation; "
           "the oracle multiplies back with the input and compares regularity with its eigenvalues";
  m.assumptions = {"accuracy is claimed when the ratio of extreme eigenvalue magnitudes is above 1e-11; "
                   "acceptance when it is above 1e-10"};
  m.add("dense-values", [](Ctx &c) {
    int n = c.range(0, 3, "n");
    static const std::vector<double> v = {0, 1, -1, 2, -2}, vt = {0, 1, -1, 2, -2, 0.5, -3, 0.125};
    run_real(c, sym_from(c, n, (c.thorough && n < 4) ? vt : v, 3), "small");
  });
  m.add("four", [](Ctx &c) {
    static const std::vector<double> v = {0, 1, -2}, vt = {0, 1, -1};
    int set = c.thorough ? c.choose(2, "set") : 0;
    run_real(c, sym_from(c, 4, set ? vt : v, 4), "four");
  });
  m.add("five-binary", [](Ctx &c) {
    static const std::vector<double> v = {0, 1};
    Mat a = sym_from(c, 5, v, 7);
    if (c.flip("signs"))
      for (int i = 0; i < 5; i++)
        for (int j = 0; j < 5; j++)
          if ((i * j + i + j) & 1)
            a(i, j) = -a(i, j);
    run_real(c, a, "five");
  });
  m.add("graded", [](Ctx &c) {
    int n = c.range(2, 3, "n");
    static const std::vector<double> v = {0, 1, -1, 0x1p-12, -0x1p12};
    static const std::vector<double> w = {0, 1, -1, 0x1p-28, 0x1p28, -0x1p-13, -0x1p13};
    Mat a = sym_from(c, n, c.thorough ? w : v, 3);
    int e = c.pick({0, 300, -300, 900, -900}, "scale");
    run_real(c, a * std::ldexp(1., e), "graded 2^" + str(e));
  });
  m.add("hermitian", [](Ctx &c) {
    int n = c.range(1, 3, "n");
    using Z = std::complex<double>;
    static const std::vector<Z> off = {Z(0, 0), Z(1, 0), Z(0, 1), Z(1, -2), Z(-1, 1)};
    static const std::vector<double> dg = {0, 1, -1, 3};
    CMat a(n, n);
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++) {
        if (i == j)
          a(i, i) = c.pick(dg, "diag");
        else {
          a(i, j) = c.pick(off, "off");
          a(j, i) = std::conj(a(i, j));
        }
      }
    c.shard();
    BKC l(poison(a, true));
    check(c, a, true, l, "hermitian");
    BKCU u(poison(a, false));
    check(c, a, false, u, "hermitian upper");
    BKCU u2(n);
    u2.compute(poison(a, false));
    c.require(u2.info() == u.info() && same(Mat(u2.matrixLDLT().real()), Mat(u.matrixLDLT().real())), "bk-constructor-vs-compute", "hermitian upper" + strc(a));
  });
  m.add("blocked", [](Ctx &c) {
    static const std::vector<int> ns = {31, 32, 33, 34, 40, 63, 64, 65, 66, 70}, nt = {31, 32, 33, 34, 35, 40, 48, 63, 64, 65, 66, 70, 96, 97, 98, 130};
    int n = c.pick(c.thorough ? nt : ns, "n");
    int k = c.range(1, 3, "piece");
    Mat s(k, k);
    static const std::vector<double> v = {0, 1, -2}, v3 = {0, 1};
    for (int j = 0; j < k; j++)
      for (int i = j; i < k; i++)
        s(i, j) = s(j, i) = c.pick(k == 3 ? v3 : v, "entry");
    int stride = c.pick({1, 17, 29}, "stride");
    while (std::__gcd(stride, n) != 1)
      stride++;
    double cp = c.pick({0., 1., 64.}, "coupling");
    c.shard();
    Mat a = big(n, s, stride, cp);
    double sc = c.pick({1., 0x1p-200, 0x1p200}, "scale");
    a *= sc;
    std::string tag = "blocked piece " + strc(s) + " stride " + str(stride) + " coupling " + str(cp) + " scale " + str(sc);
    BKL l(poison(a, true));
    check(c, a, true, l, tag, sc == 1);
    if (c.thorough || (n & 1)) {
      BKU u(poison(a, false));
      check(c, a, false, u, tag + " upper", false);
    }
  });
  // a small graded piece scattered over a large matrix: every choice of pivot
  // inside the blocked path, where ignoring any entry of a column costs accuracy
  m.add("blocked-scattered", [](Ctx &c) {
    int n = c.pick({33, 35, 64, 66}, "n");
    static const int pos[][3] = {{0, 1, 2}, {0, 1, -1}, {0, -2, -1}, {0, -1, 1}, {1, -2, 0}, {30, 31, 32}, {0, 31, 32}, {31, 32, -1}, {5, 20, -2}, {-3, -2, -1}};
    int w = c.choose(10, "rows");
    static const std::vector<double> vq = {0, 0.7, 2.3e-5}, vt = {0, 0.7, 2.3e-5, 1.1e-9}; // not exactly representable: rounding matters
    const auto &v = c.thorough ? vt : vq;
    Mat s(3, 3);
    for (int j = 0; j < 3; j++)
      for (int i = j; i < 3; i++)
        s(i, j) = s(j, i) = c.pick(v, "entry");
    c.shard();
    Mat a = Mat::Identity(n, n);
    if (c.thorough && c.flip("signs"))
      for (int i = 0; i < n; i += 3)
        a(i, i) = -2;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        a((pos[w][i] + n) % n, (pos[w][j] + n) % n) = s(i, j);
    BKL l(poison(a, true));
    check(c, a, true, l, "scattered piece " + strc(s) + " rows " + str(w), false);
    if (c.thorough) {
      BKU u(poison(a, false));
      check(c, a, false, u, "scattered piece " + strc(s) + " rows " + str(w) + " upper", false);
    }
  });
  m.add("blocked-hermitian", [](Ctx &c) {
    using Z = std::complex<double>;
    int n = c.pick({33, 34, 65, 66}, "n");
    Z o = c.pick({Z(0, 0), Z(1, 0), Z(0, 1), Z(2, -1)}, "off");
    double d0 = c.pick({0., 1., -3.}, "d0"), d1 = c.pick({0., 2.}, "d1");
    int stride = c.pick({1, 7, 17}, "stride");
    double cp = c.pick({0., 1.}, "coupling");
    while (std::__gcd(stride, n) != 1)
      stride++;
    c.shard();
    CMat a = CMat::Zero(n, n), p(n, n);
    for (int i = 0; i < n; i++)
      a(i, i) = (i & 1) ? d1 : d0;
    for (int i = 0; i + 1 < n; i += 2) {
      a(i + 1, i) = o;
      a(i, i + 1) = std::conj(o);
    }
    if (n & 1)
      a(n - 1, n - 1) = 2;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        Z u(double((i * 7 + 3) % 11) - 5, double(i % 3) - 1), v(double((j * 7 + 3) % 11) - 5, double(j % 3) - 1);
        a(i, j) += cp * u * std::conj(v) / 16.;
      }
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        p(i, j) = a((i * stride) % n, (j * stride) % n);
    BKC l(poison(p, true));
    BKCU u(poison(p, false));
    check(c, p, false, u, "blocked hermitian upper o=" + str(o.real()) + "," + str(o.imag()), false);
    check(c, p, true, l, "blocked hermitian o=" + str(o.real()) + "," + str(o.imag()));
  });
  // NaN and infinite entries: rejected or answered, never out of bounds
  m.add("non-finite", [](Ctx &c) {
    int n = c.pick({1, 2, 3, 4, 33, 36, 65}, "n");
    int i = c.choose(n < 5 ? n : 3, "row"), j = c.choose(n < 5 ? n : 3, "col");
    double bad = c.pick({QNAN, INF, -INF, 1e308}, "value");
    int base = c.choose(4, "base");
    c.shard();
    if (n > 4) {
      i = (i * (n - 1)) / 2;
      j = (j * (n - 1)) / 2;
    }
    Mat p3(3, 3);
    p3 << 0, 1, 3, 1, 0, -2, 3, -2, 1;
    Mat a = base == 0 ? Mat(Mat::Identity(n, n)) : base == 1 ? Mat(Mat::Zero(n, n)) : base == 2 ? Mat(Mat::Ones(n, n)) : big(n, n >= 3 ? p3 : Mat(Mat::Ones(1, 1)), 1, 1.);
    a(i, j) = a(j, i) = bad;
    BKL l(a);
    std::string at = "n=" + str(n) + " (" + str(i) + "," + str(j) + ")=" + str(bad);
    c.require(l.info() == Eigen::Success || l.info() == Eigen::NumericalIssue, "bk-info-value", at);
    if (n == 1 && bad != bad)
      c.require(l.info() == Eigen::NumericalIssue, "bk-nan-pivot-accepted", at);
    if (bad != bad && i == j && base < 2) // a decoupled NaN pivot
      c.require(l.info() == Eigen::NumericalIssue, "bk-nan-pivot-accepted", at);
    if (l.info() == Eigen::Success)
      (void)Mat(l.solve(Mat::Ones(n, 2))).sum();
    for (int k = 0; k < n; k++) // every recorded pivot names a row of the matrix
      c.require(l.pivots()[k] < n && l.pivots()[k] >= -n, "bk-pivot-range", at);
    // the same object still factorises a good matrix
    l.compute(Mat::Identity(3, 3) * 2.);
    c.require(l.info() == Eigen::Success && same(Mat(l.solve(Mat::Ones(3, 1))), Mat::Ones(3, 1) * .5),
              "bk-history-solve", at);
  });
  // one object, many computes: nothing may survive from an earlier matrix
  m.add("history", [](Ctx &c) {
    static std::vector<Mat> lib;
    if (lib.empty()) {
      Mat a(2, 2), b(3, 3), s(3, 3), e(0, 0), o(1, 1), z(1, 1), d(4, 4);
      a << 0, 2, 2, 0;
      b << 0, 1, 3, 1, 0, -2, 3, -2, 1;
      s << 1, 0, 2, 0, 0, 0, 2, 0, 1;
      o << -4;
      z << 0;
      d << 4, 1, 0, 0, 1, -3, 2, 0, 0, 2, 0, 5, 0, 0, 5, 0;
      lib = {a, b, s, d, e, o, z, big(33, a, 17, 1.), big(40, b, 7, 1.), big(64, a, 5, 0.)};
      Mat sing = big(36, b, 7, 0.);
      sing.row(20).setZero();
      sing.col(20).setZero();
      lib.push_back(sing);
    }
    int len = c.range(1, c.thorough ? 4 : 3, "length");
    c.shard();
    BKL bk = c.flip("presized") ? BKL(2) : BKL();
    for (int t = 0; t < len; t++) {
      int i = c.choose(int(lib.size()), "matrix");
      c.shard();
      const Mat &a = lib[size_t(i)];
      bk.compute(poison(a, true));
      BKL fresh(poison(a, true));
      c.require(bk.info() == fresh.info(), "bk-history-info", "matrix " + str(i) + " step " + str(t));
      if (fresh.info() == 0) {
        Mat rhs = Mat::Ones(a.rows(), 2);
        c.require(same(Mat(bk.solve(rhs)), Mat(fresh.solve(rhs))), "bk-history-solve",
                  "matrix " + str(i) + " step " + str(t));
        c.require(same(bk.matrixLDLT(), fresh.matrixLDLT()) && bk.pivots() == fresh.pivots() &&
                      same(bk.subdiag(), fresh.subdiag()),
                  "bk-history-factor", "matrix " + str(i) + " step " + str(t));
      }
      check(c, a, true, bk, "history matrix " + str(i), false);
      if (t + 1 < len && c.flip("copy")) {
        BKL cp(bk);
        bk = cp;
      }
    }
  });
  return m.run(argc, argv);
}
