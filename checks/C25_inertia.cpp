// MC-FLAGS: -O1 -g1 -fsanitize=address -fno-omit-frame-pointer
// C25: every factorisation the allocator hands out reports the true inertia of
// the matrix, at any scale, and solves with it.
#include "pn.hpp"
#include "proxsuite-nlp/ldlt-allocator.hpp"
#include <Eigen/Eigenvalues>
using namespace pn;
using mc::Ctx;
using proxsuite::nlp::linalg::isize;
using Var = LDLTVariant<double>;

struct ComputeV : boost::static_visitor<void> {
  const Mat &a;
  explicit ComputeV(const Mat &m) : a(m) {}
  template <class F> void operator()(F &f) const { f.compute(a); }
};
struct InfoV : boost::static_visitor<int> {
  template <class F> int operator()(const F &f) const { return int(f.info()); }
};
struct SolveV : boost::static_visitor<void> {
  Mat &b;
  explicit SolveV(Mat &m) : b(m) {}
  template <class F> void operator()(const F &f) const { f.solveInPlace(b); }
};
static std::array<int, 3> inertia(const Var &v, Eigen::VectorXi &s) {
  ComputeSignatureVisitor vis{s};
  boost::apply_visitor(vis, v);
  return computeInertiaTuple(s);
}
static const LDLTChoice CH[4] = {LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN};
static const char *NM[4] = {"DENSE", "BUNCHKAUFMAN", "BLOCKSPARSE", "EIGEN"};

// exact inertia of a regular symmetric matrix
static bool exact(const Mat &a, std::array<int, 3> &r) {
  const long n = a.rows();
  Eigen::SelfAdjointEigenSolver<Mat> es(a, Eigen::EigenvaluesOnly);
  Vec l = es.eigenvalues();
  double mx = n ? l.cwiseAbs().maxCoeff() : 1;
  r = {0, 0, 0};
  for (long i = 0; i < n; i++) {
    if (std::abs(l[i]) < 1e-9 * mx || mx == 0)
      return false;
    r[l[i] > 0 ? 0 : 1]++;
  }
  return true;
}
static void check(Ctx &c, const Var &v, const Mat &a, const std::array<int, 3> &e, const std::string &at) {
  c.require(boost::apply_visitor(InfoV{}, v) == int(Eigen::Success), "inertia-info", at);
  Eigen::VectorXi s;
  auto t = inertia(v, s);
  c.require(s.size() == a.rows(), "signature-size", at);
  c.require(t == e, "inertia-value",
            at + " got (" + str(t[0]) + "," + str(t[1]) + "," + str(t[2]) + ") expected (" + str(e[0]) + "," + str(e[1]) + "," + str(e[2]) + ")");
  if (!a.rows())
    return;
  Mat B(a.rows(), 2);
  for (long i = 0; i < a.rows(); i++)
    B.row(i) << double(i % 3) + 1, i == 0;
  Mat X = B;
  boost::apply_visitor(SolveV(X), v);
  double sc = a.cwiseAbs().maxCoeff();
  c.require(X.allFinite() && (a * X - B).cwiseAbs().maxCoeff() <= 1e-8 * (sc * X.cwiseAbs().maxCoeff() + 3), "allocated-solve", at);
  c.obs(mc::mix(uint64_t(t[0] * 100 + t[1]), hashm(X)));
}

int main(int argc, char **argv) {
  mc::Main m("C25");
  m.note = "every symmetric matrix over a value set up to 4x4 at several scales, and every small KKT matrix for all "
           "four factorisations: the signature reported is compared with exact eigenvalue signs";
  m.assumptions = {"inertia is claimed for matrices whose eigenvalue magnitudes stay within nine orders; DENSE, "
                   "BLOCKSPARSE and EIGEN are only used on quasi-definite matrices"};
  m.add("bunch-kaufman", [](Ctx &c) {
    int n = c.range(1, 4, "n");
    static const std::vector<double> v = {0, 1, -2}, v3 = {0, 1, -1, 2, -3}, v4 = {0, 1};
    Mat a(n, n);
    int k = 0;
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++) {
        a(i, j) = a(j, i) = c.pick(n == 4 ? (c.thorough ? v : v4) : v3, "entry");
        if (++k == 3)
          c.shard();
      }
    c.shard();
    if (n == 4 && !c.thorough)
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
          if ((i * j + i + j) & 1)
            a(i, j) = -a(i, j);
    std::array<int, 3> e;
    if (!exact(a, e))
      c.prune();
    Var var = allocate_ldlt_from_sizes<double>({n}, {}, LDLTChoice::BUNCHKAUFMAN);
    for (int p : {0, 20, -20, 30, -30, 100, -100, 300, -300}) {
      Mat b = a * std::ldexp(1., p);
      boost::apply_visitor(ComputeV(b), var);
      check(c, var, b, e, "BK 2^" + str(p) + " A=" + str(a));
    }
    c.sample("n=" + str(n), str(a) + " inertia " + str(e[0]) + "/" + str(e[1]));
  });
  m.add("kkt", [](Ctx &c) {
    int which = c.choose(4, "choice");
    std::vector<isize> pr, du;
    int np = c.range(1, 2, "primal blocks"), nd = c.range(0, c.thorough ? 4 : 3, "dual blocks");
    for (int i = 0; i < np; i++)
      pr.push_back(c.pick({1, 2, 3}, "nx"));
    for (int i = 0; i < nd; i++)
      du.push_back(c.pick({0, 1, 2}, "nc"));
    c.shard();
    int n1 = 0, n2 = 0;
    for (auto x : pr)
      n1 += int(x);
    for (auto x : du)
      n2 += int(x);
    double mu = c.pick({1., 1e-2, 1e-6, 100.}, "mu");
    int pat = c.choose(3, "pattern");
    int n = n1 + n2;
    Mat a = Mat::Zero(n, n);
    for (int i = 0; i < n1; i++)
      for (int j = 0; j < n1; j++)
        a(i, j) = i == j ? 4 + i : pat == 1 ? 0 : ((i + j) % 3) - 1;
    for (int i = 0; i < n2; i++) {
      for (int j = 0; j < n1; j++)
        a(n1 + i, j) = a(j, n1 + i) = pat == 2 ? double(i == j) : ((i * 2 + j) % 4) - 1.5;
      a(n1 + i, n1 + i) = -mu;
    }
    Var var = allocate_ldlt_from_sizes<double>(pr, du, CH[which]);
    for (int p : {0, 40, -40}) {
      Mat b = a * std::ldexp(1., p);
      boost::apply_visitor(ComputeV(b), var);
      std::array<int, 3> e = {n1, n2, 0};
      check(c, var, b, e, std::string(NM[which]) + " 2^" + str(p) + " A=" + str(a));
    }
    // an indefinite Hessian must never be reported as having the right inertia
    Mat b = a;
    for (int i = 0; i < n1; i++)
      b(i, i) = -b(i, i) - 1;
    if (n2 == 0 || which == 1) {
      std::array<int, 3> e;
      if (exact(b, e) && (which == 1 || pat == 1)) {
        boost::apply_visitor(ComputeV(b), var);
        check(c, var, b, e, std::string(NM[which]) + " indefinite A=" + str(b));
      }
    }
  });
  m.add("singular", [](Ctx &c) { // a zero row is never counted as curvature
    int which = c.choose(4, "choice");
    int n = c.range(1, 4, "n");
    int z = c.choose(n, "zero row");
    unsigned sg = unsigned(c.choose(1 << n, "signs"));
    c.shard();
    Mat a = Mat::Zero(n, n);
    for (int i = 0; i < n; i++)
      a(i, i) = i == z ? 0. : (sg >> i & 1) ? -2. : 3.;
    Var var = allocate_ldlt_from_sizes<double>({n}, {}, CH[which]);
    boost::apply_visitor(ComputeV(a), var);
    if (boost::apply_visitor(InfoV{}, var) != int(Eigen::Success)) {
      c.count("declined");
      return;
    }
    Eigen::VectorXi s;
    auto t = inertia(var, s);
    c.require(t[2] == 1 && t[0] + t[1] == n - 1, "inertia-zero-missed", std::string(NM[which]) + " A=" + str(a));
    c.count("zero reported");
  });
  m.add("tuple", [](Ctx &c) {
    int n = c.range(0, 5, "n");
    Eigen::VectorXi s(n);
    bool bad = false;
    std::array<int, 3> e = {0, 0, 0};
    for (int i = 0; i < n; i++) {
      s[i] = c.pick({1, 0, -1, 2, -2}, "entry");
      if (std::abs(s[i]) > 1)
        bad = true;
      else
        e[s[i] == 1 ? 0 : s[i] == -1 ? 1 : 2]++;
      if (i == 2)
        c.shard();
    }
    c.shard();
    bool threw = false;
    std::array<int, 3> t = {0, 0, 0};
    try {
      t = computeInertiaTuple(s);
    } catch (const std::runtime_error &) {
      threw = true;
    }
    c.require(threw == bad, "tuple-validation", str(s.cast<double>()));
    c.require(bad || t == e, "tuple-counts", str(s.cast<double>()));
    c.obs(mc::mix(uint64_t(e[0] * 36 + e[1] * 6 + e[2]), bad));
  });
  m.add("choices", [](Ctx &c) {
    int which = c.choose(5, "choice");
    int n = c.range(1, 3, "n"), k = c.range(0, 3, "m");
    c.shard();
    if (which == 4) {
      bool threw = false;
      try {
        auto v = allocate_ldlt_from_sizes<double>({n}, {k}, LDLTChoice::PROXSUITE);
      } catch (const std::runtime_error &) {
        threw = true;
      }
      c.require(threw, "unsupported-backend-accepted", "");
      return;
    }
    auto v = allocate_ldlt_from_sizes<double>({n}, {k}, CH[which]);
    c.require(v.which() == (which == 0 ? 0 : which == 1 ? 3 : which == 2 ? 1 : 2), "allocator-type", NM[which]);
    c.require(proxsuite::nlp::get_total_dim_helper({n}, {k, k}) == n + 2 * k, "total-dim", "");
  });
  return m.run(argc, argv);
}
