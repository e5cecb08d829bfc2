// MC-FLAGS: -O1 -g1 -fsanitize=address -fno-omit-frame-pointer
// C11: the dense and block-sparse LDLT factorisations reproduce their input,
// solve with it, and report pivots and sign, whatever the block structure,
// permutation, copies and earlier factorisations.
#include "pn.hpp"
#include "proxsuite-nlp/ldlt-allocator.hpp"
using namespace pn;
using namespace proxsuite::nlp::linalg;
using mc::Ctx;
using Dense_ = DenseLDLT<double>;
using Block_ = BlockLDLT<double>;
using Sign = Eigen::internal::SignMatrix;
using proxsuite::nlp::linalg::isize;

// symbolic blocks come from new[]: count the live ones
static long live_arrays = 0;
void *operator new[](size_t n) {
  live_arrays++;
  return malloc(n ? n : 1);
}
void operator delete[](void *p) noexcept {
  if (p)
    live_arrays--;
  free(p);
}
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }

static Mat lower_only(const Mat &a) {
  Mat b = a;
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < j; i++)
      b(i, j) = QNAN;
  return b;
}
static double mx(const Mat &m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
static bool fin(const Mat &m) { return m.size() == 0 || m.allFinite(); }

// exact leading minors of an integer matrix (fraction-free elimination)
static std::vector<double> minors(const Mat &a) {
  const long n = a.rows();
  std::vector<double> r;
  for (long k = 1; k <= n; k++)
    r.push_back(std::round(a.topLeftCorner(k, k).determinant() * 4096) / 4096);
  return r;
}

template <class F>
static void check_factor(Ctx &c, const F &f, const Mat &a, const std::string &tag,
                         int npos, int nneg, double tol = 1e-9) {
  const long n = a.rows();
  std::string at = tag + (n <= 6 ? " A=" + str(a) : "");
  c.require(f.info() == Eigen::Success, "ldlt-rejected", at);
  Vec d = f.vectorD();
  c.require(d.size() == n && fin(d), "ldlt-pivots-finite", at + " D=" + str(d));
  int p = 0, q = 0;
  for (long i = 0; i < n; i++) {
    p += d[i] > 0;
    q += d[i] < 0;
  }
  c.require(p == npos && q == nneg, "ldlt-inertia", at + " D=" + str(d));
  if (n) {
    Sign s = f.sign();
    Sign e = npos && nneg ? Sign::Indefinite : npos ? Sign::PositiveSemiDef : nneg ? Sign::NegativeSemiDef : Sign::ZeroSign;
    c.require(s == e, "ldlt-sign", at + " sign " + str(int(s)) + " expected " + str(int(e)) + " D=" + str(d));
  }
  Mat rec = f.reconstructedMatrix();
  c.require(fin(rec) && mx(rec - a) <= tol * mx(a), "ldlt-reconstruct", at + " got " + (n <= 6 ? str(rec) : str(mx(rec - a))));
  Mat B(n, 3);
  for (long i = 0; i < n; i++)
    B.row(i) << double(i == 0), double(i % 3) - 1, double(i + 1);
  Mat X = B;
  bool ok = f.solveInPlace(X);
  c.require(ok, "ldlt-solve-flag", at);
  c.require(fin(X) && mx(a * X - B) <= tol * (mx(a) * mx(X) * double(n) + mx(B)), "ldlt-solve",
            at + " residual " + str(mx(a * X - B)));
  Mat X2 = f.solve(B);
  c.require(same(X2, X), "ldlt-solve-vs-in-place", at);
  if (n) {
    Vec x1 = f.solve(Vec(B.col(2)));
    c.require(fin(x1) && mx(x1 - X.col(2)) <= tol * (1 + mx(X)), "ldlt-solve-columns", at);
  }
  c.obs(hashm(d, uint64_t(n)));
}

static Mat quasi(int n1, int n2, int pat) { // [H J^T; J -D], H,D > 0
  int n = n1 + n2;
  Mat a = Mat::Zero(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++) {
      double v = (((i * 5 + j * 3 + pat) % 7) - 3) / 4.;
      if (pat == 2 && (i + j) % 3)
        v = 0;
      a(i, j) = a(j, i) = v;
    }
  for (int i = 0; i < n; i++) {
    double s = a.row(i).cwiseAbs().sum() + 1;
    a(i, i) = i < n1 ? s : -s;
  }
  return a;
}

// ---- block structures ------------------------------------------------------
struct Struct {
  std::vector<isize> lens;
  std::vector<BlockKind> k; // column major, nb x nb
  int nb() const { return int(lens.size()); }
  BlockKind &at(int i, int j) { return k[size_t(i + j * nb())]; }
  BlockKind at(int i, int j) const { return k[size_t(i + j * nb())]; }
  long size() const {
    long s = 0;
    for (auto l : lens)
      s += l;
    return s;
  }
  SymbolicBlockMatrix sym() const {
    SymbolicBlockMatrix m(lens);
    for (int i = 0; i < nb(); i++)
      for (int j = 0; j < nb(); j++)
        m(i, j) = at(i, j);
    return m;
  }
  std::string desc() const {
    std::string s;
    for (int i = 0; i < nb(); i++)
      s += "len" + str(long(lens[size_t(i)])) + " ";
    for (int i = 0; i < nb(); i++)
      for (int j = 0; j <= i; j++)
        s += "ZDLUX"[at(i, j)];
    return s;
  }
};
static Struct pick_struct(Ctx &c, int maxb, const std::vector<int> &sizes, bool tri) {
  int nb = c.range(1, maxb, "blocks");
  Struct s;
  for (int i = 0; i < nb; i++)
    s.lens.push_back(c.pick(sizes, "len"));
  s.k.assign(size_t(nb * nb), Zero);
  for (int i = 0; i < nb; i++)
    for (int j = 0; j <= i; j++) {
      if (i == j)
        s.at(i, i) = c.pick({Diag, Dense}, "diag kind");
      else {
        bool sq = s.lens[size_t(i)] == s.lens[size_t(j)];
        BlockKind kk = sq && tri ? c.pick({Zero, Dense, Diag, TriU, TriL}, "off kind")
                       : sq      ? c.pick({Zero, Dense, Diag}, "off kind")
                                 : c.pick({Zero, Dense}, "off kind");
        s.at(i, j) = kk;
        s.at(j, i) = trans(kk);
      }
      if (i * nb + j == 3)
        c.shard();
    }
  c.shard();
  return s;
}
// strictly diagonally dominant values in the pattern: regular in every order
static Mat values(const Struct &s, unsigned signs, int salt) {
  long n = s.size();
  Mat a = Mat::Zero(n, n);
  std::vector<double> sg(static_cast<size_t>(n));
  long r = 0;
  for (int i = 0; i < s.nb(); i++) {
    long q = 0;
    for (int j = 0; j < s.nb(); j++) {
      for (long x = 0; x < s.lens[size_t(i)]; x++)
        for (long y = 0; y < s.lens[size_t(j)]; y++) {
          BlockKind k = s.at(i, j);
          bool in = k == Dense || (k == Diag && x == y) || (k == TriL && x >= y) || (k == TriU && x <= y);
          if (in && r + x > q + y) {
            double v = 1 + double(((r + x) * 3 + (q + y) * 5 + salt) % 4);
            if (((r + x) + (q + y) + salt) & 1)
              v = -v;
            a(r + x, q + y) = a(q + y, r + x) = v;
          }
        }
      q += s.lens[size_t(j)];
    }
    for (long x = 0; x < s.lens[size_t(i)]; x++)
      sg[size_t(r + x)] = (((signs >> i) & 1) != unsigned((salt & 1) && (x & 1))) ? -1 : 1; // mixed inside a block, too
    r += s.lens[size_t(i)];
  }
  for (long i = 0; i < n; i++)
    a(i, i) = sg[size_t(i)] * (a.row(i).cwiseAbs().sum() + 1);
  return a;
}
static bool has_tri(const Struct &s) {
  for (auto k : s.k)
    if (k == TriL || k == TriU)
      return true;
  return false;
}
static void count_signs(const Mat &a, int &p, int &q) {
  p = q = 0;
  for (long i = 0; i < a.rows(); i++)
    (a(i, i) > 0 ? p : q)++;
}
// returns false when the pattern is one the factorisation may decline
static bool check_block(Ctx &c, const Block_ &f, const Struct &s, const Mat &a, const std::string &tag) {
  if (has_tri(s) && f.info() != Eigen::Success) {
    c.count("declined-triangular-pattern");
    return false;
  }
  int p, q;
  count_signs(a, p, q);
  check_factor(c, f, a, tag + " " + s.desc(), p, q);
  c.count("block-factorised");
  return true;
}

int main(int argc, char **argv) {
  mc::Main m("C11");
  m.note = "every symmetric integer matrix over a value set whose leading minors are non-zero (dense), every "
           "block structure up to a bound with every block permutation (block-sparse), and every short sequence "
           "of permute/analyse/compute/copy operations, on the real factorisations, address-sanitised; oracle: "
           "products with the input matrix and exact leading minors";
  m.assumptions = {"inputs are inside the documented domain of unpivoted LDLT: non-zero leading minors in the "
                   "elimination order used; diagonal/triangular off-diagonal blocks are square"};
  m.add("dense-values", [](Ctx &c) {
    int n = c.range(0, c.thorough ? 4 : 3, "n");
    static const std::vector<double> v = {0, 1, -1, 2, -3}, v4 = {0, 1, -2};
    Mat a(n, n);
    int k = 0;
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++) {
        a(i, j) = a(j, i) = c.pick(n == 4 ? v4 : v, "entry");
        if (++k == 3)
          c.shard();
      }
    c.shard();
    auto mn = minors(a);
    // scaling by a power of two changes nothing in exact arithmetic
    a *= std::ldexp(1., c.pick({0, -60, 60, -300, 300}, "scale"));
    int p = 0, q = 0;
    double prev = 1;
    bool regular = true;
    for (double d : mn) {
      if (d == 0)
        regular = false;
      (d * prev > 0 ? p : q)++;
      prev = d;
    }
    Dense_ f(n);
    f.compute(lower_only(a));
    if (!regular) {
      // outside the domain of an unpivoted factorisation: it must say so, or
      // hand back finite factors that reproduce the input
      c.count("singular-leading-minor");
      if (f.info() == Eigen::Success) {
        Mat rec = f.reconstructedMatrix();
        c.require(fin(f.vectorD()) && fin(rec) && mx(rec - a) <= 1e-9 * mx(a), "ldlt-breakdown-unreported",
                  "A=" + str(a) + " D=" + str(Vec(f.vectorD())) + " rec=" + str(rec));
      }
      return;
    }
    check_factor(c, f, a, "dense", p, q);
    if (n) {
      Mat copy = a;
      Dense_ g(copy);
      check_factor(c, g, a, "dense from ref", p, q);
      c.require(same(g.vectorD(), f.vectorD()), "ldlt-constructor-vs-compute", str(a));
    }
    c.sample("dense n=" + str(n), str(a) + " -> D=" + str(Vec(f.vectorD())));
  });
  m.add("dense-large", [](Ctx &c) {
    int n = c.pick({64, 127, 128, 129, 130, 200, 257, 300}, "n");
    int neg = c.pick({0, 1, 2, 3}, "negative part");
    int pat = c.range(0, 2, "pattern");
    int perm = c.choose(3, "order");
    c.shard();
    int n2 = neg == 0 ? 0 : neg == 1 ? n / 3 : neg == 2 ? n - 2 : n;
    Mat a = quasi(n - n2, n2, pat), b = a;
    if (perm)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          b(i, j) = perm == 1 ? a(n - 1 - i, n - 1 - j) : a((i + n / 2) % n, (j + n / 2) % n);
    Dense_ f(n);
    f.compute(lower_only(b));
    check_factor(c, f, b, "dense n=" + str(n), n - n2, n2);
  });
  // zero pivots in the recursive and the blockwise path
  m.add("breakdown", [](Ctx &c) {
    int n = c.pick({2, 3, 5, 128, 129, 160}, "n");
    int at = c.choose(4, "where");
    int coupled = c.choose(2, "coupled");
    c.shard();
    long r = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 2 : n - 1;
    Mat a = Mat::Identity(n, n) * 2.;
    a(r, r) = 0;
    if (coupled) {
      long o = r + 1 < n ? r + 1 : 0;
      a(r, o) = a(o, r) = 1;
    }
    if (coupled && r == n - 1)
      c.count("last pivot, regular");
    Dense_ f(n);
    f.compute(lower_only(a));
    std::string t = "n=" + str(n) + " zero pivot at " + str(r) + " coupled " + str(coupled);
    if (f.info() == Eigen::Success) {
      Mat rec = f.reconstructedMatrix();
      c.require(fin(f.vectorD()) && fin(rec) && mx(rec - a) <= 1e-9, "ldlt-breakdown-unreported", t);
    }
    std::vector<isize> lens = {n / 2, n - n / 2};
    SymbolicBlockMatrix sm(lens);
    Block_ b(n, sm);
    if (c.flip("sparsify"))
      b.findSparsifyingPermutation();
    else
      b.setBlockPermutation();
    b.compute(lower_only(a));
    delete[] sm.m_data;
    delete[] sm.segment_lens;
    if (b.info() == Eigen::Success) {
      Mat rec = b.reconstructedMatrix();
      c.require(fin(b.vectorD()) && fin(rec) && mx(rec - a) <= 1e-9, "ldlt-breakdown-unreported", "block " + t);
    }
  });
  m.add("dense-history", [](Ctx &c) {
    static std::vector<Mat> lib;
    if (lib.empty()) {
      lib = {quasi(2, 1, 0), quasi(3, 0, 1), quasi(0, 2, 0), quasi(1, 0, 0), quasi(0, 1, 0), Mat(0, 0), quasi(100, 30, 1)};
    }
    int len = c.range(1, c.thorough ? 3 : 2, "length");
    c.shard();
    Dense_ f(c.pick({0, 3}, "initial size"));
    for (int t = 0; t < len; t++) {
      int i = c.choose(int(lib.size()), "matrix");
      c.shard();
      int p, q;
      count_signs(lib[size_t(i)], p, q);
      f.compute(lower_only(lib[size_t(i)]));
      check_factor(c, f, lib[size_t(i)], "dense history step " + str(t) + " matrix " + str(i), p, q);
      if (t + 1 < len) {
        int op = c.choose(3, "then");
        if (op == 1) {
          Dense_ g(f);
          f = g;
        } else if (op == 2) {
          Dense_ g(2);
          g = f;
          check_factor(c, g, lib[size_t(i)], "dense assigned", p, q);
        }
      }
    }
  });
  auto block_one = [](Ctx &c, const Struct &s) {
    int nb = s.nb();
    std::vector<isize> perm(static_cast<size_t>(nb));
    std::iota(perm.begin(), perm.end(), 0);
    int np = 1;
    for (int i = 2; i <= nb; i++)
      np *= i;
    int which = c.choose(np + 1, "permutation");
    unsigned signs = unsigned(c.choose(1 << nb, "signs"));
    Mat a = values(s, signs, int(signs));
    SymbolicBlockMatrix sm = s.sym();
    {
      Block_ f(s.size(), sm);
      delete[] sm.m_data;
      delete[] sm.segment_lens; // the factorisation owns its own copy
      std::string tag;
      if (which == np) {
        f.findSparsifyingPermutation();
        tag = "sparsifying";
      } else {
        for (int i = 0; i < which; i++)
          std::next_permutation(perm.begin(), perm.end());
        f.setBlockPermutation(which ? perm.data() : nullptr);
        tag = "perm" + str(which);
      }
      if (!f.structure().performed_llt) {
        c.require(has_tri(s), "ldlt-pattern-rejected", s.desc());
        return;
      }
      f.compute(lower_only(a));
      if (check_block(c, f, s, a, tag)) {
        // again with other values on the same structure: nothing may survive
        Mat b = values(s, ~signs, 1);
        f.compute(lower_only(b));
        check_block(c, f, s, b, tag + " recompute");
      }
    }
    c.sample(s.desc(), "permutation " + str(which));
  };
  // a zero diagonal entry anywhere: an answer that claims success is right
  m.add("block-breakdown", [](Ctx &c) {
    Struct s = pick_struct(c, 3, {1, 2}, false);
    int nb = s.nb();
    std::vector<isize> perm(static_cast<size_t>(nb));
    std::iota(perm.begin(), perm.end(), 0);
    int which = c.choose(nb == 1 ? 1 : nb == 2 ? 2 : 6, "permutation");
    for (int i = 0; i < which; i++)
      std::next_permutation(perm.begin(), perm.end());
    Mat a = values(s, unsigned(c.choose(2, "signs")) * 5u, 2);
    long z = c.choose(int(a.rows()), "zero at");
    if (c.flip("decoupled"))
      a.row(z).setZero(), a.col(z).setZero();
    a(z, z) = 0;
    a *= std::ldexp(1., c.pick({0, -60}, "scale"));
    SymbolicBlockMatrix sm = s.sym();
    Block_ f(s.size(), sm);
    delete[] sm.m_data;
    delete[] sm.segment_lens;
    f.setBlockPermutation(perm.data());
    c.require(f.structure().performed_llt, "ldlt-pattern-rejected", s.desc());
    f.compute(lower_only(a));
    std::string t = s.desc() + " permutation " + str(which) + " A=" + str(a);
    // the elimination itself, in the order used
    const auto &ix = f.permutationP().indices();
    Mat e(a.rows(), a.rows());
    for (long i = 0; i < a.rows(); i++)
      for (long j = 0; j < a.rows(); j++)
        e(i, j) = a(ix[i], ix[j]);
    bool regular = true;
    for (long k = 0; k < e.rows() && regular; k++) {
      if (std::abs(e(k, k)) <= 1e-9 * mx(a)) {
        regular = false;
        break;
      }
      for (long i = k + 1; i < e.rows(); i++)
        for (long j = e.rows() - 1; j >= k; j--)
          e(i, j) -= e(i, k) / e(k, k) * e(k, j);
    }
    c.count(regular ? "regular" : f.info() == Eigen::Success ? "accepted-singular" : "reported");
    if (regular)
      c.require(f.info() == Eigen::Success, "ldlt-rejected", t);
    Vec D = f.vectorD();
    for (long k = 0; k < D.size(); k++)
      if (D[k] != 0 && std::abs(D[k]) < 1e-9 * mx(a)) { // a zero pivot up to rounding: no accuracy is claimed
        c.count("near-zero-pivot");
        return;
      }
    if (f.info() == Eigen::Success) {
      Mat rec = f.reconstructedMatrix();
      c.require(fin(f.vectorD()) && fin(rec) && mx(rec - a) <= 1e-9 * mx(a), "ldlt-breakdown-unreported", t + " D=" + str(Vec(f.vectorD())));
    }
    c.obs(mc::mix(hashm(e), uint64_t(f.info())));
  });
  m.add("block-structures", [block_one](Ctx &c) {
    block_one(c, pick_struct(c, 3, {1, 2}, true));
  });
  m.add("block-sizes", [block_one](Ctx &c) {
    block_one(c, pick_struct(c, 3, {0, 1, 3}, false));
  });
  m.add("block-four", [block_one](Ctx &c) {
    // four blocks of size 2
    Struct s;
    s.lens = {2, 2, 2, 2};
    s.k.assign(16, Zero);
    for (int i = 0; i < 4; i++)
      for (int j = 0; j <= i; j++) {
        if (i == j)
          s.at(i, i) = c.pick({Diag, Dense}, "diag");
        else
          s.at(i, j) = s.at(j, i) = c.pick({Zero, Diag, Dense}, "off");
        if (i == 2 && j == 1)
          c.shard();
      }
    block_one(c, s);
  }, 1 << 30, true);
  m.add("block-default-structure", [](Ctx &c) {
    std::vector<isize> pr, du;
    int np = c.range(1, 2, "primal blocks"), nd = c.range(0, c.thorough ? 4 : 3, "dual blocks");
    for (int i = 0; i < np; i++)
      pr.push_back(c.pick({1, 3, 70}, "nx"));
    for (int i = 0; i < nd; i++)
      du.push_back(c.pick({0, 1, 2}, "nc"));
    c.shard();
    SymbolicBlockMatrix sm = create_default_block_structure(pr, du);
    Struct s;
    s.lens = pr;
    s.lens.insert(s.lens.end(), du.begin(), du.end());
    int nb = s.nb();
    s.k.assign(size_t(nb * nb), Zero);
    for (int i = 0; i < nb; i++)
      for (int j = 0; j < nb; j++) {
        BlockKind e = (i < np || j < np) ? Dense : i == j ? Diag : Zero;
        c.require(sm(i, j) == e, "default-structure", s.desc());
        s.at(i, j) = e;
      }
    for (int i = 0; i < nb; i++)
      c.require(sm.segment_lens[i] == s.lens[size_t(i)], "default-structure", s.desc());
    delete[] sm.m_data;
    delete[] sm.segment_lens;
    unsigned signs = 0;
    for (int i = np; i < nb; i++)
      signs |= 1u << i;
    Mat a = values(s, signs, 3);
    auto var = allocate_ldlt_from_sizes<double>(pr, du, LDLTChoice::BLOCKSPARSE);
    Block_ *f = boost::get<Block_>(&var);
    c.require(f != nullptr, "allocator-type", "");
    f->compute(lower_only(a));
    check_block(c, *f, s, a, "allocated");
    // the variant is copied and assigned like any value
    auto v2 = var;
    Block_ &g = boost::get<Block_>(v2);
    check_block(c, g, s, a, "copied variant");
    Mat b = values(s, signs, 6);
    g.compute(lower_only(b));
    check_block(c, g, s, b, "copied variant recomputed");
    check_block(c, *f, s, a, "original after the copy changed");
    var = v2;
    check_block(c, boost::get<Block_>(var), s, b, "assigned variant");
  });
  // permutation / analysis / copies in any order on one object
  m.add("block-history", [](Ctx &c) {
    Struct s;
    int shape = c.choose(4, "shape");
    s.lens = shape == 3 ? std::vector<isize>{2, 2} : std::vector<isize>{2, 1, 2};
    int nb = s.nb();
    s.k.assign(size_t(nb * nb), Zero);
    for (int i = 0; i < nb; i++)
      for (int j = 0; j <= i; j++) {
        BlockKind k = i == j ? (shape == 1 && i ? Diag : Dense) : (shape == 2 && i == 2 && j == 0) ? Diag : (shape == 0 && j) ? Zero : Dense;
        if (shape == 1 && i == 2 && j == 1)
          k = Zero;
        s.at(i, j) = s.at(j, i) = k;
      }
    int len = c.range(1, c.thorough ? 5 : 4, "length");
    const long before = live_arrays;
    auto mk = [&] {
      SymbolicBlockMatrix sm = s.sym();
      auto p = std::make_unique<Block_>(s.size(), sm);
      delete[] sm.m_data;
      delete[] sm.segment_lens;
      return p;
    };
    auto f = mk();
    bool ready = false, computed = false;
    Mat a;
    std::string log;
    for (int t = 0; t < len; t++) {
      int op = c.choose(6, "op");
      if (t == 1)
        c.shard();
      switch (op) {
      case 0:
        f->findSparsifyingPermutation();
        ready = true;
        computed = false;
        log += " sparsify";
        break;
      case 1: {
        std::vector<isize> p(static_cast<size_t>(nb));
        for (int i = 0; i < nb; i++)
          p[size_t(i)] = nb - 1 - i;
        f->setBlockPermutation(p.data());
        ready = true;
        computed = false;
        log += " reverse";
        break;
      }
      case 2: {
        std::vector<isize> p(static_cast<size_t>(nb));
        for (int i = 0; i < nb; i++)
          p[size_t(i)] = (i + 1) % nb;
        f->setBlockPermutation(p.data());
        ready = true;
        computed = false;
        log += " rotate";
        break;
      }
      case 3:
        if (!ready)
          c.prune();
        a = values(s, unsigned(t) * 3u, t);
        f->compute(lower_only(a));
        computed = true;
        log += " compute";
        break;
      case 4: {
        auto g = std::make_unique<Block_>(*f);
        f = std::move(g);
        log += " copy";
        break;
      }
      case 5: {
        auto g = mk();
        *g = *f;
        f = std::move(g);
        log += " assign";
        break;
      }
      }
      c.step();
      if (computed)
        check_block(c, *f, s, a, "history" + log);
    }
    if (ready && !computed) {
      a = values(s, 2, 9);
      f->compute(lower_only(a));
      check_block(c, *f, s, a, "history" + log + " compute");
    }
    f.reset();
    c.require(live_arrays == before, "ldlt-ownership", log + ": " + str(live_arrays - before) + " symbolic blocks left over");
    c.sample(log, s.desc());
  });
  return m.run(argc, argv);
}
