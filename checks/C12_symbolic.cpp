// MC-FLAGS: -O1 -g1 -fsanitize=address -fno-omit-frame-pointer
// C12: the symbolic block algebra over-approximates, tightly, what the numeric
// algebra can fill in; the permutation search is optimal.
#include "pn.hpp"
#include "proxsuite-nlp/linalg/gemmt.hpp"
#include "proxsuite-nlp/linalg/block-triangular.hpp"
using namespace pn;
using namespace proxsuite::nlp::linalg;
using mc::Ctx;
using proxsuite::nlp::linalg::isize;
using BM = Eigen::Matrix<int, -1, -1>; // boolean pattern

static const BlockKind KINDS[5] = {Zero, Diag, TriL, TriU, Dense};
static const char *NAME = "ZDLUX";
static bool in_kind(BlockKind k, long i, long j) {
  return k == Dense || (k == Diag && i == j) || (k == TriL && i >= j) || (k == TriU && i <= j);
}
static BM pat(BlockKind k, long r, long cc) {
  BM m(r, cc);
  for (long i = 0; i < r; i++)
    for (long j = 0; j < cc; j++)
      m(i, j) = in_kind(k, i, j);
  return m;
}
static bool subset(const BM &a, const BM &b) {
  for (long i = 0; i < a.rows(); i++)
    for (long j = 0; j < a.cols(); j++)
      if (a(i, j) && !b(i, j))
        return false;
  return true;
}
// least kind that contains a pattern
static BlockKind least(const BM &p) {
  for (BlockKind k : KINDS)
    if (subset(p, pat(k, p.rows(), p.cols())))
      return k;
  return Dense;
}
struct S {
  std::vector<isize> lens;
  std::vector<BlockKind> k;
  int nb() const { return int(lens.size()); }
  BlockKind at(int i, int j) const { return k[size_t(i + j * nb())]; }
  BlockKind &at(int i, int j) { return k[size_t(i + j * nb())]; }
  std::string desc() const {
    std::string s = "[";
    for (int i = 0; i < nb(); i++) {
      for (int j = 0; j < nb(); j++)
        s += NAME[at(i, j)];
      s += i + 1 < nb() ? "|" : "]";
    }
    for (auto l : lens)
      s += " " + str(long(l));
    return s;
  }
  SymbolicBlockMatrix sym() const {
    SymbolicBlockMatrix m(lens);
    for (int i = 0; i < nb(); i++)
      for (int j = 0; j < nb(); j++)
        m(i, j) = at(i, j);
    return m;
  }
};
static void release(SymbolicBlockMatrix &m) {
  delete[] m.m_data;
  delete[] m.segment_lens;
}
static S read(const SymbolicBlockMatrix &m) {
  S s;
  for (isize i = 0; i < m.nsegments(); i++)
    s.lens.push_back(m.segment_lens[i]);
  s.k.assign(size_t(s.nb() * s.nb()), Zero);
  for (int i = 0; i < s.nb(); i++)
    for (int j = 0; j < s.nb(); j++)
      s.at(i, j) = m(i, j);
  return s;
}
static S permute(const S &s, const std::vector<isize> &p) {
  S r = s;
  for (int i = 0; i < s.nb(); i++) {
    r.lens[size_t(i)] = s.lens[size_t(p[size_t(i)])];
    for (int j = 0; j < s.nb(); j++)
      r.at(i, j) = s.at(int(p[size_t(i)]), int(p[size_t(j)]));
  }
  return r;
}
static BM expand(const S &s) {
  long n = 0;
  for (auto l : s.lens)
    n += l;
  BM m = BM::Zero(n, n);
  long r = 0;
  for (int i = 0; i < s.nb(); i++) {
    long q = 0;
    for (int j = 0; j < s.nb(); j++) {
      for (long x = 0; x < s.lens[size_t(i)]; x++)
        for (long y = 0; y < s.lens[size_t(j)]; y++)
          m(r + x, q + y) = in_kind(s.at(i, j), x, y);
      q += s.lens[size_t(j)];
    }
    r += s.lens[size_t(i)];
  }
  return m;
}
static BM fill(BM m) { // exact scalar symbolic factorisation, lower part
  const long n = m.rows();
  for (long k = 0; k < n; k++)
    for (long i = k + 1; i < n; i++)
      for (long j = k + 1; j <= i; j++)
        if (m(i, k) && m(j, k))
          m(i, j) = m(j, i) = 1;
  for (long j = 0; j < n; j++)
    for (long i = 0; i < j; i++)
      m(i, j) = 0;
  return m;
}
static long nnz(const BM &m) { return m.sum(); }
static S pick_sym(Ctx &c, int maxb, bool tri, bool zero_diag) {
  int nb = c.range(1, maxb, "blocks");
  long len = c.pick({1, 2, 3}, "len");
  S s;
  s.lens.assign(size_t(nb), len);
  s.k.assign(size_t(nb * nb), Zero);
  for (int i = 0; i < nb; i++)
    for (int j = 0; j <= i; j++) {
      BlockKind k = i == j ? (zero_diag ? c.pick({Diag, Dense, Zero}, "diag") : c.pick({Diag, Dense}, "diag"))
                    : tri  ? c.pick({Zero, Diag, Dense, TriL, TriU}, "off")
                           : c.pick({Zero, Diag, Dense}, "off");
      s.at(i, j) = k;
      s.at(j, i) = k == TriL ? TriU : k == TriU ? TriL : k;
      if (i == 1 && j == 1)
        c.shard();
    }
  c.shard();
  return s;
}

int main(int argc, char **argv) {
  mc::Main m("C12");
  m.note = "all kind pairs, all block structures up to a size with all permutations: the symbolic operation is compared "
           "with the scalar boolean operation it stands for; block products and triangular solves on every kind pair "
           "are compared with the plain dense computation";
  m.add("kinds", [](Ctx &c) {
    BlockKind a = KINDS[c.choose(5)], b = KINDS[c.choose(5)];
    c.shard();
    std::string at = std::string(1, NAME[a]) + NAME[b];
    for (long n : {2, 3, 4}) {
      BM A = pat(a, n, n), B = pat(b, n, n);
      c.require(pat(trans(a), n, n) == A.transpose(), "kind-transpose", at);
      BM sum = A + B, prod = A * B;
      for (long i = 0; i < n; i++)
        for (long j = 0; j < n; j++) {
          sum(i, j) = sum(i, j) != 0;
          prod(i, j) = prod(i, j) != 0;
        }
      c.require(subset(sum, pat(add(a, b), n, n)), "kind-add-sound", at);
      c.require(subset(prod, pat(mul(a, b), n, n)), "kind-mul-sound", at);
      c.require(add(a, b) == least(sum), "kind-add-tight", at);
      c.require(mul(a, b) == least(prod), "kind-mul-tight", at);
      c.obs(mc::mix(uint64_t(add(a, b)), uint64_t(mul(a, b)) * 25 + a * 5 + b));
    }
    c.sample(at, std::string("add ") + NAME[add(a, b)] + " mul " + NAME[mul(a, b)]);
  });
  m.add("matrices", [](Ctx &c) {
    // arbitrary (not necessarily symmetric) block matrices: copies, views, transposes, counts
    int nb = c.range(1, 2, "blocks");
    long len = c.pick({1, 2, 3}, "len");
    S s;
    s.lens.assign(size_t(nb), len);
    if (nb == 2)
      s.lens[1] = len;
    s.k.assign(size_t(nb * nb), Zero);
    for (auto &k : s.k)
      k = KINDS[c.choose(5, "kind")];
    c.shard();
    SymbolicBlockMatrix m = s.sym();
    m.performed_llt = c.flip("analysed");
    SymbolicBlockMatrix cp = m.copy(), tr = m.transpose();
    c.require(cp.m_data != m.m_data && cp.segment_lens != m.segment_lens && cp.performed_llt == m.performed_llt, "copy-deep", s.desc());
    c.require(read(cp).k == s.k && read(cp).lens == s.lens, "copy-content", s.desc());
    c.require(expand(read(tr)) == expand(s).transpose(), "transpose", s.desc());
    c.require(m.count_nnz() == nnz(expand(s)), "count-nnz", s.desc() + " " + str(long(m.count_nnz())));
    BM e = expand(s);
    c.require(len == 1 || m.check_if_symmetric() == (e == e.transpose()), "check-symmetric", s.desc() + " " + str(int(m.check_if_symmetric())));
    for (int i = 0; i < nb; i++) {
      auto sub = m.submatrix(i, nb - i);
      c.require(sub.nsegments() == nb - i && sub.performed_llt == m.performed_llt, "submatrix", s.desc());
      for (int a = 0; a < nb - i; a++) {
        c.require(sub.segment_lens[a] == s.lens[size_t(a + i)], "submatrix", s.desc());
        for (int b = 0; b < nb - i; b++)
          c.require(&sub(a, b) == &m(a + i, b + i), "submatrix", s.desc());
      }
    }
    cp(0, 0) = Dense;
    c.require(m(0, 0) == s.at(0, 0), "copy-deep", s.desc());
    c.obs(hashm(e.cast<double>()));
    release(m);
    release(cp);
    release(tr);
  });
  m.add("three-block-matrices", [](Ctx &c) {
    S s;
    s.lens = {2, 2, 2};
    s.k.assign(9, Zero);
    int n = 0;
    for (auto &k : s.k) {
      k = KINDS[c.choose(c.thorough ? 5 : 3, "kind") % 5];
      if (!c.thorough && k == TriL)
        k = Dense;
      if (++n == 3)
        c.shard();
    }
    SymbolicBlockMatrix m = s.sym(), tr = m.transpose();
    BM e = expand(s);
    c.require(expand(read(tr)) == e.transpose(), "transpose", s.desc());
    c.require(m.count_nnz() == nnz(e), "count-nnz", s.desc());
    c.require(m.check_if_symmetric() == (e == e.transpose()), "check-symmetric", s.desc());
    release(m);
    release(tr);
  });
  auto factor = [](Ctx &c, const S &s) {
    SymbolicBlockMatrix m = s.sym();
    bool ok = m.llt_in_place();
    c.require(ok == m.performed_llt, "llt-flag", s.desc());
    // block elimination fails exactly when a pivot block is not usable
    S ref = s;
    bool expect = true;
    S least_l = s; // least kinds of the factor
    for (int k = 0; k < ref.nb() && expect; k++) {
      if (ref.at(k, k) != Diag && ref.at(k, k) != Dense)
        expect = false;
      // inverse of a diagonal pivot keeps the kind, of a dense one fills rows
      for (int i = k + 1; i < ref.nb() && expect; i++)
        for (int j = k + 1; j < ref.nb(); j++) {
          auto eff = [&](int r) {
            BlockKind q = ref.at(r, k);
            if (ref.at(k, k) == Dense)
              q = q == Zero ? Zero : q == Diag || q == TriU ? TriU : Dense;
            return q;
          };
          BM p = pat(eff(i), 3, 3) * pat(trans(eff(j)), 3, 3) + pat(ref.at(i, j), 3, 3);
          for (long x = 0; x < 3; x++)
            for (long y = 0; y < 3; y++)
              p(x, y) = p(x, y) != 0;
          ref.at(i, j) = least(p);
          least_l.at(i, k) = eff(i);
        }
    }
    if (ok != expect) {
      // over-approximated fill may turn a zero pivot block into a usable one
      c.require(ok && !expect, "llt-feasibility", s.desc());
    }
    if (ok) {
      BM l = expand(read(m)), exact = fill(expand(s));
      c.require(subset(exact, l), "llt-pattern-sound", s.desc() + " -> " + read(m).desc());
      for (int i = 0; i < s.nb(); i++)
        for (int j = i + 1; j < s.nb(); j++)
          c.require(m(i, j) == Zero, "llt-upper-zero", s.desc());
      for (int i = 0; i < s.nb(); i++)
        for (int j = 0; j < i; j++)
          c.require(m(i, j) == least_l.at(i, j), "llt-pattern-tight", s.desc() + " -> " + read(m).desc());
      for (int i = 0; i < s.nb(); i++)
        c.require(m(i, i) == Diag || m(i, i) == TriL, "llt-diagonal-kind", s.desc());
      c.obs(hashm(l.cast<double>()));
    }
    release(m);
    c.count(ok ? "factorised" : "not factorisable");
  };
  m.add("symbolic-factorisation", [factor](Ctx &c) { factor(c, pick_sym(c, 3, true, true)); });
  m.add("symbolic-factorisation-4", [factor](Ctx &c) { factor(c, pick_sym(c, 4, false, true)); });
  m.add("permutation-search", [](Ctx &c) {
    int nb = c.range(1, c.thorough ? 4 : 3, "blocks");
    S s;
    bool mixed = c.flip("mixed sizes");
    for (int i = 0; i < nb; i++)
      s.lens.push_back(mixed ? i + 1 : 2);
    s.k.assign(size_t(nb * nb), Zero);
    for (int i = 0; i < nb; i++)
      for (int j = 0; j <= i; j++) {
        BlockKind k = i == j ? c.pick({Diag, Dense, Zero}, "diag") : mixed ? c.pick({Zero, Dense}, "off") : c.pick({Zero, Diag, Dense}, "off");
        s.at(i, j) = s.at(j, i) = k;
        if (i == 1 && j == 1)
          c.shard();
      }
    c.shard();
    // deep copy with every permutation
    std::vector<isize> p(static_cast<size_t>(nb));
    std::iota(p.begin(), p.end(), 0);
    long best = -1;
    SymbolicBlockMatrix in = s.sym(), w = s.sym();
    do {
      symbolic_deep_copy(in, w, p.data());
      S e = permute(s, p);
      c.require(read(w).k == e.k && read(w).lens == e.lens, "deep-copy-permuted", s.desc());
      w.performed_llt = false;
      if (w.llt_in_place()) {
        long z = nnz(expand(read(w)));
        c.require(w.count_nnz() == z, "count-nnz", s.desc() + " " + str(long(w.count_nnz())) + " instead of " + str(z));
        if (best < 0 || z < best)
          best = z;
      }
    } while (std::next_permutation(p.begin(), p.end()));
    std::vector<isize> bp(static_cast<size_t>(nb), -7), iw(static_cast<size_t>(nb));
    SymbolicBlockMatrix out = s.sym();
    auto info = out.brute_force_best_permutation(in, bp.data(), iw.data());
    c.require((info == Eigen::Success) == (best >= 0), "search-feasibility", s.desc() + " best " + str(best) + " info " + str(int(info)));
    c.require(read(in).k == s.k && read(in).lens == s.lens, "search-input-untouched", s.desc());
    if (info == Eigen::Success) {
      std::vector<isize> q = bp;
      std::sort(q.begin(), q.end());
      for (int i = 0; i < nb; i++)
        c.require(q[size_t(i)] == i, "search-permutation", s.desc());
      symbolic_deep_copy(in, w, bp.data());
      w.performed_llt = false;
      c.require(w.llt_in_place(), "search-permutation-factorisable", s.desc());
      c.require(nnz(expand(read(w))) == best, "search-optimal", s.desc() + " got " + str(nnz(expand(read(w)))) + " best " + str(best));
      c.require(out.performed_llt && read(out).k == read(w).k && read(out).lens == read(w).lens, "search-result-structure",
                s.desc() + " result " + read(out).desc() + " expected " + read(w).desc());
    }
    c.count(info == Eigen::Success ? "search ok" : "search infeasible");
    release(in);
    release(w);
    release(out);
  });
  // block products dst += alpha * lhs * rhs^T
  m.add("gemmt", [](Ctx &c) {
    BlockKind a = KINDS[c.choose(5)], b = KINDS[c.choose(5)];
    long n = c.pick({1, 2, 3, 4}, "n");
    int rect = c.choose(4, "shape");
    double alpha = c.pick({1., -1., 2.5}, "alpha");
    c.shard();
    long r = n, q = n, k = n; // lhs r x k, rhs q x k
    if (rect == 1 && (a == Dense || a == Zero))
      r = n + 2;
    if (rect == 2 && (b == Dense || b == Zero))
      q = n + 1;
    if (rect == 3 && (a == Dense || a == Zero) && (b == Dense || b == Zero))
      k = n + 3;
    Mat L(r, k), R(q, k), D(r, q);
    for (long i = 0; i < r; i++)
      for (long j = 0; j < k; j++)
        L(i, j) = in_kind(a, i, j) ? double((i * 3 + j * 5) % 7) - 2.5 : 0.;
    for (long i = 0; i < q; i++)
      for (long j = 0; j < k; j++)
        R(i, j) = in_kind(b, i, j) ? double((i * 5 + j * 2) % 5) - 1.75 : 0.;
    for (long i = 0; i < r; i++)
      for (long j = 0; j < q; j++)
        D(i, j) = double(i) - 2. * double(j);
    Mat E = D;
    for (long i = 0; i < r; i++)
      for (long j = 0; j < q; j++)
        for (long t = 0; t < k; t++)
          E(i, j) += alpha * L(i, t) * R(j, t);
    std::string at = std::string("lhs ") + NAME[a] + " rhs " + NAME[b] + " " + str(r) + "x" + str(q) + "x" + str(k) + " alpha " + str(alpha);
    backend::gemmt(D, L, R, a, b, alpha);
    c.require(close(D, E, 1e-13, 1e-13), "gemmt-value", at + " got " + str(D) + " expected " + str(E));
    // on blocks of a larger matrix, everything around must be untouched
    Mat big = Mat::Constant(r + 2, q + 2, 7.);
    auto blk = big.block(1, 1, r, q);
    for (long i = 0; i < r; i++)
      for (long j = 0; j < q; j++)
        blk(i, j) = double(i) - 2. * double(j);
    Mat Rt = R.transpose();
    backend::gemmt(blk, L, Rt.transpose(), a, b, alpha);
    c.require(close(Mat(blk), E, 1e-13, 1e-13), "gemmt-block", at);
    big.block(1, 1, r, q).setConstant(7.);
    c.require(same(big, Mat::Constant(r + 2, q + 2, 7.)), "gemmt-outside", at);
    c.obs(hashm(E));
  });
  // triangular block solves against the dense triangular solve
  m.add("triangular-solve", [](Ctx &c) {
    int nb = c.range(1, c.thorough ? 4 : 3, "blocks");
    bool upper = c.flip("upper"), unit = c.flip("unit");
    S s;
    s.lens.assign(size_t(nb), c.pick({1, 2, 3}, "len"));
    bool mixed = c.flip("mixed");
    if (mixed)
      for (int i = 0; i < nb; i++)
        s.lens[size_t(i)] = 1 + (i * 2) % 3;
    s.k.assign(size_t(nb * nb), Zero);
    for (int i = 0; i < nb; i++)
      for (int j = 0; j <= i; j++) {
        BlockKind k = i == j ? c.pick({Diag, TriL}, "diag") : mixed ? c.pick({Zero, Dense}, "off") : c.pick({Zero, Diag, TriL, TriU, Dense}, "off");
        (upper ? s.at(j, i) : s.at(i, j)) = upper ? trans(k) : k;
        if (i == 1 && j == 0)
          c.shard();
      }
    c.shard();
    BM p = expand(s);
    const long n = p.rows();
    Mat A(n, n);
    for (long i = 0; i < n; i++)
      for (long j = 0; j < n; j++)
        A(i, j) = i == j ? (i % 2 ? 2. : -4.) : p(i, j) ? double((i * 3 + j * 5) % 5) - 1.5 : 0.;
    int cols = c.pick({1, 2}, "columns");
    Mat B(n, cols);
    for (long i = 0; i < n; i++)
      for (long j = 0; j < cols; j++)
        B(i, j) = double((i * 7 + j * 3) % 9) - 4.;
    Mat T = A;
    if (unit)
      T.diagonal().setOnes();
    SymbolicBlockMatrix m = s.sym();
    std::string at = s.desc() + (upper ? " upper" : " lower") + (unit ? " unit" : "");
    auto go = [&](auto tm) {
      Mat X = B;
      bool ok = tm.solveInPlace(X);
      c.require(ok, "trisolve-flag", at);
      c.require(X.allFinite() && close(T * X, B, 1e-9, 1e-9), "trisolve-value", at + " " + str(X));
      Mat Y = B;
      ok = tm.template solveInPlace<Mat, false>(Y);
      if (!mixed || !upper)
        (void)ok;
    };
    if (upper && unit)
      go(TriangularBlockMatrix<const Mat, Eigen::UnitUpper>(A, m));
    else if (upper)
      go(TriangularBlockMatrix<const Mat, Eigen::Upper>(A, m));
    else if (unit)
      go(TriangularBlockMatrix<const Mat, Eigen::UnitLower>(A, m));
    else
      go(TriangularBlockMatrix<const Mat, Eigen::Lower>(A, m));
    c.obs(hashm(A));
    release(m);
  });
  // a factor with an unusable diagonal block is refused
  m.add("triangular-refusal", [](Ctx &c) {
    int nb = c.range(1, 3, "blocks"), bad = c.choose(nb, "where");
    BlockKind k = c.pick({Zero, Dense}, "kind");
    bool upper = c.flip("upper");
    c.shard();
    S s;
    s.lens.assign(size_t(nb), 2);
    s.k.assign(size_t(nb * nb), Zero);
    for (int i = 0; i < nb; i++)
      s.at(i, i) = i == bad ? k : Diag;
    SymbolicBlockMatrix m = s.sym();
    Mat A = Mat::Identity(2 * nb, 2 * nb), B = Mat::Ones(2 * nb, 1);
    bool ok = upper ? TriangularBlockMatrix<const Mat, Eigen::UnitUpper>(A, m).solveInPlace(B)
                    : TriangularBlockMatrix<const Mat, Eigen::UnitLower>(A, m).solveInPlace(B);
    c.require(!ok, "trisolve-refusal", s.desc());
    c.obs(uint64_t(bad * 16 + nb * 4 + upper * 2 + (k == Zero)));
    release(m);
  });
  return m.run(argc, argv);
}
