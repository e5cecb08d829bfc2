From 6875cdd62545636854419f69723bf81098bb1646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 01/37] fix: propagate the proximal parameter through
 ConstraintSetProduct

---
 include/proxsuite-nlp/constraint-set.hpp                   | 2 +-
 .../modelling/constraints/constraint-set-product.hpp       | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/constraint-set.hpp b/include/proxsuite-nlp/constraint-set.hpp
index 9a2ba05..6e83db6 100644
--- a/include/proxsuite-nlp/constraint-set.hpp
+++ b/include/proxsuite-nlp/constraint-set.hpp
@@ -67,7 +67,7 @@ public:
 
   /// @brief Update proximal parameter; this applies to when this class is a
   /// proximal operator that isn't a projection (e.g. \f$ \ell_1 \f$).
-  void setProxParameter(const Scalar mu) const {
+  virtual void setProxParameter(const Scalar mu) const {
     mu_ = mu;
     mu_inv_ = 1. / mu;
   };
diff --git a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
index da9a906..aec75b4 100644
--- a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
+++ b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
@@ -52,6 +52,13 @@ struct ConstraintSetProductTpl : ConstraintSetTpl<Scalar> {
   ConstraintSetProductTpl(ConstraintSetProductTpl &&) = default;
   ConstraintSetProductTpl &operator=(ConstraintSetProductTpl &&) = default;
 
+  void setProxParameter(const Scalar mu) const override {
+    Base::setProxParameter(mu);
+    for (std::size_t i = 0; i < m_components.size(); i++) {
+      m_components[i]->setProxParameter(mu);
+    }
+  }
+
   Scalar evaluate(const ConstVectorRef &zproj) const override {
     Scalar res = 0.;
     for (std::size_t i = 0; i < m_components.size(); i++) {
-- 
2.43.0


From be2b65c98336e64febc537644e18999b360f631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 02/37] fix: build the requested type in polymorphic's
 initializer_list constructor

---
 include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index ef397bc..0147f7b 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -228,7 +228,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From f5be38e8a923dccc39ca0a395122a26d7fe57727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 03/37] fix: keep the owner allocator in polymorphic's
 allocator-extended move

---
 include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index 0147f7b..bf92e67 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -324,7 +324,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From 1ef20c41ffca75ba49bed8c8e2c516193defb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 04/37] fix: honour the Upper triangle in BunchKaufman::compute

---
 include/proxsuite-nlp/linalg/bunchkaufman.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/bunchkaufman.hpp b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
index 75fae41..ff70e3a 100644
--- a/include/proxsuite-nlp/linalg/bunchkaufman.hpp
+++ b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
@@ -652,8 +652,14 @@ BunchKaufman<MatrixType_, UpLo_>::compute(const EigenBase<InputType> &a) {
   this->m_blocksize = n <= BlockSize ? 0 : BlockSize;
   this->m_workspace.setZero(n, this->m_blocksize);
 
-  this->m_matrix.template triangularView<Lower>() =
-      a.derived().template triangularView<UpLo_>();
+  // the factorization always works on the lower triangle
+  if (UpLo_ == int(Lower)) {
+    this->m_matrix.template triangularView<Lower>() =
+        a.derived().template triangularView<Lower>();
+  } else {
+    this->m_matrix.template triangularView<Lower>() =
+        a.derived().adjoint().template triangularView<Lower>();
+  }
   this->m_info = internal::bunch_kaufman_in_place(
       this->m_matrix, this->m_subdiag, this->m_pivots, this->m_workspace,
       this->m_pivot_count);
-- 
2.43.0


From 3cf54a5312eefb3e608435bc9fd57adfd4b74edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 05/37] fix: stop BunchKaufman on a NaN pivot instead of
 running out of bounds

---
 include/proxsuite-nlp/linalg/bunchkaufman.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/bunchkaufman.hpp b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
index ff70e3a..5aef8a6 100644
--- a/include/proxsuite-nlp/linalg/bunchkaufman.hpp
+++ b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
@@ -32,7 +32,7 @@ ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
   if (n == 0) {
     return Success;
   } else if (n == 1) {
-    if (numext::abs(numext::real(a(0, 0))) == Real(0)) {
+    if (!(numext::abs(numext::real(a(0, 0))) > Real(0))) {
       return NumericalIssue;
     } else {
       a(0, 0) = Real(1) / numext::real(a(0, 0));
@@ -53,7 +53,7 @@ ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
     imax += k + 1;
 
     Index kp;
-    if (numext::maxi(abs_akk, colmax) == Real(0)) {
+    if (!(numext::maxi(abs_akk, colmax) > Real(0))) { // zero or NaN
       return NumericalIssue;
     } else {
       if (abs_akk >= colmax * alpha) {
@@ -204,7 +204,7 @@ bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
     imax += k + 1;
 
     Index kp;
-    if (numext::maxi(abs_akk, colmax) == Real(0)) {
+    if (!(numext::maxi(abs_akk, colmax) > Real(0))) { // zero or NaN
       return NumericalIssue;
     } else {
       if (abs_akk >= colmax * alpha) {
-- 
2.43.0


From e945b250a3fe41f9d830e7ee52fe0a1579b3f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 06/37] fix: make sign() of the LDLT factorizations describe
 the last matrix

---
 include/proxsuite-nlp/linalg/block-ldlt.hpp |  3 ++-
 include/proxsuite-nlp/linalg/dense.hpp      | 12 +++---------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index f17b391..855a753 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -31,7 +31,7 @@ template <typename Scalar> struct block_impl {
     }
     const isize nblocks = sym_structure.nsegments();
     const isize n = mat.rows();
-    if ((nblocks == 0) || (n <= 1)) {
+    if ((nblocks == 0) || (n == 0)) {
       return true;
     }
 
@@ -310,6 +310,7 @@ public:
   const MatrixXs &matrixLDLT() const override { return m_matrix; }
 
   inline void compute() {
+    m_sign = SignMatrix::ZeroSign;
     m_info =
         backend::block_impl<Scalar>{m_matrix, m_structure}.ldlt_in_place_impl(
             m_sign)
diff --git a/include/proxsuite-nlp/linalg/dense.hpp b/include/proxsuite-nlp/linalg/dense.hpp
index b4e0478..3fb22e5 100644
--- a/include/proxsuite-nlp/linalg/dense.hpp
+++ b/include/proxsuite-nlp/linalg/dense.hpp
@@ -46,15 +46,7 @@ inline bool ldlt_in_place_unblocked(Eigen::MatrixBase<Derived> &a,
                                     SignMatrix &sign) {
   using Scalar = typename Derived::Scalar;
   const isize n = a.rows();
-  if (n <= 1) {
-    if (n == 0)
-      sign = SignMatrix::ZeroSign;
-    else if (a(0, 0) > 0)
-      sign = SignMatrix::PositiveSemiDef;
-    else if (a(0, 0) < 0)
-      sign = SignMatrix::NegativeSemiDef;
-    else
-      sign = SignMatrix::ZeroSign;
+  if (n == 0) {
     return true;
   }
 
@@ -174,6 +166,7 @@ template <typename _Scalar> struct DenseLDLT : ldlt_base<_Scalar> {
   }
 
   explicit DenseLDLT(MatrixRef a) : Base(), m_matrix(a) {
+    m_sign = SignMatrix::ZeroSign;
     m_info = backend::dense_ldlt_in_place(m_matrix, m_sign)
                  ? Eigen::Success
                  : Eigen::NumericalIssue;
@@ -181,6 +174,7 @@ template <typename _Scalar> struct DenseLDLT : ldlt_base<_Scalar> {
 
   DenseLDLT &compute(const ConstMatrixRef &mat) {
     m_matrix = mat;
+    m_sign = SignMatrix::ZeroSign;
     m_info = backend::dense_ldlt_in_place(m_matrix, m_sign)
                  ? Eigen::Success
                  : Eigen::NumericalIssue;
-- 
2.43.0


From 41a9f8dfb5d0040ead888195b8057657d8aca4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 07/37] fix: report zero pivots in the unpivoted LDLT
 factorizations

---
 include/proxsuite-nlp/linalg/block-ldlt.hpp |  7 ++++++-
 include/proxsuite-nlp/linalg/dense.hpp      | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 855a753..69b4c31 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -53,7 +53,10 @@ template <typename Scalar> struct block_impl {
 
     case TriL: {
       // compute l00
-      backend::dense_ldlt_in_place(l00, sign);
+      if (!backend::dense_ldlt_in_place(l00, sign))
+        return false;
+      if (rem > 0 && (d0.array() == 0).any())
+        return false;
 
       isize offset = bs;
 
@@ -99,6 +102,8 @@ template <typename Scalar> struct block_impl {
       for (isize k = 0; k < bs; k++) {
         update_sign_matrix(sign, l00(k, k));
       }
+      if (rem > 0 && (d0.array() == 0).any())
+        return false;
       isize offset = bs;
 
       for (isize i = 1; i < nblocks; ++i) {
diff --git a/include/proxsuite-nlp/linalg/dense.hpp b/include/proxsuite-nlp/linalg/dense.hpp
index 3fb22e5..2d0d634 100644
--- a/include/proxsuite-nlp/linalg/dense.hpp
+++ b/include/proxsuite-nlp/linalg/dense.hpp
@@ -73,7 +73,10 @@ inline bool ldlt_in_place_unblocked(Eigen::MatrixBase<Derived> &a,
     auto l21 = a.col(j).tail(rem);
 
     l21.noalias() -= l20 * work;
-    l21 *= 1 / akk;
+    if (akk != Scalar(0))
+      l21 *= 1 / akk;
+    else if (!l21.isZero(Scalar(0)))
+      return false; // zero pivot: no LDLT decomposition in this order
     ++j;
   }
 }
@@ -98,8 +101,11 @@ inline bool dense_ldlt_in_place(Eigen::MatrixBase<Derived> &a,
     Eigen::Block<Derived> l10 = a.block(bs, 0, rem, bs);
     MatrixRef l11 = a.block(bs, bs, rem, rem);
 
-    backend::dense_ldlt_in_place(l00, sign);
+    if (!backend::dense_ldlt_in_place(l00, sign))
+      return false;
     auto d0 = l00.diagonal();
+    if ((d0.array() == 0).any())
+      return false;
 
     l00.transpose()
         .template triangularView<Eigen::UnitUpper>()
-- 
2.43.0


From f5b536daf03bc5201e5b6a3d6dedcd2f165546ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 08/37] fix: give BlockLDLT an owning copy assignment

---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 69b4c31..32c75bb 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -244,12 +244,31 @@ public:
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
+    m_sign = other.m_sign;
     m_perm = other.m_perm;
     m_perm_inv = other.m_perm_inv;
     m_iwork = other.m_iwork;
     m_start_idx = other.m_start_idx;
   }
 
+  /// This struct owns the symbolic blocks: copy them, then swap.
+  BlockLDLT &operator=(BlockLDLT const &other) {
+    if (this != &other) {
+      BlockLDLT copy(other);
+      m_matrix.swap(copy.m_matrix);
+      std::swap(m_structure, copy.m_structure);
+      std::swap(m_struct_tr, copy.m_struct_tr);
+      m_permutation = copy.m_permutation;
+      m_info = copy.m_info;
+      m_sign = copy.m_sign;
+      m_perm.swap(copy.m_perm);
+      m_perm_inv.swap(copy.m_perm_inv);
+      m_iwork.swap(copy.m_iwork);
+      m_start_idx.swap(copy.m_start_idx);
+    }
+    return *this;
+  }
+
   /// Compute indices indicating where blocks start
   void computeStartIndices(const SymbolicBlockMatrix &in) {
     m_start_idx[0] = 0;
-- 
2.43.0


From 23c0084fda49319120cc96bc3bd83d92c7f44735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 09/37] fix: use the matching part of the diagonal in diagonal
 x triangular products

---
 include/proxsuite-nlp/linalg/gemmt.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/gemmt.hpp b/include/proxsuite-nlp/linalg/gemmt.hpp
index a1b93f3..c7ed72a 100644
--- a/include/proxsuite-nlp/linalg/gemmt.hpp
+++ b/include/proxsuite-nlp/linalg/gemmt.hpp
@@ -41,8 +41,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriL> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).head(j + 1) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).head(j + 1));
+      dst.col(j).head(j + 1) +=
+          alpha * lhs.diagonal().head(j + 1).cwiseProduct(
+                      rhs.transpose().col(j).head(j + 1));
     }
   }
 };
@@ -59,8 +60,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriU> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).tail(m - j) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).tail(m - j));
+      dst.col(j).tail(m - j) +=
+          alpha * lhs.diagonal().tail(m - j).cwiseProduct(
+                      rhs.transpose().col(j).tail(m - j));
     }
   }
 };
-- 
2.43.0


From c15bf848f3aff5ce7186df6f30d820cd2dd7a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 10/37] fix: permute the input block structure, not the one
 already factorized

---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 15 +++++++++++----
 include/proxsuite-nlp/linalg/block-ldlt.hxx |  9 ++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 32c75bb..23296d2 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -215,6 +215,8 @@ template <typename _Scalar> struct BlockLDLT : ldlt_base<_Scalar> {
 
 protected:
   MatrixXs m_matrix;
+  /// Structure of the input matrix, before any permutation or analysis.
+  SymbolicBlockMatrix m_struct_in;
   SymbolicBlockMatrix m_structure;
   SymbolicBlockMatrix m_struct_tr;
   PermutationType m_permutation;
@@ -231,16 +233,18 @@ public:
   /// @brief  The constructor copies the input matrix @param mat and symbolic
   /// block pattern @param structure.
   BlockLDLT(isize size, SymbolicBlockMatrix const &structure)
-      : Base(), m_matrix(size, size), m_structure(structure.copy()),
-        m_permutation(size), m_perm(nblocks()), m_perm_inv(nblocks()),
-        m_iwork(nblocks()), m_start_idx(nblocks()) {
+      : Base(), m_matrix(size, size), m_struct_in(structure.copy()),
+        m_structure(structure.copy()), m_permutation(size), m_perm(nblocks()),
+        m_perm_inv(nblocks()), m_iwork(nblocks()), m_start_idx(nblocks()) {
     std::iota(m_perm.begin(), m_perm.end(), isize(0));
     m_permutation.setIdentity();
     m_struct_tr = m_structure.transpose();
   }
 
   BlockLDLT(BlockLDLT const &other)
-      : BlockLDLT(other.m_matrix.rows(), other.m_structure) {
+      : BlockLDLT(other.m_matrix.rows(), other.m_struct_in) {
+    symbolic_deep_copy(other.m_structure, m_structure);
+    symbolic_deep_copy(other.m_struct_tr, m_struct_tr);
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
@@ -256,6 +260,7 @@ public:
     if (this != &other) {
       BlockLDLT copy(other);
       m_matrix.swap(copy.m_matrix);
+      std::swap(m_struct_in, copy.m_struct_in);
       std::swap(m_structure, copy.m_structure);
       std::swap(m_struct_tr, copy.m_struct_tr);
       m_permutation = copy.m_permutation;
@@ -278,6 +283,8 @@ public:
   }
 
   ~BlockLDLT() {
+    delete[] m_struct_in.m_data;
+    delete[] m_struct_in.segment_lens;
     delete[] m_structure.m_data;
     delete[] m_structure.segment_lens;
     delete[] m_struct_tr.m_data;
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hxx b/include/proxsuite-nlp/linalg/block-ldlt.hxx
index e0ab2f8..39fe343 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hxx
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hxx
@@ -12,7 +12,7 @@ namespace linalg {
 
 template <typename Scalar>
 void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
-  SymbolicBlockMatrix in(m_structure.copy());
+  SymbolicBlockMatrix const &in = m_struct_in;
   const isize n = m_structure.nsegments();
   if (new_perm != nullptr)
     std::copy_n(new_perm, n, m_perm.data());
@@ -24,7 +24,7 @@ void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
 
 template <typename Scalar>
 BlockLDLT<Scalar> &BlockLDLT<Scalar>::findSparsifyingPermutation() {
-  SymbolicBlockMatrix in(m_structure.copy());
+  SymbolicBlockMatrix const &in = m_struct_in;
   m_structure.brute_force_best_permutation(in, m_perm.data(), m_iwork.data());
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern();
@@ -36,7 +36,10 @@ template <typename Scalar> bool BlockLDLT<Scalar>::analyzePattern() {
   if (m_structure.performed_llt)
     return true;
   bool flag = m_structure.llt_in_place();
-  m_struct_tr = m_structure.transpose();
+  SymbolicBlockMatrix tr(m_structure.transpose());
+  symbolic_deep_copy(tr, m_struct_tr);
+  delete[] tr.m_data;
+  delete[] tr.segment_lens;
   return flag;
 }
 
-- 
2.43.0


From ebeb7d4a58c1b95a8820a291d8d84ec797b89d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 11/37] fix: compare with the transposed kind in
 check_if_symmetric

---
 src/block-kind.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index fa072e7..d1d1fec 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -107,8 +107,8 @@ bool SymbolicBlockMatrix::check_if_symmetric() const noexcept {
   const isize n = nsegments();
   const auto &self = *this;
   for (isize i = 0; i < n; ++i) {
-    for (isize j = 0; j < i; j++) {
-      if (self(i, j) != self(j, i)) {
+    for (isize j = 0; j <= i; j++) {
+      if (self(i, j) != trans(self(j, i))) {
         return false;
       }
     }
-- 
2.43.0


From ee3715d4daa88a72028de0180b3c0e20d5969b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 12/37] fix: return the best block permutation found and its
 decomposition

---
 src/block-kind.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index d1d1fec..b0bcc65 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -88,7 +88,7 @@ Eigen::ComputationInfo SymbolicBlockMatrix::brute_force_best_permutation(
     symbolic_deep_copy(in, *this, iwork);
     performed_llt = false;
     if (!llt_in_place()) {
-      return Eigen::NumericalIssue;
+      continue; // no block decomposition in this order
     }
 
     isize nnz = count_nnz();
@@ -100,6 +100,14 @@ Eigen::ComputationInfo SymbolicBlockMatrix::brute_force_best_permutation(
 
     first_iter = false;
   } while (std::next_permutation(iwork, iwork + n));
+  if (first_iter) {
+    return Eigen::NumericalIssue;
+  }
+
+  // the result is the decomposition for the best permutation
+  symbolic_deep_copy(in, *this, best_perm);
+  performed_llt = false;
+  llt_in_place();
   return Eigen::Success;
 }
 
-- 
2.43.0


From f7a6279f3a753aa529595a3fbfd781304bb0990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 13/37] fix: make the Bunch-Kaufman signature independent of
 the matrix scale

---
 include/proxsuite-nlp/ldlt-allocator.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 70111f6..2971984 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -10,6 +10,7 @@
 #include "proxsuite-nlp/linalg/proxsuite-ldlt-wrap.hpp"
 #endif
 #include <boost/variant.hpp>
+#include <algorithm>
 #include <array>
 
 namespace proxsuite {
@@ -154,6 +155,14 @@ void bunch_kaufman_compute_signature(
       Real ak = Eigen::numext::real(a(k, k));
       Real akp1 = Eigen::numext::real(a(k + 1, k + 1));
       Scalar akp1k = factor.subdiag()[k];
+      // the sign pattern does not depend on the scale of the block
+      const Real scale =
+          std::max({std::abs(ak), std::abs(akp1), std::abs(akp1k)});
+      if (scale > Real(0)) {
+        ak /= scale;
+        akp1 /= scale;
+        akp1k /= scale;
+      }
       Real tr = ak + akp1;
       Real det = ak * akp1 - Eigen::numext::abs2(akp1k);
 
-- 
2.43.0


From 5d4557ad2b553a664f8a38029ae042b4a7b30726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 14/37] fix: require every component to be normalized in
 CartesianProduct::isNormalized

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
index 94e1791..f345ea1 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
@@ -34,7 +34,7 @@ bool CartesianProductTpl<Scalar>::isNormalized(const ConstVectorRef &x) const {
   bool res = true;
   auto xs = this->split(x);
   for (std::size_t i = 0; i < numComponents(); i++) {
-    res |= m_components[i]->isNormalized(xs[i]);
+    res &= m_components[i]->isNormalized(xs[i]);
   }
   return res;
 }
-- 
2.43.0


From 6a567632eee07c5a36bf9703832906d2aeae49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 15/37] fix: keep the order of the factors in manifold *
 CartesianProduct

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 4984353..2448fc7 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -139,7 +139,10 @@ auto operator*(const CartesianProductTpl<T> &left,
 template <typename T>
 auto operator*(const polymorphic<ManifoldAbstractTpl<T>> &left,
                const CartesianProductTpl<T> &right) {
-  return right * left;
+  CartesianProductTpl<T> out;
+  out.addComponent(left);
+  out.addComponent(right);
+  return out;
 }
 
 template <typename T>
-- 
2.43.0


From 9b645a472053b16b8fcbc6cecbd1c898b3563063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 16/37] fix: allow adding a CartesianProduct to itself

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 2448fc7..dc534cb 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -35,8 +35,9 @@ public:
   }
 
   inline void addComponent(const CartesianProductTpl &other) {
-    for (const auto &c : other.m_components) {
-      this->addComponent(c);
+    const std::size_t n = other.numComponents();
+    for (std::size_t i = 0; i < n; i++) {
+      this->addComponent(other.m_components[i]);
     }
   }
 
-- 
2.43.0


From 9ec5c613579ee9a6b6dbacd139f340bb2dcac839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 17/37] fix: interpolate the velocities in
 TangentBundle::interpolate

---
 include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
index 1836f88..8420939 100644
--- a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
@@ -84,8 +84,8 @@ void TangentBundleTpl<Base>::interpolate_impl(const ConstVectorRef &x0,
                                               VectorRef out) const {
   base_.interpolate(getBasePoint(x0), getBasePoint(x1), u,
                     getBasePointWrite(out));
-  out.tail(base_.ndx()) =
-      (Scalar(1.) - u) * getBaseTangent(x0) + u * getBaseTangent(x1);
+  const int nv_ = base_.ndx();
+  out.tail(nv_) = (Scalar(1.) - u) * x0.tail(nv_) + u * x1.tail(nv_);
 }
 
 } // namespace nlp
-- 
2.43.0


From 89793d406daedb311a56cfa9382740e8ff8f2f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 18/37] fix: keep the left factors flat in CartesianProduct *
 CartesianProduct

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index dc534cb..cd32e68 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -149,7 +149,7 @@ auto operator*(const polymorphic<ManifoldAbstractTpl<T>> &left,
 template <typename T>
 auto operator*(const CartesianProductTpl<T> &left,
                const CartesianProductTpl<T> &right) {
-  CartesianProductTpl<T> out{left};
+  CartesianProductTpl<T> out(left);
   out.addComponent(right);
   return out;
 }
-- 
2.43.0


From a606e8d7cf638306d87114c695f0c9080fead716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 19/37] fix: evaluate the residual at x in the quadratic
 residual cost derivatives

---
 .../proxsuite-nlp/modelling/costs/quadratic-residual.hxx   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
index e02d75e..1ec783f 100644
--- a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
+++ b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
@@ -37,6 +37,7 @@ Scalar QuadraticResidualCostTpl<Scalar>::call(const ConstVectorRef &x) const {
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
                                                        VectorRef out) const {
+  err = (*residual_)(x);
   residual_->computeJacobian(x, Jres);
 
   JtW.noalias() = Jres.transpose() * weights_;
@@ -47,10 +48,10 @@ void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeHessian(const ConstVectorRef &x,
                                                       MatrixRef out) const {
-  tmp_w_err.noalias() = weights_ * err;
-  tmp_w_err += slope_;
-
   if (!gauss_newton_) {
+    err = (*residual_)(x);
+    tmp_w_err.noalias() = weights_ * err;
+    tmp_w_err += slope_;
     residual_->vectorHessianProduct(x, tmp_w_err, H);
     out = H;
   } else {
-- 
2.43.0


From 7165e3ea45559babe9435ffd613f97e1b2c9bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 20/37] fix: differentiate composed functions twice instead of
 returning a zero Hessian

---
 include/proxsuite-nlp/function-ops.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/proxsuite-nlp/function-ops.hpp b/include/proxsuite-nlp/function-ops.hpp
index 9948228..a884b59 100644
--- a/include/proxsuite-nlp/function-ops.hpp
+++ b/include/proxsuite-nlp/function-ops.hpp
@@ -40,6 +40,17 @@ public:
     Jout.noalias() = Jleft * right().computeJacobian(x);
   }
 
+  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v,
+                            MatrixRef Hout) const {
+    const VectorXs y = right()(x);
+    const MatrixXs Jright = right().computeJacobian(x);
+    const VectorXs vright = left().computeJacobian(y).transpose() * v;
+    MatrixXs Hleft(left().ndx(), left().ndx());
+    left().vectorHessianProduct(y, v, Hleft);
+    right().vectorHessianProduct(x, vright, Hout);
+    Hout.noalias() += Jright.transpose() * Hleft * Jright;
+  }
+
   const Base &left() const { return *left_; }
   const Base &right() const { return *right_; }
 
-- 
2.43.0


From 8c566c82cfda49bbe8850d6851d3b7a875e114f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 21/37] fix: allow adding a CostSum to itself

---
 include/proxsuite-nlp/cost-sum.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/cost-sum.hpp b/include/proxsuite-nlp/cost-sum.hpp
index c0e5d7c..bb11c5f 100644
--- a/include/proxsuite-nlp/cost-sum.hpp
+++ b/include/proxsuite-nlp/cost-sum.hpp
@@ -67,10 +67,10 @@ public:
   }
 
   CostSumTpl<Scalar> &operator+=(const CostSumTpl<Scalar> &other) {
-    components_.insert(components_.end(), other.components_.begin(),
-                       other.components_.end());
-    weights_.insert(weights_.end(), other.weights_.begin(),
-                    other.weights_.end());
+    const std::size_t n = other.numComponents();
+    for (std::size_t i = 0; i < n; i++) {
+      addComponent(other.components_[i], other.weights_[i]);
+    }
     return *this;
   }
 
-- 
2.43.0


From 7b32a2c422de94a13ec565ba6135c60b02c32fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 22/37] fix: make copies of the results refer to their own
 multipliers

---
 include/proxsuite-nlp/results.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/proxsuite-nlp/results.hpp b/include/proxsuite-nlp/results.hpp
index 0128bea..5e48141 100644
--- a/include/proxsuite-nlp/results.hpp
+++ b/include/proxsuite-nlp/results.hpp
@@ -58,6 +58,28 @@ template <typename _Scalar> struct ResultsTpl {
     }
   }
 
+  /// Copies refer to their own multipliers, not to those of @p other.
+  ResultsTpl(const ResultsTpl &other)
+      : converged(other.converged), merit(other.merit), value(other.value),
+        x_opt(other.x_opt), data_lams_opt(other.data_lams_opt),
+        active_set(other.active_set), dual_infeas(other.dual_infeas),
+        prim_infeas(other.prim_infeas),
+        constraint_violations(other.constraint_violations),
+        num_iters(other.num_iters), al_iters(other.al_iters), mu(other.mu),
+        rho(other.rho) {
+    lams_opt.reserve(other.lams_opt.size());
+    Eigen::Index cursor = 0;
+    for (const VectorRef &lam : other.lams_opt) {
+      lams_opt.emplace_back(data_lams_opt.segment(cursor, lam.size()));
+      cursor += lam.size();
+    }
+  }
+  ResultsTpl(ResultsTpl &&) = default;
+  ResultsTpl &operator=(const ResultsTpl &other) {
+    return *this = ResultsTpl(other);
+  }
+  ResultsTpl &operator=(ResultsTpl &&) = default;
+
   friend std::ostream &operator<<(std::ostream &oss,
                                   const ResultsTpl<Scalar> &self) {
     oss << "Results {" << fmt::format("\n  convergence:   {},", self.converged)
-- 
2.43.0


From d505c1338f10b1b8652d7c0eade2670be691297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 23/37] fix: match samples and values in the cubic line-search
 interpolant

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 6969a2c..21a1b37 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -187,8 +187,8 @@ public:
       alph_mat(1, 0) = a1 * a1 * a1;
       alph_mat(1, 1) = a1 * a1;
 
-      Vector2s alph_rhs{cand1.phi - phi0 - dphi0 * a1,
-                        cand0.phi - phi0 - dphi0 * a0};
+      Vector2s alph_rhs{cand0.phi - phi0 - dphi0 * a0,
+                        cand1.phi - phi0 - dphi0 * a1};
 
       Eigen::HouseholderQR<Matrix2s> decomp(alph_mat);
       coeffs_cubic_interpolant = decomp.solve(alph_rhs);
-- 
2.43.0


From 83a0e20fa034d41db6a89ae5696c38176ff1f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 24/37] fix: contract from the current step when the
 interpolation fails

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 21a1b37..91fb203 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -91,6 +91,7 @@ public:
       }
 
       // compute next alpha try
+      const Scalar alpha_last = alpha_try;
       LSInterpolation strat = options_.interp_type;
       if (strat == LSInterpolation::BISECTION) {
         alpha_try *= 0.5;
@@ -126,10 +127,9 @@ public:
 
       if (std::isnan(alpha_try)) {
         // handle NaN case
-        alpha_try = options_.contraction_min * previous.alpha;
-      } else {
-        alpha_try = std::max(alpha_try, options_.alpha_min);
+        alpha_try = options_.contraction_min * alpha_last;
       }
+      alpha_try = std::max(alpha_try, options_.alpha_min);
 
       try {
         previous = latest;
-- 
2.43.0


From 1067093f451b81c216117bf464879d46c4feddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 25/37] fix: return the step the merit value belongs to when a
 trial step throws

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 91fb203..30083a2 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -71,11 +71,11 @@ public:
         latest = FunctionSample(alpha_try, phi(alpha_try));
         break;
       } catch (const std::runtime_error &e) {
-        alpha_try *= 0.5;
         if (alpha_try <= options_.alpha_min) {
-          alpha_try = options_.alpha_min;
-          break;
+          // no admissible step can be evaluated
+          throw;
         }
+        alpha_try = std::max(Scalar(0.5) * alpha_try, options_.alpha_min);
       }
     }
 
@@ -86,7 +86,7 @@ public:
     for (std::size_t i = 0; i < options_.max_num_steps; i++) {
 
       const Scalar dM = latest.phi - phi0;
-      if (dM <= options_.armijo_c1 * alpha_try * dphi0) {
+      if (dM <= options_.armijo_c1 * latest.alpha * dphi0) {
         break;
       }
 
@@ -132,17 +132,19 @@ public:
       alpha_try = std::max(alpha_try, options_.alpha_min);
 
       try {
+        const FunctionSample sample(alpha_try, phi(alpha_try));
         previous = latest;
-        latest = FunctionSample(alpha_try, phi(alpha_try));
+        latest = sample;
       } catch (const std::runtime_error &e) {
-        continue;
+        // keep the samples and contract further
       }
 
       if (alpha_try <= options_.alpha_min) {
         break;
       }
     }
-    alpha_try = std::max(alpha_try, options_.alpha_min);
+    // return the step the value belongs to
+    alpha_try = latest.alpha;
     return latest.phi;
   }
 
-- 
2.43.0


From b2807cbbb8bd6975ade3c996687df0d5c82aa2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 26/37] fix: use the dual weight consistently in the merit
 function and the KKT system

---
 include/proxsuite-nlp/pdal.hxx        | 4 ++--
 include/proxsuite-nlp/prox-solver.hxx | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/proxsuite-nlp/pdal.hxx b/include/proxsuite-nlp/pdal.hxx
index ab4725b..ab10c1b 100644
--- a/include/proxsuite-nlp/pdal.hxx
+++ b/include/proxsuite-nlp/pdal.hxx
@@ -22,8 +22,8 @@ Scalar ALMeritFunctionTpl<Scalar>::evaluate(const ConstVectorRef & /*x*/,
     const ConstraintObject &cstr = problem_.getConstraint(i);
     Scalar mu = cstr.set_->mu();
     VectorXs scv_tmp = pd_scv[i];
-    res += 2.0 * cstr.set_->computeMoreauEnvelope(pd_scv[i], scv_tmp);
-    res += mu * lams[i].squaredNorm() / 4.0;
+    res += cstr.set_->computeMoreauEnvelope(pd_scv[i], scv_tmp) / beta_;
+    res += beta_ * mu * lams[i].squaredNorm() / 2.0;
   }
   return res;
 }
diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index b76a08e..439e95b 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -183,7 +183,7 @@ void ProxNLPSolverTpl<Scalar>::computeMultipliers(
   // compute primal-dual multiplier estimates:
   // normalConeProj(w), w = c(x) + mu(lambda_k - (beta-1)lambda)
   workspace.data_shift_cstr_pdal =
-      workspace.data_shift_cstr_values - 0.5 * mu_ * inner_lams_data;
+      workspace.data_shift_cstr_values - pdal_beta_ * mu_ * inner_lams_data;
   for (std::size_t i = 0; i < problem_->getNumConstraints(); i++) {
     const ConstraintSet &cstr_set = *problem_->getConstraint(i).set_;
     cstr_set.normalConeProjection(workspace.shift_cstr_pdal[i],
@@ -336,7 +336,8 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
       break;
     case KKT_PRIMAL_DUAL:
       workspace.kkt_rhs.tail(ndual) =
-          0.5 * mu_ * (workspace.data_lams_pdal - results.data_lams_opt);
+          pdal_beta_ * mu_ *
+          (workspace.data_lams_pdal - results.data_lams_opt);
       break;
     }
 
@@ -520,7 +521,7 @@ void ProxNLPSolverTpl<Scalar>::assembleKktMatrix(Workspace &workspace) {
       // apply normal cone jacobian op
       cstr_set.applyNormalConeProjectionJacobian(workspace.shift_cstr_pdal[i],
                                                  d_sub2);
-      d_sub = 0.5 * (d_sub + d_sub2);
+      d_sub = pdal_beta_ * (d_sub + d_sub2);
     }
   }
 }
-- 
2.43.0


From c7d54742d3200de174e53e23dc1f6411c54aab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 27/37] fix: refine the step on the regularized system which
 was factorized

---
 include/proxsuite-nlp/prox-solver.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 439e95b..5ee1e4e 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -395,6 +395,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     // choose regularisation level
 
     delta = DELTA_INIT;
+    Scalar delta_fact = delta; // level used in the factorization
     InertiaFlag is_inertia_correct = INERTIA_BAD;
 
     while (!(is_inertia_correct == INERTIA_OK) && delta <= DELTA_MAX) {
@@ -407,6 +408,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
       boost::apply_visitor(ComputeSignatureVisitor{workspace.signature},
                            workspace.ldlt_);
       workspace.kkt_matrix.diagonal().head(ndx).array() -= delta;
+      delta_fact = delta;
       is_inertia_correct =
           checkInertia(manifold().ndx(), problem_->getTotalConstraintDim(),
                        workspace.signature);
@@ -429,7 +431,10 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
       }
     }
 
+    // the step solves the system which was factorized
+    workspace.kkt_matrix.diagonal().head(ndx).array() += delta_fact;
     iterativeRefinement(workspace);
+    workspace.kkt_matrix.diagonal().head(ndx).array() -= delta_fact;
 
     PROXSUITE_NLP_NOMALLOC_END;
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.pd_step, "pd_step");
-- 
2.43.0


From b72bf8df79dadd0431d148df0d8578572225b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 28/37] fix: report the multipliers for which convergence was
 established

---
 include/proxsuite-nlp/prox-solver.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 5ee1e4e..fb1c3d7 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -91,6 +91,13 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
     workspace.x_prev = results.x_opt;
     prox_penalty.updateTarget(workspace.x_prev);
 
+    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
+      // keep the multipliers for which the residuals were evaluated
+      workspace.data_lams_prev = results.data_lams_opt;
+      results.converged = ConvergenceFlag::SUCCESS;
+      break;
+    }
+
     if (results.prim_infeas < prim_tol_) {
       acceptMultipliers(results, workspace);
       updateToleranceSuccess();
@@ -98,10 +105,6 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
       updatePenalty();
       updateToleranceFailure();
     }
-    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
-      results.converged = ConvergenceFlag::SUCCESS;
-      break;
-    }
     setProxParameter(rho_ * bcl_params.rho_update_factor);
 
     al_iter++;
-- 
2.43.0


From 0d8571c047b2040746e3ec6ea7fb296cb16c50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 29/37] fix: check the KKT matrix for NaN after it is assembled

---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index fb1c3d7..db65882 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -352,7 +352,6 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     }
 
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");
-    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     computePrimalResiduals(workspace, results);
 
@@ -394,6 +393,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
 
     // fill in KKT matrix
     assembleKktMatrix(workspace);
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     // choose regularisation level
 
-- 
2.43.0


From 31eaa31976b9e43ae22aff5eebe52a558f97cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 30/37] fix: set the proximal target when a solve starts

---
 include/proxsuite-nlp/prox-solver.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index db65882..50570cf 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -68,6 +68,7 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   // init variables
   results.x_opt = x0;
   workspace.x_prev = x0;
+  prox_penalty.updateTarget(x0);
   if (lams0.size() == workspace.numdual) {
     results.data_lams_opt = lams0;
     workspace.data_lams_prev = lams0;
-- 
2.43.0


From 315e435f9d2c660cd19582b3648a4601e571385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 31/37] fix: refuse initial guesses of the wrong size

---
 include/proxsuite-nlp/prox-solver.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 50570cf..768e802 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -43,6 +43,7 @@ ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   }
   for (std::size_t i = 0; i < numc; i++) {
     nr = problem_->getConstraintDim(i);
+    PROXSUITE_NLP_DIM_CHECK(lams0[i], nr);
     new_lam.segment(problem_->getIndex(i), nr) = lams0[i];
   }
   return solve(x0, new_lam);
@@ -62,6 +63,10 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   auto &results = *results_;
   auto &workspace = *workspace_;
 
+  PROXSUITE_NLP_DIM_CHECK(x0, workspace.nx);
+  if (lams0.size() != 0)
+    PROXSUITE_NLP_DIM_CHECK(lams0, workspace.numdual);
+
   setPenalty(mu_init_);
   setProxParameter(rho_init_);
 
-- 
2.43.0


From ed8da2ae831ae190cf0141a464223fd719da112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 32/37] fix: view the stored multipliers in the history
 callback

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 6109940..0e43798 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -39,7 +39,14 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     if (store_primal_dual_vars_) {
       storage.xs.push_back(results.x_opt);
       storage.lams.push_back(results.data_lams_opt);
-      storage.lams_view.push_back(results.lams_opt);
+      // view the stored multipliers, not the ones of the running solver
+      VectorOfRef views;
+      Eigen::Index cursor = 0;
+      for (const VectorRef &lam : results.lams_opt) {
+        views.emplace_back(storage.lams.back().segment(cursor, lam.size()));
+        cursor += lam.size();
+      }
+      storage.lams_view.push_back(std::move(views));
     }
     if (store_values_)
       storage.values.push_back(results.value);
-- 
2.43.0


From 2d0ef9f014770d806bb314445802965a79e3cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 33/37] fix: do not take the address of an element of an empty
 vector

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 0e43798..65948ea 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -56,9 +56,9 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     }
     const std::size_t asize = workspace.ls_alphas.size();
     storage.ls_alphas.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_alphas[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_alphas.data(), asize));
     storage.ls_values.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_values[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_values.data(), asize));
     storage.alphas.push_back(workspace.alpha_opt);
     storage.dmerit_dir.push_back(workspace.dmerit_dir);
   }
-- 
2.43.0


From 44d709250ac0cd549e1106cf37c3cb1ed3d4f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 34/37] fix: results of a problem not solved yet claimed
 success, with an indeterminate value and merit

---
 include/proxsuite-nlp/results.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/results.hpp b/include/proxsuite-nlp/results.hpp
index 5e48141..b469bb7 100644
--- a/include/proxsuite-nlp/results.hpp
+++ b/include/proxsuite-nlp/results.hpp
@@ -23,10 +23,10 @@ template <typename _Scalar> struct ResultsTpl {
   using Problem = ProblemTpl<Scalar>;
   using VecBool = Eigen::Matrix<bool, Eigen::Dynamic, 1>;
 
-  ConvergenceFlag converged = SUCCESS;
+  ConvergenceFlag converged = UNINIT;
 
-  Scalar merit;
-  Scalar value;
+  Scalar merit = 0.;
+  Scalar value = 0.;
   VectorXs x_opt;
   VectorXs data_lams_opt;
   VectorOfRef lams_opt;
-- 
2.43.0


From 6367e3d93d14f09517b6c568496c0a2361ee66af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 35/37] fix: initialise the objective value and the step length
 of the workspace

---
 include/proxsuite-nlp/workspace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/workspace.hpp b/include/proxsuite-nlp/workspace.hpp
index 863581d..609a430 100644
--- a/include/proxsuite-nlp/workspace.hpp
+++ b/include/proxsuite-nlp/workspace.hpp
@@ -76,7 +76,7 @@ public:
   std::vector<VectorRef> cstr_values;
 
   /// Objective value
-  Scalar objective_value;
+  Scalar objective_value = 0.;
   /// Objective function gradient.
   VectorXs objective_gradient;
   /// Objective function Hessian.
@@ -114,7 +114,7 @@ public:
   std::vector<Scalar> ls_alphas;
   std::vector<Scalar> ls_values;
   /// Optimal linesearch \f$\alpha^\star\f$
-  Scalar alpha_opt;
+  Scalar alpha_opt = 0.;
   /// Merit function derivative in descent direction
   Scalar dmerit_dir = 0.;
 
-- 
2.43.0


From 2f1d03254250480e5637799c7162b5a9eb996e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:00 +0000
Subject: [PATCH 36/37] fix: a zero block below a dense pivot stays zero in the
 symbolic factorisation

---
 src/block-kind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index b0bcc65..271a41d 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -178,7 +178,6 @@ bool SymbolicBlockMatrix::llt_in_place() noexcept {
     self(0, 0) = TriL;
     for (isize i = 1; i < n; ++i) {
       switch (self(i, 0)) {
-      case Zero:
       case Diag: {
         self(i, 0) = TriU;
         break;
@@ -187,6 +186,7 @@ bool SymbolicBlockMatrix::llt_in_place() noexcept {
         self(i, 0) = Dense;
         break;
       }
+      case Zero:
       case TriU:
       case Dense:
         break;
-- 
2.43.0


From a4e83bf5fe4096b911ffe869db95ae54d03be61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:20 +0000
Subject: [PATCH 37/37] fix: log the regularisation which was used

---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 768e802..8fb596c 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -484,7 +484,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
                      inner_crit,
                      results.prim_infeas,
                      results.dual_infeas,
-                     delta,
+                     delta_fact,
                      dphi0,
                      results.merit,
                      phi_new - phi0,
-- 
2.43.0

