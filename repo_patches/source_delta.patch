From 31cec0e6c41b0f654fe61227c193790818f6c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 01/20] fix: self-move assignment of a 2D array keeps its shape

---
 strictpp/array_base2D.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8fa29be..9d6d0ca 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -219,9 +219,11 @@ STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(const ArrayBa
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(ArrayBase2D&& A) noexcept {
-   NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
-   A.dims_ = 0_sl;
-   data1D_ = std::move(A.data1D_);
+   if(this != &A) {
+      NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
+      A.dims_ = 0_sl;
+      data1D_ = std::move(A.data1D_);
+   }
    return *this;
 }
 
-- 
2.43.0


From 39a9c41122acf062556bbe3414998ea993b38366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 02/20] fix: remove_row and remove_col honour the offset of
 Last

---
 strictpp/array_base2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 9d6d0ca..f00ebe7 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -365,8 +365,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row([[maybe_unused]] Last lst) {
-   return this->remove_row(this->rows() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
+   return this->remove_row(this->rows() - 1_sl - lst.get());
 }
 
 
@@ -383,8 +383,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col([[maybe_unused]] Last lst) {
-   return this->remove_col(this->cols() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
+   return this->remove_col(this->cols() - 1_sl - lst.get());
 }
 
 
-- 
2.43.0


From 829220f0cbbb995de5cdf97dbf4809b986c3c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 03/20] fix: reject 2D sizes whose product is not representable

---
 strictpp/ArrayCommon/valid.hpp | 10 ++++++++++
 strictpp/array_base2D.hpp      |  6 ++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 10b6e54..59e9d33 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -14,6 +14,7 @@
 #include "use.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -46,6 +47,15 @@ STRICT_CONSTEXPR StrictBool semi_valid_row_col_sizes(index_t m, index_t n) {
 }
 
 
+// Nonnegative sizes whose product is representable.
+STRICT_CONSTEXPR StrictBool valid_size_product(index_t m, index_t n) {
+   if(n <= 0_sl) {
+      return true_sb;
+   }
+   return m <= index_t{std::numeric_limits<long int>::max()} / n;
+}
+
+
 template <Builtin T>
 STRICT_CONSTEXPR StrictBool valid_list2D(use::List2D<Strict<T>> list) {
    if(list.size() != 0) {
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index f00ebe7..81a1658 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -151,11 +151,12 @@ private:
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_NODISCARD_CONSTEXPR ArrayBase2D<T, AF>::ArrayBase2D(ImplicitInt m, ImplicitInt n)
-   : dims_{m.get(), n.get()},
-     data1D_(m.get() * n.get()) {
+   : dims_{m.get(), n.get()} {
    ASSERT_STRICT_DEBUG(m.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(n.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(semi_valid_row_col_sizes(m.get(), n.get()));
+   ASSERT_STRICT_DEBUG(valid_size_product(m.get(), n.get()));
+   data1D_.swap(ArrayBase1D<T, AF>(m.get() * n.get()));
 }
 
 
@@ -255,6 +256,7 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize(ImplicitInt m, ImplicitInt n,
    ASSERT_STRICT_DEBUG(m.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(n.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(semi_valid_row_col_sizes(m.get(), n.get()));
+   ASSERT_STRICT_DEBUG(valid_size_product(m.get(), n.get()));
 
    const auto d0_new = m.get();
    const auto d1_new = n.get();
-- 
2.43.0


From 0626302f107bfd02ee354328c069c0d26af585a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:59 +0000
Subject: [PATCH 04/20] fix: seqN bounds check does not wrap around

---
 strictpp/slice.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 9269851..74ed4c7 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -45,8 +45,7 @@ public:
    template <BaseType BaseT>
    STRICT_CONSTEXPR StrictBool valid(const BaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_index(A, start_)
-             && detail::valid_index(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_index(A, start_) && this->valid_last(A.size());
       }
       return true_sb;
    }
@@ -54,8 +53,7 @@ public:
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_first(const TwoDimBaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_row(A, start_)
-             && detail::valid_row(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_row(A, start_) && this->valid_last(A.rows());
       }
       return true_sb;
    }
@@ -63,13 +61,23 @@ public:
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_second(const TwoDimBaseT& A) const {
       if(size_ != 0_sl) {
-         return detail::valid_col(A, start_)
-             && detail::valid_col(A, start_ + stride_ * (size_ - 1_sl));
+         return detail::valid_col(A, start_) && this->valid_last(A.cols());
       }
       return true_sb;
    }
 
 private:
+   // Whether start + stride * (size - 1) is in [0, n), computed without overflow. Size is not 0.
+   STRICT_CONSTEXPR StrictBool valid_last(index_t n) const {
+      if(size_ == 1_sl || stride_ == 0_sl) {
+         return true_sb;
+      }
+      if(stride_ > 0_sl) {
+         return stride_ <= (n - 1_sl - start_) / (size_ - 1_sl);
+      }
+      return stride_ >= -(start_ / (size_ - 1_sl));
+   }
+
    index_t start_;
    index_t size_;
    index_t stride_;
-- 
2.43.0


From a5f857fc745454775c3f01628a7dee6b7ae38b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:35 +0000
Subject: [PATCH 05/20] fix: skipN with a huge stride selects the first element

---
 strictpp/slice.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 74ed4c7..f6c7cf1 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -391,18 +391,23 @@ public:
    }
 
    STRICT_CONSTEXPR_INLINE auto get(OneDimBaseType auto const& A) const {
-      return seqN{0, (A.size() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, count(A.size()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_row(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.rows() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, count(A.rows()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_col(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.cols() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, count(A.cols()), x_.stride()};
    }
 
 private:
+   // Computed without overflow for any stride.
+   STRICT_CONSTEXPR_INLINE index_t count(index_t n) const {
+      return n == 0_sl ? 0_sl : (n - 1_sl) / x_.stride() + 1_sl;
+   }
+
    place::skipN x_;
 };
 
-- 
2.43.0


From b842f8e99e0b806cd22af8ad7e3fc36cd5b086c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:32 +0000
Subject: [PATCH 06/20] fix: view2D rejects sizes whose product wraps around

---
 strictpp/ArrayCommon/valid.hpp | 9 +++++++++
 strictpp/attach2D.hpp          | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 59e9d33..ab0afe3 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -56,6 +56,15 @@ STRICT_CONSTEXPR StrictBool valid_size_product(index_t m, index_t n) {
 }
 
 
+// Whether size elements can be viewed as m by n.
+STRICT_CONSTEXPR StrictBool valid_view2D(index_t m, index_t n, index_t size) {
+   if(m < 0_sl || n < 0_sl || !valid_size_product(m, n)) {
+      return false_sb;
+   }
+   return m * n == size;
+}
+
+
 template <Builtin T>
 STRICT_CONSTEXPR StrictBool valid_list2D(use::List2D<Strict<T>> list) {
    if(list.size() != 0) {
diff --git a/strictpp/attach2D.hpp b/strictpp/attach2D.hpp
index 9ffffa6..da4958b 100644
--- a/strictpp/attach2D.hpp
+++ b/strictpp/attach2D.hpp
@@ -238,7 +238,7 @@ STRICT_NODISCARD_CONSTEXPR auto const_convert2D(const Base& A, ImplicitInt m, Im
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(nrows.get(), ncols.get(), Base::size()));
    if constexpr(detail::NonConstBaseType<StrictArrayBase1D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -249,7 +249,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(nrows.get(), ncols.get(), Base::size()));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
@@ -265,7 +265,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(nrows.get(), ncols.get(), Base::size()));
    if constexpr(detail::NonConstBaseType<StrictArrayBase2D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -276,7 +276,7 @@ STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_view2D(nrows.get(), ncols.get(), Base::size()));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
-- 
2.43.0


From fe1d178948663dc18eb4b42c08e49f24b1a4bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 07/20] fix: list assignment to a slice by a vector of indexes
 compiles

---
 strictpp/ArrayCommon/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/ArrayCommon/algorithm.hpp b/strictpp/ArrayCommon/algorithm.hpp
index 2eea48b..6101171 100644
--- a/strictpp/ArrayCommon/algorithm.hpp
+++ b/strictpp/ArrayCommon/algorithm.hpp
@@ -41,7 +41,7 @@ STRICT_CONSTEXPR_INLINE void copy(It b, It e, Base& A) {
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR_INLINE void copy(use::List1D<ValueTypeOf<Base>> L, Base& A) {
-   copy(L.begin(), L.end(), A);
+   detail::copy(L.begin(), L.end(), A);
 }
 
 
-- 
2.43.0


From 87d28a91180125ec0bbeab51d271c16f7e9616c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 08/20] fix: operators on two slices by vectors of indexes
 compile

---
 strictpp/Expr/binary.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index d435432..af8ca36 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -464,93 +464,93 @@ STRICT_CONSTEXPR auto generate(const Base1& A1, const Base2& A2, F f) {
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator+(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryPlus{});
+   return spp::generate(A1, A2, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator-(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMinus{});
+   return spp::generate(A1, A2, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator*(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMult{});
+   return spp::generate(A1, A2, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator/(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryDivide{});
+   return spp::generate(A1, A2, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator%(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryModulo{});
+   return spp::generate(A1, A2, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator<<(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryRightShift{});
+   return spp::generate(A1, A2, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator>>(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryLeftShift{});
+   return spp::generate(A1, A2, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseAnd{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator|(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseOr{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseXor{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator&&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanAnd{});
+   return spp::generate(A1, A2, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator||(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanOr{});
+   return spp::generate(A1, A2, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanXor{});
+   return spp::generate(A1, A2, expr::BinaryBooleanXor{});
 }
 
 
 template <FloatingBaseType Base1, FloatingBaseType Base2>
 auto two_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryTwoProdFirst{}),
-                    generate(A1, A2, expr::BinaryTwoProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryTwoProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryTwoProdSecond{})};
 }
 
 
 template <FloatingBaseType Base1, SignedIntegerBaseType Base2>
 auto pow_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryPowProdFirst{}),
-                    generate(A1, A2, expr::BinaryPowProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryPowProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryPowProdSecond{})};
 }
 
 
-- 
2.43.0


From fdb43ce5a2cde7dca368eba9b34aa13cab02c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 09/20] fix: exclude honours the offset of Last

---
 strictpp/Expr/special.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 68f8919..0acc037 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -76,7 +76,7 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count = Count{1});
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst);
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -410,8 +410,8 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst) {
-   return exclude(A, A.size_m1());
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
+   return exclude(A, A.size_m1() - lst.get());
 }
 
 
-- 
2.43.0


From 6080bc344f862ee22a01928f8f3cec9e386a7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 10/20] fix: linspace of one element is its start

---
 strictpp/Expr/special.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 0acc037..8eb2679 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -433,8 +433,8 @@ template <Floating T>
 STRICT_CONSTEXPR auto linspace(ImplicitInt size, Strict<T> start, Strict<T> end) {
    ASSERT_STRICT_DEBUG(size.get() > 0_sl);
    auto sz = size.get();
-   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{
-      start, sz, (end - start) / strict_cast<T>(sz - 1_sl)};
+   auto incr = sz == 1_sl ? Zero<T> : (end - start) / strict_cast<T>(sz - 1_sl);
+   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{start, sz, incr};
 }
 
 
-- 
2.43.0


From 23d1192862a00892aaf4ca3a17ede8a0ba10167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 11/20] fix: transpose and matvec_prod keep slices and
 expressions by value

---
 strictpp/Expr/binary.hpp  | 3 ++-
 strictpp/Expr/special.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index af8ca36..cca87c3 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -724,7 +724,8 @@ STRICT_CONSTEXPR auto matvec_prod(const Base1& A, const Base2& x) {
       }
       return s;
    };
-   return row_reduce(A, [&x, &dot](auto row) { return dot(row, x); });
+   auto xE = generate(x, [](auto z) { return z; });
+   return row_reduce(A, [xE, dot](auto row) { return dot(row, xE); });
 }
 
 
diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 8eb2679..e353736 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -512,7 +512,8 @@ STRICT_CONSTEXPR auto identity(ImplicitInt n) {
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto transpose(const Base& A) {
-   auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
+   auto AE = generate(A, [](auto x) { return x; });
+   auto op = [AE](index_t i, index_t j) { return AE.un(j, i); };
    using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
    return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
 }
-- 
2.43.0


From a5224b19829aa88c4bf4968efb2fbcf517d277f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:24 +0000
Subject: [PATCH 12/20] fix: assigning a slice of another size to a slice
 throws

---
 strictpp/derived1D.hpp | 2 +-
 strictpp/derived2D.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 6544494..6027ef9 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -296,7 +296,7 @@ public:
       return static_cast<StrictArrayMutable1D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept {
+   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) {
       return static_cast<StrictArrayMutable1D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index b813d9b..8c17d9d 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -668,7 +668,7 @@ public:
       return static_cast<StrictArrayMutable2D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept {
+   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) {
       return static_cast<StrictArrayMutable2D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
-- 
2.43.0


From a42cb4572471c090041ee7b82f8218900a2519f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:52 +0000
Subject: [PATCH 13/20] fix: binom_coeff does not overflow when its result is
 representable

---
 strictpp/StrictCommon/strict_val_ops.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strictpp/StrictCommon/strict_val_ops.hpp b/strictpp/StrictCommon/strict_val_ops.hpp
index 9531dd2..4421729 100644
--- a/strictpp/StrictCommon/strict_val_ops.hpp
+++ b/strictpp/StrictCommon/strict_val_ops.hpp
@@ -33,10 +33,11 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<long int> binom_coeff(ImplicitInt n, Im
    ASSERT_STRICT_DEBUG(n.get() >= k.get());
    index_t d1 = n.get() - k.get();
    index_t d2 = k.get();
-
    index_t prod = 1_sl;
-   for(index_t f1 = d1 + 1_sl, f2 = 1_sl; f1 <= d1 + d2; ++f1, ++f2) {
-      prod = prod * f1 / f2; // Can prove that (prod * f1) is divisible by f2.
+   for(index_t f2 = 1_sl; f2 <= d2; ++f2) {
+      index_t f1 = d1 + f2;
+      // Can prove that (prod * f1) is divisible by f2, but the product itself might overflow.
+      prod = prod / f2 * f1 + prod % f2 * f1 / f2;
    }
    return prod;
 }
-- 
2.43.0


From 16ade43a501361fb59169028ca57b0901fb614e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:29 +0000
Subject: [PATCH 14/20] fix: the absolute value of zero is positive zero

---
 strictpp/StrictCommon/strict_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_math.hpp b/strictpp/StrictCommon/strict_math.hpp
index b70c138..5ea5bd4 100644
--- a/strictpp/StrictCommon/strict_math.hpp
+++ b/strictpp/StrictCommon/strict_math.hpp
@@ -27,7 +27,7 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<T> abss(Strict<T> x) {
    if constexpr(UnsignedInteger<T>) {
       return x;
    } else {
-      return x > Zero<T> ? x : -x;
+      return x > Zero<T> ? x : Zero<T> - x;
    }
 }
 
-- 
2.43.0


From f972dcc7d7f07c796167659a3b6a0d567a04350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:28 +0000
Subject: [PATCH 15/20] fix: pseudo-random integers reach every value of a
 small range (semi_rands_not0(-1, 0) did not end)

---
 strictpp/Util/semi_random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index be51207..6ffdf6d 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -178,7 +178,8 @@ public:
 
 private:
    static constexpr Strict<unsigned> modulus_{10'000'000U};
-   static constexpr Strict<unsigned> multiplier_{8U};
+   // Multiplier - 1 is divisible by 2, 4 and 5, so that every value below modulus_ is generated.
+   static constexpr Strict<unsigned> multiplier_{21U};
    static constexpr Strict<unsigned> increment_{13U};
    mutable Strict<unsigned> previous_;
    Strict<T> low_;
-- 
2.43.0


From 6c8e1ba4dcdf144b1ecbabe3adfbd023dc78bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:27 +0000
Subject: [PATCH 16/20] fix: semi_random of a size and a range, and all named
 forms, can be called

---
 strictpp/Util/semi_random.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 6ffdf6d..216d160 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -76,7 +76,7 @@ constexpr void semi_random_not0(Base&&... A);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high,
                            Seed seed = Seed{One<unsigned>});
 
@@ -395,7 +395,7 @@ constexpr void semi_random_not0(Base&&... A) {
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed seed) {
    return detail::semi_random<T>(n, low, high, seed.get());
 }
@@ -403,7 +403,7 @@ constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed se
 
 template <Real T>
 constexpr auto semi_random(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -415,7 +415,7 @@ constexpr auto semi_random(ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Size n, Seed seed) {
-   return semi_random<T>(n.get(), seed.get());
+   return semi_random<T>(n.get(), seed);
 }
 
 
@@ -427,7 +427,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Strict<T> low, Strict<T
 
 template <Real T>
 constexpr auto semi_random(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -439,7 +439,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), seed);
 }
 
 
@@ -452,7 +452,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Strict<T> low, Strict<T> high, Se
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -464,7 +464,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Seed seed) {
-   return semi_random_not0<T>(n.get(), seed.get());
+   return semi_random_not0<T>(n.get(), seed);
 }
 
 
@@ -477,7 +477,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Strict<T> low, Str
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -489,7 +489,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), seed);
 }
 
 
-- 
2.43.0


From e183e65883244a33146bc9c2f79e3f7fb90f0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:29 +0000
Subject: [PATCH 17/20] fix: map fixed-size columns to Eigen

Eigen rejects row-major matrices with one column, so mapping a
FixedArray2D<T, n, 1> (n > 1) did not compile.
---
 strictpp/Eigen/map.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strictpp/Eigen/map.hpp b/strictpp/Eigen/map.hpp
index bd282f2..4381a29 100644
--- a/strictpp/Eigen/map.hpp
+++ b/strictpp/Eigen/map.hpp
@@ -63,9 +63,12 @@ auto map(Base&& A) {
    using base = RemoveRef<Base>;
 
    if constexpr(base::is_fixed()) {
+      // Eigen requires a column to be ColMajor; it has the same layout.
+      constexpr int order =
+         base::cols().val() == 1 && base::rows().val() != 1 ? Eigen::ColMajor : Eigen::RowMajor;
       using matrix_type = detail::CopyConstTo<
          base,
-         Matrix<builtin_type, base::rows().val(), base::cols().val(), RowMajor>>::value_type;
+         Matrix<builtin_type, base::rows().val(), base::cols().val(), order>>::value_type;
 
       return Map<matrix_type, detail::eigen_align<base>()>{A.blas_data()};
    } else {
-- 
2.43.0


From d606ce8814db4d085a9369eec4a4cc4d46e01305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:47 +0000
Subject: [PATCH 18/20] fix: failed insertion into an empty 2D array leaves it
 empty

insert_row and insert_col resized an empty array before evaluating the
source; when the source threw, a row or column of zeros was left behind.
---
 strictpp/array_base2D.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 81a1658..e33233e 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -559,8 +559,9 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::insert_row(ImplicitInt row_pos,
    ASSERT_STRICT_DEBUG(row_pos.get() >= 0_sl && row_pos.get() <= this->rows());
    // Ensure A is not empty to satisfy semi_valid_row_col_sizes.
    if(this->rows() == 0_sl && this->cols() == 0_sl && A.size() != 0_sl) {
-      this->resize(1, A.size());
-      copyn(A, *this, A.size());
+      ArrayBase2D tmp(1_sl, A.size());
+      copyn(A, tmp, A.size());
+      this->swap(tmp);
       return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
    }
 
@@ -609,8 +610,9 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::insert_col(ImplicitInt col_pos,
    ASSERT_STRICT_DEBUG(col_pos.get() >= 0_sl && col_pos.get() <= this->cols());
    // Ensure A is not empty to satisfy semi_valid_row_col_sizes.
    if(this->rows() == 0_sl && this->cols() == 0_sl && A.size() != 0_sl) {
-      this->resize(A.size(), 1);
-      copyn(A, *this, A.size());
+      ArrayBase2D tmp(A.size(), 1_sl);
+      copyn(A, tmp, A.size());
+      this->swap(tmp);
       return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
    }
 
-- 
2.43.0


From e3143a36e9e421fcf051d8b7ec5111abe2c04327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:04 +0000
Subject: [PATCH 19/20] fix: refuse unsigned int literals that do not fit

---
 strictpp/StrictCommon/strict_literals.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/StrictCommon/strict_literals.hpp b/strictpp/StrictCommon/strict_literals.hpp
index 07489bb..7f84f4c 100644
--- a/strictpp/StrictCommon/strict_literals.hpp
+++ b/strictpp/StrictCommon/strict_literals.hpp
@@ -26,6 +26,7 @@ consteval Strict<long int> operator""_sl(unsigned long long x) {
 
 
 consteval Strict<unsigned int> operator""_sui(unsigned long long x) {
+   ASSERT_STRICT_DEBUG(x <= std::numeric_limits<unsigned int>::max());
    return Strict{static_cast<unsigned int>(x)};
 }
 
-- 
2.43.0


From 87e8372a54e3f615314f40b76102ec42f7df582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:18 +0000
Subject: [PATCH 20/20] fix: reading a row longer than the first one wrote past
 the array without debug checks

---
 strictpp/array_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 5ca2934..58ed009 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -156,6 +156,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    std::istringstream iss{line};
    index_t ncols{};
    while(iss >> x) {
+      ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0

