//! configs: debug
//! defs: -DEIGEN_DONT_VECTORIZE -DSTRICT_ENABLE_EIGEN -isystem /usr/include/eigen3
//! bounds: maps of dynamic arrays up to 3x3 and fixed arrays 1x1, 1x2, 2x1, 2x2, 2x3, 3x1, aligned and unaligned, every element; products of every shape up to 2x3 by 3x2 (thorough 3x3 by 3x3) of int and long with all contents, of double with up to two terms; mismatching sizes; the result aliasing an operand
//! assumes: Eigen without its vector paths (-DEIGEN_DONT_VECTORIZE); products of more than 19 rows + columns + depth take another path inside Eigen and are outside
#include "common.hpp"

#ifdef THOROUGH
constexpr i64 big = 3;
#else
constexpr i64 big = 2;
#endif

template <class A>
static void mapped(A& a, i64 m, i64 n) {
   using T = BuiltinTypeOf<A>;
   auto r = symref2<T>(m, n, "a");
   for(i64 i = 0; i < m * n; ++i) *(a.data() + i) = Strict<T>{r.v[i]};
   auto M = eigen::map(a);
   const A& c = a;
   auto C = eigen::map(c);
   CHECK(M.rows() == m && M.cols() == n && C.rows() == m && C.cols() == n, "a map has the shape of the array");
   CHECK(static_cast<const void*>(M.data()) == a.data() && static_cast<const void*>(C.data()) == a.data(), "a map shares the array's storage");
   bool ok = true;
   for(i64 i = 0; i < m; ++i)
      for(i64 j = 0; j < n; ++j) ok &= same(M(i, j), r(i, j)) & same(C(i, j), r(i, j));
   CHECK(ok, "a map's element (i, j) is the array's");
   if(!m) return;
   i64 i = pick("i", 0, m - 1), j = pick("j", 0, n - 1);
   T x = sym<T>("x");
   M(i, j) = x;
   r(i, j) = x;
   CHECK(eq(a, r) & same(C(i, j), x), "writing through a map changes exactly that element");
   T y = sym<T>("y");
   a.un(i, j) = Strict<T>{y};
   CHECK(same(M(i, j), y), "a map sees later changes of the array");
}
template <class T, AlignmentFlag AF>
static void dyn() {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   Array2D<T, AF> a(m, n);
   mapped(a, m, n);
}
HARNESS(map_dynamic) {
   switch(pick("kind", 0, 3)) {
   case 0: dyn<int, Unaligned>(); break;
   case 1: dyn<int, Aligned>(); break;
   case 2: dyn<double, Unaligned>(); break;
   default: dyn<double, Aligned>();
   }
   CHECK(sym_live() == 0, "nothing leaks");
}
template <class T, int M, int N>
static void fix() {
   if(pick("aligned", 0, 1)) {
      FixedArray2D<T, M, N, Aligned> a;
      mapped(a, M, N);
   } else {
      FixedArray2D<T, M, N> a;
      mapped(a, M, N);
   }
}
template <class T>
static void fixes() {
   switch(pick("shape", 0, 5)) {
   case 0: fix<T, 1, 1>(); break;
   case 1: fix<T, 1, 2>(); break;
   case 2: fix<T, 2, 1>(); break;
   case 3: fix<T, 2, 2>(); break;
   case 4: fix<T, 2, 3>(); break;
   default: fix<T, 3, 1>();
   }
}
HARNESS(map_fixed) {
   if(pick("type", 0, 1)) fixes<int>();
   else fixes<double>();
}

template <class T>
static T dot(const Ref2<T>& a, const Ref2<T>& b, i64 i, i64 j) {
   T s = a(i, 0) * b(0, j);
   for(i64 k = 1; k < a.n; ++k) s = s + a(i, k) * b(k, j);
   return s;
}
template <class T>
static Ref2<T> product(const Ref2<T>& a, const Ref2<T>& b) {
   Ref2<T> c;
   c.m = a.m;
   c.n = b.n;
   for(i64 i = 0; i < a.m; ++i)
      for(i64 j = 0; j < b.n; ++j) c(i, j) = dot(a, b, i, j);
   return c;
}

template <class T>
static void prod(i64 depth) {
   i64 m = pick("m", 0, big), k = m ? pick("k", 1, depth) : 0;
   i64 l = pick("l", 0, depth), n = l ? pick("n", 1, big) : 0;
   auto a = symref2<T>(m, k, "a"), b = symref2<T>(l, n, "b");
   auto A = mk(a), B = mk(b);
   bool fit = k == l;
   auto want = a;
   if(fit) want = product(a, b);
   if(pick("form", 0, 1)) {
      int o = outcome([&] {
         auto C = matrix_prod(A, B);
         CHECK(eq(C, want), "a product has the sums of products");
      });
      CHECK(o == (fit ? 0 : 1), "a product throws exactly on mismatching sizes");
   } else {
      i64 p = pick("p", 0, 2), q = p ? pick("q", 1, 2) : 0;
      auto c = symref2<T>(p, q, "c");
      auto C = mk(c);
      bool ok = fit && p == m && q == n;
      int o = outcome([&] { matrix_prod(A, B, C); });
      CHECK(o == (ok ? 0 : 1), "a product into an array throws exactly on mismatching sizes");
      CHECK(eq(C, ok ? want : c), "a product into an array is the product, or the array is left alone");
   }
   CHECK(eq(A, a) & eq(B, b), "a product leaves its operands alone");
}
HARNESS(product_int) {
   prod<int>(3);
   CHECK(sym_live() == 0, "nothing leaks");
}
HARNESS(product_long) {
   prod<long>(2);
}
HARNESS(product_double) {
   prod<double>(2);
}

HARNESS(product_alias) {
   i64 m = pick("m", 1, big);
   auto a = symref2<int>(m, m, "a"), b = symref2<int>(m, m, "b");
   auto A = mk(a), B = mk(b);
   switch(pick("kind", 0, 2)) {
   case 0: matrix_prod(A, B, A); CHECK(eq(A, product(a, b)) & eq(B, b), "the product may replace the first operand"); break;
   case 1: matrix_prod(A, B, B); CHECK(eq(B, product(a, b)) & eq(A, a), "the product may replace the second operand"); break;
   default: matrix_prod(A, A, A); CHECK(eq(A, product(a, a)), "a square may replace its operand");
   }
}

HARNESS(product_kinds) {
   auto a = symref2<int>(2, 3, "a"), b = symref2<int>(3, 2, "b");
   auto want = product(a, b);
   FixedArray2D<int, 2, 3> FA;
   FixedArray2D<int, 3, 2, Aligned> FB;
   for(i64 i = 0; i < 6; ++i) *(FA.data() + i) = Strict{a.v[i]}, *(FB.data() + i) = Strict{b.v[i]};
   Array2D<int, Aligned> A = mk(a);
   auto B = mk(b);
   switch(pick("kind", 0, 3)) {
   case 0: CHECK(eq(matrix_prod(FA, FB), want), "a product of fixed arrays is the product"); break;
   case 1: CHECK(eq(matrix_prod(A, FB), want), "a product of a dynamic and a fixed array is the product"); break;
   case 2: CHECK(eq(matrix_prod(FA, B), want), "a product of a fixed and a dynamic array is the product"); break;
   default: {
      FixedArray2D<int, 2, 2> C;
      matrix_prod(A, B, C);
      CHECK(eq(C, want), "a product into a fixed array is the product");
   }
   }
}
HARNESS(product_column) {
   auto a = symref2<int>(2, 3, "a"), b = symref2<int>(3, 1, "b");
   auto want = product(a, b);
   FixedArray2D<int, 3, 1> FB;
   for(i64 i = 0; i < 3; ++i) *(FB.data() + i) = Strict{b.v[i]};
   auto A = mk(a);
   CHECK(eq(matrix_prod(A, FB), want), "a product with a fixed column is the product");
}
