//! configs: debug
//! bounds: exactness in single precision: exponents of the operands 0 and d with d in -30..30, both signs, 6 free mantissa bits per operand for sums (thorough 10) in the highest and lowest positions, 5 (thorough 8) for products in one of four positions; the rounded component for all float and double values; elementwise form for all values of arrays of up to 3 elements
//! assumes: no overflow or underflow of the result and its error; mantissas outside the stated patterns rest on the theorem that the algorithm is error free (Knuth, Moeller), which is not re-proved here
//! query-ms: 120000
#include "common.hpp"
#include <bit>
#include <cmath>

#ifdef THOROUGH
constexpr int H = 5;
constexpr int pmask[] = {0x780000 | 0xf, 0xff, 0x7f8000, 0xf00 | 0xf0000};
#else
constexpr int H = 3;
constexpr int pmask[] = {0x600000 | 7, 0x1f, 0x7c0000, 0x70 | 0xc000};
#endif
static float sfloat(const char* n, i64 e, int mask) {
   bool neg = sym<bool>(n);
   int m = sym_i32(n);
   return std::bit_cast<float>(static_cast<unsigned>((neg ? 0x80000000u : 0u) | (static_cast<unsigned>(e + 127) << 23) | static_cast<unsigned>(m & mask)));
}
static void sum_exact(i64 d) {
   constexpr int mask = ((1 << H) - 1) << (23 - H) | ((1 << H) - 1);
   float x = sfloat("x", 0, mask), y = sfloat("y", d, mask);
   auto [r, s] = two_sums(Strict<float>{x}, Strict<float>{y});
   CHECK(double(r.val()) + double(s.val()) == double(x) + double(y), "the second component of a two-sum is the rounding error of the first");
}
HARNESS(sum_exact_m30) { sum_exact(pick("d", -30, -23)); }
HARNESS(sum_exact_m22) { sum_exact(pick("d", -22, -15)); }
HARNESS(sum_exact_m14) { sum_exact(pick("d", -14, -7)); }
HARNESS(sum_exact_m6) { sum_exact(pick("d", -6, 0)); }
HARNESS(sum_exact_p1) { sum_exact(pick("d", 1, 7)); }
HARNESS(sum_exact_p8) { sum_exact(pick("d", 8, 15)); }
HARNESS(sum_exact_p16) { sum_exact(pick("d", 16, 22)); }
HARNESS(sum_exact_p23) { sum_exact(pick("d", 23, 30)); }
static void prod_exact(i64 k) {
   float x = sfloat("x", 0, pmask[k]), y = sfloat("y", pick("d", 0, 1) * 9, pmask[k]);
   auto [r, s] = two_prods(Strict<float>{x}, Strict<float>{y});
   CHECK(double(r.val()) + double(s.val()) == double(x) * double(y), "the second component of a two-product is the rounding error of the first");
}
HARNESS(prod_exact_0) { prod_exact(0); }
HARNESS(prod_exact_1) { prod_exact(1); }
HARNESS(prod_exact_2) { prod_exact(2); }
HARNESS(prod_exact_3) { prod_exact(3); }

template <class T>
static void rounded() {
   T x = sym<T>("x"), y = sym<T>("y");
   Strict<T> a{x}, b{y};
   auto [r, s] = two_sums(a, b);
   CHECK(same(r, x + y), "the first component of a two-sum is the rounded sum");
   auto [p, q] = two_prods(a, b);
   CHECK(same(p, x * y), "the first component of a two-product is the rounded product");
   CHECK(same(q, std::fma(x, y, -(x * y))), "the second component of a two-product is the product minus its rounded value, rounded once");
   // The error of a sum from either order of the operands.
   if(x == T(0) && y == y) CHECK(s.val() == T(0) || s.val() != s.val(), "adding zero has no error");
}
HARNESS(rounded_float) { rounded<float>(); }
HARNESS(rounded_double) { rounded<double>(); }

template <class T>
static void elementwise() {
   i64 n = pick("n", 0, 3), m = pick("m", 0, 3);
   auto x = symref<T>(n, "x"), y = symref<T>(m, "y");
   auto A = mk(x), B = mk(y);
   bool ran = false;
   int o = outcome([&] {
      auto pr = two_prod(A, B);
      if(pr.first.size().val() != n || pr.second.size().val() != n) return;
      bool f = true, s = true;
      for(i64 i = 0; i < n; ++i) {
         f &= same(pr.first.un(i), x[i] * y[i]);
         s &= same(pr.second.un(i), std::fma(x[i], y[i], -(x[i] * y[i])));
      }
      CHECK(f, "the first array of two_prod has the rounded products");
      CHECK(s, "the second array of two_prod has their rounding errors");
      ran = true;
   });
   CHECK(n == m ? o == 0 && ran : o == 1, "two_prod needs arrays of one size");
}
HARNESS(elementwise_float) { elementwise<float>(); }
HARNESS(elementwise_double) { elementwise<double>(); }
HARNESS(elementwise_2D) {
   i64 m = pick("m", 0, 2), n = pick("n", 0, 2);
   if((m == 0) != (n == 0)) m = n = 0;
   auto x = symref2<double>(m, n, "x"), y = symref2<double>(m, n, "y");
   auto A = mk(x), B = mk(y);
   auto pr = two_prod(A, B + B * Strict<double>{0.});
   bool f = pr.first.rows().val() == m && pr.first.cols().val() == n && pr.second.rows().val() == m, s = true;
   for(i64 i = 0; i < m; ++i)
      for(i64 j = 0; j < n; ++j) {
         double b = y(i, j) + y(i, j) * 0.;
         f &= same(pr.first.un(i, j), x(i, j) * b);
         s &= same(pr.second.un(i, j), std::fma(x(i, j), b, -(x(i, j) * b)));
      }
   CHECK(f, "the first 2D array of two_prod has the rounded products");
   CHECK(s, "the second 2D array of two_prod has their rounding errors");
}
