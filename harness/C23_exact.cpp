//! configs: debug
//! query-ms: 120000
#include "common.hpp"
#include <bit>
#include <cmath>

static float sfloat(const char* n, i64 e, int mask) {
   bool neg = sym<bool>(n);
   int m = sym_i32(n);
   return std::bit_cast<float>(static_cast<unsigned>((neg ? 0x80000000u : 0u) | (static_cast<unsigned>(e + 127) << 23) | static_cast<unsigned>(m & mask)));
}
// Neumaier's sum.
template <class T, int C>
static T neumaier(const Ref<T, C>& r) {
   T s = T(0), c = T(0);
   for(i64 i = 0; i < r.n; ++i) {
      T x = r[i], t = s + x;
      if(std::fabs(s) >= std::fabs(x)) c += (s - t) + x;
      else c += (x - t) + s;
      s = t;
   }
   return s + c;
}
HARNESS(sum_three) {
   Ref<float> r;
   r.push(sfloat("x", 0, 0x600003));
   r.push(sfloat("x", pick("e", -1, 1) * 12, 0x600003));
   r.push(sfloat("x", pick("e", -1, 1) * 13, 0x600003));
   CHECK(same(stable_sum(mk(r)), neumaier(r)), "stable_sum of three elements");
}
// x + y - x is y, whatever is lost on the way.
static void cancels(i64 order, i64 d) {
   Ref<float> r;
   float x = sfloat("x", 0, 0x600003), y = sfloat("y", d, 0x600003);
   if(order == 0) { r.push(x); r.push(y); r.push(-x); }
   else if(order == 1) { r.push(y); r.push(x); r.push(-x); }
   else { r.push(x); r.push(-x); r.push(y); }
   auto A = mk(r);
   CHECK(stable_sum(A).val() == y, "stable_sum keeps what cancellation leaves");
   CHECK(stable_dot_prod(A, const1D<float>(Size{3}, Value{Strict<float>{2.f}})).val() == 2.f * y, "stable_dot_prod keeps what cancellation leaves");
}
HARNESS(cancels_0_near) { cancels(0, pick("d", -1, 0) * 12); }
HARNESS(cancels_0_far) { cancels(0, 12 + pick("d", 0, 1) * 12); }
HARNESS_T(cancels_0_low) { cancels(0, -24); }
HARNESS(cancels_1_near) { cancels(1, pick("d", -1, 0) * 12); }
HARNESS(cancels_1_far) { cancels(1, 12 + pick("d", 0, 1) * 12); }
HARNESS_T(cancels_1_low) { cancels(1, -24); }
HARNESS(cancels_2) { cancels(2, pick("d", -2, 2) * 12); }
// Product with the accumulated errors of its steps.
template <class T, int C>
static T comp_prod(const Ref<T, C>& r) {
   T p = r[0];
   T err[8];
   for(i64 i = 1; i < r.n; ++i) {
      err[i - 1] = std::fma(p, r[i], -(p * r[i]));
      p = p * r[i];
   }
   Ref<T> off;
   T tail = T(1);
   for(i64 i = r.n - 1; i > 0; --i) {
      off.push(tail * err[i - 1]);
      tail = tail * r[i];
   }
   return p + (r.n > 1 ? neumaier(off) : T(0));
}
static void prod(i64 n, int mask) {
   Ref<float> r;
   for(i64 i = 0; i < n; ++i) r.push(n < 2 ? sym<float>("x") : sfloat("x", 0, mask));
   auto A = mk(r);
   float d = sym<float>("d");
   CHECK(same(stable_prod(A, Strict<float>{d}), n ? comp_prod(r) : d), "stable_prod is the product plus the errors of its steps");
}
HARNESS(prod_01) { prod(pick("n", 0, 1), 0); }
HARNESS(prod_2) { prod(2, 0x600003); }
HARNESS(prod_3) { prod(3, 0x400001); }
HARNESS(prod_3_low) { prod(3, 0x3); }
HARNESS_T(prod_4) { prod(4, 0x400001); }
// With few significant bits everything is exact.
HARNESS(powers_exact) {
   i64 p = pick("p", 0, 8);
   float x = sfloat("x", 0, 0x700000);
   auto [r, s] = pow_prods(Strict<float>{x}, ImplicitInt{p});
   double want = 1.;
   for(i64 i = 0; i < p; ++i) want *= double(x);
   CHECK(double(r.val()) + double(s.val()) == want, "pow_prods is exact when the power has few digits");
}
HARNESS(cube_exact) {
   float x = sfloat("x", 0, 0x600000 | 0x1c00);
   auto [r, s] = pow_prods(Strict<float>{x}, ImplicitInt{3});
   CHECK(double(r.val()) + double(s.val()) == double(x) * double(x) * double(x), "the third power of a number of 13 digits is exact in pow_prods");
}
// Sums by blocks of 64, with one symbolic element among exactly representable ones.
static void semi(i64 n, i64 pos) {
   Array1D<float> A(n), B(n);
   i64 rest = 0;
   for(i64 i = 0; i < n; ++i) {
      A.un(i) = Strict<float>{float(i + 1)};
      B.un(i) = Strict<float>{2.f};
      rest += i + 1;
   }
   if(n == 0) {
      CHECK(semi_stable_sum(A, Strict<float>{7.f}).val() == 7.f && semi_stable_dot_prod(A, B, Strict<float>{7.f}).val() == 7.f, "blocked sums of nothing give the default");
      return;
   }
   int x = sym_i32("x");
   sym_assume(x >= 0 && x < 4);
   A.un(pos) = Strict<float>{float(x)};
   rest -= pos + 1;
   CHECK(semi_stable_sum(A).val() == float(int(rest) + x), "semi_stable_sum is exact when all partial sums are");
   CHECK(semi_stable_dot_prod(A, B).val() == 2.f * float(int(rest) + x), "semi_stable_dot_prod is exact when all partial sums are");
}
HARNESS(semi_small) {
   i64 n = pick("n", 0, 3);
   semi(n, n ? pick("pos", 0, n - 1) : 0);
}
static i64 where_(i64 k, i64 n) { return k == 0 ? 0 : k == 1 ? 62 : k == 2 ? (n > 63 ? 63 : 1) : n - 1; }
HARNESS(semi_63) { semi(63, where_(pick("pos", 0, 3), 63)); }
HARNESS(semi_64) { semi(64, where_(pick("pos", 0, 3), 64)); }
HARNESS(semi_65) { semi(65, where_(pick("pos", 0, 3), 65)); }
HARNESS_T(semi_66) { semi(66, where_(pick("pos", 0, 3), 66)); }
HARNESS_T(semi_128) { semi(128, 63 + pick("pos", 0, 1)); }
HARNESS(semi_129) {
   i64 k = pick("pos", 0, 2);
   semi(129, k == 0 ? 64 : k == 1 ? 127 : 128);
}
