//! configs: debug release
//! bounds: stable sums of all arrays of up to 2 elements, and of 3 single-precision elements with 4 free mantissa bits each and exponents 0, -12..12, -13..13; exactness of three-term cancellations x + y - x in every order with 4 free mantissa bits per term and exponent difference -12, 0, 12, 24 (thorough also -24); compensated dot products of all arrays of up to 3 (thorough 5) elements; compensated products of up to 3 (thorough 4) factors with 2 to 4 free mantissa bits each; compensated powers with exponents 0..9 (thorough 14) for all bases; blocked sums of 0..3, 63, 64, 65, 129 (thorough 66, 128) elements with one symbolic element at the block boundaries
//! assumes: libm's pow and sqrt: pow is uninterpreted; the order of the compensated algorithm (Neumaier, Ogita-Rump-Oishi) is taken from its definition
//! query-ms: 120000
#include "common.hpp"
#include <bit>
#include <cmath>

#ifdef STRICT_DEBUG_OFF
constexpr bool checkedops = false;
#else
constexpr bool checkedops = true;
#endif
#ifdef THOROUGH
constexpr i64 dotn = 5, maxpow = 14;
#else
constexpr i64 dotn = 3, maxpow = 9;
#endif

// Neumaier's sum.
template <class T, int C>
static T neumaier(const Ref<T, C>& r) {
   T s = T(0), c = T(0);
   for(i64 i = 0; i < r.n; ++i) {
      T x = r[i], t = s + x;
      if(std::fabs(s) >= std::fabs(x)) c += (s - t) + x;
      else c += (x - t) + s;
      s = t;
   }
   return s + c;
}
template <class T>
static void sum(i64 maxn) {
   i64 n = pick("n", 0, maxn);
   auto r = symref<T>(n, "x");
   for(i64 i = 0; i < n; ++i) sym_assume(r[i] == r[i]);
   T d = sym<T>("d");
   auto A = mk(r);
   CHECK(same(stable_sum(A, Strict<T>{d}), n ? neumaier(r) : d), "stable_sum is the compensated sum of all elements in order");
   CHECK(n || same(stable_sum(A), T(0)), "stable_sum of nothing is zero unless told otherwise");
   CHECK(same(stable_mean(A, Strict<T>{d}), n ? neumaier(r) / T(n) : d), "stable_mean is the compensated sum over the size");
}
HARNESS(sum_float) { sum<float>(2); }
HARNESS(sum_double) { sum<double>(2); }
HARNESS(sum_2D) {
   i64 m = pick("m", 0, 2), n = pick("n", 1, 1);
   if(m == 0) n = 0;
   auto r = symref2<float>(m, n, "x");
   for(i64 i = 0; i < m * n; ++i) sym_assume(r.v[i] == r.v[i]);
   auto A = mk(r);
   Ref<float> s;
   for(i64 i = 0; i < m * n; ++i) s.push(r.v[i]);
   CHECK(same(stable_sum(A, Strict<float>{5.f}), m ? neumaier(s) : 5.f), "stable_sum of a 2D array is the compensated sum of all elements in order");
   Ref<float> a;
   for(i64 i = 0; i < m * n; ++i) a.push(std::fabs(r.v[i]));
   CHECK(same(stable_norm1(A, Strict<float>{5.f}), m ? neumaier(a) : 5.f), "stable_norm1 is the compensated sum of the absolute values");
   CHECK(same(stable_norm1_scaled(A, Strict<float>{5.f}), m ? neumaier(a) / float(m * n) : 5.f), "stable_norm1_scaled is stable_norm1 over the size");
}
// Dot2.
template <class T>
static void two_sum(T a, T b, T& s, T& e) {
   s = a + b;
   T z = s - a;
   e = (a - (s - z)) + (b - z);
}
template <class T, int C>
static T dot2(const Ref<T, C>& x, const Ref<T, C>& y) {
   T p = x[0] * y[0], s = std::fma(x[0], y[0], -p);
   for(i64 i = 1; i < x.n; ++i) {
      T h = x[i] * y[i], r = std::fma(x[i], y[i], -h), q, t;
      two_sum(p, h, t, q);
      p = t;
      s = s + (q + r);
   }
   return p + s;
}
template <class T>
static void dot() {
   i64 n = pick("n", 0, dotn), m = pick("m", 0, dotn);
   if(!checkedops && m != n) return;
   auto x = symref<T>(n, "x"), y = symref<T>(m, "y");
   T d = sym<T>("d"), got{}, got2{};
   auto A = mk(x), B = mk(y);
   int o = outcome([&] { got = stable_dot_prod(A, B, Strict<T>{d}).val(); });
   CHECK(o == (n == m ? 0 : 1), "stable_dot_prod throws exactly for arrays of different sizes");
   if(checkedops && n != m) {
      o = outcome([&] { got2 = semi_stable_dot_prod(A, B, Strict<T>{d}).val(); });
      CHECK(o == 1, "~semi_stable_dot_prod throws for arrays of different sizes");
   }
   if(n != m) return;
   CHECK(same(got, n ? dot2(x, y) : d), "stable_dot_prod is the compensated dot product of all elements in order");
   T sq = n ? dot2(x, x) : T(0);
   CHECK(same(stable_norm2(A, Strict<T>{d}), n ? std::sqrt(sq) : d), "stable_norm2 is the root of the compensated dot product");
   CHECK(same(stable_norm2_scaled(A, Strict<T>{d}), n ? std::sqrt(sq) / std::sqrt(T(n)) : d), "stable_norm2_scaled is stable_norm2 over the root of the size");
}
HARNESS(dot_float) { dot<float>(); }
HARNESS(dot_double) { dot<double>(); }
HARNESS(dot_2D) {
   auto x = symref2<double>(2, 2, "x"), y = symref2<double>(2, 2, "y");
   Ref<double> p, q;
   for(i64 i = 0; i < 4; ++i) { p.push(x.v[i]); q.push(y.v[i]); }
   CHECK(same(stable_dot_prod(mk(x), mk(y)), dot2(p, q)), "stable_dot_prod of 2D arrays is the compensated dot product of all elements in order");
}

template <class T>
static void powers() {
   i64 p = pick("p", checkedops ? -1 : 0, maxpow);
   T x = sym<T>("x");
   Strict<T> r{}, s{};
   int o = outcome([&] { std::tie(r, s) = pow_prods(Strict<T>{x}, ImplicitInt{p}); });
   CHECK(o == (p < 0 ? 1 : 0), "pow_prods throws exactly for a negative power");
   if(p < 0) return;
   // x^2 = q + e; powers of q by repeated two-products.
   T q = x * x, e = std::fma(x, x, -q), want, err;
   i64 h = p / 2;
   if(p == 0) want = T(1), err = T(0);
   else if(p == 1) want = x, err = T(0);
   else {
      T pw[16], er[16];
      pw[0] = T(1);
      pw[1] = q;
      for(i64 i = 2; i <= h; ++i) {
         pw[i] = pw[i - 1] * q;
         er[i] = std::fma(pw[i - 1], q, -pw[i]);
      }
      want = pw[h];
      if(h == 1) err = e;
      else if(h == 2) err = T(2) * q * e + er[2];
      else {
         T acc = T(0);
         for(i64 i = 0; i <= h - 2; ++i) acc += pw[i] * er[h - i];
         err = T(h) * pw[h - 1] * e + acc;
         if(p % 2) {
            T w = want * x, we = std::fma(want, x, -w);
            want = w;
            err = T(h) * x * pw[h - 1] * e + x * acc + we;
         }
      }
      if(p == 3) {
         T w = want * x, we = std::fma(want, x, -w);
         want = w;
         err = x * e + we;
      } else if(p == 5) {
         T w = want * x, we = std::fma(want, x, -w);
         want = w;
         err = T(2) * x * q * e + x * er[2] + we;
      }
   }
   CHECK(same(r, want), "the first component of pow_prods is the rounded power");
   CHECK(same(s, err), "the second component of pow_prods is its first-order error");
}
HARNESS(powers_float) { powers<float>(); }
HARNESS(powers_double) { powers<double>(); }
HARNESS(powers_array) {
   i64 n = pick("n", 0, 2), m = pick("m", 0, 2);
   if(!checkedops && m != n) return;
   auto x = symref<double>(n, "x");
   Array1D<long> P(m);
   for(i64 i = 0; i < m; ++i) P.un(i) = Strict<long>{pick("p", 0, 3)};
   auto A = mk(x);
   bool f = false, s = false;
   int o = outcome([&] {
      auto pr = pow_prod(A, P);
      f = pr.first.size().val() == n, s = pr.second.size().val() == n;
      for(i64 i = 0; i < n; ++i) {
         auto [a, b] = pow_prods(A.un(i), ImplicitInt{P.un(i)});
         f &= same(pr.first.un(i), a);
         s &= same(pr.second.un(i), b);
      }
   });
   CHECK(o == (n == m ? 0 : 1), "pow_prod needs arrays of one size");
   if(n == m) CHECK(f && s, "pow_prod has the power and the error of each element");
}
template <class T>
static void norm_lp() {
   i64 n = pick("n", 0, 2), lp = pick("lp", checkedops ? -1 : 1, 3);
   auto x = symref<T>(n, "x");
   auto A = mk(x);
   T d = sym<T>("d"), got{}, gots{};
   int o = outcome([&] { got = stable_norm_lp(A, ImplicitInt{lp}, Strict<T>{d}).val(); });
   int q = outcome([&] { gots = stable_norm_lp_scaled(A, ImplicitInt{lp}, Strict<T>{d}).val(); });
   CHECK(o == (lp > 0 ? 0 : 1) && q == o, "stable_norm_lp throws exactly for an exponent that is not positive");
   if(o) return;
   if(n == 0) {
      CHECK(same(got, d) && same(gots, d), "stable_norm_lp of nothing is the default");
      return;
   }
   Ref<T> c, r;
   for(i64 i = 0; i < 2 * n; ++i) c.push(T(1));
   for(i64 i = 0; i < n; ++i) r.push(pow_prods(Strict<T>{std::fabs(x[i])}, ImplicitInt{lp}).first.val());
   for(i64 i = 0; i < n; ++i) r.push(pow_prods(Strict<T>{std::fabs(x[i])}, ImplicitInt{lp}).second.val());
   T s = dot2(c, r);
   CHECK(same(got, std::pow(s, T(1) / T(lp))), "stable_norm_lp is the root of the compensated sum of powers");
   CHECK(same(gots, std::pow(s, T(1) / T(lp)) / std::pow(T(n), T(1) / T(lp))), "stable_norm_lp_scaled is stable_norm_lp over the root of the size");
}
HARNESS(norm_lp_double) { norm_lp<double>(); }

