//! configs: debug release
//! bounds: all coefficients and arguments of int, long, unsigned long, float and double; up to 4 (thorough 7) dense coefficients, up to 3 (thorough 4) sparse or generalised terms with exponents -1..3 (thorough ..6) and every negative exponent; stable forms with up to 2 (thorough 3) terms
//! assumes: integers wrap where a result is not representable; std::pow is uninterpreted, so only its arguments are decided; exponents are representable in the type of the argument
//! query-ms: 60000
#include "common.hpp"
#include <cmath>

#ifdef STRICT_DEBUG_OFF
constexpr bool checkedops = false;
#else
constexpr bool checkedops = true;
#endif
#ifdef THOROUGH
constexpr i64 densen = 7, sparsen = 4, maxp = 6, stablen = 3;
#else
constexpr i64 densen = 4, sparsen = 3, maxp = 3, stablen = 2;
#endif
template <class T> using Wide = std::conditional_t<std::is_integral_v<T>, std::make_unsigned_t<std::conditional_t<std::is_integral_v<T>, T, int>>, T>;
template <class T> static T add(T x, T y) { return static_cast<T>(Wide<T>(x) + Wide<T>(y)); }
template <class T> static T mul(T x, T y) { return static_cast<T>(Wide<T>(x) * Wide<T>(y)); }
template <class T>
static T power(T x, i64 p) {
   if constexpr(std::is_integral_v<T>) {
      T r = T(1);
      for(i64 i = 0; i < p; ++i) r = mul(r, x);
      return r;
   } else return std::pow(x, T(p));
}
template <class T>
static void dense() {
   i64 n = pick("n", 0, densen);
   auto c = symref<T>(n, "c");
   T x = sym<T>("x"), d = sym<T>("d");
   auto A = mk(c);
   T want = n ? c[n - 1] : d;
   for(i64 i = n - 2; i >= 0; --i) want = add(c[i], mul(want, x));
   CHECK(same(polynomial(A, Strict<T>{x}, Strict<T>{d}), want), "polynomial evaluates all coefficients by Horner's rule");
   CHECK(n || same(polynomial(A, Strict<T>{x}), T(0)), "polynomial of no coefficients is zero unless told otherwise");
   if(n >= 1) CHECK(same(polynomial(A(seqN{0, n}), Strict<T>{x}), want), "polynomial of a slice is that of its elements");
}
HARNESS(dense_int) { dense<int>(); }
HARNESS(dense_long) { dense<long>(); }
HARNESS(dense_ulong) { dense<unsigned long>(); }
HARNESS(dense_float) { dense<float>(); }
HARNESS(dense_double) { dense<double>(); }
// Against the sum of powers, where nothing wraps.
HARNESS(dense_meaning) {
   i64 n = pick("n", 1, 3);
   auto c = symref<int>(n, "c");
   int x = sym<int>("x");
   sym_assume(x >= -8 && x < 8);
   for(i64 i = 0; i < n; ++i) sym_assume(c[i] >= -16 && c[i] < 16);
   int want = 0;
   for(i64 i = 0; i < n; ++i) want += c[i] * power(x, i);
   CHECK(same(polynomial(mk(c), Strict<int>{x}), want), "polynomial is the sum of coefficients times powers");
   CHECK(same(polynomial(mk(c), Strict<int>{x}, sequence<int>(Size{n}, Start{Strict<int>{0}}, Incr{Strict<int>{1}})), want), "polynomial with all powers is the dense polynomial");
}

template <class T, class P>
static void sparse() {
   i64 n = pick("n", 0, sparsen), m = pick("m", 0, 4) == 4 ? n + 1 : n, k = pick("k", 0, 4) == 4 ? n + 1 : n;
   if(!checkedops && (m != n || k != n)) return;
   auto c = symref<T>(n, "c"), X = symref<T>(k, "x");
   T d = sym<T>("d");
   Ref<P> p;
   bool neg = false;
   for(i64 i = 0; i < m; ++i) p.push(static_cast<P>(n == m && n == k ? pick("p", checkedops ? -1 : 0, maxp) : 1)), neg |= p[i] < 0;
   auto A = mk(c), B = mk(X);
   auto Q = mk(p);
   T got1{}, got2{}, want1 = T(0), want2 = T(0);
   T x = k ? X[0] : sym<T>("x0");
   int o1 = outcome([&] { got1 = polynomial(A, Strict<T>{x}, Q, Strict<T>{d}).val(); });
   int o2 = outcome([&] { got2 = gpolynomial(A, B, Q, Strict<T>{d}).val(); });
   CHECK(o1 == (m != n || neg ? 1 : 0), "a sparse polynomial throws exactly for different sizes or a negative power");
   CHECK(o2 == (m != n || k != n || neg ? 1 : 0), "a generalised polynomial throws exactly for different sizes or a negative power");
   if(neg || m != n) return;
   for(i64 i = 0; i < n; ++i) want1 = add(want1, mul(c[i], power(x, p[i])));
   CHECK(same(got1, n ? want1 : d), "a sparse polynomial is the sum of coefficients times powers of the argument");
   if(k != n) return;
   for(i64 i = 0; i < n; ++i) want2 = add(want2, mul(c[i], power(X[i], p[i])));
   CHECK(same(got2, n ? want2 : d), "a generalised polynomial is the sum of coefficients times powers of its arguments");
   CHECK(n || (same(polynomial(A, Strict<T>{x}, Q), T(0)) && same(gpolynomial(A, B, Q), T(0))), "polynomials of no terms are zero unless told otherwise");
}
HARNESS(sparse_int) { sparse<int, int>(); }
HARNESS(sparse_long) { sparse<long, int>(); }
HARNESS(sparse_double) { sparse<double, long>(); }
HARNESS(negative_power) {
   i64 n = pick("n", 1, 2), at = pick("at", 0, n - 1);
   auto c = symref<long>(n, "c"), X = symref<long>(n, "x");
   auto f = symref<double>(n, "f"), g = symref<double>(n, "g");
   long bad = sym<long>("p");
   if(!checkedops) { CHECK(true, "~not checked in this configuration"); return; }
   sym_assume(bad < 0);
   Ref<long> p;
   for(i64 i = 0; i < n; ++i) p.push(i == at ? bad : 1);
   auto A = mk(c), B = mk(X), Q = mk(p);
   auto F = mk(f), G = mk(g);
   int o1 = outcome([&] { (void)polynomial(A, Strict<long>{3L}, Q); }), o2 = outcome([&] { (void)gpolynomial(A, B, Q); });
   int o3 = outcome([&] { (void)stable_polynomial(F, Strict<double>{3.}, Q); }), o4 = outcome([&] { (void)stable_gpolynomial(F, G, Q); });
   CHECK(o1 == 1 && o2 == 1, "~polynomials throw for every negative power at any position");
   CHECK(o3 == 1 && o4 == 1, "~stable polynomials throw for every negative power at any position");
}

template <class T>
static void two_sum(T a, T b, T& s, T& e) {
   s = a + b;
   T z = s - a;
   e = (a - (s - z)) + (b - z);
}
template <class T, int C>
static T dot2(const Ref<T, C>& x, const Ref<T, C>& y) {
   T p = x[0] * y[0], s = std::fma(x[0], y[0], -p);
   for(i64 i = 1; i < x.n; ++i) {
      T h = x[i] * y[i], r = std::fma(x[i], y[i], -h), q, t;
      two_sum(p, h, t, q);
      p = t;
      s = s + (q + r);
   }
   return p + s;
}
// Compensated dot product of (c, c) with the powers and their errors.
template <class T>
static T stable(const Ref<T>& c, const Ref<T>& x, const Ref<long>& p) {
   Ref<T> a, b;
   for(int k = 0; k < 2; ++k)
      for(i64 i = 0; i < c.n; ++i) {
         auto pr = pow_prods(Strict<T>{x[i]}, ImplicitInt{p[i]});
         a.push(c[i]);
         b.push(k ? pr.second.val() : pr.first.val());
      }
   return dot2(a, b);
}
template <class T>
static void stables() {
   i64 n = pick("n", 0, stablen), m = pick("m", 0, 4) == 4 ? n + 1 : n, k = pick("k", 0, 4) == 4 ? n + 1 : n;
   if(!checkedops && (m != n || k != n)) return;
   auto c = symref<T>(n, "c"), X = symref<T>(k, "x");
   T d = sym<T>("d"), x = sym<T>("x0");
   Ref<long> p;
   bool neg = false;
   for(i64 i = 0; i < m; ++i) p.push(n == m && n == k ? pick("p", checkedops ? -1 : 0, maxp) : 1), neg |= p[i] < 0;
   auto A = mk(c), B = mk(X);
   auto Q = mk(p);
   T got1{}, got2{};
   int o1 = outcome([&] { got1 = stable_polynomial(A, Strict<T>{x}, Q, Strict<T>{d}).val(); });
   int o2 = outcome([&] { got2 = stable_gpolynomial(A, B, Q, Strict<T>{d}).val(); });
   CHECK(o1 == (m != n || neg ? 1 : 0), "a stable sparse polynomial throws exactly for different sizes or a negative power");
   CHECK(o2 == (m != n || k != n || neg ? 1 : 0), "a stable generalised polynomial throws exactly for different sizes or a negative power");
   if(neg || m != n) return;
   Ref<T> xs;
   Ref<long> all;
   for(i64 i = 0; i < n; ++i) xs.push(x), all.push(i);
   CHECK(same(stable_polynomial(A, Strict<T>{x}, Strict<T>{d}), n ? stable(c, xs, all) : d), "a stable dense polynomial is the compensated sum of coefficients times powers");
   CHECK(same(got1, n ? stable(c, xs, p) : d), "a stable sparse polynomial is the compensated sum of coefficients times powers");
   if(k != n) return;
   CHECK(same(got2, n ? stable(c, X, p) : d), "a stable generalised polynomial is the compensated sum of coefficients times powers");
}
HARNESS(stable_float) { stables<float>(); }
HARNESS(stable_double) { stables<double>(); }
