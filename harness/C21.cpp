//! configs: debug release
//! bounds: absolute value, sign, minimum, maximum, squares, cubes, clamps, intervals and classification for all values of int, long, unsigned, float, double (abss without MIN, which has no representable result); integer powers for all bases with exponents -3..12 (thorough -8..62); fast powers for all bases with exponents -9..9 (thorough -40..40) and all negative extremes that terminate; factorial for all arguments up to 20; binomial coefficients for all k <= n <= 66 (quick n <= 34 and n = 66), n >= k for k <= 1 and all n < 4096 for k = 2
//! assumes: integer results that are not representable are excluded (they wrap); functions of libm are uninterpreted, so only which function is called on what is decided for them
//! query-ms: 60000
#include "common.hpp"
#include <cmath>
#include <limits>

#ifdef STRICT_DEBUG_OFF
constexpr bool checkedops = false;
#else
constexpr bool checkedops = true;
#endif

template <class T>
static bool isnans_(T x) { return x != x; }

template <class T>
static void basic() {
   T x = sym<T>("x"), y = sym<T>("y");
   Strict<T> a{x}, b{y};
   bool nanx = x != x, nany = y != y;
   if(!nanx) CHECK(same(signs(a), x > T(0) ? T(1) : x < T(0) ? T(-1) : T(0)), "signs gives -1, 0 or 1");
   if constexpr(std::is_unsigned_v<T>) CHECK(same(abss(a), x), "abss of an unsigned value is the value");
   else if(nanx) CHECK(isnans_(abss(a).val()), "~abss of NaN is NaN");
   else {
      if constexpr(std::is_integral_v<T>) sym_assume(x != std::numeric_limits<T>::min());
      CHECK(same(abss(a), x > T(0) ? x : T(T(0) - x)), "~abss gives the absolute value");
   }
   auto lo = mins(a, b), hi = maxs(a, b);
   if(!nanx && !nany) {
      CHECK((lo.val() == x || lo.val() == y) && lo.val() <= x && lo.val() <= y, "mins gives the smaller value");
      CHECK((hi.val() == x || hi.val() == y) && hi.val() >= x && hi.val() >= y, "maxs gives the larger value");
   } else {
      CHECK((same(lo, x) || same(lo, y)) && (same(hi, x) || same(hi, y)), "~mins and maxs give one of their arguments");
   }
}
template <class T>
static void basic2() {
   T x = sym<T>("x");
   Strict<T> a{x};
   if constexpr(std::is_integral_v<T>) {
      using U = std::make_unsigned_t<T>;
      CHECK(same(squares(a), static_cast<T>(U(x) * U(x))), "squares gives x * x");
      CHECK(same(cubes(a), static_cast<T>(U(x) * U(x) * U(x))), "cubes gives x * x * x");
   } else {
      CHECK(same(squares(a), x * x), "squares gives x * x");
      CHECK(same(cubes(a), x * x * x), "cubes gives x * x * x");
      CHECK(same(invs(a), T(1) / x), "invs gives 1 / x");
   }
}
HARNESS(basic_int) { basic<int>(); basic2<int>(); }
HARNESS(basic_long) { basic<long>(); basic2<long>(); }
HARNESS(basic_unsigned) { basic<unsigned>(); basic2<unsigned>(); }
HARNESS(basic_float) { basic<float>(); basic2<float>(); }
HARNESS(basic_double) { basic<double>(); basic2<double>(); }

template <class T>
static void absint() {
   T x = sym<T>("x");
   sym_assume(x != std::numeric_limits<T>::min());
   Strict<T> r = abss(Strict<T>{x});
   CHECK(r.val() >= T(0) && (r.val() == x || r.val() == T(0) - x), "abss gives the absolute value of an integer");
}
template <class T>
static void absfloat() {
   T x = sym<T>("x");
   if(x != x) return;
   CHECK(same(abss(Strict<T>{x}), std::fabs(x)), "abss gives the absolute value of a floating point number, without a sign");
}
HARNESS(abs_values) {
   absint<int>();
   absint<long>();
   absfloat<float>();
   absfloat<double>();
}

template <class T>
static void classify() {
   T x = sym<T>("x"), y = sym<T>("y"), z = sym<T>("z");
   Strict<T> a{x}, b{y}, c{z};
   bool nan = x != x, inf = x == std::numeric_limits<T>::infinity() || x == -std::numeric_limits<T>::infinity();
   CHECK(isnans(a).val() == nan, "isnans holds for NaN only");
   CHECK(isinfs(a).val() == inf, "isinfs holds for the infinities only");
   CHECK(isfinites(a).val() == (!nan && !inf), "isfinites holds for everything else");
   CHECK(same(exps(a), std::exp(x)) && same(logs(a), std::log(x)) && same(log2s(a), std::log2(x)) && same(log10s(a), std::log10(x)), "exponentials and logarithms are those of the standard library");
   CHECK(same(sqrts(a), std::sqrt(x)) && same(cbrts(a), std::cbrt(x)), "roots are those of the standard library");
   CHECK(same(sins(a), std::sin(x)) && same(coss(a), std::cos(x)) && same(tans(a), std::tan(x)), "trigonometric functions are those of the standard library");
   CHECK(same(floors(a), std::floor(x)) && same(ceils(a), std::ceil(x)), "floors and ceils are those of the standard library");
   CHECK(same(pows(a, b), std::pow(x, y)) && same(fmas(a, b, c), std::fma(x, y, z)), "powers and fused multiply-add are those of the standard library");
}
HARNESS(classify_float) { classify<float>(); }
HARNESS(classify_double) { classify<double>(); }

#ifdef THOROUGH
constexpr i64 maxpow = 62, minpow = -8, fastpow = 40, binomn = 66;
#else
constexpr i64 maxpow = 12, minpow = -3, fastpow = 9, binomn = 34;
#endif
template <class T>
static void intpow() {
   T x = sym<T>("x");
   i64 p = pick("p", std::is_unsigned_v<T> ? 0 : minpow, maxpow);
   Strict<T> r{};
   if(!checkedops && p < 0) return;
   int o = outcome([&] { r = pows(Strict<T>{x}, Strict<T>{T(p)}); });
   CHECK(o == (p < 0 ? 1 : 0), "an integer power throws exactly for a negative exponent");
   if(p < 0) return;
   using U = std::make_unsigned_t<T>;
   U want = 1;
   for(i64 k = 0; k < p; ++k) want *= U(x);
   CHECK(same(r, static_cast<T>(want)), "an integer power is the repeated product");
}
HARNESS(intpow_int) { intpow<int>(); }
HARNESS(intpow_long) { intpow<long>(); }
HARNESS(intpow_unsigned) { intpow<unsigned long>(); }
HARNESS(intpow_negative) {
   i64 p = sym<long>("p"), x = sym<long>("x");
   sym_assume(p < 0);
   if(!checkedops) { CHECK(true, "~not checked in this configuration"); return; }
   int o = outcome([&] { (void)pows(Strict<long>{x}, Strict<long>{p}); });
   CHECK(o == 1, "~an integer power throws for every negative exponent");
}

// Exact on powers of two whatever the order of the products; equal to the binary method on all values.
template <class T>
static void fastpows() {
   T x = sym<T>("x");
   i64 p = pick("p", -fastpow, fastpow);
   i64 q = p < 0 ? -p : p;
   T want = T(1), s = x;
   for(i64 b = q; b > 0; b >>= 1) {
      if(b & 1) want = want * s;
      s = s * s;
   }
   if(p < 0) want = T(1) / want;
   CHECK(same(fast_pows_int(Strict<T>{x}, ImplicitInt{p}), want), "fast_pows_int multiplies by repeated squaring");
   CHECK(same(pows_int(Strict<T>{x}, ImplicitInt{p}), std::pow(x, T(p))), "pows_int is the standard power");
   CHECK(same(exps_int<T>(ImplicitInt{p}), std::exp(T(p))), "exps_int is the standard exponential");
   if(q < 20) {
      CHECK(same(fast_pows_int(Strict<T>{T(2)}, ImplicitInt{p}), p < 0 ? T(1) / T(1L << q) : T(1L << q)), "fast_pows_int of two is exact");
      CHECK(same(fast_pows_int(Strict<T>{T(-1)}, ImplicitInt{p}), q % 2 ? T(-1) : T(1)), "fast_pows_int of minus one is its sign");
   }
}
HARNESS(fastpow_float) { fastpows<float>(); }
HARNESS(fastpow_double) { fastpows<double>(); }
HARNESS(pow_int_symbolic) {
   double x = sym<double>("x");
   i64 p = sym<long>("p");
   CHECK(same(pows_int(Strict<double>{x}, ImplicitInt{p}), std::pow(x, double(p))) && same(exps_int<double>(ImplicitInt{p}), std::exp(double(p))), "pows_int and exps_int convert any exponent");
}

HARNESS(factorials) {
   i64 n = sym<long>("n");
   sym_assume(n <= 20);
   if(!checkedops) sym_assume(n >= 0);
   i64 got = -1;
   int o = outcome([&] { got = factorial(ImplicitInt{n}).val(); });
   CHECK(o == (n < 0 ? 1 : 0), "factorial throws exactly for a negative argument");
   if(o) return;
   i64 m = sym_conc(n), want = 1;
   for(i64 k = 2; k <= m; ++k) want *= k;
   CHECK(got == want, "factorial is the product of 1..n");
}
HARNESS(binom_invalid) {
   i64 n = sym<long>("n"), k = sym<long>("k");
   if(!checkedops) { CHECK(true, "~not checked in this configuration"); return; }
   sym_assume(k < 0 || n < k);
   int o = outcome([&] { (void)binom_coeff(ImplicitInt{n}, ImplicitInt{k}); });
   CHECK(o == 1, "~binom_coeff throws for every k below zero or above n");
}
static void binom(i64 n, i64 k) {
   i64 row[70] = {1};
   for(i64 i = 1; i <= n; ++i)
      for(i64 j = i; j > 0; --j) row[j] += row[j - 1];
   i64 got = -1;
   int o = outcome([&] { got = binom_coeff(ImplicitInt{n}, ImplicitInt{k}).val(); });
   CHECK(o == 0 && got == row[k], "binom_coeff is the entry of Pascal's triangle");
}
HARNESS(binoms) {
   i64 n = pick("n", 0, binomn);
   binom(n, pick("k", 0, n));
}
HARNESS(binom_largest) { binom(66, pick("k", 0, 66)); }
HARNESS(binom_any_n) {
   i64 n = sym<long>("n"), k = pick("k", 0, 2);
   sym_assume(n >= k);
   if(k == 2) sym_assume(n < 4096);
   i64 got = -1;
   int o = outcome([&] { got = binom_coeff(ImplicitInt{n}, ImplicitInt{k}).val(); });
   CHECK(o == 0 && got == (k == 0 ? 1 : k == 1 ? n : n * (n - 1) / 2), "binom_coeff of small k is exact for any n");
}

template <class T>
static void intervals() {
   T x = sym<T>("x"), lo = sym<T>("lo"), hi = sym<T>("hi");
   bool nan = x != x || lo != lo || hi != hi, bad = !(lo <= hi), badc = bad || nan;
   Strict<T> a{x}, l{lo}, h{hi}, r{}, r2{};
   bool in = false, in2 = false, op = false, op2 = false;
   auto clamp1 = [&] { r = clamps(a, l, h); };
   auto clamp2 = [&] { r2 = clamps(a, Low{l}, High{h}); };
   if(checkedops || !badc) {
      int c1 = outcome(clamp1), c2 = outcome(clamp2);
      CHECK(c1 == (badc ? 1 : 0) && c2 == c1, "clamps throws exactly when low is above high or an argument is NaN");
      if(!badc) {
         T want = x < lo ? lo : x > hi ? hi : x;
         CHECK(r.val() == want && r2.val() == want, "clamps gives the nearest value of the interval");
      }
   }
   if(checkedops || !bad) {
      int c1 = outcome([&] { in = in_closed(a, l, h).val(); }), c2 = outcome([&] { in2 = in_closed(Value{a}, Low{l}, High{h}).val(); });
      int c3 = outcome([&] { op = in_open(a, l, h).val(); }), c4 = outcome([&] { op2 = in_open(Value{a}, Low{l}, High{h}).val(); });
      int want = bad ? 1 : 0;
      CHECK(c1 == want && c2 == want && c3 == want && c4 == want, "interval tests throw exactly when low is not at most high");
      if(!bad) {
         CHECK(in == (lo <= x && x <= hi) && in2 == in, "in_closed holds exactly inside the closed interval");
         CHECK(op == (lo < x && x < hi) && op2 == op, "in_open holds exactly inside the open interval");
      }
   }
}
HARNESS(intervals_int) { intervals<int>(); }
HARNESS(intervals_ulong) { intervals<unsigned long>(); }
HARNESS(intervals_float) { intervals<float>(); }
HARNESS(intervals_double) { intervals<double>(); }
