//! configs: debug
//! bounds: 1D arrays of 0..4 elements, 2D arrays up to 2x2 (0..6, 3x2 in the thorough tier), as arrays, slices, index lists and expressions; int, long, unsigned, bool, float, double; all contents, values and defaults
//! assumes: predicates passed by the user are pure
#include "common.hpp"
#include <limits>
#ifdef THOROUGH
constexpr i64 N1 = 6, M2 = 3;
#else
constexpr i64 N1 = 4, M2 = 2;
#endif

template <class T, class F>
static void over(F f) {
   if(pick("dims", 1, 2) == 1) {
      i64 n = pick("n", 0, N1);
      auto a = symref<T>(n, "a");
      Array1D<T> A = mk(a);
      const auto& cA = A;
      T w[8];
      switch(pick("kind", 0, 3)) {
      case 0: f(A, n, a.v); break;
      case 1: f(cA, n, a.v); break;
      case 2:
         for(i64 i = 0; i < n; ++i) w[i] = a[n - 1 - i];
         f(A(place::reverse), n, w);
         break;
      case 3: {
         std::vector<ImplicitInt> ix;
         i64 k = 0;
         for(i64 i = n - 1; i >= 0; i -= 2) ix.push_back(i), w[k++] = a[i];
         f(cA(ix), k, w);
      }
      }
   } else {
      i64 m = pick("m", 0, M2), n = m ? pick("n", 1, 2) : 0;
      auto a = symref2<T>(m, n, "a");
      Array2D<T> A = mk(a);
      T w[8];
      switch(pick("kind", 0, 2)) {
      case 0: f(A, m * n, a.v); break;
      case 1:
         for(i64 i = 0; i < m * n; ++i) w[i] = a.v[m * n - 1 - i];
         f(std::as_const(A)(place::reverse, place::reverse), m * n, w);
         break;
      case 2: f(A.view1D(), m * n, a.v); break;
      }
   }
}
// Whether the elements satisfy p: for all, for some.
template <class T, class P>
static std::pair<bool, bool> quant(i64 n, const T* v, P p) {
   bool all = true, any = false;
   for(i64 i = 0; i < n; ++i) {
      bool b = p(v[i]);
      all = all & b, any = any | b;
   }
   return {all, any};
}
static StrictBool sb(bool b) { return StrictBool{b}; }
// got: with a default; plain: without one
static bool agrees(i64 n, StrictBool got, StrictBool plain, bool want, bool d, bool plaind) {
   if(n == 0) return got.val() == d && plain.val() == plaind;
   return got.val() == want && plain.val() == want;
}

template <class T>
static auto byvalue = [](const auto& A, i64 n, const T* v) {
   T x = sym<T>("x");
   bool d = sym<bool>("d");
   auto [all, any] = quant(n, v, [&](T y) { return y == x; });
   Strict<T> s{x};
   CHECK(agrees(n, all_of(A, s, sb(d)), all_of(A, s), all, d, false), "all_of a value: every element equals it, or the default");
   CHECK(agrees(n, any_of(A, s, sb(d)), any_of(A, s), any, d, false), "any_of a value: some element equals it, or the default");
   CHECK(agrees(n, none_of(A, s, sb(d)), none_of(A, s), !any, d, false), "none_of a value: no element equals it, or the default");
   if constexpr(!std::is_same_v<T, bool>) {
      Value<T> val{s};
      CHECK(agrees(n, all_of(A, val, sb(d)), all_of(A, val), all, d, false), "all_of Value{x} agrees with all_of x");
      CHECK(agrees(n, any_of(A, val, sb(d)), any_of(A, val), any, d, false), "any_of Value{x} agrees with any_of x");
      CHECK(agrees(n, none_of(A, val, sb(d)), none_of(A, val), !any, d, false), "none_of Value{x} agrees with none_of x");
   }
   auto p = [&](Strict<T> y) { return y != s; };
   auto [alln, anyn] = quant(n, v, [&](T y) { return y != x; });
   CHECK(agrees(n, all_of(A, p, sb(d)), all_of(A, p), alln, d, false), "all_of a predicate: it holds for every element");
   CHECK(agrees(n, any_of(A, p, sb(d)), any_of(A, p), anyn, d, false), "any_of a predicate: it holds for some element");
   CHECK(agrees(n, none_of(A, p, sb(d)), none_of(A, p), !anyn, d, false), "none_of a predicate: it holds for no element");
};
HARNESS(value_int) { over<int>(byvalue<int>); }
HARNESS(value_double) { over<double>(byvalue<double>); }
HARNESS(value_bool) { over<bool>(byvalue<bool>); }
HARNESS_T(value_unsigned) { over<unsigned>(byvalue<unsigned>); }

template <class T>
static auto signp = [](const auto& A, i64 n, const T* v) {
   bool d = sym<bool>("d");
   auto q = [&](auto p) { return quant(n, v, p); };
   CHECK(agrees(n, has_zero(A, sb(d)), has_zero(A), q([](T x) { return x == T(0); }).second, d, false), "has_zero: some element is zero");
   CHECK(agrees(n, all_zeros(A, sb(d)), all_zeros(A), q([](T x) { return x == T(0); }).first, d, false), "all_zeros: every element is zero");
   CHECK(agrees(n, all_pos(A, sb(d)), all_pos(A), q([](T x) { return x > T(0); }).first, d, false), "all_pos: every element is positive");
   CHECK(agrees(n, all_neg(A, sb(d)), all_neg(A), q([](T x) { return x < T(0); }).first, d, false), "all_neg: every element is negative");
   CHECK(agrees(n, all_non_pos(A, sb(d)), all_non_pos(A), q([](T x) { return x <= T(0); }).first, d, false), "all_non_pos: no element is positive");
   CHECK(agrees(n, all_non_neg(A, sb(d)), all_non_neg(A), q([](T x) { return x >= T(0); }).first, d, false), "all_non_neg: no element is negative");
};
HARNESS(signs_long) { over<long>(signp<long>); }
HARNESS(signs_unsigned) { over<unsigned>(signp<unsigned>); }
HARNESS(signs_double) { over<double>(signp<double>); }
HARNESS_T(signs_int) { over<int>(signp<int>); }

template <class T>
static auto classes = [](const auto& A, i64 n, const T* v) {
   bool d = sym<bool>("d");
   T big = std::numeric_limits<T>::max();
   auto q = [&](auto p) { return quant(n, v, p); };
   CHECK(agrees(n, all_finite(A, sb(d)), all_finite(A), q([=](T x) { return (x <= big) & (x >= -big); }).first, d, true), "all_finite: no element is infinite or NaN");
   CHECK(agrees(n, has_inf(A, sb(d)), has_inf(A), q([=](T x) { return (x > big) | (x < -big); }).second, d, false), "has_inf: some element is infinite");
   CHECK(agrees(n, has_nan(A, sb(d)), has_nan(A), q([](T x) { return x != x; }).second, d, false), "has_nan: some element is NaN");
};
HARNESS(classes_double) { over<double>(classes<double>); }
HARNESS(classes_float) { over<float>(classes<float>); }

// Two arrays at a time: sizes must agree; pairs are taken at the same place.
template <class T, class U, class A, class B>
static void pairs(const A& a, const B& b, bool samesize, i64 n, const T* v, const U* w) {
   bool d = sym<bool>("d");
   i64 k = sym_i64("shift");
   auto p = [=](Strict<T> x, Strict<U> y) { return Strict{static_cast<i64>(x.val())} < Strict{static_cast<i64>(y.val()) ^ k}; };
   bool all = true, any = false, r[6]{};
   int o[6];
   o[0] = outcome([&] { r[0] = all_of(a, b, p, sb(d)).val(); });
   o[1] = outcome([&] { r[1] = any_of(a, b, p, sb(d)).val(); });
   o[2] = outcome([&] { r[2] = none_of(a, b, p, sb(d)).val(); });
   o[3] = outcome([&] { r[3] = all_of(a, b, p).val(); });
   o[4] = outcome([&] { r[4] = any_of(a, b, p).val(); });
   o[5] = outcome([&] { r[5] = none_of(a, b, p).val(); });
   if(!samesize) {
      CHECK(o[0] == 1 && o[1] == 1 && o[2] == 1 && o[3] == 1 && o[4] == 1 && o[5] == 1, "two-array predicates throw for different sizes");
      return;
   }
   CHECK(!o[0] && !o[1] && !o[2] && !o[3] && !o[4] && !o[5], "two-array predicates are defined for one size");
   for(i64 i = 0; i < n; ++i) {
      bool x = static_cast<i64>(v[i]) < (static_cast<i64>(w[i]) ^ k);
      all = all & x, any = any | x;
   }
   if(!n) {
      CHECK(r[0] == d && r[1] == d && r[2] == d && !r[3] && !r[4] && !r[5], "two-array predicates give the default on nothing");
      return;
   }
   CHECK(r[0] == all && r[3] == all, "all_of two arrays: the predicate holds for every pair");
   CHECK(r[1] == any && r[4] == any, "any_of two arrays: the predicate holds for some pair");
   CHECK(r[2] == !any && r[5] == !any, "none_of two arrays: the predicate holds for no pair");
}
HARNESS(pairs1) {
   i64 n = pick("n", 0, N1), m = pick("m", 0, N1);
   auto a = symref<i64>(n, "a");
   auto b = symref<int>(m, "b");
   Array1D<i64> A = mk(a);
   Array1D<int> B = mk(b);
   int w[8];
   if(pick("kind", 0, 1)) pairs(A, B, n == m, n, a.v, b.v);
   else {
      for(i64 i = 0; i < m; ++i) w[i] = ~b[m - 1 - i];
      pairs(A(place::all), ~B(place::reverse), n == m, n, a.v, w);
   }
}
HARNESS(pairs2) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0, k = pick("k", 0, 2), l = k ? pick("l", 1, 2) : 0;
   auto a = symref2<i64>(m, n, "a");
   auto b = symref2<int>(k, l, "b");
   Array2D<i64> A = mk(a);
   Array2D<int> B = mk(b);
   pairs(A, B, m == k && n == l, m * n, a.v, b.v);
}
