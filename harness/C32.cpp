//! configs: debug release
//! bounds: every range of int, long, unsigned, unsigned long, float and double (finite); every draw the standard distribution may return, with up to two zeros in a row; arrays and shapes of up to 3 (thorough 4) elements
//! assumes: std::random_device, std::mt19937 and the standard distributions are stand-ins that keep their documented contract: a distribution of a valid range returns any value of it, an engine and its copy return the same sequence. Real distributions may round up to their upper end. Draws of zero end
#include <cmath>
#include <limits>
#include <random>
#include <type_traits>
#include "sym.hpp"

namespace std {
inline int engines = 0;
struct sym_device {
   unsigned operator()() { return unsigned(sym_i32("entropy")); }
};
struct sym_engine {
   explicit sym_engine(unsigned) : id{engines++} {}
   int id, at = 0;
};
inline bool all_different = false; // every draw of an engine differs from its earlier ones
inline long zeros = 0;             // zeros drawn so far
template <class T>
struct sym_draws {
   T a, b;
   inline static T tab[16][12];
   inline static int known[16];
   inline static bool steer = false; // every draw that may be this value is
   inline static T want;
   sym_draws(T l, T h) : a{l}, b{h} { sym_check(l <= h, "the standard distribution is given a range that is not reversed"); }
   T operator()(sym_engine& e) {
      int id = e.id, k = e.at++;
      bool kept = id < 16 && k < 12; // later draws are not repeated by copies
      if(!kept || k >= known[id]) {
         T x;
         if constexpr(is_same_v<T, double>) x = sym_f64("draw");
         else if constexpr(is_same_v<T, float>) x = sym_f32("draw");
         else if constexpr(sizeof(T) == 8) x = T(sym_i64("draw"));
         else x = T(sym_i32("draw"));
         sym_assume(x >= a && x <= b);
         if(all_different && kept)
            for(int i = 0; i < k; ++i) sym_assume(tab[id][i] != x);
         if(steer && want >= a && want <= b) sym_assume(x == want);
         if(zeros >= 2) sym_assume(x != T(0));
         else if(x == T(0)) ++zeros;
         if(!kept) return x;
         tab[id][k] = x;
         known[id] = k + 1;
      }
      return tab[id][k];
   }
};
template <class T = int>
using sym_int_draws = sym_draws<T>;
template <class T = double>
using sym_real_draws = sym_draws<T>;
} // namespace std
#define random_device sym_device
#define mt19937 sym_engine
#define uniform_int_distribution sym_int_draws
#define uniform_real_distribution sym_real_draws
#include "common.hpp"

#ifdef THOROUGH
constexpr i64 maxn = 4;
#else
constexpr i64 maxn = 3;
#endif
template <class T>
struct Range {
   T lo = sym<T>("low"), hi = sym<T>("high");
   bool empty, zero; // nothing in it, nothing but zero in it
   explicit Range(bool not0 = false) {
      if constexpr(std::is_floating_point_v<T>) sym_assume(std::isfinite(lo) && std::isfinite(hi));
      empty = !(lo <= hi), zero = not0 && lo == 0 && hi == 0;
#ifdef STRICT_DEBUG_OFF
      sym_assume(!empty && !zero);
#endif
   }
   int want() const { return empty || zero ? 1 : 0; }
   template <class A>
   bool holds(const A& a, bool not0) const {
      bool ok = true;
      for(i64 i = 0; i < a.size().val(); ++i) ok &= a.un(i).val() >= lo && a.un(i).val() <= hi && (!not0 || a.un(i).val() != 0);
      return ok;
   }
};
template <class T>
static void values() {
   bool not0 = pick("not0", 0, 1), named = pick("named", 0, 1);
   Range<T> r{not0};
   Strict<T> lo{r.lo}, hi{r.hi};
   T x{};
   int o = outcome([&] {
      if(not0) x = (named ? rands_not0(Low{lo}, High{hi}) : rands_not0(lo, hi)).val();
      else x = (named ? rands(Low{lo}, High{hi}) : rands(lo, hi)).val();
   });
   CHECK(o == r.want(), "drawing throws exactly when low is above high or only zero could be drawn where it must not");
   if(o == 0) CHECK(x >= r.lo && x <= r.hi && (!not0 || x != 0), "a drawn value lies in the asked closed range and is not zero where it must not be");
}
HARNESS(values_int) { values<int>(); }
HARNESS(values_long) { values<long>(); }
HARNESS(values_unsigned) { values<unsigned>(); }
HARNESS(values_ulong) { values<unsigned long>(); }
HARNESS(values_float) { values<float>(); }
HARNESS(values_double) { values<double>(); }
template <class T>
static void defaults() {
   T a = rands<T>().val(), b = rands_not0<T>().val();
   CHECK(a >= 0 && a <= 1 && b > 0 && b <= 1, "without a range values are drawn between zero and one");
   i64 n = pick("n", 0, 2);
   Array1D<T> A(n, Strict<T>{T(7)}), B(n, Strict<T>{T(7)});
   Range<T> one;
   sym_assume(one.lo == T(0) && one.hi == T(1));
   switch(pick("how", 0, 5)) {
   case 0: random(A), random_not0(B); break;
   case 1: A = random<T>(n), B = random_not0<T>(n); break;
   case 2: A = random<T>(Size{n}), B = random_not0<T>(Size{n}); break;
   case 3: random(A, B), random_not0(B); break;
   case 4: random_not0(A, B); break;
   default: {
      Array2D<T> M = random<T>(n, n), N = random<T>(Rows{n}, Cols{n}), P = random_not0<T>(n, n), Q = random_not0<T>(Rows{n}, Cols{n});
      auto sq = [&](const auto& X, bool not0) { return X.rows().val() == n && X.cols().val() == n && one.holds(X, not0); };
      CHECK(sq(M, false) && sq(N, false) && sq(P, true) && sq(Q, true), "a random shape without a range has it and is drawn between zero and one");
      return;
   }
   }
   CHECK(A.size().val() == n && B.size().val() == n && one.holds(A, false) && one.holds(B, true), "without a range arrays are drawn between zero and one");
}
HARNESS(defaults_int) { std::zeros = 2, defaults<int>(); }
HARNESS(defaults_double) { std::zeros = 2, defaults<double>(); }
HARNESS(booleans) {
   i64 n = pick("n", 0, 2);
   Array1D<bool> A(n), B = random<bool>(n), C = random<bool>(Size{n});
   random(A);
   Array2D<bool> M = random<bool>(n, n);
   CHECK(A.size().val() == n && B.size().val() == n && C.size().val() == n && M.rows().val() == n && M.cols().val() == n, "random arrays of bool have the asked size");
}
template <class T>
static void arrays() {
   i64 n = pick("n", 0, maxn);
   bool not0 = pick("not0", 0, 1), named = pick("named", 0, 1);
   Range<T> r{not0};
   Strict<T> lo{r.lo}, hi{r.hi}, mark{T(7)};
   switch(pick("kind", 0, 5)) {
   case 0: {
      Array1D<T> A(n, mark);
      int o = outcome([&] {
         if(not0) named ? random_not0(A, Low{lo}, High{hi}) : random_not0(A, lo, hi);
         else named ? random(A, Low{lo}, High{hi}) : random(A, lo, hi);
      });
      CHECK(o == r.want() && A.size().val() == n, "filling an array throws exactly when its range is empty");
      if(o == 0) CHECK(r.holds(A, not0), "every element of a filled array lies in the range");
      bool ok = true;
      if(o)
         for(i64 i = 0; i < n; ++i) ok &= A.un(i).val() == T(7);
      CHECK(ok, "filling an array from an empty range changes nothing");
      break;
   }
   case 1: {
      Array1D<T> A;
      int o = outcome([&] {
         if(not0) named ? A.resize_and_assign(random_not0(Size{n}, Low{lo}, High{hi})) : A.resize_and_assign(random_not0(n, lo, hi));
         else named ? A.resize_and_assign(random(Size{n}, Low{lo}, High{hi})) : A.resize_and_assign(random(n, lo, hi));
      });
      CHECK(o == r.want(), "a random expression is refused exactly when its range is empty");
      if(o == 0) CHECK(A.size().val() == n && r.holds(A, not0), "a random expression has the asked size and lies in its range");
      break;
   }
   case 2: {
      i64 m = n ? pick("m", 1, 2) : 0;
      if(n > 2) return;
      Array2D<T> A;
      int o = outcome([&] {
         if(not0) named ? A.resize_and_assign(random_not0(Rows{m}, Cols{n}, Low{lo}, High{hi})) : A.resize_and_assign(random_not0(m, n, lo, hi));
         else named ? A.resize_and_assign(random(Rows{m}, Cols{n}, Low{lo}, High{hi})) : A.resize_and_assign(random(m, n, lo, hi));
      });
      CHECK(o == r.want(), "a 2D random expression is refused exactly when its range is empty");
      if(o == 0) CHECK(A.rows().val() == m && A.cols().val() == n && r.holds(A, not0), "a 2D random expression has the asked shape and lies in its range");
      break;
   }
   case 3: { // several arrays at once
      sym_assume(!r.want() && n <= 2);
      Array1D<T> A(n, mark);
      Array2D<T> B(n, n ? 1 : 0, mark);
      if(not0) named ? random_not0(A, B, Low{lo}, High{hi}) : random_not0(A, B, lo, hi);
      else named ? random(A, B, Low{lo}, High{hi}) : random(A, B, lo, hi);
      CHECK(r.holds(A, not0) && r.holds(B, not0), "every array of several lies in the range");
      break;
   }
   case 4: { // a part of an array
      sym_assume(!r.want());
      Array1D<T> A(3, mark);
      i64 k = n > 3 ? 3 : n;
      if(not0) random_not0(A(seqN{ImplicitInt{3 - k}, ImplicitInt{k}}), lo, hi);
      else random(A(seqN{ImplicitInt{3 - k}, ImplicitInt{k}}), lo, hi);
      bool ok = true;
      for(i64 i = 0; i < 3; ++i) {
         T x = A.un(i).val();
         ok &= i < 3 - k ? x == T(7) : x >= r.lo && x <= r.hi && (!not0 || x != 0);
      }
      CHECK(ok, "filling a slice draws its elements and leaves all others");
      break;
   }
   default: { // every element is a draw of its own
      sym_assume(!r.want());
      std::all_different = true;
      Array1D<T> A(n);
      if(named) not0 ? random_not0(A, lo, hi) : random(A, lo, hi);
      else if(not0) A = random_not0(n, lo, hi);
      else A = random(n, lo, hi);
      bool ok = true;
      for(i64 i = 0; i < n; ++i)
         for(i64 j = 0; j < i; ++j) ok &= A.un(i).val() != A.un(j).val();
      CHECK(ok, "every element is a draw of its own");
   }
   }
}
HARNESS(arrays_int) { arrays<int>(); }
HARNESS(arrays_long) { arrays<long>(); }
HARNESS(arrays_unsigned) { arrays<unsigned>(); }
HARNESS(arrays_float) { arrays<float>(); }
HARNESS(arrays_double) { arrays<double>(); }
// No value of the range is left out.
template <class T>
static void reach() {
   bool plain = pick("plain", 0, 1);
   Range<T> r;
   sym_assume(!r.want());
   if(plain) sym_assume(r.lo == T(0) && r.hi == T(1));
   Strict<T> lo{r.lo}, hi{r.hi};
   T x = sym<T>("x");
   sym_assume(x >= r.lo && x <= r.hi && x != T(0));
   std::sym_draws<T>::want = x, std::sym_draws<T>::steer = true;
   bool ok = false;
   auto one = [&](const auto& A) { ok = A.size().val() == 1 && A.un(0).val() == x; };
   Array1D<T> A(1);
   Array2D<T> B(1, 1);
   switch(pick("form", 0, 9)) {
   case 0: ok = (plain ? rands<T>() : rands(lo, hi)).val() == x; break;
   case 1: ok = (plain ? rands_not0<T>() : rands_not0(lo, hi)).val() == x; break;
   case 2: plain ? random(A) : random(A, lo, hi), one(A); break;
   case 3: plain ? random_not0(A) : random_not0(A, lo, hi), one(A); break;
   case 4: plain ? A = random<T>(1) : A = random(1, lo, hi), one(A); break;
   case 5: plain ? A = random_not0<T>(1) : A = random_not0(1, lo, hi), one(A); break;
   case 6: plain ? B = random<T>(1, 1) : B = random(1, 1, lo, hi), one(B); break;
   case 7: plain ? B = random_not0<T>(1, 1) : B = random_not0(1, 1, lo, hi), one(B); break;
   case 8: plain ? B = random<T>(Rows{1}, Cols{1}) : B = random(Rows{1}, Cols{1}, Low{lo}, High{hi}), one(B); break;
   default: plain ? A = random<T>(Size{1}) : A = random(Size{1}, Low{lo}, High{hi}), one(A);
   }
   CHECK(ok, "every value of the range can be drawn");
}
HARNESS(reach_int) { reach<int>(); }
HARNESS(reach_ulong) { reach<unsigned long>(); }
HARNESS(reach_double) { reach<double>(); }
HARNESS(reach_bool) {
   bool v[2][6];
   std::zeros = -100;
   std::sym_draws<int>::steer = true;
   for(int w = 0; w < 2; ++w) {
      std::sym_draws<int>::want = w;
      Array1D<bool> A(1), B = random<bool>(1), C = random<bool>(Size{1});
      random(A);
      Array2D<bool> D = random<bool>(1, 1), E = random<bool>(Rows{1}, Cols{1});
      v[w][0] = rands<bool>().val(), v[w][1] = A.un(0).val(), v[w][2] = B.un(0).val();
      v[w][3] = C.un(0).val(), v[w][4] = D.un(0).val(), v[w][5] = E.un(0).val();
   }
   bool ok = true;
   for(int k = 0; k < 6; ++k) ok &= v[0][k] != v[1][k];
   CHECK(ok, "random bools take both values");
}
