//! configs: debug
//! defs: -D__TIME__="00:00:00"
//! bounds: integers: all ranges of int (width below 2^31-1) and unsigned (2^32-1), and of long with widths of 1, 2, 3, 6, 9, 99, 9999999 or 10^7..2^63-2, and all 32-bit seeds for one value; all ranges of -8..8 and 16 seeds for arrays of up to 2 (thorough 3) elements; the non-zero variants for all seeds and the ranges -1..0, -1..2, -3..4, for 8 seeds and the ranges 0..1, -1..1, 0..2, -2..0; floating point: all seeds and the ranges 0..1, -1..1, 2..2, -4..-0.5, 0..1e-300 (float 1e-40)
//! assumes: ranges whose width is not representable in the element type are excluded (their size wraps to zero); for floating point the upper end may be exceeded by one rounding in ranges other than those listed
#include "common.hpp"

template <class T>
static void any() {
   T lo = sym<T>("low"), hi = sym<T>("high");
   Strict<unsigned> seed{unsigned(sym_i32("seed"))};
   using U = std::make_unsigned_t<T>;
   constexpr U top = std::is_signed_v<T> ? U(-1) / 2 : U(-1);
   if(hi >= lo) {
      U w = U(hi) - U(lo);
      sym_assume(w < top);
      if(sizeof(T) == 8) { // 64-bit remainders by every divisor are out of the solvers' reach
         static const U W[] = {1, 2, 3, 6, 9, 99, 9999999};
         i64 k = pick("width", 0, 7);
         if(k < 7) hi = T(U(lo) + W[k]);
         else sym_assume(w >= 10000000);
         if(k < 7) sym_assume(hi >= lo);
      }
   }
   T r{};
   bool named = pick("named", 0, 1);
   int o = outcome([&] { r = (named ? semi_rands(Low{Strict{lo}}, High{Strict{hi}}, Seed{seed}) : semi_rands(Strict{lo}, Strict{hi}, Seed{seed})).val(); });
   CHECK(o == (lo <= hi ? 0 : 1), "semi_rands throws exactly when low is above high");
   if(o) return;
   CHECK(r >= lo && r <= hi, "semi_rands stays in its closed range");
}
HARNESS(any_int) { any<int>(); }
HARNESS(any_unsigned) { any<unsigned>(); }
HARNESS(any_long) { any<long>(); }

// Ranges in which zero cannot come twice in a row: shows that the generation ends.
HARNESS(not0_all_seeds) {
   static const int L[][2] = {{-1, 0}, {-1, 2}, {-3, 4}};
   auto p = L[pick("range", 0, 2)];
   Strict<unsigned> seed{unsigned(sym_i32("seed"))};
   int r = 0;
   int o = outcome([&] { r = semi_rands_not0(Strict{p[0]}, Strict{p[1]}, Seed{seed}).val(); });
   CHECK(o == 0 && r >= p[0] && r <= p[1] && r != 0, "semi_rands_not0 ends and stays in its closed range without zero");
}
HARNESS(not0_few_seeds) {
   static const int L[][2] = {{0, 1}, {-1, 1}, {0, 2}, {-2, 0}};
   auto p = L[pick("range", 0, 3)];
   Strict<unsigned> seed{unsigned(sym_i32("seed")) & 7};
   int r = 0;
   int o = outcome([&] { r = semi_rands_not0(Low{Strict{p[0]}}, High{Strict{p[1]}}, Seed{seed}).val(); });
   CHECK(o == 0 && r >= p[0] && r <= p[1] && r != 0, "semi_rands_not0 of a named range ends and stays in it without zero");
}
HARNESS(not0_args) {
   int lo = sym_i32("low"), hi = sym_i32("high");
   sym_assume(lo > hi || (lo == 0 && hi == 0));
   CHECK(outcome([&] { (void)semi_rands_not0(Strict{lo}, Strict{hi}); }) == 1, "semi_rands_not0 throws when low is above high or nothing but zero is left");
   CHECK(outcome([&] { (void)semi_random_not0<int>(2, Strict{lo}, Strict{hi}); }) == 1, "semi_random_not0 throws when low is above high or nothing but zero is left");
   Array1D<int> A{1_si};
   CHECK(outcome([&] { semi_random_not0(A, Strict{lo}, Strict{hi}); }) == 1 && A[0].val() == 1, "semi_random_not0 of an array throws and changes nothing");
   if(lo > hi) {
      CHECK(outcome([&] { semi_random(A, Strict{lo}, Strict{hi}); }) == 1 && A[0].val() == 1, "semi_random of an array throws when low is above high and changes nothing");
      CHECK(outcome([&] { (void)semi_random<int>(1, 1, Strict{lo}, Strict{hi}); }) == 1, "semi_random of a shape throws when low is above high");
      CHECK(outcome([&] { (void)semi_random<int>(Size{1}, Low{Strict{lo}}, High{Strict{hi}}); }) == 1, "semi_random of a size throws when low is above high");
   }
}
HARNESS(defaults) {
   Strict<unsigned> seed{unsigned(sym_i32("seed"))};
   int r = semi_rands<int>(Seed{seed}).val();
   CHECK(r == 0 || r == 1, "semi_rands without a range is zero or one");
   bool b = semi_rands<bool>(Seed{seed}).val();
   CHECK(b == true || b == false, "semi_rands of bool is a bool");
   CHECK(semi_rands_not0<int>(Seed{Strict<unsigned>{seed.val() & 7}}).val() == 1, "semi_rands_not0 of integers without a range is one");
}

template <class A>
static bool within(const A& a, int lo, int hi, bool not0) {
   bool ok = true;
   for(i64 i = 0; i < a.size().val(); ++i) ok &= a.un(i).val() >= lo && a.un(i).val() <= hi && (!not0 || a.un(i).val() != 0);
   return ok;
}
#ifdef THOROUGH
constexpr i64 maxn = 3;
#else
constexpr i64 maxn = 2;
#endif
// every way of asking for a random expression: shapes and ranges
HARNESS(forms) {
   i64 m = pick("m", 1, 2), n = pick("n", 1, 2);
   Seed seed{Strict<unsigned>{unsigned(sym_i32("seed")) & 7}};
   auto ok1 = [&](const Array1D<int>& A, int lo, int hi, bool z = false) { return A.size().val() == n && within(A, lo, hi, z); };
   auto ok2 = [&](const Array2D<int>& A, int lo, int hi, bool z = false) { return A.rows().val() == m && A.cols().val() == n && within(A, lo, hi, z); };
   Strict lo{-1}, hi{2};
   switch(pick("form", 0, 11)) {
   case 0: CHECK(ok1(semi_random<int>(Size{n}, Low{lo}, High{hi}, seed), -1, 2), "semi_random of a named size and range has that size and stays in it"); break;
   case 1: CHECK(ok2(semi_random<int>(Rows{m}, Cols{n}, Low{lo}, High{hi}, seed), -1, 2), "semi_random of a named shape and range has that shape and stays in it"); break;
   case 2: CHECK(ok2(semi_random<int>(m, n, seed), 0, 1), "semi_random of a shape is zero or one"); break;
   case 3: CHECK(ok2(semi_random<int>(Rows{m}, Cols{n}, seed), 0, 1), "semi_random of a named shape is zero or one"); break;
   case 4: CHECK(ok1(semi_random_not0<int>(Size{n}, Low{lo}, High{hi}, seed), -1, 2, true), "semi_random_not0 of a named size and range has that size and stays in it without zero"); break;
   case 5: CHECK(ok2(semi_random_not0<int>(Rows{m}, Cols{n}, Low{lo}, High{hi}, seed), -1, 2, true), "semi_random_not0 of a named shape and range has that shape and stays in it without zero"); break;
   case 6: CHECK(ok1(semi_random_not0<int>(n, seed), 1, 1), "semi_random_not0 of a size is one"); break;
   case 7: CHECK(ok1(semi_random_not0<int>(Size{n}, seed), 1, 1), "semi_random_not0 of a named size is one"); break;
   case 8: CHECK(ok2(semi_random_not0<int>(m, n, seed), 1, 1), "semi_random_not0 of a shape is one"); break;
   case 9: CHECK(ok2(semi_random_not0<int>(Rows{m}, Cols{n}, seed), 1, 1), "semi_random_not0 of a named shape is one"); break;
   case 10: {
      Array1D<int> A(n), B(n, 5_si), C(n);
      semi_random_not0(A, Low{lo}, High{hi}, seed);
      semi_random_not0(C, B);
      CHECK(ok1(A, -1, 2, true) && ok1(B, 1, 1) && ok1(C, 1, 1), "semi_random_not0 fills every array it is given");
      break;
   }
   default: {
      Array1D<int> A(n, 5_si);
      Array2D<int> B(m, n, 5_si);
      semi_random(A, B);
      CHECK(ok1(A, 0, 1) && ok2(B, 0, 1), "semi_random fills every array it is given with zeros and ones");
   }
   }
}
HARNESS(single) {
   int x = sym_i32("x");
   sym_assume(x != 0 && x != 2147483647 && x != -2147483647 - 1);
   Strict v{x};
   Seed seed{Strict<unsigned>{unsigned(sym_i32("seed"))}};
   auto all = [&](const auto& A) { return A.size().val() == 1 && A.un(0).val() == x; };
   CHECK(semi_rands(v, v, seed).val() == x && semi_rands_not0(v, v, seed).val() == x, "a range of one value gives that value");
   Array1D<int> A(1), B(1);
   semi_random(A, v, v, seed), semi_random_not0(B, v, v, seed);
   CHECK(all(A) && all(B), "an array filled from a range of one value has that value");
   Array1D<int> C = semi_random<int>(1, v, v, seed), D = semi_random_not0<int>(1, v, v, seed);
   Array2D<int> E = semi_random<int>(1, 1, v, v, seed), F = semi_random_not0<int>(1, 1, v, v, seed);
   CHECK(all(C) && all(D) && all(E) && all(F), "a random expression of a range of one value has that value");
}
HARNESS(arrays) {
   i64 n = pick("n", 0, maxn);
   int lo = sym_i32("low"), hi = sym_i32("high");
   sym_assume(lo >= -8 && lo <= hi && hi <= 8);
   Seed seed{Strict<unsigned>{unsigned(sym_i32("seed")) & 15}};
   switch(pick("kind", 0, 4)) {
   case 0: {
      Array1D<int> A(n);
      semi_random(A, Strict{lo}, Strict{hi}, seed);
      CHECK(A.size().val() == n && within(A, lo, hi, false), "semi_random fills an array from the closed range");
      break;
   }
   case 1: {
      Array2D<int> A(n, n);
      semi_random(A, Low{Strict{lo}}, High{Strict{hi}}, seed);
      CHECK(A.rows().val() == n && within(A, lo, hi, false), "semi_random fills a 2D array from the closed range");
      break;
   }
   case 2: {
      Array1D<int> A(3, 9_si);
      if(n < 3) semi_random(A(seqN{0, ImplicitInt{n}}), Strict{lo}, Strict{hi}, seed);
      bool ok = true;
      for(i64 i = n; i < 3; ++i) ok &= A.un(i).val() == 9;
      CHECK(ok, "semi_random of a slice changes nothing else");
      break;
   }
   case 3: {
      Array2D<int> A = semi_random<int>(n, n, Strict{lo}, Strict{hi}, seed);
      CHECK(A.rows().val() == n && A.cols().val() == n && within(A, lo, hi, false), "a random expression of a shape has it and lies in the closed range");
      break;
   }
   default: {
      Array1D<int> A = semi_random<int>(n, seed), B = semi_random<int>(Size{n}, seed);
      CHECK(A.size().val() == n && within(A, 0, 1, false) && within(B, 0, 1, false), "a random expression without a range is zero or one");
   }
   }
}
HARNESS(arrays_not0) {
   i64 n = pick("n", 0, maxn);
   Seed seed{Strict<unsigned>{unsigned(sym_i32("seed")) & 3}};
   switch(pick("kind", 0, 2)) {
   case 0: {
      Array1D<int> A(n);
      semi_random_not0(A, -1_si, 2_si, seed);
      CHECK(within(A, -1, 2, true), "semi_random_not0 fills an array without zero");
      break;
   }
   case 1: {
      Array1D<int> A = semi_random_not0<int>(n, -1_si, 0_si, seed);
      CHECK(A.size().val() == n && within(A, -1, 0, true), "a random expression without zero has none");
      break;
   }
   default: {
      Array2D<int> A = semi_random_not0<int>(n, n, -3_si, 4_si, seed);
      CHECK(A.size().val() == n * n && within(A, -3, 4, true), "a 2D random expression without zero has none");
   }
   }
}

template <class T>
static void real(T lo, T hi) {
   Strict<unsigned> seed{unsigned(sym_i32("seed"))};
   T r = semi_rands(Strict<T>{lo}, Strict<T>{hi}, Seed{seed}).val();
   CHECK(r >= lo && r <= hi, "floating point semi_rands stays in its closed range");
}
HARNESS(float_01) { real<float>(0, 1); }
HARNESS(float_sym) { real<float>(-1, 1); }
HARNESS(float_point) { real<float>(2, 2); }
HARNESS(float_neg) { real<float>(-4, -0.5f); }
HARNESS(float_tiny) { real<float>(0, 1e-40f); }
HARNESS(double_01) { real<double>(0, 1); }
HARNESS(double_sym) { real<double>(-1, 1); }
HARNESS(double_point) { real<double>(2, 2); }
HARNESS(double_neg) { real<double>(-4, -0.5); }
HARNESS(double_tiny) { real<double>(0, 1e-300); }
