//! configs: debug
//! bounds: 1D arrays of 5 elements, 2D arrays 3x3; 9 shapes of slice (strided, reversed, listed, complement, empty, diagonals, rows, columns, blocks); sources of 0..5 elements; all 64-bit contents
//! assumes: the source does not overlap the destination, except that it may be the same slice
#include "common.hpp"

// The slices of a 5-element array to write to, and what they select.
template <class F>
static void slices1(Array1D<long>& A, F f) {
   using L = std::vector<i64>;
   switch(pick("slice", 0, 7)) {
   case 0: f(A(place::all), L{0, 1, 2, 3, 4}); break;
   case 1: f(A(place::reverse), L{4, 3, 2, 1, 0}); break;
   case 2: f(A(place::odd), L{1, 3}); break;
   case 3: f(A(seqN{3, 2, -3}), L{3, 0}); break;
   case 4: f(A(std::vector<ImplicitInt>{4, 0, 3}), L{4, 0, 3}); break;
   case 5: f(A(place::complement{std::vector<ImplicitInt>{1, 2}}), L{0, 3, 4}); break;
   case 6: f(A(place::firstN{0}), L{}); break;
   case 7: f(A(place::even)(place::lastN{2}), L{2, 4}); break;
   }
}
HARNESS(write1D) {
   auto r = symref<long>(5, "v");
   auto before = r;
   Array1D<long> A = mk(r);
   slices1(A, [&](auto S, std::vector<i64> ix) {
      i64 k = ix.size();
      long x = sym_i64("x"), y = sym_i64("y");
      int o = 0;
      switch(pick("source", 0, 7)) {
      case 0: o = outcome([&] { S = Strict{x}; }); for(i64 i = 0; i < k; ++i) r[ix[i]] = x; break;
      case 1: {
         i64 n = pick("n", 0, 3);
         auto s = symref<long>(n, "s");
         Array1D<long> B = mk(s);
         o = outcome([&] { S = B; });
         if(n == k) for(i64 i = 0; i < k; ++i) r[ix[i]] = s[i];
         else CHECK(o == 1, "a source of another size is refused");
         break;
      }
      case 2: {
         auto s = symref<long>(5, "s");
         Array1D<long> B = mk(s);
         o = outcome([&] { S = (B + Strict{x})(place::lastN{k}); });
         for(i64 i = 0; i < k; ++i) r[ix[i]] = s[5 - k + i] + x;
         break;
      }
      case 3: {
         auto s = symref<long>(5, "s");
         Array1D<long> B = mk(s);
         o = outcome([&] { S = B(seqN{4, k, -1}); });
         for(i64 i = 0; i < k; ++i) r[ix[i]] = s[4 - i];
         break;
      }
      case 4:
         o = outcome([&] { S = {Strict{x}, Strict{y}}; });
         if(k == 2) r[ix[0]] = x, r[ix[1]] = y;
         else CHECK(o == 1, "a list of another size is refused");
         break;
      case 5: {
         auto T = S;
         o = outcome([&] { S = T; });
         break;
      }
      case 6: {
         // the same kind of slice of another array: copy assignment of slices copies elements
         auto s = symref<long>(5, "s");
         Array1D<long> B = mk(s);
         if(k == 5) {
            auto T = B(place::reverse), U = A(place::reverse);
            o = outcome([&] { U = T; });
            r = s;
            T[0] = Strict{x};
            s[4] = x;
            CHECK(eq(B, s), "slices stay attached to their own arrays after assignment");
         } else if(k == 2) {
            auto U = S;
            o = outcome([&] { U += S; });
            for(i64 i = 0; i < k; ++i) r[ix[i]] *= 2;
         }
         break;
      }
      case 7:
         o = outcome([&] { S *= Strict{x}; });
         for(i64 i = 0; i < k; ++i) r[ix[i]] *= x;
         break;
      }
      if(o) CHECK(eq(A, before), "a refused assignment to a slice changes nothing");
      else CHECK(eq(A, r), "an assignment to a slice sets the selected elements and no others");
   });
}

template <class F>
static void slices2(Array2D<long>& A, F f) {
   using L = std::vector<i64>;
   switch(pick("slice", 0, 6)) {
   case 0: f(A(place::all, place::all), L{0, 1, 2}, L{0, 1, 2}); break;
   case 1: f(A(place::reverse, place::odd), L{2, 1, 0}, L{1}); break;
   case 2: f(A(seqN{2, 2, -2}, std::vector<ImplicitInt>{2, 1}), L{2, 0}, L{2, 1}); break;
   case 3: f(A.block(0, 1, 1, 2), L{0, 1}, L{1, 2}); break;
   case 4: f(A.cols(place::even), L{0, 1, 2}, L{0, 2}); break;
   case 5: f(A.rows(std::vector<ImplicitInt>{2, 0}), L{2, 0}, L{0, 1, 2}); break;
   case 6: f(A(place::firstN{0}, place::all), L{}, L{}); break;
   }
}
HARNESS(write2D) {
   auto r = symref2<long>(3, 3, "v");
   auto before = r;
   Array2D<long> A = mk(r);
   slices2(A, [&](auto S, std::vector<i64> I, std::vector<i64> J) {
      i64 m = I.size(), n = J.size();
      long x = sym_i64("x"), y = sym_i64("y");
      int o = 0;
      auto all = [&](auto g) { for(i64 i = 0; i < m; ++i) for(i64 j = 0; j < n; ++j) r(I[i], J[j]) = g(i, j); };
      switch(pick("source", 0, 6)) {
      case 0: o = outcome([&] { S = Strict{x}; }); all([&](i64, i64) { return x; }); break;
      case 1: {
         i64 p = pick("p", 0, 2), q = p ? pick("q", 1, 2) : 0;
         auto s = symref2<long>(p, q, "s");
         Array2D<long> B = mk(s);
         o = outcome([&] { S = B; });
         if(p == m && q == n) all([&](i64 i, i64 j) { return s(i, j); });
         else CHECK(o == 1, "a 2D source of another shape is refused");
         break;
      }
      case 2: {
         auto s = symref2<long>(3, 3, "s");
         Array2D<long> B = mk(s);
         o = outcome([&] { S = (B - Strict{x})(place::lastN{m}, place::firstN{n}); });
         all([&](i64 i, i64 j) { return s(3 - m + i, j) - x; });
         break;
      }
      case 3: {
         auto s = symref2<long>(3, 3, "s");
         Array2D<long> B = mk(s);
         o = outcome([&] { S = B(seqN{2, m, -1}, place::lastN{n}); });
         all([&](i64 i, i64 j) { return s(2 - i, 3 - n + j); });
         break;
      }
      case 4:
         o = outcome([&] { S = {{Strict{x}, Strict{y}}, {Strict{y}, Strict{x}}}; });
         if(m == 2 && n == 2) all([&](i64 i, i64 j) { return i == j ? x : y; });
         else CHECK(o == 1, "a 2D list of another shape is refused");
         break;
      case 5: {
         auto T = S;
         o = outcome([&] { S = T; });
         break;
      }
      case 6:
         o = outcome([&] { S += Strict{x}; });
         all([&](i64 i, i64 j) { return r(I[i], J[j]) + x; });
         break;
      }
      if(o) CHECK(eq(A, before), "a refused assignment to a 2D slice changes nothing");
      else CHECK(eq(A, r), "an assignment to a 2D slice sets the selected elements and no others");
   });
}
// Slices of one type: the copy and move assignment operators of the slice itself.
HARNESS(same_type) {
   auto r = symref<long>(4, "v"), s = symref<long>(4, "s");
   auto before = r;
   Array1D<long> A = mk(r), B = mk(s);
   i64 m = pick("m", 0, 3), n = pick("n", 0, 3);
   int o = 0;
   switch(pick("form", 0, 3)) {
   case 0: o = outcome([&] { A(seqN{0, m}) = B(seqN{1, n}); }); break;
   case 1: o = outcome([&] { auto S = A(seqN{0, m}); auto T = B(seqN{1, n}); S = T; }); break;
   case 2: o = outcome([&] { auto S = A(seqN{0, m}); auto T = B(seqN{1, n}); S = std::move(T); }); break;
   case 3: {
      std::vector<ImplicitInt> I, J;
      for(i64 i = 0; i < m; ++i) I.push_back(i);
      for(i64 i = 0; i < n; ++i) J.push_back(i + 1);
      o = outcome([&] { A(I) = B(J); });
      break;
   }
   }
   CHECK(o == (m != n), "assigning a slice to one of its own type is refused exactly when the sizes differ");
   if(!o) for(i64 i = 0; i < m; ++i) r[i] = s[i + 1];
   CHECK(eq(A, o ? before : r) && eq(B, s), "assigning a slice to one of its own type sets exactly the selected elements");
}
HARNESS(same_type2D) {
   auto r = symref2<long>(3, 3, "v"), s = symref2<long>(3, 3, "s");
   Array2D<long> A = mk(r), B = mk(s);
   i64 m = pick("m", 1, 2), n = pick("n", 1, 2), p = pick("p", 1, 2), q = pick("q", 1, 2);
   int o = 0;
   switch(pick("form", 0, 2)) {
   case 0: o = outcome([&] { A(seqN{0, m}, seqN{0, n}) = B(seqN{1, p}, seqN{1, q}); }); break;
   case 1: o = outcome([&] { auto S = A(seqN{0, m}, seqN{0, n}); auto T = B(seqN{1, p}, seqN{1, q}); S = T; }); break;
   case 2: o = outcome([&] { auto S = A(seqN{0, m}, seqN{0, n}); auto T = B(seqN{1, p}, seqN{1, q}); S = std::move(T); }); break;
   }
   CHECK(o == !(m == p && n == q), "assigning a 2D slice to one of its own type is refused exactly when the shapes differ");
   if(!o) for(i64 i = 0; i < m; ++i) for(i64 j = 0; j < n; ++j) r(i, j) = s(i + 1, j + 1);
   CHECK(eq(A, r) && eq(B, s), "assigning a 2D slice to one of its own type sets exactly the selected elements");
}
// Rows, columns and diagonals.
HARNESS(lines) {
   i64 m = pick("m", 1, 3), n = pick("n", 1, 3);
   auto r = symref2<long>(m, n, "v");
   Array2D<long> A = mk(r);
   long x = sym_i64("x");
   auto s = symref<long>(3, "s");
   Array1D<long> B = mk(s);
   i64 i = pick("i", 0, 2);
   int o = 0;
   switch(pick("line", 0, 3)) {
   case 0: if(i < m) { o = outcome([&] { A.row(i) = B(place::firstN{n}); }); for(i64 j = 0; j < n; ++j) r(i, j) = s[j]; } break;
   case 1: if(i < n) { o = outcome([&] { A.col(i) = B(place::firstN{m}); }); for(i64 j = 0; j < m; ++j) r(j, i) = s[j]; } break;
   case 2: { i64 d = m < n ? m : n; o = outcome([&] { A.diag() = B(place::firstN{d}); }); for(i64 j = 0; j < d; ++j) r(j, j) = s[j]; break; }
   case 3: {
      i64 k = i - 1; // diagonals -1, 0, 1
      if(k > -m && k < n) {
         o = outcome([&] { A.diag(k) = Strict{x}; });
         for(i64 a = 0; a < m; ++a) for(i64 b = 0; b < n; ++b) if(b - a == k) r(a, b) = x;
      }
      break;
   }
   }
   CHECK(o == 0, "assigning to a row, column or diagonal does not throw");
   CHECK(eq(A, r), "assigning to a row, column or diagonal sets its elements and no others");
}
// 1D arrays over 2D slices and of slices of expressions: reading a selection copies it.
HARNESS(gather) {
   auto r = symref2<long>(3, 3, "v");
   Array2D<long> A = mk(r);
   Array1D<long> D = A.diag(), R = A.row(place::last)(place::reverse), C = A.col(1)(std::vector<ImplicitInt>{2, 2, 0});
   Array2D<long> T = A(place::skipN{2}, seqN{2, 3, -1});
   CHECK(D.size().val() == 3 && D[0].val() == r(0, 0) && D[1].val() == r(1, 1) && D[2].val() == r(2, 2), "an array made of a diagonal has its elements");
   CHECK(R.size().val() == 3 && R[0].val() == r(2, 2) && R[1].val() == r(2, 1) && R[2].val() == r(2, 0), "an array made of a reversed row has its elements");
   CHECK(C.size().val() == 3 && C[0].val() == r(2, 1) && C[1].val() == r(2, 1) && C[2].val() == r(0, 1), "an array made of listed elements has them, repeated ones too");
   bool ok = T.rows().val() == 2 && T.cols().val() == 3;
   for(i64 i = 0; ok && i < 2; ++i) for(i64 j = 0; j < 3; ++j) ok &= T(i, j).val() == r(2 * i, 2 - j);
   CHECK(ok, "an array made of a 2D slice has its elements");
   A = Strict<long>{0L};
   CHECK(D[1].val() == r(1, 1) && T(0, 0).val() == r(0, 2), "an array made of a slice owns its elements");
}
