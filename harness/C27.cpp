//! configs: debug
//! bounds: 1D sources of 0..4 elements, 2D sources of up to 3x3, lists of up to 3 rows of up to 3 elements (ragged ones too), iterator ranges of every pair of positions of arrays of 4 elements; int, long, double; arrays, slices, index lists, views, expressions and fixed arrays on both sides of a comparison; all contents
#include "common.hpp"

// ---------------------------------------------------------------- construction, 1D
template <class T, class A1>
static void make1() {
   T x = sym<T>("x");
   Strict<T> sx{x};
   switch(pick("kind", 0, 9)) {
   case 0: {
      i64 n = sym_i64("n");
      sym_assume(n <= 4);
      i64 got = -1;
      bool ok = true;
      bool named = pick("named", 0, 1);
      int o = outcome([&] {
         A1 A = named ? A1(Size{n}) : A1(n);
         got = A.size().val();
         for(i64 i = 0; i < got; ++i) ok &= same(A.un(i), T(0));
      });
      CHECK(o == (n >= 0 ? 0 : 1), "a negative size throws");
      CHECK(o || (got == n && ok), "an array of a size has as many zero elements");
      break;
   }
   case 1: {
      i64 n = sym_i64("n");
      sym_assume(n <= 4);
      i64 got = -1;
      bool ok = true;
      bool named = pick("named", 0, 1);
      int o = outcome([&] {
         A1 A = named ? A1(Size{n}, Value{sx}) : A1(n, sx);
         got = A.size().val();
         for(i64 i = 0; i < got; ++i) ok &= same(A.un(i), x);
      });
      CHECK(o == (n >= 0 ? 0 : 1), "a negative size with a value throws");
      CHECK(o || (got == n && ok), "an array of a size and a value has as many such elements");
      break;
   }
   case 2: {
      Strict<T> l[4];
      Ref<T> r = symref<T>(4, "l");
      for(int i = 0; i < 4; ++i) l[i] = Strict<T>{r[i]};
      r.n = pick("n", 0, 4);
      auto ok = [&] {
         switch(r.n) {
         case 0: return eq(A1(use::List1D<Strict<T>>{}), r);
         case 1: return eq(A1{l[0]}, r);
         case 2: return eq(A1{l[0], l[1]}, r);
         case 3: return eq(A1{l[0], l[1], l[2]}, r);
         default: return eq(A1{l[0], l[1], l[2], l[3]}, r);
         }
      }();
      CHECK(ok, "an array of a list has its elements in order");
      break;
   }
   case 3: {
      auto s = symref<T>(4, "s");
      i64 b = pick("b", 0, 4), e = pick("e", 0, 4);
      Array1D<T> S = mk(s);
      const auto& cS = S;
      Ref<T> w, v;
      for(i64 i = b; i < e; ++i) w.push(s[i]);
      for(i64 i = b; i < e; ++i) v.push(s[3 - i]);
      bool ok = true;
      int o;
      switch(pick("it", 0, 3)) {
      case 0: o = outcome([&] { ok = eq(A1(S.begin() + b, S.begin() + e), w); }); break;
      case 1: o = outcome([&] { ok = eq(A1(cS.begin() + b, cS.begin() + e), w); }); break;
      case 2: o = outcome([&] { auto R = S(place::reverse); ok = eq(A1(R.begin() + b, R.begin() + e), v); }); break;
      default: o = outcome([&] { ok = eq(A1(cS.cbegin() + b, cS.cbegin() + e), w); });
      }
      CHECK(o == (b <= e ? 0 : 1), "a reversed iterator range throws");
      CHECK(ok, "an array of an iterator range has its elements in order");
      break;
   }
   case 4: case 5: { // other arrays
      i64 n = pick("n", 0, 3);
      auto r = symref<T>(n, "s"), e = r;
      Array1D<T> S = mk(r);
      bool ok = false;
      switch(pick("src", 0, 5)) {
      case 0: ok = eq(A1(S), r); break;
      case 1:
         for(i64 i = 0; i < n; ++i) e[i] = r[n - 1 - i];
         ok = eq(A1(S(place::reverse)), e);
         break;
      case 2: {
         if(!n) return;
         i64 i = pick("i", 0, n - 1), j = pick("j", 0, n - 1);
         e.n = 0, e.push(r[i]), e.push(r[j]);
         if(n < 2) e.v[1] = r[j];
         ok = eq(A1(S(std::vector<ImplicitInt>{i, j})), e);
         break;
      }
      case 3:
         for(i64 i = 0; i < n; ++i) e[i] = (Strict<T>{r[i]} + sx).val();
         ok = eq(A1(S + sx), e);
         break;
      case 4: ok = eq(A1(S.view1D()), r); break;
      default: {
         Array2D<T> M(n ? 2 : 0, n, sx);
         if(n) M.row(1) = S;
         if(n) ok = eq(A1(M.row(1)), r);
         else ok = eq(A1(M.view1D()), r);
      }
      }
      CHECK(ok, "an array of another one, a slice, a list of indexes, a view or an expression has its elements in order");
      break;
   }
   case 6: { // assignment of lists
      auto r = symref<T>(pick("n", 0, 3), "a");
      Array1D<T> A = mk(r);
      int k = pick("k", 0, 3);
      int o = outcome([&] {
         switch(k) {
         case 0: A = use::List1D<Strict<T>>{}; break;
         case 1: A = {sx}; break;
         case 2: A = {sx, sx + sx}; break;
         default: A = {sx, sx + sx, sx};
         }
      });
      Ref<T> w;
      for(int i = 0; i < k; ++i) w.push(i == 1 ? (sx + sx).val() : x);
      CHECK(o == (k == r.n ? 0 : 1), "assigning a list of another length throws");
      CHECK(eq(A, o ? r : w), "assigning a list copies it in order, or changes nothing");
      break;
   }
   case 7: {
      auto r = symref<T>(pick("n", 0, 3), "a");
      Array1D<T> A = mk(r);
      A = sx;
      for(i64 i = 0; i < r.n; ++i) r[i] = x;
      CHECK(eq(A, r), "assigning a value sets every element");
      break;
   }
   case 8: { // assignment of anything else
      auto r = symref<T>(pick("n", 0, 3), "a"), s = symref<T>(pick("m", 0, 3), "b"), e = s;
      Array1D<T> A = mk(r), B = mk(s);
      int o;
      switch(pick("src", 0, 4)) {
      case 0: o = outcome([&] { A = B; }); break;
      case 1:
         for(i64 i = 0; i < s.n; ++i) e[i] = s[s.n - 1 - i];
         o = outcome([&] { A = B(place::reverse); });
         break;
      case 2:
         for(i64 i = 0; i < s.n; ++i) e[i] = (Strict<T>{s[i]} * sx).val();
         o = outcome([&] { A = B * sx; });
         break;
      case 3: {
         FixedArray1D<T, 2> F(sx);
         e.n = 2, e[0] = e[1] = x;
         o = outcome([&] { A = F; });
         break;
      }
      default: o = outcome([&] { A = std::as_const(B).view1D(); });
      }
      CHECK(o == (e.n == r.n ? 0 : 1), "assigning a source of another size throws");
      CHECK(eq(A, o ? r : e) && eq(B, s), "assignment copies the source in order, or changes nothing");
      break;
   }
   default: {
      Array1D<T> A;
      CHECK(A.size().val() == 0 && A.data() == nullptr && bool{A.empty()}, "a default constructed array is empty");
      FixedArray1D<T, 3> F(sx);
      Ref<T> e;
      for(int i = 0; i < 3; ++i) e.push(x);
      CHECK(eq(A1(F), e), "an array of a fixed array has its elements");
   }
   }
}
HARNESS(make1_int) { make1<int, Array1D<int>>(); }
HARNESS(make1_double) { make1<double, Array1D<double>>(); }
HARNESS(make1_aligned) { make1<long, Array1D<long, Aligned>>(); }

// ---------------------------------------------------------------- construction, 2D
template <class T, class A2>
static void make2() {
   T x = sym<T>("x"), y = sym<T>("y");
   Strict<T> sx{x}, sy{y};
   switch(pick("kind", 0, 5)) {
   case 0: {
      i64 m = pick("m", -1, 3), n = pick("n", -1, 3), gm = -1, gn = -1;
      bool valid = m >= 0 && n >= 0 && (m == 0) == (n == 0), ok = true;
      i64 form = pick("form", 0, 3);
      int o = outcome([&] {
         A2 A = form == 0 ? A2(m, n) : form == 1 ? A2(Rows{m}, Cols{n}) : form == 2 ? A2(m, n, sx) : A2(Rows{m}, Cols{n}, Value{sx});
         gm = A.rows().val(), gn = A.cols().val();
         ok = A.size().val() == m * n;
         for(i64 i = 0; i < m * n; ++i) ok &= same(A.un(i), form < 2 ? T(0) : x);
      });
      CHECK(o == (valid ? 0 : 1), "negative or half empty shapes throw");
      CHECK(o || (gm == m && gn == n && ok), "a 2D array of a shape and a value has it and such elements");
      break;
   }
   case 1: { // lists
      int k = pick("list", 0, 11);
      using L = use::List2D<Strict<T>>;
      Ref2<T> w;
      auto is = [&](i64 m, i64 n) {
         w.m = m, w.n = n;
         for(i64 i = 0; i < m * n; ++i) w.v[i] = i % 2 ? y : x;
      };
      bool assign = pick("assign", 0, 1);
      A2 A(2, 2, sy);
      Ref2<T> old;
      old.m = old.n = 2;
      for(int i = 0; i < 4; ++i) old.v[i] = y;
      bool ok = true;
      auto put = [&](L l) { if(assign) A = l; else { A2 C(l); ok = eq(C, w); } };
      int o = outcome([&] {
         switch(k) {
         case 0: is(0, 0); put(L{}); break;
         case 1: is(1, 1); put(L{{sx}}); break;
         case 2: is(1, 3); put(L{{sx, sy, sx}}); break;
         case 3: is(3, 1); put(L{{sx}, {sy}, {sx}}); break;
         case 4: is(2, 2); put(L{{sx, sy}, {sx, sy}}); break;
         case 5: is(2, 3); put(L{{sx, sy, sx}, {sy, sx, sy}}); break;
         case 6: w.m = -1; put(L{{sx, sy}, {sx}}); break;
         case 7: w.m = -1; put(L{{sx}, {sx, sy}}); break;
         case 8: w.m = -1; put(L{{sx, sy}, {sx, sy}, {}}); break;
         case 10: { const use::List1D<Strict<T>> row{}; is(0, 0); put(L{row}); break; }
         case 11: { const use::List1D<Strict<T>> row{}; w.m = -1; put(L{row, row}); break; }
         default: w.m = -1; put(L{{sx, sy}, {sx, sy, sx}, {sx}});
         }
      });
      bool fit = w.m >= 0 && (!assign || (w.m == 2 && w.n == 2));
      CHECK(o == (fit ? 0 : 1), "a ragged list, or one of another shape in an assignment, throws");
      CHECK(ok, "a 2D array of a list has its elements");
      if(assign) CHECK(eq(A, o ? old : w), "assigning a 2D list copies it, or changes nothing");
      break;
   }
   case 2: case 3: {
      i64 m = pick("m", 0, 2), n = pick("n", 0, 3);
      if((m == 0) != (n == 0)) return;
      auto r = symref2<T>(m, n, "s"), e = r;
      Array2D<T> S = mk(r);
      bool ok = false;
      switch(pick("src", 0, 4)) {
      case 0: ok = eq(A2(S), r); break;
      case 1:
         for(i64 i = 0; i < m; ++i)
            for(i64 j = 0; j < n; ++j) e(i, j) = r(m - 1 - i, n - 1 - j);
         ok = eq(A2(S(place::reverse, place::reverse)), e);
         break;
      case 2:
         for(i64 i = 0; i < m * n; ++i) e.v[i] = (Strict<T>{r.v[i]} + sx).val();
         ok = eq(A2(S + sx), e);
         break;
      case 3: {
         Array1D<T> V(m * n);
         for(i64 i = 0; i < m * n; ++i) V.un(i) = Strict<T>{r.v[i]};
         ok = eq(A2(V.view2D(m, n)), r);
         break;
      }
      default:
         e.m = n, e.n = m;
         for(i64 i = 0; i < m; ++i)
            for(i64 j = 0; j < n; ++j) e(j, i) = r(i, j);
         ok = eq(A2(transpose(S)), e);
      }
      CHECK(ok, "a 2D array of another one, a slice, a view or an expression has its elements");
      break;
   }
   case 4: {
      i64 m = pick("m", 0, 2), n = pick("n", 0, 2);
      if((m == 0) != (n == 0)) return;
      auto r = symref2<T>(m, n, "a"), s = symref2<T>(2, 1, "b"), e = s;
      Array2D<T> A = mk(r), B = mk(s);
      int o;
      switch(pick("src", 0, 3)) {
      case 0: o = outcome([&] { A = B; }); break;
      case 1:
         for(i64 i = 0; i < 2; ++i) e.v[i] = s.v[1 - i];
         o = outcome([&] { A = B(place::reverse, place::all); });
         break;
      case 2:
         for(i64 i = 0; i < 2; ++i) e.v[i] = (Strict<T>{s.v[i]} * sx).val();
         o = outcome([&] { A = B * sx; });
         break;
      default:
         e.m = 1, e.n = 2;
         o = outcome([&] { A = transpose(B); });
      }
      CHECK(o == (e.m == m && e.n == n ? 0 : 1), "assigning a source of another shape throws");
      CHECK(eq(A, o ? r : e) && eq(B, s), "2D assignment copies the source, or changes nothing");
      break;
   }
   default: {
      A2 A;
      CHECK(A.rows().val() == 0 && A.cols().val() == 0 && A.size().val() == 0 && bool{A.empty()}, "a default constructed 2D array is empty");
      Array2D<T> B(2, 1, sx);
      B = sy;
      CHECK(same(B.un(0, 0), y) & same(B.un(1, 0), y), "assigning a value sets every element of a 2D array");
   }
   }
}
HARNESS(make2_long) { make2<long, Array2D<long>>(); }
HARNESS(make2_double) { make2<double, Array2D<double>>(); }
HARNESS(make2_aligned) { make2<int, Array2D<int, Aligned>>(); }

// ---------------------------------------------------------------- equality
template <class T>
static bool sameAll(const Ref<T>& a, const Ref<T>& b) {
   if(a.n != b.n) return false;
   bool ok = true;
   for(i64 i = 0; i < a.n; ++i) ok &= a[i] == b[i];
   return ok;
}
template <class T>
static void equal1() {
   auto r = symref<T>(pick("n", 0, 3), "a"), s = symref<T>(pick("m", 0, 3), "b");
   Array1D<T> A = mk(r), B = mk(s);
   auto rev = [](const Ref<T>& x) { Ref<T> y; for(i64 i = x.n - 1; i >= 0; --i) y.push(x[i]); return y; };
   bool e, ne, q, same_n, want;
   auto go = [&](const auto& X, const auto& Y, const Ref<T>& x, const Ref<T>& y) {
      e = bool{X == Y}, ne = bool{X != Y}, q = bool{equal(X, Y)}, same_n = bool{same_size(X, Y)};
      want = sameAll(x, y);
   };
   switch(pick("form", 0, 6)) {
   case 0: go(A, B, r, s); break;
   case 1: go(A(place::reverse), B, rev(r), s); break;
   case 2: go(A, B(place::reverse), r, rev(s)); break;
   case 3: {
      auto d = s;
      for(i64 i = 0; i < d.n; ++i) d[i] = (Strict<T>{s[i]} + Strict<T>{s[i]}).val();
      go(A, B + B, r, d);
      break;
   }
   case 4: go(A.view1D(), B(std::vector<ImplicitInt>{}), r, Ref<T>{}); break;
   case 5: go(A, A, r, r); break;
   default: {
      FixedArray1D<T, 2> F;
      auto f = symref<T>(2, "f");
      for(int i = 0; i < 2; ++i) F.un(i) = Strict<T>{f[i]};
      go(F, B, f, s);
      CHECK(same_n == (s.n == 2), "same_size of a fixed array compares sizes");
      CHECK(e == want, "a fixed array equals another array exactly when all elements agree");
      return;
   }
   }
   CHECK(e == want, "arrays are equal exactly when sizes and all elements agree");
   CHECK(ne == !want, "arrays are unequal exactly when they are not equal");
   CHECK(q == want, "equal agrees with the operator");
}
HARNESS(equal1_int) { equal1<int>(); }
HARNESS(equal1_double) { equal1<double>(); }
HARNESS(equal1_bool) {
   auto r = symref<bool>(pick("n", 0, 3), "a"), s = symref<bool>(pick("m", 0, 3), "b");
   CHECK(bool{mk(r) == mk(s)} == sameAll(r, s), "arrays of bool are equal exactly when sizes and all elements agree");
}
HARNESS(same_size) {
   i64 a = pick("a", 0, 2), b = pick("b", 0, 2), c = pick("c", 0, 2);
   Array1D<int> A(a), B(b), C(c);
   CHECK(bool{same_size(A, B, C)} == (a == b && b == c), "same_size of three arrays holds when all sizes agree");
   CHECK(bool{same_size(A, C)} == (a == c), "same_size of two arrays holds when the sizes agree");
   i64 m = pick("m", 1, 2), n = pick("n", 1, 2);
   Array2D<int> M(2, 1), N(m, n);
   CHECK(bool{same_size(M, M, N)} == (m == 2 && n == 1) && bool{same_size(M, N, N)} == (m == 2 && n == 1), "same_size of 2D arrays holds when all shapes agree");
}
HARNESS(equal_lists) {
   auto r = symref<int>(pick("n", 0, 3), "a");
   Array1D<int> A = mk(r);
   int x = sym_i32("x"), y = sym_i32("y");
   Strict<int> sx{x}, sy{y};
   bool one = r.n == 1 && r[0] == x, two = r.n == 2 && r[0] == x && r[1] == y, rtwo = r.n == 2 && r[0] == y && r[1] == x;
   CHECK(bool{equal(A, {sx})} == one && bool{equal({sx}, A)} == one, "an array equals a list of one value exactly when it has that one element");
   CHECK(bool{equal(A, {sx, sy})} == two && bool{equal({sx, sy}, A)} == two, "an array equals a list exactly when sizes and all elements agree");
   CHECK(bool{equal(A(place::reverse), {sx, sy})} == rtwo && bool{equal({sx, sy}, A(place::reverse))} == rtwo, "a slice equals a list exactly when sizes and all elements agree");
}
HARNESS(equal_lists2) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   auto r = symref2<long>(m, n, "a");
   Array2D<long> A = mk(r);
   long x = sym_i64("x"), y = sym_i64("y");
   Strict<long> sx{x}, sy{y};
   bool row = m == 1 && n == 2 && r(0, 0) == x && r(0, 1) == y, col = m == 2 && n == 1 && r(0, 0) == x && r(1, 0) == y;
   bool all = m == 2 && n == 2 && r(0, 0) == x && r(0, 1) == y && r(1, 0) == y && r(1, 1) == x;
   use::List2D<Strict<long>> R{{sx, sy}}, C{{sx}, {sy}}, Q{{sx, sy}, {sy, sx}};
   CHECK(bool{equal(A, R)} == row && bool{equal(R, A)} == row, "a 2D array equals a list of one row exactly when it has that one row");
   CHECK(bool{equal(A, C)} == col && bool{equal(C, A)} == col, "a 2D array equals a list of rows of one element exactly when it is that column");
   CHECK(bool{equal(A, Q)} == all && bool{equal(Q, A)} == all, "a 2D array equals a list of rows exactly when shapes and all elements agree");
   CHECK(outcome([&] { (void)equal(A, {{sx, sy}, {sy}}); }) == 1 && outcome([&] { (void)equal({{sx}, {sy, sx}}, A); }) == 1, "comparing with a list of rows of different lengths throws");
}
template <class T>
static void equal2() {
   i64 m = pick("m", 0, 2), n = pick("n", 0, 2), k = pick("k", 0, 2), l = pick("l", 0, 2);
   if((m == 0) != (n == 0) || (k == 0) != (l == 0)) return;
   auto r = symref2<T>(m, n, "a"), s = symref2<T>(k, l, "b");
   Array2D<T> A = mk(r), B = mk(s);
   auto all = [](const Ref2<T>& a, const Ref2<T>& b) {
      if(a.m != b.m || a.n != b.n) return false;
      bool ok = true;
      for(i64 i = 0; i < a.m * a.n; ++i) ok &= a.v[i] == b.v[i];
      return ok;
   };
   auto t = s;
   bool e, ne, want;
   switch(pick("form", 0, 4)) {
   case 0: e = bool{A == B}, ne = bool{A != B}, want = all(r, s); break;
   case 1:
      for(i64 i = 0; i < k; ++i)
         for(i64 j = 0; j < l; ++j) t(i, j) = s(k - 1 - i, l - 1 - j);
      e = bool{A == B(place::reverse, place::reverse)}, ne = bool{B(place::reverse, place::reverse) != A}, want = all(r, t);
      break;
   case 2:
      t.m = l, t.n = k;
      for(i64 i = 0; i < k; ++i)
         for(i64 j = 0; j < l; ++j) t(j, i) = s(i, j);
      e = bool{A == transpose(B)}, ne = bool{transpose(B) != A}, want = all(r, t);
      break;
   case 3:
      t.m = k ? 1 : 0;
      for(i64 j = 0; j < l; ++j) t.v[j] = s.v[(k - 1) * l + j];
      if(k) e = bool{A == B.rows(seqN{ImplicitInt{k - 1}, 1})}, ne = bool{A != B.rows(seqN{ImplicitInt{k - 1}, 1})}, want = all(r, t);
      else e = want = true, ne = false;
      break;
   default: e = bool{A == A}, ne = bool{A != A}, want = all(r, r);
   }
   CHECK(e == want, "2D arrays are equal exactly when shapes and all elements agree");
   CHECK(ne == !want, "2D arrays are unequal exactly when they are not equal");
}
HARNESS(equal2_long) { equal2<long>(); }
HARNESS(equal2_float) { equal2<float>(); }
// eval() makes an array of its own from anything.
HARNESS(evaluated) {
   i64 n = pick("n", 0, 3);
   auto r = symref<int>(n, "a");
   Array1D<int> A = mk(r);
   auto E = A.eval();
   auto N = (-A).eval();
   auto S = A(place::reverse).eval();
   auto I = A(std::vector<ImplicitInt>(size_t(n ? 1 : 0), ImplicitInt{n - 1})).eval();
   static_assert(std::is_same_v<decltype(E), Array1D<int, Unaligned>> && std::is_same_v<decltype(N), Array1D<int, Unaligned>>);
   for(i64 i = 0; i < n; ++i) A.un(i) = Strict<int>{sym<int>("later")};
   bool ok = eq(E, r) && N.size().val() == n && S.size().val() == n && I.size().val() == (n ? 1 : 0);
   for(i64 i = 0; ok && i < n; ++i) ok = N.un(i).val() == int(-unsigned(r[i])) && S.un(i).val() == r[n - 1 - i];
   CHECK(ok && (n == 0 || I.un(0).val() == r[n - 1]), "an evaluated array, slice or expression has the elements it had then");
}
HARNESS(evaluated2) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 3) : 0;
   auto r = symref2<int>(m, n, "a");
   Array2D<int> A = mk(r);
   auto E = A.eval();
   auto T = transpose(A).eval();
   auto S = A(place::all, place::reverse).eval();
   static_assert(std::is_same_v<decltype(E), Array2D<int, Unaligned>> && std::is_same_v<decltype(T), Array2D<int, Unaligned>>);
   for(i64 i = 0; i < m; ++i)
      for(i64 j = 0; j < n; ++j) A.un(i, j) = Strict<int>{sym<int>("later")};
   bool ok = eq(E, r) && T.rows().val() == n && T.cols().val() == m && S.rows().val() == m && S.cols().val() == n;
   for(i64 i = 0; ok && i < m; ++i)
      for(i64 j = 0; j < n; ++j) ok = ok && T.un(j, i).val() == r(i, j) && S.un(i, j).val() == r(i, n - 1 - j);
   CHECK(ok, "an evaluated 2D array, slice or expression has the shape and elements it had then");
}
