//! configs: debug
//! bounds: fixed 1D arrays of 0..4 elements of int, long and double and fixed 2D arrays of shapes 0x0, 1x2, 2x1, 2x2, 3x2, sources of 0..5 elements (2D: every shape up to 3x3), every 64-bit index, all contents, aligned and unaligned
#include "common.hpp"
#include "slices.hpp"

template <class A, class R>
static void fillf(A& a, const R& r) {
   for(i64 i = 0; i < a.size().val(); ++i) *(a.data() + i) = Strict{r.v[i]};
}
template <int n, class G>
static void sizes(G g) {
   if constexpr(n >= 0) {
      if(pick("N", 0, 1)) g(std::integral_constant<int, n>{});
      else sizes<n - 1>(g);
   }
}
template <int M_, int N_>
struct Sh {
   static constexpr int M = M_, N = N_;
};
template <class G>
static void shapes(G g) {
   switch(pick("shape", 0, 4)) {
   case 0: g(Sh<0, 0>{}); break;
   case 1: g(Sh<1, 2>{}); break;
   case 2: g(Sh<2, 1>{}); break;
   case 3: g(Sh<2, 2>{}); break;
   default: g(Sh<3, 2>{});
   }
}

// ---------------------------------------------------------------- 1D
template <class T, int N, class F>
static void one() {
   auto r = symref<T>(N, "a"), q = symref<T>(N, "b");
   F A, B;
   CHECK(A.size().val() == N, "a fixed array has its size");
   CHECK(N ? A.data() != nullptr : A.data() == nullptr, "data points to the elements, and to nothing without any");
   fillf(A, r);
   fillf(B, q);
   CHECK(eq(A, r), "storage is in order");
   T x = sym<T>("x");
   Ref<T> cx;
   for(int i = 0; i < N; ++i) cx.push(x);
   switch(pick("op", 0, 13)) {
   case 0: {
      F C(Strict<T>{x}), D(Value{Strict<T>{x}});
      CHECK(eq(C, cx) & eq(D, cx), "construction from a value fills the array");
      break;
   }
   case 1: {
      F C(A);
      CHECK(eq(C, r) & eq(A, r), "a copy has the same elements");
      if(N) {
         C.un(0) = Strict<T>{x};
         CHECK(eq(A, r), "~a copy is independent");
      }
      break;
   }
   case 2: {
      F C(std::move(A));
      Ref<T> z;
      for(int i = 0; i < N; ++i) z.push(T(0));
      CHECK(eq(C, r), "a moved array keeps its elements");
      CHECK(eq(A, z), "a moved-from fixed array is zero");
      break;
   }
   case 3: B = A; CHECK(eq(B, r) & eq(A, r), "copy assignment copies every element"); break;
   case 4: {
      B = std::move(A);
      Ref<T> z;
      for(int i = 0; i < N; ++i) z.push(T(0));
      CHECK(eq(B, r), "move assignment moves every element");
      CHECK(eq(A, z), "a fixed array moved from by assignment is zero");
      break;
   }
   case 5: {
      auto& C = A;
      if(pick("move", 0, 1)) A = std::move(C);
      else A = C;
      CHECK(eq(A, r), "self assignment keeps the elements");
      break;
   }
   case 6: A = Strict<T>{x}; CHECK(eq(A, cx), "assigning a value fills the array"); break;
   case 7: {
      F C = A + B;
      bool ok = C.size().val() == N;
      for(int i = 0; i < N; ++i) ok &= same(C.un(i), Strict<T>{r[i]} + Strict<T>{q[i]});
      CHECK(ok, "construction from an expression evaluates it");
      A = B - A;
      ok = true;
      for(int i = 0; i < N; ++i) ok &= same(A.un(i), Strict<T>{q[i]} - Strict<T>{r[i]});
      CHECK(ok, "assigning an expression of the array itself evaluates it elementwise");
      break;
   }
   case 8: case 9: { // a dynamic source of any size
      bool ctor = pick("ctor", 0, 1), slice = pick("slice", 0, 1);
      auto s = symref<T>(pick("n", 0, 5), "s");
      Array1D<T> S = mk(s);
      Ref<T> w;
      for(i64 i = 0; i < s.n; ++i) w.push(slice ? s[s.n - 1 - i] : s[i]);
      int o;
      bool ok = true;
      if(ctor) o = outcome([&] {
         if(slice) { F C(S(place::reverse)); ok = eq(C, w); }
         else { F C(S); ok = eq(C, w); }
      });
      else {
         o = outcome([&] { if(slice) A = S(place::reverse); else A = S; });
         ok = eq(A, o ? r : w);
      }
      CHECK(o == (s.n == N ? 0 : 1), "a source of another size throws, of the same size not");
      CHECK(ok, "a source of the same size is copied, a failed assignment changes nothing");
      break;
   }
   case 10: { // lists
      Strict<T> y{x};
      int k = pick("k", 0, 4), o = 0;
      bool ctor = pick("ctor", 0, 1);
      F C;
      fillf(C, q);
      o = outcome([&] {
         switch(k) {
         case 1: if(ctor) { F D(use::List1D<Strict<T>>{y}); C = D; } else C = {y}; break;
         case 2: if(ctor) { F D{y, y + y}; C = D; } else C = {y, y + y}; break;
         case 3: if(ctor) { F D{y, y + y, y * y}; C = D; } else C = {y, y + y, y * y}; break;
         case 4: if(ctor) { F D{y, y + y, y * y, y * y - y}; C = D; } else C = {y, y + y, y * y, y * y - y}; break;
         default: if(ctor) { F D(use::List1D<Strict<T>>{}); C = D; } else C = use::List1D<Strict<T>>{};
         }
      });
      Ref<T> w;
      Strict<T> l[4] = {y, y + y, y * y, y * y - y};
      for(int i = 0; i < k; ++i) w.push(l[i].val());
      CHECK(o == (k == N ? 0 : 1), "a list of another length throws, of the same length not");
      CHECK(eq(C, o ? q : w), "a list is copied in order, a failed assignment changes nothing");
      break;
   }
   case 11: { // iterator ranges
      auto s = symref<T>(4, "s");
      i64 b = pick("b", 0, 4), e = pick("e", 0, 4);
      Array1D<T> S = mk(s);
      Ref<T> w;
      for(i64 i = b; i < e; ++i) w.push(s[i]);
      bool ok = true;
      int o = outcome([&] { F C(S.begin() + b, S.begin() + e); ok = eq(C, w); });
      CHECK(o == (e - b == N ? 0 : 1), "an iterator range of another length throws");
      CHECK(ok, "an iterator range is copied in order");
      break;
   }
   case 12: { // access
      i64 i = sym_i64("i");
      bool in = i >= 0 && i < N;
      T got{}, got2{};
      bool last = pick("last", 0, 1);
      int o = outcome([&] { got = last ? A[Last{i}].val() : A[i].val(); });
      const F& K = A;
      int o2 = outcome([&] { got2 = last ? K.at(Last{i}).val() : K.at(i).val(); });
      CHECK(o == (in ? 0 : 1) && o2 == (in ? 0 : 1), "access throws exactly outside");
      if(in) {
         i64 j = sym_conc(last ? N - 1 - i : i);
         CHECK(same(got, r[j]) & same(got2, r[j]), "~access reaches the element");
         if(last) A.at(Last{i}) = Strict<T>{x};
         else A[i] = Strict<T>{x};
         r[j] = x;
      }
      CHECK(eq(A, r), "access changes exactly the element");
      break;
   }
   default: { // slices
      Ref<T> e = r;
      A(place::even) = Strict<T>{x};
      for(int i = 0; i < N; i += 2) e[i] = x;
      CHECK(eq(A, e), "a slice of a fixed array refers to its elements");
      Ref<T> z;
      for(int i = N - 1; i >= 0; --i) z.push(e[i]);
      F C(A(place::reverse));
      CHECK(eq(C, z), "a fixed array is constructed from its own reversal");
      A += B;
      bool ok = true;
      for(int i = 0; i < N; ++i) ok &= same(A.un(i), Strict<T>{e[i]} + Strict<T>{q[i]});
      CHECK(ok, "compound assignment updates every element");
      if constexpr(std::is_integral_v<T>) CHECK(bool{C == C(place::all)}, "a fixed array equals its own slice");
   }
   }
}
HARNESS(one_int) { sizes<4>([](auto n) { one<int, n.value, FixedArray1D<int, n.value>>(); }); }
HARNESS(one_long_aligned) { sizes<4>([](auto n) { one<long, n.value, FixedArray1D<long, n.value, Aligned>>(); }); }
HARNESS(one_double) { sizes<3>([](auto n) { one<double, n.value, FixedArray1D<double, n.value>>(); }); }

// ---------------------------------------------------------------- 2D
template <class T, int M, int N, class F>
static void two() {
   auto r = symref2<T>(M, N, "a"), q = symref2<T>(M, N, "b");
   F A, B;
   CHECK(A.rows().val() == M && A.cols().val() == N && A.size().val() == M * N, "a fixed 2D array has its shape");
   CHECK(M ? A.data() != nullptr : A.data() == nullptr, "data of a 2D array points to the elements, and to nothing without any");
   fillf(A, r);
   fillf(B, q);
   CHECK(eq(A, r), "storage is in row-major order");
   bool lin = true;
   for(int i = 0; i < M * N; ++i) lin &= same(A.un(i), r.v[i]);
   CHECK(lin, "linear access is in row-major order");
   T x = sym<T>("x");
   auto cx = r, z = r;
   for(int i = 0; i < M * N; ++i) cx.v[i] = x, z.v[i] = T(0);
   switch(pick("op", 0, 11)) {
   case 0: {
      F C(Strict<T>{x}), D(Value{Strict<T>{x}});
      CHECK(eq(C, cx) & eq(D, cx), "construction from a value fills the 2D array");
      break;
   }
   case 1: {
      F C(A);
      CHECK(eq(C, r) & eq(A, r), "a copy of a 2D array has the same elements");
      if(M) {
         C.un(0, 0) = Strict<T>{x};
         CHECK(eq(A, r), "~a copy of a 2D array is independent");
      }
      break;
   }
   case 2: {
      F C(std::move(A));
      CHECK(eq(C, r), "a moved 2D array keeps its elements");
      CHECK(eq(A, z), "a moved-from fixed 2D array is zero");
      break;
   }
   case 3: B = A; CHECK(eq(B, r) & eq(A, r), "copy assignment copies every element of a 2D array"); break;
   case 4:
      B = std::move(A);
      CHECK(eq(B, r), "move assignment moves every element of a 2D array");
      CHECK(eq(A, z), "a fixed 2D array moved from by assignment is zero");
      break;
   case 5: {
      auto& C = A;
      if(pick("move", 0, 1)) A = std::move(C);
      else A = C;
      CHECK(eq(A, r), "self assignment keeps the elements of a 2D array");
      break;
   }
   case 6: A = Strict<T>{x}; CHECK(eq(A, cx), "assigning a value fills the 2D array"); break;
   case 7: {
      F C = A + B;
      bool ok = true;
      for(int i = 0; i < M * N; ++i) ok &= same(C.un(i), Strict<T>{r.v[i]} + Strict<T>{q.v[i]});
      CHECK(ok, "construction from a 2D expression evaluates it");
      A = B - A;
      ok = true;
      for(int i = 0; i < M * N; ++i) ok &= same(A.un(i), Strict<T>{q.v[i]} - Strict<T>{r.v[i]});
      CHECK(ok, "assigning a 2D expression of the array itself evaluates it elementwise");
      break;
   }
   case 8: { // a dynamic source of any shape
      bool ctor = pick("ctor", 0, 1), slice = pick("slice", 0, 1);
      i64 m = pick("m", 0, 3), n = pick("n", 0, 3);
      if((m == 0) != (n == 0)) return;
      auto s = symref2<T>(m, n, "s");
      Array2D<T> S = mk(s);
      auto w = s;
      if(slice)
         for(i64 i = 0; i < m; ++i)
            for(i64 j = 0; j < n; ++j) w(i, j) = s(m - 1 - i, n - 1 - j);
      int o;
      bool ok = true;
      if(ctor) o = outcome([&] {
         if(slice) { F C(S(place::reverse, place::reverse)); ok = eq(C, w); }
         else { F C(S); ok = eq(C, w); }
      });
      else {
         o = outcome([&] { if(slice) A = S(place::reverse, place::reverse); else A = S; });
         ok = eq(A, o ? r : w);
      }
      CHECK(o == (m == M && n == N ? 0 : 1), "a source of another shape throws, of the same shape not");
      CHECK(ok, "a source of the same shape is copied, a failed 2D assignment changes nothing");
      break;
   }
   case 9: { // lists
      Strict<T> y{x}, v{sym<T>("y")};
      int k = pick("k", 0, 7);
      bool ctor = pick("ctor", 0, 1);
      using L = use::List2D<Strict<T>>;
      F C;
      fillf(C, q);
      auto put = [&](L l) { if(ctor) { F D(l); C = D; } else C = l; };
      Ref2<T> w;
      auto is = [&](i64 m, i64 n) {
         w.m = m, w.n = n;
         for(i64 i = 0; i < m * n; ++i) w.v[i] = (i % 2 ? v : y).val();
      };
      int o = outcome([&] {
         switch(k) {
         case 0: is(0, 0); put(L{}); break;
         case 1: is(1, 2); put(L{{y, v}}); break;
         case 2: is(2, 1); put(L{{y}, {v}}); break;
         case 3: is(2, 2); put(L{{y, v}, {y, v}}); break;
         case 4: is(3, 2); put(L{{y, v}, {y, v}, {y, v}}); break;
         case 5: w.m = -1; put(L{{y, v}, {y}}); break;
         case 6: w.m = -1; put(L{{y}, {y, v}, {y, v}}); break;
         default: w.m = -1; put(L{{y, v}, {}, {y, v}});
         }
      });
      bool fit = w.m == M && w.n == N;
      CHECK(o == (fit ? 0 : 1), "a list of another shape or a ragged one throws");
      CHECK(eq(C, o ? q : w), "a 2D list is copied in order, a failed assignment changes nothing");
      break;
   }
   case 10: { // access
      i64 i = sym_i64("i"), j = sym_i64("j");
      bool in = (i >= 0) & (i < M) & (j >= 0) & (j < N);
      T got{}, got2{};
      int o = outcome([&] { got = A(i, j).val(); });
      const F& K = A;
      int o2 = outcome([&] { got2 = K.at(i, j).val(); });
      CHECK(o == (in ? 0 : 1) && o2 == (in ? 0 : 1), "2D access throws exactly outside");
      if(in) {
         i = sym_conc(i), j = sym_conc(j);
         CHECK(same(got, r(i, j)) & same(got2, r(i, j)), "~2D access reaches the element");
         A(i, j) = Strict<T>{x};
         r(i, j) = x;
      }
      CHECK(eq(A, r), "2D access changes exactly the element");
      break;
   }
   default: {
      auto e = r;
      if(M) {
         i64 i = pick("i", 0, M ? M - 1 : 0), j = pick("j", 0, N ? N - 1 : 0);
         A.row(i) = Strict<T>{x};
         for(int k = 0; k < N; ++k) e(i, k) = x;
         CHECK(eq(A, e), "~a row of a fixed array refers to its elements");
         T y = sym<T>("y");
         A.col(j) = Strict<T>{y};
         for(int k = 0; k < M; ++k) e(k, j) = y;
         CHECK(eq(A, e), "~a column of a fixed array refers to its elements");
         T u = sym<T>("u");
         auto V = A.view1D();
         V[0] = Strict<T>{u};
         e.v[0] = u;
         CHECK(eq(A, e), "~a view of a fixed array refers to its elements");
      }
      A *= B;
      bool ok = true;
      for(int i = 0; i < M * N; ++i) ok &= same(A.un(i), Strict<T>{e.v[i]} * Strict<T>{q.v[i]});
      CHECK(ok, "compound assignment updates every element of a 2D array");
   }
   }
}
HARNESS(two_long) { shapes([](auto s) { two<long, s.M, s.N, FixedArray2D<long, s.M, s.N>>(); }); }
HARNESS(two_int_aligned) { shapes([](auto s) { two<int, s.M, s.N, FixedArray2D<int, s.M, s.N, Aligned>>(); }); }
