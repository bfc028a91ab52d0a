//! configs: debug
//! bounds: 1D arrays of 0..3 elements, 0..4 for sorting integers (0..5 in the thorough tier), 2D arrays up to 2x2 for sorting, for_each and copies; arrays, slices, index lists, views, expressions; int, long, double; all contents and interval bounds
//! assumes: comparison functions are strict weak orders; NaN is excluded from sorting; shuffling is not covered (std::random_device)
#include "common.hpp"
#ifdef THOROUGH
constexpr i64 N1 = 5, NS = 5;
#else
constexpr i64 N1 = 3, NS = 4;
#endif

// got (a slice of `base` elements given by index list) must be exactly the elements with in(i), in order, by reference.
template <class S, class T, class Of>
static void filtered(S& s, const Ref<T>& a, const bool* in, Of of) {
   i64 k = 0;
   bool ok = true;
   for(i64 i = 0; i < a.n; ++i)
      if(in[i]) {
         if(k < s.size().val()) ok = ok && same(s.un(k), of(i));
         ++k;
      }
   CHECK(s.size().val() == k, "a range filter selects as many elements as match");
   CHECK(ok, "a range filter selects exactly the matching elements, in order");
}
template <class T>
static void ranges() {
   i64 n = pick("n", 0, N1);
   auto a = symref<T>(n, "a");
   Array1D<T> A = mk(a);
   const auto& cA = A;
   T lo = sym<T>("lo"), hi = sym<T>("hi");
   Strict<T> low{lo}, high{hi};
   i64 kind = pick("kind", 0, 2), form = pick("form", 0, 3);
   bool open = kind == 0;
   bool in[8];
   auto matches = [&](T x) { return kind == 0 ? x > lo && x < hi : kind == 1 ? x >= lo && x <= hi : x > lo || x < hi; };
   auto p = [=](Strict<T> x) { return StrictBool{x.val() > lo || x.val() < hi}; };
   auto go = [&](auto&& B, auto of) {
      for(i64 i = 0; i < n; ++i) in[i] = matches(of(i));
      auto use = [&](auto s) { filtered(s, a, in, of); };
      int o = outcome([&] {
         if(kind == 2) use(in_cond_range(std::forward<decltype(B)>(B), p));
         else if(form & 1) {
            if(open) use(in_open_range(std::forward<decltype(B)>(B), Low{low}, High{high}));
            else use(in_closed_range(std::forward<decltype(B)>(B), Low{low}, High{high}));
         } else {
            if(open) use(in_open_range(std::forward<decltype(B)>(B), low, high));
            else use(in_closed_range(std::forward<decltype(B)>(B), low, high));
         }
      });
      CHECK((o == 1) == (kind < 2 && !(lo <= hi)) && o <= 1, "a range filter throws exactly when low is not at most high");
   };
   switch(form) {
   case 0: go(A, [&](i64 i) { return a[i]; }); break;
   case 1: go(cA, [&](i64 i) { return a[i]; }); break;
   case 2: go(A(place::reverse), [&](i64 i) { return a[n - 1 - i]; }); break;
   case 3: go(-A, [&](i64 i) { return static_cast<T>(-a[i]); }); break;
   }
}
HARNESS(ranges_int) { ranges<int>(); }
HARNESS(ranges_double) { ranges<double>(); }
// Writing through the filtered slice reaches the array.
HARNESS(ranges_write) {
   i64 n = pick("n", 0, N1);
   auto a = symref<int>(n, "a");
   Array1D<int> A = mk(a);
   int lo = sym<int>("lo"), hi = sym<int>("hi"), x = sym<int>("x");
   sym_assume(lo <= hi);
   i64 kind = pick("kind", 0, 3);
   Strict l{lo}, h{hi}, v{x};
   switch(kind) {
   case 0: in_open_range(A, l, h) = v; break;
   case 1: in_closed_range(A, l, h) = v; break;
   case 2: in_cond_range(A, [=](auto y) { return y < l; }) = v; break;
   case 3: {
      auto S = A(place::reverse);
      in_closed_range(S, Low{l}, High{h}) += v;
   }
   }
   bool ok = A.size().val() == n;
   for(i64 i = 0; ok && i < n; ++i) {
      bool m = kind == 0 ? a[i] > lo && a[i] < hi : kind == 2 ? a[i] < lo : a[i] >= lo && a[i] <= hi;
      unsigned w = kind == 3 ? unsigned(a[i]) + unsigned(x) : unsigned(x);
      ok = ok && A.un(i).val() == (m ? int(w) : a[i]);
   }
   CHECK(ok, "writing to a range filter changes exactly the matching elements");
}

// order: 0 increasing, 1 decreasing, 2 by a comparison (of values without their lowest bit)
template <class T>
static T sortkey(T x) {
   if constexpr(std::is_integral_v<T>) return T(x >> 1);
   else return -x;
}
template <class T, class A, class B>
static void sorted(A&& a, i64 n, const T* v, const B& read, i64 order) {
   for(i64 i = 0; i < n; ++i) sym_assume(v[i] == v[i]);
   int o = outcome([&] {
      if(order == 0) sort_increasing(std::forward<A>(a));
      else if(order == 1) sort_decreasing(std::forward<A>(a));
      else sort(std::forward<A>(a), [](const auto& x, const auto& y) { return Strict{sortkey(x.val())} < Strict{sortkey(y.val())}; });
   });
   CHECK(o == 0, "sorting is defined for every array");
   bool ok = true;
   for(i64 i = 1; i < n; ++i) {
      T x = read(i - 1), y = read(i);
      ok = ok & (order == 0 ? x <= y : order == 1 ? x >= y : sortkey(x) <= sortkey(y));
   }
   CHECK(ok, "sorting puts the elements in order");
   // a permutation: match one after the other
   bool used[8]{}, perm = true;
   for(i64 i = 0; i < n; ++i) {
      bool found = false;
      T x = read(i);
      for(i64 j = 0; j < n; ++j) {
         bool take = !found & !used[j] & same(x, v[j]);
         used[j] = used[j] | take;
         found = found | take;
      }
      perm = perm & found;
   }
   CHECK(perm, "sorting permutes the elements");
}
template <class T>
static void sort1() {
   i64 n = pick("n", 0, std::is_integral_v<T> ? NS : 3), order = pick("order", 0, 2);
   auto a = symref<T>(n, "a");
   Array1D<T> A = mk(a);
   T w[8];
   switch(pick("kind", 0, 3)) {
   case 0: sorted(A, n, a.v, [&](i64 i) { return A.un(i).val(); }, order); break;
   case 1: {
      for(i64 i = 0; i < n; ++i) w[i] = a[n - 1 - i];
      sorted(A(place::reverse), n, w, [&](i64 i) { return A.un(n - 1 - i).val(); }, order);
      break;
   }
   case 2: {
      i64 k = n / 2;
      for(i64 i = 0; i < k; ++i) w[i] = a[2 * i + 1];
      sorted(A(place::odd), k, w, [&](i64 i) { return A.un(2 * i + 1).val(); }, order);
      bool rest = true;
      for(i64 i = 0; i < n; i += 2) rest &= same(A.un(i), a[i]);
      CHECK(rest, "sorting a slice leaves the other elements alone");
      break;
   }
   case 3: {
      std::vector<ImplicitInt> ix;
      i64 k = 0;
      for(i64 i = n - 1; i >= 1; --i) ix.push_back(i), w[k++] = a[i];
      auto S = A(ix);
      sorted(S, k, w, [&](i64 i) { return A.un(n - 1 - i).val(); }, order);
      if(n) CHECK(same(A.un(0), a[0]), "sorting an index list leaves the other elements alone");
   }
   }
}
HARNESS(sort1_int) { sort1<int>(); }
HARNESS(sort1_double) { sort1<double>(); }
HARNESS(sort2_long) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0, order = pick("order", 0, 2);
   auto a = symref2<long>(m, n, "a");
   Array2D<long> A = mk(a);
   if(m && pick("row", 0, 1)) {
      sorted(A.row(m - 1), n, a.v + (m - 1) * n, [&](i64 i) { return A.un(m - 1, i).val(); }, order);
      bool rest = true;
      for(i64 i = 0; i + 1 < m; ++i)
         for(i64 j = 0; j < n; ++j) rest &= same(A.un(i, j), a(i, j));
      CHECK(rest, "sorting a row leaves the other rows alone");
   } else sorted(A, m * n, a.v, [&](i64 i) { return A.un(i).val(); }, order);
}

// for_each: every element once, in order; by reference where the object is mutable.
HARNESS(foreach_) {
   i64 n = pick("n", 0, N1);
   auto a = symref<long>(n, "a");
   Array1D<long> A = mk(a);
   const auto& cA = A;
   long x = sym_i64("x"), seen[8];
   i64 k = 0, form = pick("form", 0, 4);
   auto see = [&](Strict<long> y) { if(k < 8) seen[k] = y.val(); ++k; };
   switch(form) {
   case 0: for_each(A, see); break;
   case 1: for_each(cA, see); break;
   case 2: for_each(A(place::reverse), see); break;
   case 3: for_each(A + Strict{x}, see); break;
   case 4: for_each(A, [&](auto& y) { see(y); y ^= Strict{x}; }); break;
   }
   bool ok = k == n, after = true;
   for(i64 i = 0; ok && i < n; ++i) {
      ok = ok & (seen[i] == (form == 2 ? a[n - 1 - i] : form == 3 ? long((unsigned long)a[i] + (unsigned long)x) : a[i]));
      after = after & (A.un(i).val() == (form == 4 ? a[i] ^ x : a[i]));
   }
   CHECK(ok, "for_each visits every element once, in order");
   CHECK(after, "for_each changes elements through references only");
}
HARNESS(foreach2) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   auto a = symref2<long>(m, n, "a");
   Array2D<long> A = mk(a);
   long x = sym_i64("x"), seen[8];
   i64 k = 0, form = pick("form", 0, 2);
   auto see = [&](Strict<long> y) { if(k < 8) seen[k] = y.val(); ++k; };
   switch(form) {
   case 0: for_each(A, [&](auto& y) { see(y); y = Strict{x}; }); break;
   case 1: for_each(A(place::reverse, place::all), see); break;
   case 2: for_each(-A, see); break;
   }
   bool ok = k == m * n;
   for(i64 i = 0; ok && i < m; ++i)
      for(i64 j = 0; j < n; ++j) ok = ok & (seen[i * n + j] == (form == 0 ? a(i, j) : form == 1 ? a(m - 1 - i, j) : long(-(unsigned long)a(i, j))));
   CHECK(ok, "for_each visits every element of a 2D array once, row by row");
   bool all = true;
   for(i64 i = 0; i < m * n; ++i) all &= A.un(i).val() == (form == 0 ? x : a.v[i]);
   CHECK(all, "for_each changes elements of a 2D array through references only");
}
template <class T, class A>
static void copied(const A& x, i64 n, const T* v) {
   auto p = blas_array(x);
   if(!n) {
      CHECK(!p, "a raw copy of nothing is null");
      return;
   }
   bool ok = p != nullptr;
   for(i64 i = 0; ok && i < n; ++i) ok &= same(p[i], v[i]);
   CHECK(ok, "a raw copy has the same elements in order");
   for(i64 i = 0; ok && i < n; ++i) p[i] = T{};
}
HARNESS(rawcopy) {
   i64 n = pick("n", 0, N1);
   auto a = symref<double>(n, "a");
   Array1D<double> A = mk(a);
   i64 m = pick("m", 0, 2), l = m ? pick("l", 1, 2) : 0;
   auto b = symref2<int>(m, l, "b");
   Array2D<int> B = mk(b);
   double w[8];
   for(i64 i = 0; i < n; ++i) w[i] = a[n - 1 - i];
   copied(A, n, a.v);
   copied(A(place::reverse), n, w);
   copied(B, m * l, b.v);
   copied(B.view1D(), m * l, b.v);
   CHECK(eq(A, a) && eq(B, b), "a raw copy is independent of the array");
}
