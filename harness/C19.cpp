//! configs: debug release
//! bounds: 1D arrays of 0..3 elements (0..5 in the thorough tier), 2D arrays up to 2x2 (3x3); every kind of iterator on arrays, const arrays, slices and expressions; every pair of positions; in debug builds every 64-bit offset for an access outside
//! assumes: positions stay between the first element and one past the last except for the accesses that must throw; iterators do not outlive the object they iterate over
#include "common.hpp"
#include <iterator>
#ifdef THOROUGH
constexpr i64 N1 = 5, M2 = 3;
#else
constexpr i64 N1 = 3, M2 = 2;
#endif

// b..e is a range of n positions; val(i) is what position i reads, get(x) the same from *it.
template <class It, class Val, class Get>
static void laws(It b, It e, i64 n, Val val, Get get, bool checked = true) {
   CHECK(e - b == n, "the distance between begin and end is the number of elements");
   i64 p = pick("p", 0, n), q = pick("q", 0, n);
   It x = b + p, y = b + q, z = p + b, w = e - (n - q);
   CHECK(x - b == p && x - y == p - q && y - x == q - p, "iterator differences are differences of positions");
   CHECK((x == y) == (p == q) && (x != y) == (p != q), "iterators are equal exactly at the same position");
   CHECK((x < y) == (p < q) && (x <= y) == (p <= q) && (x > y) == (p > q) && (x >= y) == (p >= q), "iterators compare as their positions");
   CHECK(z == x && w == y, "n + it and it - n reach the same position as it + n");
   It u = b;
   u += p;
   bool ok = u == x;
   u -= p;
   ok = ok && u == b;
   if(p < n) {
      It v = x;
      It& r = ++v;
      ok = ok && &r == &v && v - x == 1;
      It s = v--;
      ok = ok && s - x == 1 && v == x;
      It t = v++;
      ok = ok && t == x && v - x == 1;
      It& l = --v;
      ok = ok && &l == &v && v == x;
      CHECK(get(*x) == val(p), "dereferencing an iterator reads the element at its position");
   }
   CHECK(ok, "increments, decrements, += and -= move by the amount they say");
   if(q < n) CHECK(get(x[q - p]) == val(q), "it[n] reads the element n positions on");
   i64 k = 0;
   bool all = true;
   for(It i = b; i != e && k <= n; ++i, ++k) all = all && k < n && get(*i) == val(k);
   CHECK(all && k == n, "iterating visits every element once, in order");
#ifndef STRICT_DEBUG_OFF
   if(checked) {
      i64 d = sym_i64("offset");
      sym_assume(d >= 0 ? p + d >= n && d <= 0x7fffffffffffffff - n : p + d < 0 && d >= -0x7fffffffffffffff);
      int o = outcome([&] { (void)get(x[d]); }), o2 = outcome([&] { It f = x + d; (void)get(*f); });
      CHECK(o == 1 && o2 == 1, "reading through an iterator outside the range throws");
   }
#endif
}
// forward, const, reverse and const reverse iterators of a linear object
template <class A, class T>
static void linear(A&& a, i64 n, const T* v) {
   auto get = [](const auto& x) { return x.val(); };
   auto fwd = [&](i64 i) { return v[i]; };
   auto bwd = [&](i64 i) { return v[n - 1 - i]; };
   switch(pick("iterator", 0, 5)) {
   case 0: laws(a.begin(), a.end(), n, fwd, get); break;
   case 1: laws(std::as_const(a).begin(), std::as_const(a).end(), n, fwd, get); break;
   case 2: laws(a.cbegin(), a.cend(), n, fwd, get); break;
   case 3: laws(a.rbegin(), a.rend(), n, bwd, get, false); break;
   case 4: laws(std::as_const(a).rbegin(), std::as_const(a).rend(), n, bwd, get, false); break;
   case 5: laws(a.crbegin(), a.crend(), n, bwd, get, false); break;
   }
}
HARNESS(linear1) {
   i64 n = pick("n", 0, N1);
   auto a = symref<long>(n, "a");
   Array1D<long> A = mk(a);
   const auto& cA = A;
   long w[8];
   for(i64 i = 0; i < n; ++i) w[i] = a[n - 1 - i];
   switch(pick("object", 0, 4)) {
   case 0: linear(A, n, a.v); break;
   case 1: linear(cA, n, a.v); break;
   case 2: {
      auto S = A(place::reverse);
      linear(S, n, w);
      break;
   }
   case 3: {
      std::vector<ImplicitInt> ix;
      i64 k = 0;
      for(i64 i = n - 1; i >= 0; i -= 2) ix.push_back(i), w[k++] = a[i];
      const auto S = cA(ix);
      linear(S, k, w);
      break;
   }
   case 4: {
      auto e = ~A;
      for(i64 i = 0; i < n; ++i) w[i] = ~a[i];
      linear(e, n, w);
   }
   }
}
HARNESS(linear2) {
   i64 m = pick("m", 0, M2), n = m ? pick("n", 1, M2) : 0;
   auto a = symref2<long>(m, n, "a");
   Array2D<long> A = mk(a);
   long w[16];
   switch(pick("object", 0, 2)) {
   case 0: linear(A, m * n, a.v); break;
   case 1: {
      auto S = A(place::reverse, place::all);
      for(i64 i = 0; i < m; ++i)
         for(i64 j = 0; j < n; ++j) w[i * n + j] = a(m - 1 - i, j);
      linear(S, m * n, w);
      break;
   }
   case 2: {
      const auto e = ~A;
      for(i64 i = 0; i < m * n; ++i) w[i] = ~a.v[i];
      linear(e, m * n, w);
   }
   }
}
// Writing through mutable iterators.
HARNESS(write1) {
   i64 n = pick("n", 1, N1), p = pick("p", 0, n - 1);
   auto a = symref<long>(n, "a");
   Array1D<long> A = mk(a);
   Strict x{sym_i64("x")};
   i64 at = p;
   auto S = A(place::reverse);
   switch(pick("how", 0, 6)) {
   case 0: *(A.begin() + p) = x; break;
   case 1: A.begin()[p] = x; break;
   case 2: *(A.rbegin() + p) = x, at = n - 1 - p; break;
   case 3: *(S.begin() + p) = x, at = n - 1 - p; break;
   case 4: *(S.rend() - (n - p)) = x; break;
   case 5: *(A.end() - (n - p)) = x; break;
   case 6: CHECK(&*(A.begin() + p) == A.data() + p && (A.begin() + p).operator->() == A.data() + p && (A.cbegin() + p).operator->() == A.data() + p, "iterators of an array point to its elements"); return;
   }
   a[at] = x.val();
   CHECK(eq(A, a), "writing through an iterator changes exactly the element at its position");
}
// Rows and columns.
template <class A, class M>
static void rowscols(A& B, const M& a) {
   i64 m = a.m, n = a.n, c = 0;
   bool rows = pick("rows", 0, 1);
   c = rows ? n : m;
   i64 cnt = rows ? m : n;
   // every element of the row or column at once, as a checksum that depends on the place
   auto val = [&](i64 i) {
      unsigned long s = (unsigned long)c;
      for(i64 k = 0; k < c; ++k) s = s * 31 + (unsigned long)(rows ? a(i, k) : a(k, i));
      return s;
   };
   auto get = [&](const auto& r) {
      unsigned long s = (unsigned long)r.size().val();
      for(i64 k = 0; k < r.size().val(); ++k) s = s * 31 + (unsigned long)r.un(k).val();
      return s;
   };
   auto rev = [&](i64 i) { return val(cnt - 1 - i); };
   auto go = [&](auto&& it) {
      const auto& cit = it;
      switch(pick("iterator", 0, 5)) {
      case 0: laws(it.begin(), it.end(), cnt, val, get); break;
      case 1: laws(cit.begin(), cit.end(), cnt, val, get); break;
      case 2: laws(it.cbegin(), it.cend(), cnt, val, get); break;
      case 3: laws(it.rbegin(), it.rend(), cnt, rev, get, false); break;
      case 4: laws(cit.rbegin(), cit.rend(), cnt, rev, get, false); break;
      case 5: laws(it.crbegin(), it.crend(), cnt, rev, get, false); break;
      }
   };
   if(rows) go(RowIt{B});
   else go(ColIt{B});
}
HARNESS(rows_and_columns) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   auto a = symref2<long>(m, n, "a");
   Array2D<long> A = mk(a);
   const auto& cA = A;
   switch(pick("object", 0, 3)) {
   case 0: rowscols(A, a); break;
   case 1: rowscols(cA, a); break;
   case 2: {
      auto S = A(place::reverse, place::all);
      auto r = a;
      for(i64 i = 0; i < m; ++i)
         for(i64 j = 0; j < n; ++j) r(i, j) = a(m - 1 - i, j);
      rowscols(S, r);
      break;
   }
   case 3: {
      const auto e = ~A;
      auto r = a;
      for(i64 i = 0; i < m * n; ++i) r.v[i] = ~a.v[i];
      rowscols(e, r);
   }
   }
}
HARNESS(write_rows) {
   i64 m = pick("m", 1, M2), n = pick("n", 1, M2);
   auto a = symref2<long>(m, n, "a");
   Array2D<long> A = mk(a);
   Strict x{sym_i64("x")};
   bool rows = pick("rows", 0, 1);
   i64 k = pick("k", 0, (rows ? m : n) - 1), c = 0;
   bool back = pick("back", 0, 1);
   if(rows) {
      if(back) *(RowIt{A}.rbegin() + k) = x, k = m - 1 - k;
      else for(auto r : RowIt{A}) if(c++ == k) r = x;
   } else {
      if(back) *(ColIt{A}.rbegin() + k) = x, k = n - 1 - k;
      else for(auto r : ColIt{A}) if(c++ == k) r = x;
   }
   for(i64 i = 0; i < m; ++i)
      for(i64 j = 0; j < n; ++j)
         if((rows ? i : j) == k) a(i, j) = x.val();
   CHECK(eq(A, a), "writing through a row or column iterator changes exactly that row or column");
}
// All index pairs, row by row.
HARNESS(index_pairs) {
   i64 m = sym_i64("m"), n = sym_i64("n");
   sym_assume(m <= 3 && n <= 3);
#ifdef STRICT_DEBUG_OFF
   sym_assume(m >= 0 && n >= 0 && (m == 0) == (n == 0));
#endif
   i64 k = 0;
   bool ok = true;
   int o = outcome([&] {
      IndexRange2D r{m, n};
      m = sym_conc(m), n = sym_conc(n);
      auto e = r.end();
      for(auto it = r.begin(); it != e && k <= 9; ++k) {
         auto [i, j] = *it;
         ok = ok && n && i.val() == k / n && j.val() == k % n;
         auto old = it++;
         ok = ok && bool{old != it} && bool{!(old == it)};
         auto [i2, j2] = *old;
         ok = ok && bool{i2 == i} && bool{j2 == j};
         auto again = it;
         again = old;
         ok = ok && bool{again == old} && bool{(*again).first == i} && bool{(*again).second == j};
      }
   });
#ifndef STRICT_DEBUG_OFF
   bool valid = m >= 0 && n >= 0 && (m == 0) == (n == 0);
   CHECK((o == 0) == valid && o <= 1, "an index range with invalid sizes throws");
#endif
   if(o == 0) CHECK(ok && k == m * n, "an index range visits every index pair once, row by row");
}
HARNESS(index_pairs_of_array) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 3) : 0, k = 0;
   Array2D<int> A = mk(symref2<int>(m, n, "a"));
   bool ok = true;
   for(auto [i, j] : IndexRange2D{A}) {
      ok = ok && k < m * n && i.val() == k / n && j.val() == k % n;
      ++k;
   }
   CHECK(ok && k == m * n, "the index range of an array visits every index pair of it once, row by row");
}
// d points nowhere; a and b belong to different objects of the same size.
template <class It>
static void strangers(It a, It b) {
   i64 d = sym_i64("d");
   It n{};
   CHECK(outcome([&] { (void)*n; }) == 1 && outcome([&] { (void)n[d]; }) == 1, "reading through an iterator that points nowhere throws");
   CHECK(outcome([&] { (void)(n + d); }) == 1 && outcome([&] { (void)(n - d); }) == 1 && outcome([&] { (void)(d + n); }) == 1 && outcome([&] { (void)(n += d); }) == 1 && outcome([&] { (void)(n -= d); }) == 1, "moving an iterator that points nowhere throws");
   CHECK(outcome([&] { (void)++n; }) == 1 && outcome([&] { (void)--n; }) == 1 && outcome([&] { (void)n++; }) == 1 && outcome([&] { (void)n--; }) == 1, "stepping an iterator that points nowhere throws");
   if constexpr(std::is_lvalue_reference_v<decltype(*n)>) CHECK(outcome([&] { (void)n.operator->(); }) == 1, "taking the address behind an iterator that points nowhere throws");
   It z{};
   CHECK(outcome([&] { (void)(n != z); }) == 1 && outcome([&] { (void)(n < z); }) == 1 && outcome([&] { (void)(n <= z); }) == 1 && outcome([&] { (void)(n > z); }) == 1 && outcome([&] { (void)(n >= z); }) == 1 && outcome([&] { (void)(n - z); }) == 1, "comparing two iterators that point nowhere throws");
   CHECK(outcome([&] { (void)(n == n); }) == 1 && outcome([&] { (void)(n < a); }) == 1 && outcome([&] { (void)(n - a); }) == 1, "comparing an iterator that points nowhere throws");
   CHECK(outcome([&] { (void)(a == b); }) == 1 && outcome([&] { (void)(a != b); }) == 1 && outcome([&] { (void)(a < b); }) == 1 && outcome([&] { (void)(a <= b); }) == 1 && outcome([&] { (void)(a > b); }) == 1 && outcome([&] { (void)(a >= b); }) == 1, "comparing iterators of different objects throws");
   CHECK(outcome([&] { (void)(a - b); }) == 1, "the difference of iterators of different objects throws");
}
HARNESS(strange_iterators) {
#ifdef STRICT_DEBUG_OFF
   CHECK(true, "~checked in debug builds only");
#else
   i64 n = pick("n", 0, 2);
   Array1D<int> A(n), B(n);
   Array2D<int> M(2, 2), N(2, 2);
   switch(pick("kind", 0, 5)) {
   case 0: strangers(A.begin(), B.end()); break;
   case 1: strangers(A.cbegin(), B.cbegin()); break;
   case 2: strangers(M.begin(), N.begin()); break;
   case 3: strangers(M.cend(), N.cend()); break;
   case 4: {
      const RowIt R{M}, S{N};
      strangers(R.begin(), S.begin());
      break;
   }
   default: {
      ColIt R{M}, S{N};
      strangers(R.begin(), S.end());
   }
   }
   auto p = IndexRange2D{2, 2}.begin(), q = IndexRange2D{2, 3}.begin(), r = IndexRange2D{3, 2}.begin();
   CHECK(outcome([&] { (void)(p == q); }) == 1 && outcome([&] { (void)(p != r); }) == 1 && outcome([&] { p = q; }) == 1 && outcome([&] { p = r; }) == 1, "mixing index pairs of different shapes throws");
#endif
}
