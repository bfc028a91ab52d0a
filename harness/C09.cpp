//! configs: debug
//! bounds: 3x2 arrays (and 0x0), one of the two slices every 64-bit start, size, stride, first, last, count or list of up to 2 (thorough 3) arbitrary indexes, the other one of: all, reverse, a list, empty; row/col/diag/block/blockN: arrays up to 3x3, every 64-bit argument
#include "slices.hpp"

struct Seen2 {
   i64 m = -1, n = -1, size = -1, k = 0, l = 0;
   const void *p = nullptr, *q = nullptr, *r = nullptr;
   bool got = false;
   long value = 0;
};
template <class S>
static void look2(S& s, Seen2& g) {
   g.m = s.rows().val();
   g.n = s.cols().val();
   g.size = s.size().val();
   g.k = sym_i64("k-th");
   g.l = sym_i64("l-th");
   sym_assume(g.k >= 0 && g.l >= 0);
   if(g.k < g.m && g.l < g.n) {
      g.got = true;
      g.value = s(g.k, g.l).val();
      if constexpr(std::is_lvalue_reference_v<decltype(s(g.k, g.l))>) {
         g.p = &s.un(g.k, g.l);
         g.q = &s(g.k, g.l);
         g.r = &s.at(g.k, g.l);
      }
   }
}
static void verdict2(const Want& wr, const Want& wc, int o, Seen2& g, const Strict<long>* base, const Ref2<long>& r) {
   CHECK(o == (wr.valid && wc.valid ? 0 : 1), "2D slicing throws exactly for slices that are not inside the array");
   if(o) return;
   bool none = sym_conc(wr.size == 0 || wc.size == 0);
   CHECK(g.m == (none ? 0 : wr.size) && g.n == (none ? 0 : wc.size), "a 2D slice has the shape its descriptions say, 0x0 when either is empty");
   CHECK(g.size == g.m * g.n, "~the size of a 2D slice is rows times columns");
   if(g.got) {
      if(wr.listed) sym_conc(g.k);
      if(wc.listed) sym_conc(g.l);
      i64 x = sym_conc(wr.at(g.k)), y = sym_conc(wc.at(g.l));
      CHECK(x >= 0 && x < r.m && y >= 0 && y < r.n, "an accepted 2D slice stays inside the array");
      if(g.p) CHECK(g.p == base + (x * r.n + y) && g.q == base + (x * r.n + y) && g.r == base + (x * r.n + y), "the (k, l) element of a 2D slice is the element its descriptions say");
      CHECK(g.value == r(x, y), "the (k, l) element of a 2D slice has the value of that array element");
   }
}

// f(row slice, column slice) with one symbolic slice of either role.
template <class F>
static void with_two(i64 m, i64 n, F f, Want& wr, Want& wc, int& o, i64 lo, i64 hi) {
   bool row = pick("role", 0, 1);
   i64 len = row ? n : m;
   Want w;
   auto call = [&](auto s, auto t) { row ? f(s, t) : f(t, s); };
   i64 kind = pick("other", lo, hi);
   Want v;
   auto g = [&](auto t) {
      if constexpr(requires { f(t, t); }) {
         switch(kind) {
         case 0: if(row) f(t, place::all); else f(place::all, t); break;
         case 1: if(row) f(t, place::reverse); else f(place::reverse, t); break;
         case 2: { std::vector<ImplicitInt> l{1, 0}; if(row) f(t, l); else f(l, t); break; }
         default: if(row) f(t, place::firstN{0}); else f(place::firstN{0}, t);
         }
      }
   };
   switch(kind) {
   case 0: v.size = len; break;
   case 1: v.size = len, v.start = len - 1, v.stride = -1; break;
   case 2: v.listed = true, v.size = 2, v.ix[0] = 1, v.ix[1] = 0, v.valid = len > 1; break;
   default: v.size = 0;
   }
   w = with_slice(row ? m : n, g, o, false);
   (row ? wr : wc) = w;
   (row ? wc : wr) = v;
}

HARNESS(array) {
   bool e = pick("empty", 0, 1);
   auto r = symref2<long>(e ? 0 : 3, e ? 0 : 2, "v");
   Array2D<long> A = mk(r);
   Seen2 g;
   Want wr, wc;
   int o = 0;
   with_two(r.m, r.n, [&](auto s, auto t) { auto S = A(s, t); look2(S, g); }, wr, wc, o, 2, 3);
   verdict2(wr, wc, o, g, A.data(), r);
}
HARNESS(const_array) {
   auto r = symref2<long>(2, 3, "v");
   const Array2D<long> A = mk(r);
   Seen2 g;
   Want wr, wc;
   int o = 0;
   with_two(r.m, r.n, [&](auto s, auto t) { auto S = A(s, t); look2(S, g); }, wr, wc, o, 1, 1);
   verdict2(wr, wc, o, g, A.data(), r);
}
HARNESS_T(array_others) {
   auto r = symref2<long>(3, 3, "v");
   Array2D<long> A = mk(r);
   Seen2 g;
   Want wr, wc;
   int o = 0;
   with_two(r.m, r.n, [&](auto s, auto t) { auto S = A(s, t); look2(S, g); }, wr, wc, o, 0, 1);
   verdict2(wr, wc, o, g, A.data(), r);
}
HARNESS_T(const_array_others) {
   auto r = symref2<long>(3, 3, "v");
   const Array2D<long> A = mk(r);
   Seen2 g;
   Want wr, wc;
   int o = 0;
   with_two(r.m, r.n, [&](auto s, auto t) { auto S = A(s, t); look2(S, g); }, wr, wc, o, 2, 3);
   verdict2(wr, wc, o, g, A.data(), r);
}
// rows(slice) and cols(slice) of arrays, const arrays, slices and expressions.
HARNESS(rows_cols) {
   auto r = symref2<long>(3, 2, "v");
   Array2D<long> A = mk(r);
   Seen2 g;
   Want wr, wc;
   int o = 0;
   bool row = pick("rows", 0, 1);
   i64 how = pick("how", 0, 3);
   auto go = [&](auto s) {
      if(how == 0) {
         if(row) { auto S = A.rows(s); look2(S, g); } else { auto S = A.cols(s); look2(S, g); }
      } else if(how == 1) {
         if(row) { auto S = std::as_const(A).rows(s); look2(S, g); } else { auto S = std::as_const(A).cols(s); look2(S, g); }
      } else if(how == 2) {
         if(row) { auto S = A(place::all, place::all).rows(s); look2(S, g); } else { auto S = A(place::all, place::all).cols(s); look2(S, g); }
      } else {
         if(row) { auto S = (+A).rows(s); look2(S, g); } else { auto S = (+A).cols(s); look2(S, g); }
      }
   };
   Want w = with_slice(row ? 3 : 2, go, o, false);
   wr.size = 3, wc.size = 2;
   (row ? wr : wc) = w;
   verdict2(wr, wc, o, g, A.data(), r);
}

// One-dimensional slices of 2D arrays.
template <class S>
static void look1(S& s, i64& size, i64& k, const void*& p, long& value, bool& got) {
   size = s.size().val();
   k = sym_i64("k-th");
   sym_assume(k >= 0);
   if(k < size) {
      got = true;
      value = s[k].val();
      if constexpr(std::is_lvalue_reference_v<decltype(s[k])>) p = &s[k];
   }
}
HARNESS(row_col_diag) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   auto r = symref2<long>(m, n, "v");
   Array2D<long> A = mk(r);
   i64 size = -1, k = 0, i = sym_i64("i");
   const void* p = nullptr;
   long value = 0;
   bool got = false;
   i64 how = pick("how", 0, 4);
   auto on = [&](auto f) {
      return outcome([&] {
         if(how == 0) { auto S = f(A); look1(S, size, k, p, value, got); }
         else if(how == 1) { auto S = f(std::as_const(A)); look1(S, size, k, p, value, got); }
         else if(how == 2) { auto T = A(place::all, place::all); auto S = f(T); look1(S, size, k, p, value, got); }
         else if(how == 3) { auto S = f(A(place::all, place::all)); look1(S, size, k, p, value, got); }
         else { auto S = f(+A); look1(S, size, k, p, value, got); }
      });
   };
   int o = 0;
   bool valid = true;
   i64 want = 0, r0 = 0, c0 = 0, dr = 0, dc = 0;
   switch(pick("what", 0, 5)) {
   case 0: o = on([&](auto&& a) { return std::forward<decltype(a)>(a).row(i); }); valid = i >= 0 && i < m; want = n, r0 = i, dc = 1; break;
   case 1: o = on([&](auto&& a) { return std::forward<decltype(a)>(a).col(i); }); valid = i >= 0 && i < n; want = m, c0 = i, dr = 1; break;
   case 2: o = on([&](auto&& a) { return std::forward<decltype(a)>(a).row(place::last - i); }); valid = i >= 0 && i < m; want = n, r0 = m - 1 - i, dc = 1; break;
   case 3: o = on([&](auto&& a) { return std::forward<decltype(a)>(a).col(place::last - i); }); valid = i >= 0 && i < n; want = m, c0 = n - 1 - i, dr = 1; break;
   case 4: o = on([&](auto&& a) { return std::forward<decltype(a)>(a).diag(); }); want = m < n ? m : n, dr = dc = 1; break;
   case 5:
      o = on([&](auto&& a) { return std::forward<decltype(a)>(a).diag(i); });
      valid = i >= 0 ? i < n : i > -m;
      if(valid) {
         i = sym_conc(i);
         r0 = i < 0 ? -i : 0, c0 = i < 0 ? 0 : i, dr = dc = 1;
         want = m - r0 < n - c0 ? m - r0 : n - c0;
      }
      break;
   }
   CHECK(o == (valid ? 0 : 1), "row, col and diag throw exactly for an index outside the array");
   if(o) return;
   CHECK(size == want, "a row, column or diagonal has its length");
   if(got) {
      i64 x = sym_conc(r0 + k * dr), y = sym_conc(c0 + k * dc);
      CHECK(value == r(x, y), "a row, column or diagonal has the values of its elements");
      if(how != 4) CHECK(p == A.data() + (x * n + y), "a row, column or diagonal refers to its elements");
   }
}
HARNESS(blocks) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 2) : 0;
   auto r = symref2<long>(m, n, "v");
   Array2D<long> A = mk(r);
   i64 a = sym_i64("a"), b = sym_i64("b"), c = sym_i64("c"), d = sym_i64("d");
   Seen2 g;
   Want wr, wc;
   int o = 0;
   i64 how = pick("how", 0, 3);
   auto on = [&](auto f) {
      return outcome([&] {
         if(how == 0) { auto S = f(A); look2(S, g); }
         else if(how == 1) { auto S = f(std::as_const(A)); look2(S, g); }
         else if(how == 2) { auto S = f(A(place::all, place::all)); look2(S, g); }
         else { auto S = f(+A); look2(S, g); }
      });
   };
   switch(pick("what", 0, 2)) {
   case 0:
      o = on([&](auto&& x) { return std::forward<decltype(x)>(x).block(a, b, c, d); });
      wr.valid = a >= 0 && a <= c && c < m;
      wc.valid = b >= 0 && b <= d && d < n;
      wr.start = a, wr.size = c - a + 1, wc.start = b, wc.size = d - b + 1;
      break;
   case 1:
      o = on([&](auto&& x) { return std::forward<decltype(x)>(x).block(place::last - a, b, c, place::last - d); });
      wr.valid = a >= 0 && a < m && m - 1 - a <= c && c < m;
      wc.valid = b >= 0 && d >= 0 && d < n && b <= n - 1 - d;
      wr.start = m - 1 - a, wr.size = c - wr.start + 1, wc.start = b, wc.size = n - 1 - d - b + 1;
      break;
   case 2:
      o = on([&](auto&& x) { return std::forward<decltype(x)>(x).blockN(a, b, c, d); });
      wr.valid = inside(a, c, 1, m), wc.valid = inside(b, d, 1, n);
      wr.start = a, wr.size = c, wc.start = b, wc.size = d;
      break;
   }
   verdict2(wr, wc, o, g, A.data(), r);
}
// Braced index lists in both places.
HARNESS(braces) {
   auto r = symref2<long>(2, 3, "v");
   Array2D<long> A = mk(r);
   i64 i = sym_i64("i"), j = sym_i64("j"), k = sym_i64("k");
   Seen2 g;
   Want wr, wc;
   int o = 0;
   bool c = pick("const", 0, 1);
   auto set = [&](Want& w, bool two) {
      w.listed = true;
      i64 len = &w == &wr ? 2 : 3;
      if(two) { w.size = 2; w.ix[0] = i; w.ix[1] = j; w.valid = i >= 0 && i < len && j >= 0 && j < len; }
      else { w.size = 1; w.ix[0] = k; w.valid = k >= 0 && k < len; }
   };
   auto on = [&](auto f) { return outcome([&] { if(c) { auto S = f(std::as_const(A)); look2(S, g); } else { auto S = f(A); look2(S, g); } }); };
   switch(pick("what", 0, 4)) {
   case 0: o = on([&](auto& a) { return a({i, j}, place::all); }); set(wr, true); wc.size = 3; break;
   case 1: o = on([&](auto& a) { return a(place::all, {i, j}); }); set(wc, true); wr.size = 2; break;
   case 2: o = on([&](auto& a) { return a({i, j}, {k}); }); set(wr, true); set(wc, false); break;
   case 3: o = on([&](auto& a) { return a.rows({i, j}); }); set(wr, true); wc.size = 3; break;
   case 4: o = on([&](auto& a) { return a.cols({i, j}); }); set(wc, true); wr.size = 2; break;
   }
   verdict2(wr, wc, o, g, A.data(), r);
}
