//! configs: debug
//! bounds: 1D arrays of 0..3 elements, 2D arrays up to 2x2, every resizing, inserting, removing and constructing operation at every valid position; one failing allocation (thorough: two) at any allocation of the operation; sources of 0..2 elements (2D: 1x2, 2x1) of which any may throw when evaluated; all contents
//! assumes: the source is not the target where it throws; MIN / -1 is excluded
#include "common.hpp"

#ifdef THOROUGH
constexpr int fails = 2;
#else
constexpr int fails = 1;
#endif

// A source whose elements are r / d: evaluation throws where d is zero.
struct Throwing1 {
   Ref<int> r, d, q;
   Array1D<int> R, D;
   bool zero = false;
   explicit Throwing1(i64 n) : r(symref<int>(n, "r")), d(symref<int>(n, "d")), q(r), R(mk(r)), D(mk(d)) {
      for(i64 i = 0; i < n; ++i) {
         sym_assume(d[i] >= 0);
         if(d[i] == 0) zero = true;
         else q[i] = r[i] / d[i];
      }
   }
   auto expr() const { return R / D; }
};
struct Throwing2 {
   Ref2<int> r, d, q;
   Array2D<int> R, D;
   bool zero = false;
   Throwing2(i64 m, i64 n) : r(symref2<int>(m, n, "r")), d(symref2<int>(m, n, "d")), q(r), R(mk(r)), D(mk(d)) {
      for(i64 i = 0; i < m * n; ++i) {
         sym_assume(d.v[i] >= 0);
         if(d.v[i] == 0) zero = true;
         else q.v[i] = r.v[i] / d.v[i];
      }
   }
   auto expr() const { return R / D; }
};

// f changes A; afterwards A is as before if it failed.
template <class A, class R, class F>
static int strong(A& a, const R& r, bool mayThrow, F f) {
   const auto* d = a.data();
   sym_oom(fails);
   int o = outcome(f);
   sym_oom(0);
   CHECK(o == 0 || (eq(a, r) && a.data() == d), "a failed operation leaves shape, elements and storage as they were");
   CHECK(o == 0 || o == 2 || (o == 1 && mayThrow), "only what can fail fails");
   CHECK(!(o == 0 && mayThrow), "~an element that throws is not lost");
   return o;
}

template <class A1>
static void one() {
   auto r = symref<int>(pick("n", 0, 3), "a");
   A1 A(r.n);
   for(i64 i = 0; i < r.n; ++i) A.un(i) = Strict{r[i]};
   i64 op = pick("op", 0, 9);
   if(op <= 2) { // a size
      i64 k = pick("k", 0, 4);
      strong(A, r, false, [&] { op == 0 ? A.resize(k) : op == 1 ? A.resize(k, false) : A.resize_and_assign(const1D<int>(ImplicitInt{k}, Zero<int>)); });
   } else if(op <= 4) { // a position
      if(r.n == 0) return;
      i64 k = pick("k", 0, r.n - 1);
      if(op == 3) strong(A, r, false, [&] { A.remove(k); });
      else strong(A, r, false, [&] { A.remove(std::vector<ImplicitInt>{ImplicitInt{k}}); });
   } else if(op == 5) {
      i64 k = pick("k", 0, r.n);
      strong(A, r, false, [&] { A.insert(k, 5_si); });
   } else {
      Throwing1 s(pick("m", 0, 2));
      i64 k = pick("k", 0, r.n);
      switch(op) {
      case 6: {
         int o = strong(A, r, s.zero, [&] { A.insert(k, s.expr()); });
         if(!o) CHECK(A.size().val() == r.n + s.r.n, "an insertion that does not fail happens");
         break;
      }
      case 7: strong(A, r, s.zero, [&] { k ? A.insert_back(s.expr()) : A.insert_front(s.expr()); }); break;
      case 8: {
         int o = strong(A, r, s.zero, [&] { A.resize_and_assign(s.expr()); });
         if(!o) CHECK(eq(A, s.q), "resize_and_assign that does not fail happens");
         break;
      }
      default: { // part way
         int o = outcome([&] { A = s.expr(); });
         CHECK(o == (s.r.n == r.n && !s.zero ? 0 : 1), "an assignment throws when its source does");
         CHECK(A.size().val() == r.n, "an assignment that fails part way keeps the size");
         if(!o) CHECK(eq(A, s.q), "an assignment that does not fail happens");
      }
      }
   }
}
HARNESS(one_unaligned) {
   { one<Array1D<int>>(); }
   CHECK(sym_live() == 0, "nothing leaks");
}
HARNESS(one_aligned) {
   { one<Array1D<int, Aligned>>(); }
   CHECK(sym_live() == 0, "nothing leaks");
}

HARNESS(construct) {
   {
      Throwing1 s(pick("m", 0, 2));
      Strict<int> y{sym_i32("y")};
      auto r = s.r;
      bool zero = false;
      int o = 0;
      i64 kind = pick("kind", 0, 11);
      sym_oom(fails);
      switch(kind) {
      case 0: o = outcome([&] { Array1D<int> A(s.expr()); }); zero = s.zero; break;
      case 1: o = outcome([&] { Array1D<int, Aligned> A(s.expr()); }); zero = s.zero; break;
      case 2: o = outcome([&] { Array1D<int> A(s.R); Array1D<int> B(A); }); break;
      case 3: o = outcome([&] { Array1D<int> A(3, y); Array1D<int> B{y, y}; }); break;
      case 4: o = outcome([&] { Array1D<int> A(s.R.begin(), s.R.end()); }); break;
      case 5: o = outcome([&] { Array1D<int> A(s.R.end(), s.R.begin()); }); zero = r.n > 0; break;
      case 6: o = outcome([&] { Array2D<int> A(2, 1, y); Array2D<int> B(A); }); break;
      case 7: o = outcome([&] { Array2D<int> A{{y}, {y, y}}; }); zero = true; break;
      case 8: o = outcome([&] { Array2D<int, Aligned> A{{y, y}, {y, y}}; }); break;
      case 9: {
         if(r.n != 2) return;
         o = outcome([&] { Array2D<int> A(s.expr().view2D(1, 2)); });
         zero = s.zero;
         break;
      }
      case 10: o = outcome([&] { Array2D<int> A(2, 0); }); zero = true; break;
      default: o = outcome([&] { Array2D<int, Aligned> A(s.R.view2D(r.n ? 1 : 0, ImplicitInt{r.n})); });
      }
      sym_oom(0);
      CHECK(o == 0 || o == 2 || (o == 1 && zero), "a construction fails only for lack of memory or because its source does");
      CHECK(o != 0 || !zero, "a construction from a source that fails does");
      CHECK(eq(s.R, r), "a failed construction leaves its source alone");
   }
   CHECK(sym_live() == 0, "a failed construction leaks nothing");
}

template <class A2>
static void two() {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   auto r = symref2<int>(m, n, "a");
   A2 A(m, n);
   for(i64 i = 0; i < m * n; ++i) A.un(i) = Strict{r.v[i]};
   i64 op = pick("op", 0, 8);
   bool rows = pick("rows", 0, 1);
   i64 len = rows ? m : n;
   switch(op) {
   case 0: case 1: {
      i64 k = pick("k", 0, 3), l = k ? pick("l", 1, 2) : 0;
      strong(A, r, false, [&] { A.resize(k, l, op == 0); });
      break;
   }
   case 2: {
      if(!m) return;
      i64 k = pick("k", 0, len - 1);
      strong(A, r, false, [&] { rows ? A.remove_row(k) : A.remove_col(k); });
      break;
   }
   case 3: {
      if(!m) return;
      i64 k = pick("k", 0, len - 1);
      std::vector<ImplicitInt> v{ImplicitInt{k}};
      strong(A, r, false, [&] { rows ? A.remove_rows(v) : A.remove_cols(v); });
      break;
   }
   case 4: {
      Throwing1 s(m ? (rows ? n : m) : pick("size", 1, 2));
      i64 k = pick("k", 0, len);
      int o = strong(A, r, s.zero, [&] { rows ? A.insert_row(k, s.expr()) : A.insert_col(k, s.expr()); });
      if(!o) CHECK(A.rows().val() == (m ? m + (rows ? 1 : 0) : rows ? 1 : s.r.n) && A.cols().val() == (m ? n + (rows ? 0 : 1) : rows ? s.r.n : 1), "an insertion of a row or column that does not fail happens");
      break;
   }
   case 5: {
      Throwing2 s(rows || !m ? 1 : m, rows && m ? n : 1);
      i64 k = pick("k", 0, len);
      strong(A, r, s.zero, [&] { rows ? A.insert_rows(k, s.expr()) : A.insert_cols(k, s.expr()); });
      break;
   }
   case 6: {
      Throwing2 s(1, rows ? 1 : 2);
      int o = strong(A, r, s.zero, [&] { A.resize_and_assign(s.expr()); });
      if(!o) CHECK(eq(A, s.q), "2D resize_and_assign that does not fail happens");
      break;
   }
   case 7: {
      Throwing2 s(1, 2);
      int o = outcome([&] { A = s.expr(); });
      CHECK(o == (m == 1 && n == 2 && !s.zero ? 0 : 1), "a 2D assignment throws when its source does");
      CHECK(A.rows().val() == m && A.cols().val() == n, "a 2D assignment that fails part way keeps the shape");
      if(!o) CHECK(eq(A, s.q), "a 2D assignment that does not fail happens");
      break;
   }
   default: {
      Strict<int> y{sym_i32("y")};
      bool fit = rows ? (m == 2 && n == 1) : false;
      int o = strong(A, r, !fit, [&] {
         if(rows) A = use::List2D<Strict<int>>{{y}, {y}};
         else A = use::List2D<Strict<int>>{{y}, {y, y}};
      });
      CHECK(o || (same(A.un(0, 0), y) & same(A.un(1, 0), y)), "a list assignment that does not fail happens");
   }
   }
}
HARNESS(two_unaligned) {
   { two<Array2D<int>>(); }
   CHECK(sym_live() == 0, "nothing leaks");
}
HARNESS(two_aligned) {
   { two<Array2D<int, Aligned>>(); }
   CHECK(sym_live() == 0, "nothing leaks");
}
