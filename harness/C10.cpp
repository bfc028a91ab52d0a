//! configs: debug
//! bounds: arrays of up to 6 elements (2D up to 2x3), view2D sizes: one of 0..6, 1025, 2^31, 2^32, 3*2^32, 2^61+1, 2^62, 2^63-1, -1, -2, -2^63, the other every 64-bit value, in both roles, raw storage of 0..4 elements; every element position of the view
#include "common.hpp"

struct V {
   i64 m = 1, n = -1, k = 0, l = 0;
   const void *p = nullptr, *q = nullptr, *r = nullptr;
   bool got = false;
   long value = 0;
};
template <class S>
static void look1(S&& s, V& g) {
   g.n = s.size().val();
   g.k = 0, g.l = sym_i64("k-th");
   sym_assume(g.l >= 0);
   if(g.l < g.n) {
      g.got = true;
      g.value = s[g.l].val();
      if constexpr(std::is_lvalue_reference_v<decltype(s[g.l])>) g.p = &s.un(g.l), g.q = &s[g.l], g.r = &s.at(g.l);
   }
}
template <class S>
static void look2(S&& s, V& g) {
   g.m = s.rows().val();
   g.n = s.cols().val();
   g.k = sym_i64("k-th"), g.l = sym_i64("l-th");
   sym_assume(g.k >= 0 && g.l >= 0);
   if(g.k < g.m && g.l < g.n) {
      g.got = true;
      g.value = s(g.k, g.l).val();
      if constexpr(std::is_lvalue_reference_v<decltype(s(g.k, g.l))>) g.p = &s.un(g.k, g.l), g.q = &s(g.k, g.l), g.r = &s.at(g.k, g.l);
   }
}
// m x n elements; the one at (k, l) is element k*n + l of the storage at base, whose contents are v.
static void verdict(V& g, i64 m, i64 n, const void* base, const long* v) {
   CHECK(g.m == m && g.n == n, "a view has the shape asked for");
   if(!g.got) return;
   i64 x = sym_conc(g.k * n + g.l);
   CHECK(x >= 0 && x < m * n, "~a view stays inside its storage");
   if(base) CHECK(g.p == (const long*)base + x && g.q == g.p && g.r == g.p, "elements of a view are the elements of the storage in row-major order");
   CHECK(g.value == v[x], "elements of a view have the values of the storage in row-major order");
}

static void sizes(i64& p, i64& q) {
   static const i64 T[] = {0, 1, 2, 3, 4, 5, 6, 1025, 1L << 31, 1L << 32, 3L << 32, (1L << 61) + 1, 1L << 62, INT64_MAX, -1, -2, INT64_MIN};
   i64 x = T[pick("factor", 0, 16)], y = sym_i64("size");
   bool first = pick("role", 0, 1);
   p = first ? x : y;
   q = first ? y : x;
}

HARNESS(view2D_of_1D) {
   static const i64 NS[] = {0, 1, 2, 4, 6};
   auto r = symref<long>(NS[pick("n", 0, 4)], "v");
   Array1D<long> A = mk(r);
   i64 p, q;
   sizes(p, q);
   V g;
   i64 how = pick("how", 0, 3);
   int o = outcome([&] {
      if(how == 0) look2(A.view2D(p, q), g);
      else if(how == 1) look2(std::as_const(A).view2D(p, q), g);
      else if(how == 2) look2(A(place::all).view2D(p, q), g);
      else look2((+A).view2D(p, q), g);
   });
   bool ok = false;
   for(i64 d = 1; d <= r.n; ++d) ok |= r.n % d == 0 && p == d && q == r.n / d;
   if(r.n == 0) ok = (p >= 0) & (q >= 0) & ((p == 0) | (q == 0));
   CHECK(o == (ok ? 0 : 1), "view2D throws exactly when the sizes do not multiply to the size of the array");
   if(o == 0) {
      bool e = r.n == 0;
      if(e) CHECK(!g.got, "a view of an empty array is empty");
      else verdict(g, sym_conc(p), sym_conc(q), how == 3 ? nullptr : A.data(), r.v);
   }
}
HARNESS(view2D_of_2D) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 3) : 0;
   auto r = symref2<long>(m, n, "v");
   Array2D<long> A = mk(r);
   i64 p, q;
   sizes(p, q);
   V g;
   i64 how = pick("how", 0, 3);
   int o = outcome([&] {
      if(how == 0) look2(A.view2D(p, q), g);
      else if(how == 1) look2(std::as_const(A).view2D(p, q), g);
      else if(how == 2) look2(A(place::all, place::all).view2D(p, q), g);
      else look2((+A).view2D(p, q), g);
   });
   bool ok = false;
   for(i64 d = 1; d <= m * n; ++d) ok |= (m * n) % d == 0 && p == d && q == m * n / d;
   if(m == 0) ok = (p >= 0) & (q >= 0) & ((p == 0) | (q == 0));
   CHECK(o == (ok ? 0 : 1), "view2D throws exactly when the sizes do not multiply to the size of the array");
   if(o == 0) {
      if(m == 0) CHECK(!g.got, "a view of an empty array is empty");
      else verdict(g, sym_conc(p), sym_conc(q), how == 3 ? nullptr : A.data(), r.v);
   }
}
HARNESS(view1D) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 3) : 0;
   auto r = symref2<long>(m, n, "v");
   Array2D<long> A = mk(r);
   V g;
   i64 how = pick("how", 0, 3);
   int o = outcome([&] {
      if(how == 0) look1(A.view1D(), g);
      else if(how == 1) look1(std::as_const(A).view1D(), g);
      else if(how == 2) look1(A(place::all, place::all).view1D(), g);
      else look1((+A).view1D(), g);
   });
   CHECK(o == 0, "view1D never throws");
   verdict(g, 1, m * n, how == 3 ? nullptr : A.data(), r.v);
}
HARNESS(view1D_of_1D) {
   auto r = symref<long>(pick("n", 0, 3), "v");
   Array1D<long> A = mk(r);
   V g;
   i64 how = pick("how", 0, 2);
   int o = outcome([&] {
      if(how == 0) look1(A.view1D(), g);
      else if(how == 1) look1(std::as_const(A).view1D(), g);
      else look1(A(place::all).view1D(), g);
   });
   CHECK(o == 0, "view1D never throws");
   verdict(g, 1, r.n, A.data(), r.v);
}
// The order of a view of a strided slice is the order of the slice, and writes go to the array.
HARNESS(view_of_slice) {
   auto r = symref2<long>(3, 4, "v");
   Array2D<long> A = mk(r);
   long x = sym_i64("x");
   i64 how = pick("how", 0, 3), k = pick("k", 0, 3);
   i64 i, j; // the element written
   long before = 0;
   auto wr = [&](Strict<long>& e) { before = e.val(); e = Strict{x}; };
   // the slice is { (2,0) (2,2) (0,0) (0,2) }
   static const i64 I[] = {2, 2, 0, 0}, J[] = {0, 2, 0, 2};
   auto S = A(seqN{2, 2, -2}, place::even);
   i = I[k], j = J[k];
   if(how == 0) { auto W = S.view1D(); wr(W[k]); }
   else if(how == 1) { auto W = S.view2D(1, 4); wr(W(0, k)); }
   else if(how == 2) { auto W = S.view2D(4, 1); wr(W(k, 0)); }
   else { auto W = A(seqN{2, 2, -2}, place::even).view1D().view2D(2, 2); wr(W(k / 2, k % 2)); }
   CHECK(before == r(i, j), "a view of a slice follows the order of the slice");
   r(i, j) = x;
   CHECK(eq(A, r), "a write through a view changes exactly the element it refers to");
}
HARNESS(attach) {
   i64 cap = pick("cap", 0, 4);
   auto r = symref<long>(cap, "v");
   long buf[5], copy[5];
   for(i64 i = 0; i < 5; ++i) buf[i] = copy[i] = i < cap ? r.v[i] : 7;
   long* p = buf;
   const long* c = buf;
   V g;
   bool cst = pick("const", 0, 1);
   auto S = attach1D(p, cap);
   CHECK(S.size().val() == cap, "attach1D has the size asked for");
   int o = outcome([&] { if(cst) look1(attach1D(c, cap), g); else look1(attach1D(p, cap), g); });
   CHECK(o == 0, "attaching storage does not throw");
   verdict(g, 1, cap, buf, copy);
   if(cap) {
      i64 k = pick("k", 0, cap - 1);
      long x = sym_i64("x");
      S[k] = Strict{x};
      copy[k] = x;
      bool ok = true;
      for(i64 i = 0; i < 5; ++i) ok &= buf[i] == copy[i];
      CHECK(ok, "a write through attached storage changes exactly that element");
      S += Strict{x};
      ok = true;
      for(i64 i = 0; i < 5; ++i) ok &= buf[i] == (i < cap ? copy[i] + x : copy[i]);
      CHECK(ok, "an operation on attached storage stays inside it");
   }
}
HARNESS(attach_2D) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 3) : 0;
   long buf[7], copy[7];
   for(i64 i = 0; i < 7; ++i) buf[i] = copy[i] = i < m * n ? sym<long>("v") : 7;
   long* p = buf;
   const long* c = buf;
   V g;
   bool cst = pick("const", 0, 1);
   int o = outcome([&] { if(cst) look2(attach2D(c, m, n), g); else look2(attach2D(p, m, n), g); });
   CHECK(o == 0, "attaching storage does not throw");
   verdict(g, m, n, buf, copy);
   auto S = attach2D(p, m, n);
   if(m) {
      i64 i = pick("i", 0, m - 1), j = pick("j", 0, n - 1);
      long x = sym_i64("x");
      S(i, j) = Strict{x};
      copy[i * n + j] = x;
      S.row(i) += Strict{x};
      for(i64 l = 0; l < n; ++l) copy[i * n + l] += x;
      S.col(j) -= Strict{x};
      for(i64 l = 0; l < m; ++l) copy[l * n + j] -= x;
      bool ok = true;
      for(i64 l = 0; l < 7; ++l) ok &= buf[l] == copy[l];
      CHECK(ok, "writes through attached 2D storage change exactly their elements");
   }
}
// attach with negative sizes is refused
HARNESS(attach_negative) {
   long buf[2] = {1, 2};
   long* p = buf;
   i64 n = sym_i64("n");
   sym_assume(n < 0);
   V g;
   int o = outcome([&] { look1(attach1D(p, n), g); });
   CHECK(o == 1, "attaching a negative number of elements throws");
}
