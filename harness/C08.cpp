//! configs: debug
//! bounds: 1D arrays of 0..4 (thorough 0..6) elements; every 64-bit start, size, stride, first, last, count; index lists of up to 2 (thorough 3) arbitrary indexes; every element position of the slice
#include "slices.hpp"
// Inspects a slice: its size, and that its k-th element is base[at(k)] for every k.
struct Seen {
   i64 size = -1, k = 0;
   const void *p = nullptr, *q = nullptr, *r = nullptr;
   long value = 0;
};
template <class S>
static void look(S& s, Seen& g) {
   g.size = s.size().val();
   g.k = sym_i64("k-th");
   sym_assume(g.k >= 0);
   if(g.k < g.size) {
      g.p = &s.un(g.k);
      g.q = &s[g.k];
      g.r = &s.at(g.k);
      g.value = s[g.k].val();
   }
}
static void verdict(const Want& w, int o, const Seen& g, const Strict<long>* base, const Ref<long>& r) {
   CHECK(o == (w.valid ? 0 : 1), "slicing throws exactly for a slice that is not inside the array");
   if(o) return;
   CHECK(g.size == w.size, "a slice has the size its description says");
   if(g.p) {
      if(w.listed) sym_conc(g.k);
      i64 x = sym_conc(w.at(g.k));
      CHECK(g.p == base + x && g.q == base + x && g.r == base + x, "the k-th element of a slice is the element its description says");
      CHECK(x >= 0 && x < r.n, "an accepted slice stays inside the array");
      if(x >= 0 && x < r.n) CHECK(g.value == r[x], "the k-th element of a slice has the value of the array element");
   }
}

HARNESS(array) {
   auto r = symref<long>(pick("n", 0, N), "v");
   Array1D<long> A = mk(r);
   Seen g;
   int o = 0;
   Want w = with_slice(r.n, [&](auto s) { auto S = A(s); look(S, g); }, o);
   verdict(w, o, g, A.data(), r);
}
HARNESS(const_array) {
   auto r = symref<long>(pick("n", 0, N - 1), "v");
   const Array1D<long> A = mk(r);
   Seen g;
   int o = 0;
   Want w = with_slice(r.n, [&](auto s) { auto S = A(s); look(S, g); }, o);
   verdict(w, o, g, A.data(), r);
}
// A slice of a slice (through a named slice, a const slice and a temporary).
HARNESS(nested) {
   auto r = symref<long>(3, "v");
   Array1D<long> A = mk(r);
   Seen g;
   int o = 0;
   i64 how = pick("how", 0, 2);
   Want w = with_slice(3, [&](auto s) {
      if(how == 0) { auto S = A(place::reverse); auto T = S(s); look(T, g); }
      else if(how == 1) { const auto S = A(place::reverse); auto T = S(s); look(T, g); }
      else { auto T = A(place::reverse)(s); look(T, g); }
   }, o);
   if(w.listed) for(i64 j = 0; j < w.size; ++j) w.ix[j] = 2 - w.ix[j];
   else w.start = 2 - w.start, w.stride = -w.stride;
   verdict(w, o, g, A.data(), r);
}
// A slice of an expression has the values of the expression.
HARNESS(expression) {
   auto r = symref<long>(3, "v"), s = symref<long>(3, "w");
   Array1D<long> A = mk(r), B = mk(s);
   i64 size = -1, k = sym_i64("k-th"), val = 0;
   bool got = false;
   sym_assume(k >= 0);
   int o = 0;
   Want w = with_slice(3, [&](auto sl) {
      auto S = (A - B)(sl);
      size = S.size().val();
      if(k < size) val = S[k].val(), got = true;
   }, o);
   CHECK(o == (w.valid ? 0 : 1), "slicing an expression throws exactly for a slice that is not inside it");
   if(o) return;
   CHECK(size == w.size, "a slice of an expression has the size its description says");
   if(got) {
      if(w.listed) k = sym_conc(k);
      i64 x = sym_conc(w.at(k));
      CHECK(val == r[x] - s[x], "a slice of an expression has the values of the expression");
   }
}
// Slices given as braced index lists.
HARNESS(braces) {
   auto r = symref<long>(3, "v");
   Array1D<long> A = mk(r);
   i64 i = sym_i64("i"), j = sym_i64("j");
   const long *p = nullptr, *q = nullptr;
   i64 size = 0;
   int o;
   if(pick("const", 0, 1)) o = outcome([&] { auto S = std::as_const(A)({i, j}); size = S.size().val(); p = reinterpret_cast<const long*>(&S[0]); q = reinterpret_cast<const long*>(&S[1]); });
   else o = outcome([&] { auto S = A({i, j}); size = S.size().val(); p = reinterpret_cast<const long*>(&S[0]); q = reinterpret_cast<const long*>(&S[1]); });
   CHECK(o == (i >= 0 && i < 3 && j >= 0 && j < 3 ? 0 : 1), "slicing by a braced list throws exactly for an invalid index");
   if(o == 0) CHECK(size == 2 && p == A.blas_data() + i && q == A.blas_data() + j, "a slice by a braced list has the listed elements");
}
