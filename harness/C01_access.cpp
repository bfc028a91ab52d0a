//! configs: debug
//! bounds: 1D arrays of 0..4 elements, 2D arrays up to 3x3, every 64-bit index, every element value
#include "common.hpp"

template <class A, class I>
static void acc1(A& a, I i, i64 want, bool valid, const void* base, unsigned es) {
   const void* p = nullptr;
   int o = outcome([&] { p = &a[i]; });
   CHECK(o == (valid ? 0 : 1), "operator[] throws exactly for an invalid index");
   if(o == 0) CHECK(p == static_cast<const char*>(base) + want * es, "operator[] refers to the selected element");
   p = nullptr;
   o = outcome([&] { p = &a.at(i); });
   CHECK(o == (valid ? 0 : 1), "at() throws exactly for an invalid index");
   if(o == 0) CHECK(p == static_cast<const char*>(base) + want * es, "at() refers to the selected element");
   if(valid) CHECK(static_cast<const void*>(&a.un(i)) == static_cast<const char*>(base) + want * es, "un() refers to the selected element");
}
template <class A>
static void all1(A& a, i64 n, const void* base, unsigned es) {
   i64 i = sym_i64("i");
   switch(pick("kind", 0, 6)) {
   case 0: acc1(a, i, i, i >= 0 && i < n, base, es); break;
   case 1: acc1(a, Strict<long>{i}, i, i >= 0 && i < n, base, es); break;
   case 2: { int k = sym_i32("k"); acc1(a, k, k, k >= 0 && k < n, base, es); break; }
   case 3: { int k = sym_i32("k"); acc1(a, Strict<int>{k}, k, k >= 0 && k < n, base, es); break; }
   case 4: acc1(a, place::last - i, n - 1 - i, i >= 0 && i < n, base, es); break;
   case 5: acc1(a, place::last + i, n - 1 + i, i <= 0 && i > -n, base, es); break;
   case 6: acc1(a, i + place::last, n - 1 + i, i <= 0 && i > -n, base, es); break;
   }
}
template <class T>
static void arr1() {
   i64 n = pick("n", 0, 4);
   auto r = symref<T>(n, "a");
   Array1D<T> A = mk(r);
   if(pick("const", 0, 1)) all1(std::as_const(A), n, A.data(), sizeof(T));
   else all1(A, n, A.data(), sizeof(T));
   CHECK(eq(A, r), "access leaves the elements as they were");
}
HARNESS(long1) { arr1<long>(); }
HARNESS(double1) { arr1<double>(); }
HARNESS(bool1) { arr1<bool>(); }
HARNESS(aligned1) {
   i64 n = pick("n", 0, 3);
   Array1D<double, Aligned> A(n);
   all1(A, n, A.data(), sizeof(double));
}

HARNESS(write1) {
   i64 n = pick("n", 0, 4);
   auto r = symref<long>(n, "a");
   Array1D<long> A = mk(r);
   i64 i = sym_i64("i"), x = sym_i64("x");
   int how = pick("how", 0, 1);
   int o = outcome([&] {
      if(how) A.at(i) = Strict<long>{x};
      else A[i] = Strict<long>{x};
   });
   bool valid = i >= 0 && i < n;
   CHECK(o == (valid ? 0 : 1), "a write through an index throws exactly for an invalid index");
   if(valid) r[sym_conc(i)] = x;
   CHECK(eq(A, r), "a write through an index changes that element and no other");
}

template <class A, class I, class J>
static void acc2(A& a, I i, J j, i64 wi, i64 wj, i64 m, i64 n, const void* base, unsigned es) {
   bool valid = wi >= 0 && wi < m && wj >= 0 && wj < n;
   const void* p = nullptr;
   int o = outcome([&] { p = &a(i, j); });
   CHECK(o == (valid ? 0 : 1), "operator()(i, j) throws exactly for an invalid index");
   if(o == 0) CHECK(p == static_cast<const char*>(base) + (wi * n + wj) * es, "operator()(i, j) refers to the selected element");
   p = nullptr;
   o = outcome([&] { p = &a.at(i, j); });
   CHECK(o == (valid ? 0 : 1), "at(i, j) throws exactly for an invalid index");
   if(o == 0) CHECK(p == static_cast<const char*>(base) + (wi * n + wj) * es, "at(i, j) refers to the selected element");
   if(valid) CHECK(static_cast<const void*>(&a.un(i, j)) == static_cast<const char*>(base) + (wi * n + wj) * es, "un(i, j) refers to the selected element");
}
template <class A>
static void all2(A& a, i64 m, i64 n, const void* base, unsigned es) {
   i64 i = sym_i64("i"), j = sym_i64("j");
   switch(pick("kind", 0, 5)) {
   case 0: acc2(a, i, j, i, j, m, n, base, es); break;
   case 1: acc2(a, Strict<long>{i}, j, i, j, m, n, base, es); break;
   case 2: { int k = sym_i32("k"); acc2(a, i, k, i, k, m, n, base, es); break; }
   case 3: acc2(a, place::last - i, j, m - 1 - i, j, m, n, base, es); break;
   case 4: acc2(a, i, place::last - j, i, n - 1 - j, m, n, base, es); break;
   case 5: acc2(a, place::last - i, place::last - j, m - 1 - i, n - 1 - j, m, n, base, es); break;
   }
}
template <class T>
static void arr2(i64 M, i64 N) {
   i64 m = pick("m", 0, M), n = m ? pick("n", 1, N) : 0;
   auto r = symref2<T>(m, n, "a");
   Array2D<T> A = mk(r);
   if(pick("const", 0, 1)) all2(std::as_const(A), m, n, A.data(), sizeof(T));
   else all2(A, m, n, A.data(), sizeof(T));
   CHECK(eq(A, r), "access leaves the elements as they were");
}
HARNESS(long2) { arr2<long>(3, 3); }
HARNESS(float2) { arr2<float>(3, 2); }

HARNESS(write2) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   auto r = symref2<long>(m, n, "a");
   Array2D<long> A = mk(r);
   i64 i = sym_i64("i"), j = sym_i64("j"), x = sym_i64("x");
   int how = pick("how", 0, 1);
   int o = outcome([&] {
      if(how) A.at(i, j) = Strict<long>{x};
      else A(i, j) = Strict<long>{x};
   });
   bool valid = i >= 0 && i < m && j >= 0 && j < n;
   CHECK(o == (valid ? 0 : 1), "a write through two indexes throws exactly for an invalid index");
   if(valid) r(sym_conc(i), sym_conc(j)) = x;
   CHECK(eq(A, r), "a write through two indexes changes that element and no other");
}

HARNESS(fixed) {
   FixedArray1D<long, 3> F;
   all1(F, 3, F.data(), sizeof(long));
}
HARNESS(fixed2) {
   FixedArray2D<long, 2, 3> F;
   all2(F, 2, 3, F.data(), sizeof(long));
}
HARNESS(index_sums) {
   i64 n = 4, i = sym_i64("i"), d = sym_i64("d");
   sym_assume(i >= 0 && i < n && d > -n && d < n);
   Array1D<long> A(n);
   acc1(A, ImplicitInt{i} + ImplicitInt{d}, i + d, i + d >= 0 && i + d < n, A.data(), sizeof(long));
   acc1(A, ImplicitInt{i} - ImplicitInt{d}, i - d, i - d >= 0 && i - d < n, A.data(), sizeof(long));
   acc1(A, place::last - i - d, n - 1 - i - d, i + d >= 0 && i + d < n, A.data(), sizeof(long));
   acc1(A, place::last - i + d, n - 1 - i + d, d - i <= 0 && i - d < n, A.data(), sizeof(long));
   Array2D<long> B(3, 2);
   auto rc = [&](auto x, auto y, i64 a, i64 b) { acc2(B, x, y, a, b, 3, 2, B.data(), sizeof(long)); };
   rc(i + place::last, place::last + d, 2 + i, 1 + d);
   rc(place::last + d, i + place::last, 2 + d, 1 + i);
}
