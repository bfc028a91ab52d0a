// Vocabulary shared by the harnesses: symbolic values, arrays of symbolic contents, reference models.
#pragma once
#include <strictpp/strict.hpp>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>
#include "sym.hpp"

using namespace spp;

// The text of a check is its identity. A text starting with '~' may stay unreached.
#define CHECK(c, m) sym_check(static_cast<bool>(c), m)

using i64 = long;

template <class T>
T sym(const char* n) {
   if constexpr(std::is_same_v<T, double>) return sym_f64(n);
   else if constexpr(std::is_same_v<T, float>) return sym_f32(n);
   else if constexpr(std::is_same_v<T, bool>) return (sym_i8(n) & 1) != 0;
   else if constexpr(sizeof(T) == 8) return static_cast<T>(sym_i64(n));
   else if constexpr(sizeof(T) == 4) return static_cast<T>(sym_i32(n));
   else if constexpr(sizeof(T) == 2) return static_cast<T>(sym_i16(n));
   else return static_cast<T>(sym_i8(n));
}

// One path for each value in [lo, hi].
inline i64 pick(const char* n, i64 lo, i64 hi) {
   i64 x = sym_i64(n);
   sym_assume(x >= lo && x <= hi);
   return sym_conc(x);
}

// The same value: integers equal; floating point the same bits, or both NaN.
template <class T>
bool same(T a, T b) {
   if constexpr(std::is_same_v<T, double>) return sym_same_f64(a, b);
   else if constexpr(std::is_same_v<T, float>) return sym_same_f32(a, b);
   else return a == b;
}
template <class T>
bool same(Strict<T> a, T b) { return same(a.val(), b); }
template <class T>
bool same(T a, Strict<T> b) { return same(a, b.val()); }
template <class T>
bool same(Strict<T> a, Strict<T> b) { return same(a.val(), b.val()); }

// Reference model of a 1D array.
template <class T, int CAP = 24>
struct Ref {
   i64 n = 0;
   T v[CAP];
   T& operator[](i64 i) { return v[i]; }
   const T& operator[](i64 i) const { return v[i]; }
   void push(T x) { v[n++] = x; }
};
// Reference model of a 2D array, row-major.
template <class T, int CAP = 24>
struct Ref2 {
   i64 m = 0, n = 0;
   T v[CAP];
   T& operator()(i64 i, i64 j) { return v[i * n + j]; }
   const T& operator()(i64 i, i64 j) const { return v[i * n + j]; }
};

template <class T>
Ref<T> symref(i64 n, const char* name) {
   Ref<T> r;
   r.n = n;
   for(i64 i = 0; i < n; ++i) r.v[i] = sym<T>(name);
   return r;
}
template <class T>
Ref2<T> symref2(i64 m, i64 n, const char* name) {
   Ref2<T> r;
   r.m = m;
   r.n = n;
   for(i64 i = 0; i < m * n; ++i) r.v[i] = sym<T>(name);
   return r;
}
template <class T, int C>
Array1D<T> mk(const Ref<T, C>& r) {
   Array1D<T> A(r.n);
   for(i64 i = 0; i < r.n; ++i) *(A.data() + i) = Strict<T>{r.v[i]};
   return A;
}
template <class T, int C>
Array2D<T> mk(const Ref2<T, C>& r) {
   Array2D<T> A(r.m, r.n);
   for(i64 i = 0; i < r.m * r.n; ++i) *(A.data() + i) = Strict<T>{r.v[i]};
   return A;
}

// Element by element through the unchecked accessor; sizes first.
template <class A, class T, int C>
bool eq(const A& a, const Ref<T, C>& r) {
   if(a.size().val() != r.n) return false;
   bool ok = true;
   for(i64 i = 0; i < r.n; ++i) ok &= same(a.un(i), r.v[i]);
   return ok;
}
template <class A, class T, int C>
bool eq(const A& a, const Ref2<T, C>& r) {
   if(a.rows().val() != r.m || a.cols().val() != r.n || a.size().val() != r.m * r.n) return false;
   bool ok = true;
   for(i64 i = 0; i < r.m; ++i)
      for(i64 j = 0; j < r.n; ++j) ok &= same(a.un(i, j), r(i, j));
   return ok;
}

// 0: returned. 1: StrictException. 2: bad_alloc. 3: another exception.
template <class F>
int outcome(F&& f) {
   try {
      f();
      return 0;
   } catch(const StrictException&) {
      return 1;
   } catch(const std::bad_alloc&) {
      return 2;
   } catch(...) {
      return 3;
   }
}
