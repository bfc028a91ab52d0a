//! configs: debug release
//! bounds: arrays of 0..4 elements and up to 3x4, fixed arrays, aligned arrays, slices, views and expressions of every element type from bool to double; for the byte counts of expressions over index ranges every size up to 2^40
//! assumes: the number of bytes is exactly representable as a double
#include "common.hpp"

template <class A>
static bool linear(const A& a, i64 n, int dim) {
   return a.size().val() == n && a.size_m1().val() == n - 1 && bool{a.empty()} == (n == 0) && A::dimension().val() == dim;
}
template <class A>
static bool plane(const A& a, i64 m, i64 n) {
   return linear(a, m * n, 2) && a.rows().val() == m && a.cols().val() == n && a.rows_m1().val() == m - 1 && a.cols_m1().val() == n - 1;
}
template <class A>
static void bytes(const A& a, i64 n, i64 each, bool fixed) {
   double b = double(n * each);
   CHECK(a.bytes().val() == n * each, "the bytes of an array are its elements times their size");
   CHECK(a.kbytes().val() * 1024. == b && a.mbytes().val() * 1048576. == b && a.gbytes().val() * 1073741824. == b, "kilo-, mega- and gigabytes are the bytes in units of 2^10, 2^20 and 2^30");
   CHECK(bool{A::is_fixed()} == fixed && bool{A::is_dynamic()} == !fixed, "exactly the arrays that can be resized are dynamic");
}
template <class T>
static void one() {
   i64 n = pick("n", 0, 4);
   auto r = symref<T>(n, "a");
   Array1D<T> A = mk(r);
   const Array1D<T> C = mk(r);
   CHECK(linear(A, n, 1) && linear(C, n, 1), "the size queries of a 1D array agree with its size");
   bytes(A, n, sizeof(T), false);
   bytes(C, n, sizeof(T), false);
   Array1D<T, Aligned> L(n);
   CHECK(linear(L, n, 1), "the size queries of an aligned array agree with its size");
   bytes(L, n, sizeof(T), false);
   FixedArray1D<T, 3> F;
   CHECK(linear(F, 3, 1), "the size queries of a fixed array agree with its size");
   bytes(F, 3, sizeof(T), true);
   i64 f = pick("first", 0, n), k = pick("k", 0, n - f);
   CHECK(linear(A(seqN{ImplicitInt{f}, ImplicitInt{k}}), k, 1) && linear(C(seqN{ImplicitInt{f}, ImplicitInt{k}}), k, 1), "the size queries of a 1D slice agree with its size");
   CHECK(linear(A(place::reverse), n, 1) && linear(C.view1D(), n, 1), "the size queries of a view agree with its size");
   i64 w = pick("resize", 0, 3);
   A.resize(ImplicitInt{w});
   CHECK(linear(A, w, 1), "the size queries follow a resize");
}
HARNESS(one_bool) { one<bool>(); }
HARNESS(one_int) { one<int>(); }
HARNESS(one_double) { one<double>(); }
HARNESS(one_unsigned) { one<unsigned>(); }

template <class T>
static void two() {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 4) : 0;
   auto r = symref2<T>(m, n, "a");
   Array2D<T> A = mk(r);
   const Array2D<T> C = mk(r);
   CHECK(plane(A, m, n) && plane(C, m, n), "the size queries of a 2D array agree with its shape");
   bytes(A, m * n, sizeof(T), false);
   Array2D<T, Aligned> L(m, n);
   CHECK(plane(L, m, n), "the size queries of an aligned 2D array agree with its shape");
   bytes(L, m * n, sizeof(T), false);
   FixedArray2D<T, 2, 3> F;
   CHECK(plane(F, 2, 3), "the size queries of a fixed 2D array agree with its shape");
   bytes(F, 6, sizeof(T), true);
   CHECK(plane(transpose(A), n, m) && plane(A(place::reverse, place::all), m, n) && plane(C.view2D(n, m), n, m), "the size queries of a 2D view agree with its shape");
   CHECK(linear(A.view1D(), m * n, 1), "the size queries of the elements of a 2D array in a row agree with their number");
   if(m) {
      CHECK(linear(A.row(0), n, 1) && linear(C.col(0), m, 1) && linear(A.diag(), m < n ? m : n, 1), "the size queries of a row, column and diagonal agree with their size");
      CHECK(plane(A.rows(seqN{0, 1}), 1, n) && plane(C.cols(seqN{0, 1}), m, 1), "the size queries of a slice agree with its shape");
      A.remove_row(0);
      CHECK(m == 1 ? plane(A, 0, 0) : plane(A, m - 1, n), "the size queries follow a removed row");
   }
}
HARNESS(two_char) { two<long>(); }
HARNESS(two_float) { two<float>(); }

HARNESS(expressions) {
   i64 n = sym_i64("n");
   sym_assume(n >= 0 && n < (1l << 40));
   auto e = const1D(n, Strict{1.});
   CHECK(linear(e, n, 1) && linear(e + e, n, 1) && linear(-e, n, 1), "the size queries of a 1D expression agree with its size");
   i64 m = pick("m", 1, 5);
   sym_assume(n > 0);
   auto g = const2D(m, n, Strict{1l});
   CHECK(plane(g, m, n) && plane(g * Strict{2l}, m, n) && plane(transpose(g), n, m), "the size queries of a 2D expression agree with its shape");
}
HARNESS(moved) {
   i64 n = pick("n", 0, 3), m = pick("m", 0, 2);
   Array1D<int> A = mk(symref<int>(n, "a")), B = std::move(A);
   CHECK(linear(A, 0, 1) && linear(B, n, 1), "the size queries follow a move");
   Array2D<int> P = mk(symref2<int>(m, m, "b")), Q = std::move(P);
   CHECK(plane(P, 0, 0) && plane(Q, m, m), "the size queries follow a 2D move");
   B.swap(A);
   CHECK(linear(A, n, 1) && linear(B, 0, 1), "the size queries follow a swap");
}
