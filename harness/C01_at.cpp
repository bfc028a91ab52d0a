//! configs: release
//! bounds: at() with STRICT_DEBUG_OFF on 1D arrays of 0..4 elements, 2D arrays up to 3x3, slices and expressions of them
// at() keeps its range check when the debug checks are off.
#include "common.hpp"

template <class A>
static void chk(A&& a, i64 n, i64 i, const char*) {
   int o = outcome([&] { (void)a.at(i).val(); });
   CHECK(o == (i >= 0 && i < n ? 0 : 1), "at() checks its index with the debug checks off");
}
HARNESS(at1) {
   i64 n = pick("n", 0, 4), i = sym_i64("i");
   Array1D<long> A(n, 7_sl);
   switch(pick("kind", 0, 6)) {
   case 0: chk(A, n, i, ""); break;
   case 1: chk(std::as_const(A), n, i, ""); break;
   case 2: chk(A(place::all), n, i, ""); break;
   case 3: chk(A + A, n, i, ""); break;
   case 4: chk(std::as_const(A)(place::reverse), n, i, ""); break;
   case 5: { FixedArray1D<long, 3> F; chk(F, 3, i, ""); break; }
   case 6: chk(A.view1D(), n, i, ""); break;
   }
}
template <class A>
static void chk2(A&& a, i64 m, i64 n, i64 i, i64 j) {
   int o = outcome([&] { (void)a.at(i, j).val(); });
   CHECK(o == (i >= 0 && i < m && j >= 0 && j < n ? 0 : 1), "at() checks both indexes with the debug checks off");
}
HARNESS(at2) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0, i = sym_i64("i"), j = sym_i64("j");
   Array2D<long> A(m, n, 7_sl);
   switch(pick("kind", 0, 4)) {
   case 0: chk2(A, m, n, i, j); break;
   case 1: chk2(std::as_const(A), m, n, i, j); break;
   case 2: chk2(A(place::all, place::all), m, n, i, j); break;
   case 3: chk2(A + A, m, n, i, j); break;
   case 4: { FixedArray2D<long, 2, 3> F; chk2(F, 2, 3, i, j); break; }
   }
}
