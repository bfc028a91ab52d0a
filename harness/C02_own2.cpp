//! configs: debug
//! bounds: histories of 2 (thorough: 3) ownership operations over two 2D arrays up to 2x2 (shapes 0x0, 1x2, 2x1, 2x2)
#include "common.hpp"
#ifdef THOROUGH
constexpr int STEPS = 3;
#else
constexpr int STEPS = 2;
#endif
static void shape(i64 k, i64& m, i64& n) {
   const i64 M[] = {0, 1, 2, 2}, N[] = {0, 2, 1, 2};
   m = M[k];
   n = N[k];
}
HARNESS(own2) {
   {
      Ref2<long> r[2];
      Array2D<long> a[2];
      for(int k = 0; k < 2; ++k) {
         i64 m, n;
         shape(pick("shape", 0, 3), m, n);
         r[k] = symref2<long>(m, n, "v");
         a[k].resize(m, n);
         for(i64 i = 0; i < m * n; ++i) a[k].un(i) = Strict<long>{r[k].v[i]};
      }
      for(int s = 0; s < STEPS; ++s) {
         int x = pick("x", 0, 1), y = pick("y", 0, 1);
         bool ss = r[x].m == r[y].m && r[x].n == r[y].n;
         switch(pick("op", 0, 7)) {
         case 0: {
            Array2D<long> c(a[x]);
            CHECK(eq(c, r[x]), "a 2D copy equals its source");
            if(r[x].m) {
               c.un(0) = Strict<long>{sym_i64("w")};
               CHECK(eq(a[x], r[x]), "changing a 2D copy leaves the source");
            }
            break;
         }
         case 1: {
            Array2D<long> c(std::move(a[x]));
            CHECK(eq(c, r[x]), "a move-constructed 2D array holds the elements of its source");
            CHECK(a[x].rows() == 0_sl && a[x].cols() == 0_sl && a[x].size() == 0_sl && a[x].data() == nullptr, "a moved-from 2D array is 0x0");
            r[x].m = r[x].n = 0;
            break;
         }
         case 2: {
            int o = outcome([&] { a[x] = a[y]; });
            CHECK(o == (ss ? 0 : 1), "2D copy assignment throws exactly for different shapes");
            if(o == 0) r[x] = r[y];
            break;
         }
         case 3:
            if(ss) {
               a[x] = std::move(a[y]);
               r[x] = r[y];
               if(x != y) r[y].m = r[y].n = 0;
            }
            break;
         case 4: a[x].swap(a[y]); if(x != y) std::swap(r[x], r[y]); break;
         case 5: {
            Array2D<long> c(a[x]);
            a[y].swap(std::move(c));
            r[y] = r[x];
            break;
         }
         case 6: a[x].resize_and_assign(a[y]); r[x] = r[y]; break;
         case 7:
            if(x != y) {
               a[x].resize_and_assign(std::move(a[y]));
               r[x] = r[y];
               r[y].m = r[y].n = 0;
            }
            break;
         }
         CHECK(eq(a[0], r[0]) & eq(a[1], r[1]), "after each ownership operation both 2D arrays hold what the history says");
         CHECK((a[0].data() == nullptr) == (r[0].m == 0) && (a[0].data() != a[1].data() || r[0].m == 0), "distinct nonempty 2D arrays own distinct storage");
      }
   }
   CHECK(sym_live() == 0, "no storage outlives its 2D arrays");
}
HARNESS(move_mismatch2) {
   i64 m, n, p, q;
   shape(pick("s", 0, 3), m, n);
   shape(pick("t", 0, 3), p, q);
   auto r = symref2<long>(m, n, "a"), s = symref2<long>(p, q, "b");
   Array2D<long> A = mk(r), B = mk(s);
   sym_abort_ok(1);
   A = std::move(B);
   CHECK(m == p && n == q, "a 2D move assignment of different shapes does not return");
   CHECK(eq(A, s), "a 2D move assignment hands over the elements");
}
