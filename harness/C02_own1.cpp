//! configs: debug
//! bounds: histories of 2 (thorough: 3) ownership operations over two 1D arrays of 0..2 elements
#include "common.hpp"
#ifdef THOROUGH
constexpr int STEPS = 3;
#else
constexpr int STEPS = 2;
#endif

template <class T, AlignmentFlag AF>
static void history1() {
   using A1 = Array1D<T, AF>;
   {
      Ref<T> r[2];
      A1 a[2];
      for(int k = 0; k < 2; ++k) {
         r[k] = symref<T>(pick("n", 0, 2), "v");
         a[k].resize(r[k].n);
         for(i64 i = 0; i < r[k].n; ++i) a[k].un(i) = Strict<T>{r[k][i]};
      }
      for(int s = 0; s < STEPS; ++s) {
         int x = pick("x", 0, 1), y = pick("y", 0, 1);
         switch(pick("op", 0, 7)) {
         case 0: { // copy construction is independent of its source
            A1 c(a[x]);
            CHECK(eq(c, r[x]), "a copy equals its source");
            if(r[x].n) {
               T v = sym<T>("w");
               c.un(0) = Strict<T>{v};
               CHECK(eq(a[x], r[x]), "changing a copy leaves the source");
            }
            break;
         }
         case 1: { // move construction empties the source
            A1 c(std::move(a[x]));
            CHECK(eq(c, r[x]), "a move-constructed array holds the elements of its source");
            CHECK(a[x].size() == 0_sl && a[x].data() == nullptr && bool{a[x].empty()}, "a moved-from array is empty");
            r[x].n = 0;
            break;
         }
         case 2: { // copy assignment
            int o = outcome([&] { a[x] = a[y]; });
            CHECK(o == (r[x].n == r[y].n ? 0 : 1), "copy assignment throws exactly for different sizes");
            if(o == 0) r[x] = r[y];
            break;
         }
         case 3: // move assignment
            if(r[x].n == r[y].n) {
               a[x] = std::move(a[y]);
               r[x] = r[y];
               if(x != y) r[y].n = 0;
            }
            break;
         case 4: a[x].swap(a[y]); std::swap(r[x], r[y]); break;
         case 5: { // swap with a temporary
            A1 c(a[x]);
            a[y].swap(std::move(c));
            r[y] = r[x];
            break;
         }
         case 6: a[x].resize_and_assign(a[y]); r[x] = r[y]; break;
         case 7:
            if(x != y) {
               a[x].resize_and_assign(std::move(a[y]));
               r[x] = r[y];
               r[y].n = 0;
            }
            break;
         }
         CHECK(eq(a[0], r[0]) & eq(a[1], r[1]), "after each ownership operation both arrays hold what the history says");
         CHECK((a[0].data() == nullptr) == (r[0].n == 0) && (a[0].data() != a[1].data() || r[0].n == 0), "distinct nonempty arrays own distinct storage");
      }
   }
   CHECK(sym_live() == 0, "no storage outlives its arrays");
}
HARNESS(own_long) { history1<long, Unaligned>(); }
HARNESS(own_double_aligned) { history1<double, Aligned>(); }

// A move assignment of different sizes ends the program (it is noexcept).
HARNESS(move_mismatch) {
   auto r = symref<long>(pick("m", 0, 2), "a"), s = symref<long>(pick("n", 0, 2), "b");
   Array1D<long> A = mk(r), B = mk(s);
   sym_abort_ok(1);
   A = std::move(B);
   CHECK(r.n == s.n, "a move assignment of different sizes does not return");
   CHECK(eq(A, s), "a move assignment hands over the elements");
}
