//! configs: debug
//! bounds: 1D arrays of 0..4 elements, every new size (valid ones 0..5), every element value; up to 1 failing allocation
#include "common.hpp"

template <class T>
static void resize() {
   auto r = symref<T>(pick("n", 0, 4), "a");
   {
      Array1D<T> A = mk(r);
      i64 k = sym_i64("k");
      sym_assume(k <= 5);
      bool keep = pick("preserve", 0, 1);
      const auto* d = A.data();
      int o = outcome([&] { keep ? A.resize(k) : A.resize(k, false); });
      CHECK(o == (k >= 0 ? 0 : 1), "resize throws exactly for a negative size");
      if(o) CHECK(eq(A, r), "a rejected resize changes nothing");
      else {
         k = sym_conc(k);
         CHECK(A.size().val() == k, "resize sets the size");
         if(k == r.n) CHECK(eq(A, r) && A.data() == d, "resize to the same size changes nothing");
         if(keep) {
            bool ok = true;
            for(i64 i = 0; i < r.n && i < k; ++i) ok &= same(A.un(i), r[i]);
            CHECK(ok, "resize keeps the common prefix");
         }
         for(i64 i = r.n; i < k; ++i) CHECK(same(A.un(i), T(0)), "~added elements are zero");
         for(i64 i = 0; i < k; ++i) A.un(i) = Strict<T>{T(1)};
      }
   }
   CHECK(sym_live() == 0, "resize leaks nothing");
}
HARNESS(resize_long) { resize<long>(); }
HARNESS(resize_double) { resize<double>(); }

HARNESS(assign) {
   auto r = symref<long>(pick("n", 0, 3), "a"), s = symref<long>(pick("m", 0, 4), "b");
   Array1D<long> A = mk(r), B = mk(s);
   switch(pick("kind", 0, 9)) {
   case 0: A.resize_and_assign(B); CHECK(eq(A, s) & eq(B, s), "resize_and_assign takes size and elements of an array"); break;
   case 1: A.resize_and_assign(std::move(B)); CHECK(eq(A, s) && B.size() == 0_sl, "resize_and_assign of a temporary takes its storage"); break;
   case 2: {
      Ref<long> e = s;
      for(i64 i = 0; i < e.n; ++i) e[i] = s[i] + s[i];
      A.resize_and_assign(B + B);
      CHECK(eq(A, e), "resize_and_assign takes size and elements of an expression");
      break;
   }
   case 3: {
      Ref<long> e;
      for(i64 i = r.n - 1; i >= 0; --i) e.push(r[i]);
      A.resize_and_assign(A(place::reverse));
      CHECK(eq(A, e), "resize_and_assign reads a slice of the array itself before changing it");
      break;
   }
   case 4: {
      Ref<long> e;
      for(i64 i = 0; i < r.n; i += 2) e.push(r[i]);
      A.resize_and_assign(A(place::even));
      CHECK(eq(A, e), "resize_and_assign can shrink an array to its own slice");
      break;
   }
   case 5: A.resize_and_assign(A); CHECK(eq(A, r), "resize_and_assign of the array itself keeps it"); break;
   case 6: {
      Ref<long> e;
      for(i64 i = 0; i < r.n; ++i) e.push(r[i]);
      for(i64 i = 0; i < s.n; ++i) e.push(s[i]);
      A.resize_and_assign(merge(A, B));
      CHECK(eq(A, e), "resize_and_assign evaluates an expression of the array itself before changing it");
      break;
   }
   case 8: {
      if(r.n == 0) break;
      Ref<long> e;
      std::vector<ImplicitInt> l;
      i64 k = pick("k", 0, 3);
      for(i64 i = 0; i < k; ++i) {
         i64 j = pick("j", 0, 2);
         if(j >= r.n) return;
         l.push_back(ImplicitInt{j});
         e.push(r[j]);
      }
      A.resize_and_assign(A(std::move(l)));
      CHECK(eq(A, e), "resize_and_assign reads every list of its own elements before changing any");
      break;
   }
   case 9: {
      Ref<long> e;
      for(i64 i = r.n - 1; i > 0; --i) e.push(r[i] + r[0]);
      if(r.n) A.resize_and_assign(A(place::reverse)(seqN{0, ImplicitInt{r.n - 1}}) + A(r.n == 1 ? seqN{0, 0} : seqN{0, ImplicitInt{r.n - 1}, 0}));
      CHECK(eq(A, e), "~resize_and_assign reads an expression of its own elements before changing any");
      break;
   }
   case 7: {
      FixedArray1D<long, 3> F;
      Ref<long> e;
      for(i64 i = 0; i < 3; ++i) { e.push(sym_i64("f")); F.un(i) = Strict<long>{e[i]}; }
      A.resize_and_assign(F);
      CHECK(eq(A, e), "resize_and_assign takes size and elements of a fixed array");
      break;
   }
   }
}
