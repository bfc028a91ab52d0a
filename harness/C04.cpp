//! configs: debug
//! bounds: 1D arrays of 0..4 elements (insert: 0..3), inserted arrays of 0..2 elements, every 64-bit position and count, index lists of up to 3 (thorough 4) arbitrary indexes
#include "common.hpp"

HARNESS(remove) {
   auto r = symref<long>(pick("n", 0, 4), "a");
   Array1D<long> A = mk(r);
   i64 p = sym_i64("pos"), c = sym_i64("count"), wp = 0, wc = 1;
   int o;
   switch(pick("kind", 0, 9)) {
   case 0: o = outcome([&] { A.remove(p, c); }); wp = p, wc = c; break;
   case 1: o = outcome([&] { A.remove(Pos{p}, Count{c}); }); wp = p, wc = c; break;
   case 2: o = outcome([&] { A.remove(p); }); wp = p; break;
   case 3: o = outcome([&] { A.remove(Pos{p}); }); wp = p; break;
   case 4: o = outcome([&] { A.remove_front(c); }); wc = c; break;
   case 5: o = outcome([&] { A.remove_front(Count{c}); }); wc = c; break;
   case 6: o = outcome([&] { A.remove_back(c); }); wc = c; wp = r.n - c; break;
   case 7: o = outcome([&] { A.remove_back(Count{c}); }); wc = c; wp = r.n - c; break;
   case 8: o = outcome([&] { A.remove(place::last - p); }); wp = r.n - 1 - p; break;
   default: o = outcome([&] { A.remove(place::last); }); wp = r.n - 1; break;
   }
   bool valid = wc > 0 && wp >= 0 && wp < r.n && wc <= r.n - wp;
   CHECK(o == (valid ? 0 : 1), "remove throws exactly for a range outside the array");
   if(o == 0) {
      wp = sym_conc(wp), wc = sym_conc(wc);
      Ref<long> e;
      for(i64 i = 0; i < r.n; ++i) if(i < wp || i >= wp + wc) e.push(r[i]);
      CHECK(eq(A, e), "remove takes out the range and keeps the others in order");
   } else CHECK(eq(A, r), "a rejected remove changes nothing");
}

HARNESS(remove_list) {
   auto r = symref<long>(pick("n", 0, 4), "a");
   Array1D<long> A = mk(r);
#ifdef THOROUGH
   const i64 K = 4;
#else
   const i64 K = 3;
#endif
   i64 k = pick("k", 0, K), ix[4];
   std::vector<ImplicitInt> v;
   bool valid = true;
   for(i64 j = 0; j < k; ++j) {
      ix[j] = sym_i64("ix");
      v.push_back(ix[j]);
      valid = valid & (ix[j] >= 0) & (ix[j] < r.n) & (j == 0 || ix[j - 1] < ix[j]);
   }
   int o = outcome([&] { A.remove(v); });
   CHECK(o == (valid ? 0 : 1), "remove(indexes) throws exactly for indexes invalid or not increasing");
   if(o == 0) {
      Ref<long> e;
      for(i64 i = 0; i < r.n; ++i) {
         bool out = false;
         for(i64 j = 0; j < k; ++j) out = out | (ix[j] == i);
         if(!out) e.push(r[i]);
      }
      CHECK(eq(A, e), "remove(indexes) takes out those elements and keeps the others in order");
   } else CHECK(eq(A, r), "a rejected remove(indexes) changes nothing");
}

HARNESS(insert) {
   auto r = symref<long>(pick("n", 0, 4), "a");
   Array1D<long> A = mk(r);
   i64 p = sym_i64("pos"), wp = 0, x = sym_i64("x");
   Strict<long> sx{x};
   int o;
   switch(pick("kind", 0, 5)) {
   case 0: o = outcome([&] { A.insert(p, sx); }); wp = p; break;
   case 1: o = outcome([&] { A.insert(Pos{p}, Value{sx}); }); wp = p; break;
   case 2: o = outcome([&] { A.insert_front(sx); }); break;
   case 3: o = outcome([&] { A.insert_front(Value{sx}); }); break;
   case 4: o = outcome([&] { A.insert_back(sx); }); wp = r.n; break;
   default: o = outcome([&] { A.insert_back(Value{sx}); }); wp = r.n; break;
   }
   bool valid = wp >= 0 && wp <= r.n;
   CHECK(o == (valid ? 0 : 1), "insert throws exactly for a position outside 0..size");
   if(o == 0) {
      wp = sym_conc(wp);
      Ref<long> e;
      for(i64 i = 0; i <= r.n; ++i) { if(i == wp) e.push(x); if(i < r.n) e.push(r[i]); }
      CHECK(eq(A, e), "insert puts the element at the position and keeps the others in order");
   } else CHECK(eq(A, r), "a rejected insert changes nothing");
}

HARNESS(insert_array) {
   auto r = symref<long>(pick("n", 0, 3), "a"), s = symref<long>(pick("m", 0, 2), "b");
   Array1D<long> A = mk(r), B = mk(s);
   i64 p = sym_i64("pos"), wp = 0;
   Ref<long> ins = s;
   int o;
   switch(pick("kind", 0, 7)) {
   case 0: o = outcome([&] { A.insert(p, B); }); wp = p; break;
   case 1: o = outcome([&] { A.insert(Pos{p}, B); }); wp = p; break;
   case 2: o = outcome([&] { A.insert_front(B); }); break;
   case 3: o = outcome([&] { A.insert_back(B); }); wp = r.n; break;
   case 4:
      for(i64 i = 0; i < s.n; ++i) ins[i] = s[i] + s[i];
      o = outcome([&] { A.insert(p, B + B); });
      wp = p;
      break;
   case 5: o = outcome([&] { A.insert(p, A); }); wp = p; ins = r; break;
   case 6:
      for(i64 i = 0; i < r.n; ++i) ins[i] = r[r.n - 1 - i];
      ins.n = r.n;
      o = outcome([&] { A.insert(p, A(place::reverse)); });
      wp = p;
      break;
   default:
      for(i64 i = 0; i < s.n; ++i) ins[i] = s[s.n - 1 - i];
      o = outcome([&] { A.insert_back(std::as_const(B)(place::reverse)); });
      wp = r.n;
      break;
   }
   bool valid = wp >= 0 && wp <= r.n;
   CHECK(o == (valid ? 0 : 1), "insert of an array throws exactly for a position outside 0..size");
   if(o == 0) {
      wp = sym_conc(wp);
      Ref<long> e;
      for(i64 i = 0; i <= r.n; ++i) {
         if(i == wp) for(i64 j = 0; j < ins.n; ++j) e.push(ins[j]);
         if(i < r.n) e.push(r[i]);
      }
      CHECK(eq(A, e), "insert of an array puts its elements at the position and keeps the others in order");
   } else CHECK(eq(A, r), "a rejected insert of an array changes nothing");
}
