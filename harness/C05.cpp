//! configs: debug
//! bounds: 2D arrays up to 3x3 (insert: 2x2 plus one to two rows/columns), every 64-bit position and count, index lists of up to 2 (thorough 3) arbitrary indexes
#include "common.hpp"

static Ref2<long> without(const Ref2<long>& r, bool rows, const bool* out) {
   Ref2<long> e;
   i64 keep = 0;
   for(i64 k = 0; k < (rows ? r.m : r.n); ++k) keep += !out[k];
   if(keep == 0) return e;
   e.m = rows ? keep : r.m;
   e.n = rows ? r.n : keep;
   i64 p = 0;
   for(i64 i = 0; i < r.m; ++i)
      for(i64 j = 0; j < r.n; ++j)
         if(!out[rows ? i : j]) e.v[p++] = r(i, j);
   return e;
}

HARNESS(remove) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   auto r = symref2<long>(m, n, "a");
   Array2D<long> A = mk(r);
   i64 p = sym_i64("pos"), c = sym_i64("count"), wp = 0, wc = 1;
   i64 rows = pick("rows", 0, 1), len = rows ? m : n;
   int o;
   switch(pick("kind", 0, 9)) {
   case 0: o = outcome([&] { rows ? A.remove_rows(p, c) : A.remove_cols(p, c); }); wp = p, wc = c; break;
   case 1: o = outcome([&] { rows ? A.remove_rows(Pos{p}, Count{c}) : A.remove_cols(Pos{p}, Count{c}); }); wp = p, wc = c; break;
   case 2: o = outcome([&] { rows ? A.remove_row(p) : A.remove_col(p); }); wp = p; break;
   case 3: o = outcome([&] { rows ? A.remove_row(Pos{p}) : A.remove_col(Pos{p}); }); wp = p; break;
   case 4: o = outcome([&] { rows ? A.remove_rows_front(c) : A.remove_cols_front(c); }); wc = c; break;
   case 5: o = outcome([&] { rows ? A.remove_rows_front(Count{c}) : A.remove_cols_front(Count{c}); }); wc = c; break;
   case 6: o = outcome([&] { rows ? A.remove_rows_back(c) : A.remove_cols_back(c); }); wp = len - c, wc = c; break;
   case 7: o = outcome([&] { rows ? A.remove_rows_back(Count{c}) : A.remove_cols_back(Count{c}); }); wp = len - c, wc = c; break;
   case 8: o = outcome([&] { rows ? A.remove_row(place::last) : A.remove_col(place::last); }); wp = len - 1; break;
   default: o = outcome([&] { rows ? A.remove_row(place::last - p) : A.remove_col(place::last - p); }); wp = len - 1 - p; break;
   }
   bool valid = wc > 0 && wp >= 0 && wp < len && wc <= len - wp;
   CHECK(o == (valid ? 0 : 1), "removing rows or columns throws exactly for a range outside the array");
   if(o == 0) {
      wp = sym_conc(wp), wc = sym_conc(wc);
      bool out[3];
      for(i64 k = 0; k < 3; ++k) out[k] = k >= wp && k < wp + wc;
      CHECK(eq(A, without(r, rows, out)), "removing rows or columns keeps the others in order, 0x0 when none is left");
   } else CHECK(eq(A, r), "a rejected removal of rows or columns changes nothing");
}

HARNESS(remove_list) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   auto r = symref2<long>(m, n, "a");
   Array2D<long> A = mk(r);
#ifdef THOROUGH
   const i64 K = 3;
#else
   const i64 K = 2;
#endif
   i64 rows = pick("rows", 0, 1), len = rows ? m : n, k = pick("k", 0, K), ix[4];
   std::vector<ImplicitInt> v;
   bool valid = true;
   for(i64 j = 0; j < k; ++j) {
      ix[j] = sym_i64("ix");
      v.push_back(ix[j]);
      valid = valid & (ix[j] >= 0) & (ix[j] < len) & (j == 0 || ix[j - 1] < ix[j]);
   }
   int o = outcome([&] { rows ? A.remove_rows(v) : A.remove_cols(v); });
   CHECK(o == (valid ? 0 : 1), "removing listed rows or columns throws exactly for indexes invalid or not increasing");
   if(o == 0) {
      bool out[3] = {};
      for(i64 i = 0; i < len; ++i) {
         bool b = false;
         for(i64 j = 0; j < k; ++j) b = b | (ix[j] == i);
         out[i] = b;
      }
      CHECK(eq(A, without(r, rows, out)), "removing listed rows or columns keeps the others in order");
   } else CHECK(eq(A, r), "a rejected removal of listed rows or columns changes nothing");
}

// rows/cols p.. of e come from s, the others from r.
static Ref2<long> with(const Ref2<long>& r, bool rows, i64 p, const Ref2<long>& s) {
   if(r.m == 0) return s;
   Ref2<long> e;
   e.m = rows ? r.m + s.m : r.m;
   e.n = rows ? r.n : r.n + s.n;
   i64 k = rows ? s.m : s.n;
   for(i64 i = 0; i < e.m; ++i)
      for(i64 j = 0; j < e.n; ++j) {
         i64 q = rows ? i : j;
         i64 si = rows ? i - p : i, sj = rows ? j : j - p;
         i64 ri = rows && q >= p ? i - k : i, rj = !rows && q >= p ? j - k : j;
         e(i, j) = q >= p && q < p + k ? s(si, sj) : r(ri, rj);
      }
   return e;
}

HARNESS(insert_2d) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   i64 p = pick("p", 0, 2), q = p ? pick("q", 1, 2) : 0;
   auto r = symref2<long>(m, n, "a"), s = symref2<long>(p, q, "b"), ins = s;
   Array2D<long> A = mk(r), B = mk(s);
   i64 pos = sym_i64("pos"), wp = 0, rows = pick("rows", 0, 1), len = rows ? m : n;
   int o;
   switch(pick("kind", 0, 5)) {
   case 0: o = outcome([&] { rows ? A.insert_rows(pos, B) : A.insert_cols(pos, B); }); wp = pos; break;
   case 1: o = outcome([&] { rows ? A.insert_rows(Pos{pos}, B) : A.insert_cols(Pos{pos}, B); }); wp = pos; break;
   case 2: o = outcome([&] { rows ? A.insert_rows_front(B) : A.insert_cols_front(B); }); break;
   case 3: o = outcome([&] { rows ? A.insert_rows_back(B) : A.insert_cols_back(B); }); wp = len; break;
   case 4:
      for(i64 i = 0; i < p * q; ++i) ins.v[i] = -s.v[i];
      o = outcome([&] { rows ? A.insert_rows(pos, -B) : A.insert_cols(pos, -B); });
      wp = pos;
      break;
   default: o = outcome([&] { rows ? A.insert_rows(pos, A) : A.insert_cols(pos, A); }); wp = pos; ins = r; break;
   }
   bool fits = (m == 0) || (rows ? ins.n == n : ins.m == m);
   bool valid = wp >= 0 && wp <= len && fits;
   CHECK(o == (valid ? 0 : 1), "inserting rows or columns throws exactly for a bad position or a length that does not fit");
   if(o == 0) {
      wp = sym_conc(wp);
      CHECK(eq(A, with(r, rows, wp, ins)), "inserted rows or columns stand at the position, the others keep their order");
   } else CHECK(eq(A, r), "a rejected insertion of rows or columns changes nothing");
}

HARNESS(insert_1d) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   auto r = symref2<long>(m, n, "a");
   auto s = symref<long>(pick("k", 0, 3), "b");
   Array2D<long> A = mk(r);
   Array1D<long> B = mk(s);
   i64 pos = sym_i64("pos"), wp = 0, rows = pick("rows", 0, 1), len = rows ? m : n;
   int o;
   switch(pick("kind", 0, 5)) {
   case 0: o = outcome([&] { rows ? A.insert_row(pos, B) : A.insert_col(pos, B); }); wp = pos; break;
   case 1: o = outcome([&] { rows ? A.insert_row(Pos{pos}, B) : A.insert_col(Pos{pos}, B); }); wp = pos; break;
   case 2: o = outcome([&] { rows ? A.insert_row_front(B) : A.insert_col_front(B); }); break;
   case 3: o = outcome([&] { rows ? A.insert_row_back(B) : A.insert_col_back(B); }); wp = len; break;
   case 4:
      for(i64 i = 0; i < s.n; ++i) s[i] = -s[i];
      o = outcome([&] { rows ? A.insert_row(pos, -B) : A.insert_col(pos, -B); });
      wp = pos;
      break;
   default: { // a row or column of the array itself
      if(m == 0) return;
      s.n = rows ? n : m;
      for(i64 k = 0; k < s.n; ++k) s[k] = rows ? r(m - 1, k) : r(k, n - 1);
      o = outcome([&] { rows ? A.insert_row(pos, A.row(place::last)) : A.insert_col(pos, A.col(place::last)); });
      wp = pos;
   }
   }
   bool fits = m == 0 ? s.n != 0 : s.n == (rows ? n : m);
   bool valid = wp >= 0 && wp <= len && fits;
   CHECK(o == (valid ? 0 : 1), "inserting a row or column throws exactly for a bad position or a length that does not fit");
   if(o == 0) {
      wp = sym_conc(wp);
      Ref2<long> one;
      one.m = rows ? 1 : s.n;
      one.n = rows ? s.n : 1;
      for(i64 k = 0; k < s.n; ++k) one.v[k] = s[k];
      CHECK(eq(A, with(r, rows, wp, one)), "an inserted row or column stands at the position, the others keep their order");
   } else CHECK(eq(A, r), "a rejected insertion of a row or column changes nothing");
}
