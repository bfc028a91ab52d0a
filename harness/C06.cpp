//! configs: debug
//! bounds: 2D arrays up to 3x3, new sizes: one of 0..4, 1025, 2^31, 2^32, 3*2^32, 2^62, 2^63-1, -1, -2^63, the other every 64-bit value outside 5..1024, in both roles
#include "common.hpp"

// One size from a table (both roles), the other any 64-bit value: small products, or products beyond every
// allocation of this model (1024 elements), among them all that wrap around for these factors.
static void sizes(i64& p, i64& q) {
   static const i64 T[] = {0, 1, 2, 3, 4, 1025, 1L << 31, 1L << 32, 3L << 32, 1L << 62, INT64_MAX, -1, INT64_MIN};
   i64 x = T[pick("factor", 0, 12)], y = sym_i64("size");
   bool first = pick("role", 0, 1);
   sym_assume(y <= 4 || y > 1024);
   p = first ? x : y;
   q = first ? y : x;
}

static bool consistent(const Array2D<long>& A) {
   i64 m = A.rows().val(), n = A.cols().val();
   return m >= 0 && n >= 0 && (m == 0) == (n == 0) && A.size().val() == m * n && (A.data() == nullptr) == (m == 0);
}

HARNESS(resize) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   auto r = symref2<long>(m, n, "a");
   {
      Array2D<long> A = mk(r);
      i64 p, q;
      sizes(p, q);
      bool keep = pick("preserve", 0, 1);
      int o = outcome([&] { keep ? A.resize(p, q) : A.resize(p, q, false); });
      bool valid = p >= 0 && q >= 0 && (p == 0) == (q == 0);
      CHECK(valid & (p <= 4) & (q <= 4) ? o == 0 : o != 0, "resize throws exactly for a negative size, one zero size or sizes beyond memory");
      CHECK(consistent(A), "after resize rows*cols is the size");
      if(o) CHECK(eq(A, r), "a rejected resize changes nothing");
      else {
         p = sym_conc(p), q = sym_conc(q);
         CHECK(A.rows().val() == p && A.cols().val() == q, "resize sets the shape");
         if(keep || (p == m && q == n)) {
            bool ok = true;
            for(i64 i = 0; i < p && i < m; ++i)
               for(i64 j = 0; j < q && j < n; ++j) ok &= same(A.un(i, j), r(i, j));
            CHECK(ok, "resize keeps the common block");
         }
         for(i64 i = 0; i < p; ++i) for(i64 j = 0; j < q; ++j) A.un(i, j) = Strict<long>{i * q + j};
         bool ok = true;
         for(i64 i = 0; i < p * q; ++i) ok &= A.un(i).val() == i;
         CHECK(ok, "elements of a resized array are distinct and row-major");
      }
   }
   CHECK(sym_live() == 0, "resize of a 2D array leaks nothing");
}

// Every pair of sizes: an array of that shape, or an exception, never an inconsistent array.
HARNESS(construct) {
   {
      i64 p, q;
      bool how = pick("how", 0, 1);
      sizes(p, q);
      bool valid = p >= 0 && q >= 0 && (p == 0) == (q == 0);
      int o = outcome([&] {
         auto use = [&](const Array2D<long>& A) {
            CHECK(A.rows().val() == p && A.cols().val() == q, "an array has the shape it was constructed with");
            CHECK(valid, "a constructed array has a valid shape");
            i64 sz = A.size().val();
            CHECK((sz == 0) == (p == 0) && sz >= p && sz >= q && sz <= 1024, "the size of a constructed array holds its rows and columns");
         };
         if(how) { Array2D<long> A(Rows{p}, Cols{q}); use(A); }
         else { Array2D<long> A(p, q); use(A); }
      });
      if(!valid) CHECK(o != 0, "construction with an invalid shape throws");
      else if((p <= 4) & (q <= 4)) CHECK(o == 0, "construction with a small valid shape succeeds");
   }
   CHECK(sym_live() == 0, "construction leaks nothing");
}

HARNESS(assign) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   i64 p = pick("p", 0, 3), q = p ? pick("q", 1, 2) : 0;
   auto r = symref2<long>(m, n, "a"), s = symref2<long>(p, q, "b");
   Array2D<long> A = mk(r), B = mk(s);
   auto e = s;
   switch(pick("kind", 0, 6)) {
   case 0: A.resize_and_assign(B); break;
   case 1: A.resize_and_assign(std::move(B)); CHECK(B.rows() == 0_sl && B.cols() == 0_sl && B.size() == 0_sl, "resize_and_assign of a temporary leaves it 0x0"); break;
   case 2: A.resize_and_assign(B + B); for(i64 i = 0; i < p * q; ++i) e.v[i] = s.v[i] + s.v[i]; break;
   case 3:
      A.resize_and_assign(transpose(A));
      e.m = n, e.n = m;
      for(i64 i = 0; i < m; ++i) for(i64 j = 0; j < n; ++j) e(j, i) = r(i, j);
      break;
   case 4: A.resize_and_assign(A(place::reverse, place::all)); e = r; for(i64 i = 0; i < m; ++i) for(i64 j = 0; j < n; ++j) e(i, j) = r(m - 1 - i, j); break;
   case 5: A.resize_and_assign(A); e = r; break;
   case 6: A.resize_and_assign(B(place::all, place::reverse)); for(i64 i = 0; i < p; ++i) for(i64 j = 0; j < q; ++j) e(i, j) = s(i, q - 1 - j); break;
   }
   CHECK(consistent(A), "after resize_and_assign rows*cols is the size");
   CHECK(eq(A, e), "resize_and_assign takes shape and elements, also from the array itself");
}
