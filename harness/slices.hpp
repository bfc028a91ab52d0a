// Symbolic slice descriptions, and what each selects.
#pragma once
#include "common.hpp"
#ifdef THOROUGH
constexpr i64 N = 6, K = 3;
#else
constexpr i64 N = 4, K = 2;
#endif

// What a slice of n elements selects: start + k * stride for k < size, or listed indexes.
struct Want {
   bool valid = true;
   i64 start = 0, size = 0, stride = 1;
   bool listed = false;
   i64 ix[8];
   i64 at(i64 k) const { return listed ? ix[k] : start + k * stride; }
};
// start + (size-1)*stride stays in [0, n) without wrapping; n is at most N.
static bool inside(i64 start, i64 size, i64 stride, i64 n) {
   if(start < 0 || size < 0) return false;
   if(size == 0) return true;
   if(start >= n) return false;
   if(size == 1 || stride == 0) return true;
   if(size > n || stride >= n || stride <= -n) return false;
   i64 last = start + (size - 1) * stride;
   return last >= 0 && last < n;
}

// Calls f(slice) after filling the expectation; the slice object itself may refuse to be constructed.
template <class F>
static Want with_slice(i64 n, F f, int& o, bool full = true) {
   Want w;
   i64 a = sym_i64("a"), b = sym_i64("b"), c = sym_i64("c");
   // 11 and 12: other ways to say the same
   switch(pick("slice", 0, full ? 12 : 10)) {
   case 0:
      w.valid = inside(a, b, c, n), w.start = a, w.size = b, w.stride = c;
      o = outcome([&] { f(seqN{a, b, c}); });
      break;
   case 11:
      w.valid = inside(a, b, 1, n), w.start = a, w.size = b;
      o = outcome([&] { f(seqN{a, b}); });
      break;
   case 12:
      w.valid = inside(a, b, c, n), w.start = a, w.size = b, w.stride = c;
      o = outcome([&] { f(seqN{First{a}, Size{b}, Stride{c}}); });
      break;
   case 1: {
      bool d = sym_conc(a >= 0 && b >= 0 && a < n && b < n);
      w.valid = d && (c > 0 ? a <= b : c < 0 ? a >= b : a == b);
      if(w.valid) {
         a = sym_conc(a), b = sym_conc(b);
         w.start = a, w.stride = c;
         // the number of k >= 0 with a + k*c between a and b
         i64 cnt = 0;
         for(i64 k = 0; k < n; ++k) {
            i64 d = b - a;
            bool in = d == 0 ? k == 0 : k == 0 || (d > 0 ? c <= d / k : c >= -((-d) / k));
            cnt += in;
         }
         w.size = cnt;
      }
      o = full ? outcome([&] { f(seq{First{a}, Endmost{b}, Stride{c}}); }) : outcome([&] { f(seq{a, b, c}); });
      break;
   }
   case 2: w.size = n; o = outcome([&] { f(place::all); }); break;
   case 3: w.size = (n + 1) / 2, w.stride = 2; o = outcome([&] { f(place::even); }); break;
   case 4: w.size = n / 2, w.start = 1, w.stride = 2; o = outcome([&] { f(place::odd); }); break;
   case 5: w.size = n, w.start = n - 1, w.stride = -1; o = outcome([&] { f(place::reverse); }); break;
   case 6:
      w.valid = a > 0;
      w.stride = a;
      for(i64 k = 0; k < n; ++k) w.size += k == 0 || a <= (n - 1) / k;
      o = outcome([&] { f(place::skipN{a}); });
      break;
   case 7:
      w.valid = a >= 0 && a <= n, w.size = a;
      o = outcome([&] { f(place::firstN{a}); });
      break;
   case 8:
      w.valid = a >= 0 && a <= n, w.size = a, w.start = n - a;
      o = outcome([&] { f(place::lastN{a}); });
      break;
   case 9: {
      i64 k = pick("k", 0, K);
      std::vector<ImplicitInt> v;
      w.listed = true;
      w.size = k;
      for(i64 j = 0; j < k; ++j) {
         w.ix[j] = sym_i64("ix");
         v.push_back(w.ix[j]);
         w.valid = w.valid & (w.ix[j] >= 0) & (w.ix[j] < n);
      }
      o = outcome([&] { f(v); });
      break;
   }
   default: {
      i64 k = pick("k", 0, K), ix[4];
      std::vector<ImplicitInt> v;
      w.listed = true;
      for(i64 j = 0; j < k; ++j) {
         ix[j] = sym_i64("ix");
         v.push_back(ix[j]);
         w.valid = w.valid & (ix[j] >= 0) & (ix[j] < n) & (j == 0 || ix[j - 1] < ix[j]);
      }
      if(w.valid)
         for(i64 i = 0; i < n; ++i) {
            bool out = false;
            for(i64 j = 0; j < k; ++j) out = out | (ix[j] == i);
            if(!out) w.ix[w.size++] = i;
         }
      o = outcome([&] { f(place::complement{v}); });
   }
   }
   return w;
}

