//! configs: debug
//! bounds: 1D arrays of 0..3 elements, 2D arrays up to 2x2 (0..4 and 3x2 in the thorough tier), as arrays, reversed slices, index lists, views and expressions; int, long, unsigned, float, double; all contents
//! assumes: NaN is excluded from the ordered reductions (min, max, norm_inf and their indexes); the power function of norm_lp is uninterpreted except for its sign (its arguments and the fold around it are checked)
#include "common.hpp"
#include <cmath>
#include <limits>
#ifdef THOROUGH
constexpr i64 N1 = 4, M2 = 3;
#else
constexpr i64 N1 = 3, M2 = 2;
#endif

template <class T>
static bool val_eq(T a, T b) { return same(a, b) || a == b; }
template <class T>
static bool isnan_(T x) { return !(x == x); }

// Symbolic elements, split by sign: one path for each choice of sign (zeros and NaN are constants),
// which keeps sums of absolute values free of conditionals.
template <class T>
static T symsigned(i64 classes) {
   i64 c = pick("class", 0, classes - 1);
   if(c == 2) return T(0);
   if(c == 3) return -T(0);
   if(c == 4) return std::numeric_limits<T>::quiet_NaN();
   T x = sym<T>("a");
   sym_assume(c == 0 ? x > T(0) : x < T(0));
   return x;
}
struct Plain {
   template <class T> static T get(i64) { return sym<T>("a"); }
};
struct Signed {
   template <class T> static T get(i64 n) { return symsigned<T>(n > 2 ? 2 : 5); }
};

// Calls f(array-like object, reference) for one of the kinds of 1D objects.
template <class T, class G = Plain, class F>
static void over1(F f) {
   i64 n = pick("n", 0, N1);
   Ref<T> a;
   for(i64 i = 0; i < n; ++i) a.push(G::template get<T>(n));
   Array1D<T> A = mk(a);
   const auto& cA = A;
   auto r = a;
   switch(pick("kind", 0, 5)) {
   case 0: f(A, a); break;
   case 1: f(cA, a); break;
   case 2:
      for(i64 i = 0; i < n; ++i) r[i] = a[n - 1 - i];
      f(A(place::reverse), r);
      break;
   case 3: {
      std::vector<ImplicitInt> ix;
      r.n = 0;
      for(i64 i = 0; i < n; i += 2) ix.push_back(i), r.push(a[i]);
      f(cA(ix), r);
      break;
   }
   case 4: {
      auto b = symref<T>(n, "b");
      Array1D<T> B = mk(b);
      // sums of symbolic floating point numbers make comparisons of them hard
      if constexpr(std::is_floating_point_v<T>) {
         for(i64 i = 0; i < n; ++i) r[i] = -a[i];
         f(-A, r);
      } else {
         for(i64 i = 0; i < n; ++i) r[i] = a[i] + b[i];
         f(A + B, r);
      }
      break;
   }
   case 5: {
      FixedArray1D<T, 2> X;
      Ref<T> x;
      for(i64 i = 0; i < 2; ++i) x.push(G::template get<T>(3));
      X[0] = Strict<T>{x[0]}, X[1] = Strict<T>{x[1]};
      f(X, x);
   }
   }
}
// The same for 2D; the reference is row-major.
template <class T, class G = Plain, class F>
static void over2(F f) {
   i64 m = pick("m", 0, M2), n = m ? pick("n", 1, 2) : 0;
   Ref2<T> a;
   a.m = m, a.n = n;
   for(i64 i = 0; i < m * n; ++i) a.v[i] = G::template get<T>(m * n);
   Array2D<T> A = mk(a);
   const auto& cA = A;
   auto r = a;
   switch(pick("kind", 0, 3)) {
   case 0: f(A, a); break;
   case 1:
      for(i64 i = 0; i < m; ++i)
         for(i64 j = 0; j < n; ++j) r(i, j) = a(m - 1 - i, n - 1 - j);
      f(cA(place::reverse, place::reverse), r);
      break;
   case 2:
      for(i64 i = 0; i < m * n; ++i) r.v[i] = -a.v[i];
      f(-A, r);
      break;
   case 3: {
      if(!m) break;
      r.m = 1;
      for(i64 j = 0; j < n; ++j) r(0, j) = a(m - 1, j);
      f(A.block(m - 1, 0, m - 1, n - 1), r);
      break;
   }
   }
}
template <class T> i64 count(const Ref<T>& r) { return r.n; }
template <class T> i64 count(const Ref2<T>& r) { return r.m * r.n; }

template <class T>
static auto folds = [](const auto& A, const auto& r) {
   i64 n = count(r);
   Strict<T> d{sym<T>("default")};
   if(!n) {
      CHECK(same(sum(A, d), d) && same(prod(A, d), d), "the sum and product of nothing are the default");
      CHECK(same(sum(A), T{}) && same(prod(A), T{}), "the sum and product of nothing are zero if no default is given");
      return;
   }
   T s = r.v[0], p = r.v[0];
   for(i64 i = 1; i < n; ++i) s += r.v[i], p *= r.v[i];
   CHECK(val_eq(sum(A).val(), s) && val_eq(sum(A, d).val(), s), "sum adds every element once, in order");
   CHECK(val_eq(prod(A).val(), p) && val_eq(prod(A, d).val(), p), "prod multiplies every element once, in order");
};
template <class T>
static auto extremes = [](const auto& A, const auto& r) {
   i64 n = count(r);
   Strict<T> d{sym<T>("default")};
   if(!n) {
      CHECK(same(min(A, d), d) && same(max(A, d), d), "the minimum and maximum of nothing are the default");
      CHECK(same(min(A), T{}) && same(max(A), T{}), "the minimum and maximum of nothing are zero if no default is given");
      return;
   }
   for(i64 i = 0; i < n; ++i) sym_assume(!isnan_(r.v[i]));
   T lo = min(A, d).val(), hi = max(A).val();
   bool one = false, all = true, oneh = false, allh = true;
   for(i64 i = 0; i < n; ++i) {
      one = one | (lo == r.v[i]), all = all & (lo <= r.v[i]);
      oneh = oneh | (hi == r.v[i]), allh = allh & (hi >= r.v[i]);
   }
   CHECK(one && all, "min is the smallest element");
   CHECK(oneh && allh, "max is the largest element");
};
template <class T>
static auto indexes1 = [](const auto& A, const auto& r) {
   Strict<T> d{sym<T>("default")};
   i64 di = sym_i64("index_default");
   if(!r.n) {
      auto [i, x] = min_index(A, {Strict{di}, d});
      auto [j, y] = max_index(A, {Strict{di}, d});
      CHECK(i.val() == di && j.val() == di && same(x, d) && same(y, d), "min_index and max_index of nothing are the default");
      auto [k, z] = min_index(A);
      auto [l, w] = max_index(A);
      CHECK(k.val() == -1 && l.val() == -1 && same(z, T{}) && same(w, T{}), "min_index and max_index of nothing are -1 and zero if no default is given");
      return;
   }
   for(i64 i = 0; i < r.n; ++i) sym_assume(!isnan_(r.v[i]));
   auto [i, x] = min_index(A);
   auto [j, y] = max_index(A, {Strict{di}, d});
   i64 p = sym_conc(i.val()), q = sym_conc(j.val());
   bool ok = p >= 0 && p < r.n && q >= 0 && q < r.n;
   CHECK(ok, "min_index and max_index give an index of the array");
   if(!ok) return;
   CHECK(same(x, r.v[p]) && same(y, r.v[q]), "min_index and max_index give the element at the index");
   bool a = true, b = true;
   for(i64 k = 0; k < r.n; ++k) {
      a = a & (k < p ? r.v[k] > r.v[p] : r.v[k] >= r.v[p]);
      b = b & (k < q ? r.v[k] < r.v[q] : r.v[k] <= r.v[q]);
   }
   CHECK(a, "min_index is the first index of the smallest element");
   CHECK(b, "max_index is the first index of the largest element");
};
template <class T>
static auto indexes2 = [](const auto& A, const auto& r) {
   Strict<T> d{sym<T>("default")};
   i64 di = sym_i64("row_default"), dj = sym_i64("col_default");
   if(!r.m) {
      auto [i, j, x] = min_index(A, {Strict{di}, Strict{dj}, d});
      auto [k, l, y] = max_index(A, {Strict{di}, Strict{dj}, d});
      CHECK(i.val() == di && j.val() == dj && k.val() == di && l.val() == dj && same(x, d) && same(y, d), "2D min_index and max_index of nothing are the default");
      auto [e, f, z] = min_index(A);
      CHECK(e.val() == -1 && f.val() == -1 && same(z, T{}), "2D min_index of nothing is -1, -1 and zero if no default is given");
      auto [g, h, w] = max_index(A);
      CHECK(g.val() == -1 && h.val() == -1 && same(w, T{}), "2D max_index of nothing is -1, -1 and zero if no default is given");
      return;
   }
   for(i64 i = 0; i < r.m * r.n; ++i) sym_assume(!isnan_(r.v[i]));
   auto [i, j, x] = min_index(A);
   auto [k, l, y] = max_index(A, {Strict{di}, Strict{dj}, d});
   i64 i1 = sym_conc(i.val()), j1 = sym_conc(j.val()), i2 = sym_conc(k.val()), j2 = sym_conc(l.val());
   bool ok = i1 >= 0 && i1 < r.m && j1 >= 0 && j1 < r.n && i2 >= 0 && i2 < r.m && j2 >= 0 && j2 < r.n;
   CHECK(ok, "2D min_index and max_index give a position of the array");
   if(!ok) return;
   i64 p = i1 * r.n + j1, q = i2 * r.n + j2;
   CHECK(same(x, r.v[p]) && same(y, r.v[q]), "2D min_index and max_index give the element at the position");
   bool a = true, b = true;
   for(i64 e = 0; e < r.m * r.n; ++e) {
      a = a & (e < p ? r.v[e] > r.v[p] : r.v[e] >= r.v[p]);
      b = b & (e < q ? r.v[e] < r.v[q] : r.v[e] <= r.v[q]);
   }
   CHECK(a, "2D min_index is the first position of the smallest element, row by row");
   CHECK(b, "2D max_index is the first position of the largest element, row by row");
};
// Without the kinds that do not help: unsigned negation is defined, so every type can go everywhere.
HARNESS(fold1_int) { over1<int>(folds<int>); }
HARNESS(fold1_double) { over1<double>(folds<double>); }
HARNESS(fold2_long) { over2<long>(folds<long>); }
HARNESS(fold2_float) { over2<float>(folds<float>); }
HARNESS(extremes1_int) { over1<int>(extremes<int>); }
HARNESS(extremes1_unsigned) { over1<unsigned>(extremes<unsigned>); }
HARNESS(extremes1_float) { over1<float>(extremes<float>); }
HARNESS(extremes2_long) { over2<long>(extremes<long>); }
HARNESS(extremes2_float) { over2<float>(extremes<float>); }
HARNESS_T(extremes2_double) { over2<double>(extremes<double>); }
HARNESS(index1_int) { over1<int>(indexes1<int>); }
HARNESS(index1_double) { over1<double>(indexes1<double>); }
HARNESS(index2_long) { over2<long>(indexes2<long>); }
HARNESS(index2_float) { over2<float>(indexes2<float>); }

template <class T>
static auto norms = [](const auto& A, const auto& r) {
   i64 n = count(r);
   Strict<T> d{sym<T>("default")};
   i64 lp = sym_i64("lp");
   if(!n) {
      CHECK(same(mean(A, d), d) && same(norm1(A, d), d) && same(norm1_scaled(A, d), d), "mean and 1-norms of nothing are the default");
      CHECK(same(norm_inf(A, d), d) && same(norm2(A, d), d) && same(norm2_scaled(A, d), d), "norms of nothing are the default");
      CHECK(same(mean(A), T{}) && same(norm1(A), T{}) && same(norm1_scaled(A), T{}) && same(norm_inf(A), T{}) && same(norm2(A), T{}) && same(norm2_scaled(A), T{}),
            "norms of nothing are zero if no default is given");
      T x{}, y{};
      int o = outcome([&] { x = norm_lp(A, lp, d).val(); }), q = outcome([&] { y = norm_lp_scaled(A, lp, d).val(); });
      CHECK((o == 0) == (lp > 0) && (q == 0) == (lp > 0) && o <= 1 && q <= 1, "a p-norm throws exactly when p is not positive, also on nothing");
      if(o == 0) CHECK(same(x, d.val()) && same(y, d.val()), "p-norms of nothing are the default");
      return;
   }
   switch(pick("norm", 0, 3)) {
   case 0: {
      T s = r.v[0];
      for(i64 i = 1; i < n; ++i) s += r.v[i];
      CHECK(val_eq(mean(A, d).val(), s / T(n)), "mean is the sum over the number of elements");
      T t = std::fabs(r.v[0]);
      for(i64 i = 1; i < n; ++i) t += std::fabs(r.v[i]);
      CHECK(val_eq(norm1(A, d).val(), t), "norm1 is the sum of absolute values");
      CHECK(val_eq(norm1_scaled(A, d).val(), t / T(n)), "norm1_scaled is the mean of absolute values");
      break;
   }
   case 1: {
      for(i64 i = 0; i < n; ++i) sym_assume(!isnan_(r.v[i]));
      T x = norm_inf(A, d).val();
      bool one = false, all = true;
      for(i64 i = 0; i < n; ++i) one = one | (x == std::fabs(r.v[i])), all = all & (x >= std::fabs(r.v[i]));
      CHECK(one && all, "norm_inf is the largest absolute value");
      break;
   }
   case 2: {
      T s = r.v[0] * r.v[0];
      for(i64 i = 1; i < n; ++i) s += r.v[i] * r.v[i];
      CHECK(val_eq(norm2(A, d).val(), std::sqrt(s)), "norm2 is the root of the sum of squares");
      CHECK(val_eq(norm2_scaled(A, d).val(), std::sqrt(s) / std::sqrt(T(n))), "norm2_scaled is norm2 over the root of the number of elements");
      break;
   }
   case 3: {
      // small p, so that the powers are the same terms
      i64 p = pick("p", -1, 3);
      if(p > 0)
         for(i64 i = 0; i < n; ++i) {
            T y = std::pow(r.v[i], T(p));
            if(!isnan_(r.v[i]) && r.v[i] != T(0)) sym_assume(p % 2 == 0 || r.v[i] > T(0) ? y > T(0) : y < T(0));
         }
      T x{}, y{};
      int o = outcome([&] { x = norm_lp(A, p, d).val(); }), q = outcome([&] { y = norm_lp_scaled(A, p, d).val(); });
      CHECK((o == 0) == (p > 0) && (q == 0) == (p > 0) && o <= 1 && q <= 1, "a p-norm throws exactly when p is not positive");
      if(o || q) break;
      T s{};
      for(i64 i = 0; i < n; ++i) {
         T y = std::pow(r.v[i], T(p));
         if(i == 0) s = std::fabs(y);
         else s += std::fabs(y);
      }
      T want = std::pow(s, T(1) / T(p));
      CHECK(val_eq(x, want), "norm_lp is the p-th root of the sum of p-th powers");
      CHECK(val_eq(y, want / std::pow(T(n), T(1) / T(p))), "norm_lp_scaled is norm_lp over the p-th root of the number of elements");
   }
   }
};
HARNESS_T(norms1_double) { over1<double, Signed>(norms<double>); }
HARNESS(norms1_float) { over1<float, Signed>(norms<float>); }
HARNESS(norms2_float) { over2<float, Signed>(norms<float>); }

template <class T>
static void dots() {
   i64 n = pick("n", 0, 2), m = pick("m", 0, 2);
   auto a = symref<T>(n, "a"), b = symref<T>(m, "b");
   Array1D<T> A = mk(a), B = mk(b);
   Strict<T> d{sym<T>("default")};
   T x{}, y{}, z{}, nod{};
   int o = outcome([&] { x = dot_prod(A, B, d).val(); });
   int p = outcome([&] { y = dot_prod(A(place::reverse), -B, d).val(); });
   int q = outcome([&] { z = dot_prod(A + A, B(place::all), d).val(); nod = dot_prod(A, B).val(); });
   if(n != m) {
      CHECK(o == 1 && p == 1 && q == 1, "the dot product of arrays of different sizes throws");
      return;
   }
   CHECK(o == 0 && p == 0 && q == 0, "the dot product of arrays of one size is defined");
   if(!n) {
      CHECK(same(x, d.val()) && same(y, d.val()) && same(z, d.val()), "the dot product of nothing is the default");
      CHECK(same(nod, T{}), "the dot product of nothing is zero if no default is given");
      return;
   }
   T s = a[0] * b[0], t = a[n - 1] * -b[0], u = (a[0] + a[0]) * b[0];
   for(i64 i = 1; i < n; ++i) s += a[i] * b[i], t += a[n - 1 - i] * -b[i], u += (a[i] + a[i]) * b[i];
   CHECK(val_eq(x, s) && val_eq(nod, s), "the dot product is the sum of products");
   CHECK(val_eq(y, t) && val_eq(z, u), "the dot product of slices and expressions is the sum of products");
}
HARNESS(dot1_int) { dots<int>(); }
HARNESS(dot1_double) { dots<double>(); }
HARNESS(dot2_long) {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0, k = pick("k", 0, 2), l = k ? pick("l", 1, 2) : 0;
   auto a = symref2<long>(m, n, "a"), b = symref2<long>(k, l, "b");
   Array2D<long> A = mk(a), B = mk(b);
   long x = 0, y = 0;
   int o = outcome([&] { x = dot_prod(A, B).val(); }), p = outcome([&] { y = dot_prod(-A, B(place::reverse, place::all)).val(); });
   if(m != k || n != l) {
      CHECK(o == 1 && p == 1, "the dot product of 2D arrays of different shapes throws");
      return;
   }
   unsigned long s = 0, t = 0;
   for(i64 i = 0; i < m; ++i)
      for(i64 j = 0; j < n; ++j) s += (unsigned long)a(i, j) * b(i, j), t += -(unsigned long)a(i, j) * b(m - 1 - i, j);
   CHECK(o == 0 && x == (long)s, "the dot product of 2D arrays is the sum of products");
   CHECK(p == 0 && y == (long)t, "the dot product of 2D slices and expressions is the sum of products");
}
