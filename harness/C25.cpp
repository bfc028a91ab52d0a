//! configs: debug
//! bounds: scalar error functions for all values of float and double; array forms of single precision with up to 2 elements (thorough 3) in 1D, 2x1 and 1x2 in 2D, lists of 2 elements and 1x2, for all contents except in the relative forms, where one pair at any position is symbolic and the others are fixed
//! assumes: inputs and their differences that are NaN are excluded from the largest-error functions (norm_inf of NaN depends on the order)
//! query-ms: 120000
//! branch-ms: 1000
#include "common.hpp"
#include <strictpp/Util/error_tools.hpp>
#include <cmath>
#include <limits>

#ifdef STRICT_DEBUG_OFF
constexpr bool checkedops = false;
#else
constexpr bool checkedops = true;
#endif
#ifdef THOROUGH
constexpr i64 maxn = 3;
#else
constexpr i64 maxn = 2;
#endif
template <class T> static bool nan(T x) { return x != x; }
template <class T> static bool wabs(T x, T y, T tol) { return std::fabs(x - y) <= tol; }
template <class T>
static bool wrel(T x, T y, T tol, T nz) {
   T a = std::fabs(x), b = std::fabs(y), m = a > b ? a : b;
   return m <= nz || std::fabs(x - y) / m <= tol;
}
template <class T>
static void scalars() {
   T x = sym<T>("x"), y = sym<T>("y"), tol = sym<T>("tol"), nz = sym<T>("nz");
   if(nan(x) || nan(y)) return;
   Strict<T> a{x}, b{y}, t{tol}, z{nz};
   const T def = T(100) * std::numeric_limits<T>::epsilon();
   CHECK(same(abs_error(a, b), std::fabs(x - y)), "abs_error is the absolute difference");
   CHECK(within_tol_abs(a, b).val() == wabs(x, y, def), "within_tol_abs compares the absolute error with a hundred epsilon by default");
   auto r = rel_error(a, b);
   CHECK(r.has_value() == (x != T(0) && y != T(0)), "rel_error is absent exactly when a value is zero");
   if(r) CHECK(same(r->val(), std::fabs((x - y) / y)), "rel_error is the difference relative to the exact value");
   bool w = false;
   bool bad = !(tol >= T(0));
   if(checkedops || !bad) {
      int o = outcome([&] { w = within_tol_abs(a, b, t).val(); });
      CHECK(o == (bad ? 1 : 0), "within_tol_abs throws exactly for a tolerance that is not at least zero");
      if(!bad) CHECK(w == wabs(x, y, tol), "within_tol_abs holds exactly when the absolute error is at most the tolerance");
   }
   bool badz = bad || !(nz >= T(0));
   if(checkedops || !badz) {
      int o = outcome([&] { w = within_tol_rel(a, b, t, z).val(); });
      CHECK(o == (badz ? 1 : 0), "within_tol_rel throws exactly for a tolerance that is not at least zero");
      if(!badz) CHECK(w == wrel(x, y, tol, nz), "within_tol_rel holds exactly when both values are near zero or the relative error is at most the tolerance");
   }
   CHECK(within_tol_rel(a, b).val() == wrel(x, y, def, def), "within_tol_rel uses a hundred epsilon for both tolerances by default");
}
HARNESS(scalars_float) { scalars<float>(); }
HARNESS(scalars_double) { scalars<double>(); }

// All forms over the same elements.
static void finite(Ref<float>& r) {
   for(i64 i = 0; i < r.n; ++i) sym_assume(std::fabs(r[i]) < 1e30f);
}
enum Form { ABS, REL, MAXABS, MAXREL };
// The relative forms: one symbolic pair, at any position; the other elements agree or have an error of a half.
static void settle(Form form, Ref<float>& x, Ref<float>& y) {
   if((form != REL && form != MAXREL) || x.n < 2) return;
   i64 k = pick("k", 0, x.n - 1);
   for(i64 i = 0; i < x.n && i < y.n; ++i) if(i != k) x.v[i] = 1.f, y.v[i] = form == REL ? 1.f : 2.f;
}
template <class A, class B>
static void arrays(Form form, const A& X, const B& Y, const Ref<float>& x, const Ref<float>& y, bool fits) {
   using S = Strict<float>;
   i64 n = x.n;
   bool d = sym<bool>("d");
   float tol = sym<float>("tol"), nz = sym<float>("nz"), def = sym<float>("def");
   sym_assume(tol >= 0.f && nz >= 0.f);
   if(form == ABS || form == REL) {
      bool w = false, want = true;
      int o = outcome([&] { w = form == ABS ? within_tol_abs(X, Y, S{tol}, StrictBool{d}).val() : within_tol_rel(X, Y, S{tol}, S{nz}, StrictBool{d}).val(); });
      CHECK(o == (fits ? 0 : 1), "tolerance tests of arrays throw exactly for different sizes");
      if(!fits) return;
      for(i64 i = 0; i < n; ++i) want = want && (form == ABS ? wabs(x[i], y[i], tol) : wrel(x[i], y[i], tol, nz));
      CHECK(w == (n ? want : d), "tolerance tests of arrays hold exactly when they hold for all elements");
      if(n == 0) CHECK(!within_tol_abs(X, Y).val() && !within_tol_rel(X, Y).val(), "tolerance tests of nothing are false by default");
   } else if(form == MAXABS) {
      S m{};
      int o = outcome([&] { m = max_abs_error(X, Y, S{def}); });
      CHECK(o == (fits ? 0 : 1), "largest errors of arrays throw exactly for different sizes");
      if(!fits) return;
      bool one = false, all = true;
      for(i64 i = 0; i < n; ++i) {
         float e = std::fabs(x[i] - y[i]);
         one |= same(m, e);
         all &= !(m.val() < e);
      }
      if(n) CHECK(one && all, "max_abs_error is the largest absolute error");
      else CHECK(same(m, def) && max_abs_error(X, Y).val() == 1.f, "the largest absolute error of nothing is the default");
   } else {
      std::optional<S> r;
      int o = outcome([&] { r = max_rel_error(X, Y, S{def}); });
      CHECK(o == (fits ? 0 : 1), "largest errors of arrays throw exactly for different sizes");
      if(!fits) return;
      bool one = false, all = true, zero = false;
      for(i64 i = 0; i < n; ++i) zero |= x[i] == 0.f || y[i] == 0.f;
      CHECK(r.has_value() == !zero, "max_rel_error is absent exactly when an element is zero");
      if(!n) CHECK(same(*r, def) && max_rel_error(X, Y)->val() == 1.f, "the largest relative error of nothing is the default");
      if(zero || !n || !r) return;
      for(i64 i = 0; i < n; ++i) {
         float e = std::fabs((x[i] - y[i]) / y[i]);
         if(nan(e)) return;
         one |= same(*r, e);
         all &= !(r->val() < e);
      }
      CHECK(one && all, "max_rel_error is the largest relative error");
   }
}
static void arrays_1D(Form f) {
   i64 n = pick("n", 0, maxn), m = pick("m", 0, 1) ? n : n + 1;
   if(!checkedops && n != m) return;
   auto x = symref<float>(n, "x"), y = symref<float>(m, "y");
   finite(x), finite(y);
   settle(f, x, y);
   arrays(f, mk(x), mk(y), x, y, n == m);
}
static void arrays_2D(Form f) {
   i64 m = pick("m", 0, 2), n = m == 0 ? 0 : m == 1 ? 2 : 1;
   bool flip = pick("flip", 0, 1);
   if(flip && !checkedops && m != n) return;
   auto x = symref2<float>(m, n, "x"), y = flip ? symref2<float>(n, m, "y") : symref2<float>(m, n, "y");
   Ref<float> p, q;
   for(i64 i = 0; i < m * n; ++i) p.push(x.v[i]), q.push(y.v[i]);
   finite(p), finite(q);
   settle(f, p, q);
   for(i64 i = 0; i < m * n; ++i) x.v[i] = p[i], y.v[i] = q[i];
   arrays(f, mk(x), mk(y), p, q, !flip || m == n);
}
HARNESS(abs_1D) { arrays_1D(ABS); }
HARNESS(abs_2D) { arrays_2D(ABS); }
HARNESS(rel_1D) { arrays_1D(REL); }
HARNESS(rel_2D) { arrays_2D(REL); }
HARNESS(max_abs_1D) { arrays_1D(MAXABS); }
HARNESS(max_abs_2D) { arrays_2D(MAXABS); }
HARNESS(max_rel_1D) { arrays_1D(MAXREL); }
HARNESS(max_rel_2D) { arrays_2D(MAXREL); }
static void lists(i64 from, i64 to) {
   using S = Strict<float>;
   auto x = symref<float>(2, "x"), y = symref<float>(2, "y");
   float tol = sym<float>("tol"), nz = sym<float>("nz");
   sym_assume(tol >= 0.f && nz >= 0.f);
   finite(x), finite(y);
   settle(from ? REL : ABS, x, y);
   auto A = mk(x);
   Array2D<float> B(1, 2);
   B.un(0, 0) = S{x[0]}, B.un(0, 1) = S{x[1]};
   i64 k = pick("form", from, to);
   S a{y[0]}, b{y[1]}, t{tol}, z{nz};
   bool got = false;
   switch(k) {
      case 0: got = within_tol_abs(A, {a, b}, t).val(); break;
      case 1: got = within_tol_abs({a, b}, A, t).val(); break;
      case 2: got = within_tol_abs(B, {{a, b}}, t).val(); break;
      case 3: got = within_tol_abs({{a, b}}, B, t).val(); break;
      case 4: got = within_tol_rel(A, {a, b}, t, z).val(); break;
      case 5: got = within_tol_rel({a, b}, A, t, z).val(); break;
      case 6: got = within_tol_rel(B, {{a, b}}, t, z).val(); break;
      default: got = within_tol_rel({{a, b}}, B, t, z).val();
   }
   bool want;
   if(k < 4) want = wabs(x[0], y[0], tol) && wabs(x[1], y[1], tol);
   else want = within_tol_rel(k == 4 || k == 6 ? A : mk(y), k == 4 || k == 6 ? mk(y) : A, t, z).val(); // decided by rel_1D
   CHECK(got == want, "tolerance tests against lists agree with those against arrays");
}
HARNESS(lists_abs) { lists(0, 3); }
HARNESS(lists_rel) { lists(4, 7); }
