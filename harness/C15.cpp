//! configs: debug
//! bounds: 1D targets of 0..2 elements, 2D targets up to 2x2 (arrays, slices, index lists, views, rows, diagonals); all ten operators; int, long, unsigned long, double; all values
//! assumes: shift counts below the width of the type and MIN / -1 excluded (undefined on the builtin too); the right-hand side refers to no other element of the target than the one being updated
#include "common.hpp"
#include <limits>

template <class T>
struct V { T v; bool bad; };
template <class T> bool divok(T x, T y) {
   if constexpr(std::is_signed_v<T> && std::is_integral_v<T>) return !(x == std::numeric_limits<T>::min() && y == T(-1));
   else return true;
}
#define OPERATION(NAME, SYM, BAD, PRE)                                                      \
   struct NAME {                                                                            \
      template <class A, class B> static decltype(auto) run(A&& a, const B& b) { return (a SYM##= b); } \
      template <class T> static V<T> ref(T x, T y) {                                        \
         if(BAD) return {T{}, true};                                                        \
         sym_assume(PRE);                                                                   \
         return {static_cast<T>(x SYM y), false};                                           \
      }                                                                                     \
   }
template <class T> constexpr bool is_int = std::is_integral_v<T>;
OPERATION(Add, +, false, true);
OPERATION(Sub, -, false, true);
OPERATION(Mul, *, false, true);
OPERATION(Div, /, is_int<T> && y == 0, divok(x, y));
OPERATION(Mod, %, y == 0, divok(x, y));
OPERATION(Shl, <<, x < T(0) || y < T(0), y < T(8 * sizeof(T)));
OPERATION(Shr, >>, x < T(0) || y < T(0), y < T(8 * sizeof(T)));
OPERATION(And, &, false, true);
OPERATION(Or, |, false, true);
OPERATION(Xor, ^, false, true);

// a: before; w: element values wanted (w.bad: the operation on that element must throw).
template <class A, class T>
static void judge(int o, const A& a, i64 n, const T* before, const V<T>* w) {
   bool bad = false, mixed = true, all = true;
   for(i64 i = 0; i < n; ++i) {
      bad = bad || w[i].bad;
      T x = (a.data() + i)->val();
      bool isnew = !w[i].bad && same(x, w[i].v);
      all = all && isnew;
      mixed = mixed && (isnew || same(x, before[i]));
   }
   if(bad) {
      CHECK(o == 1, "~a compound assignment with an undefined element operation throws");
      CHECK(mixed, "~a compound assignment that fails part way leaves old or updated elements");
   } else {
      CHECK(o == 0, "a compound assignment of matching sizes succeeds");
      CHECK(all, "a compound assignment updates exactly its elements by the scalar operation");
   }
}
template <class T, class Op>
static void target1() {
   i64 n = pick("n", 0, 2);
   auto a = symref<T>(n, "a"), b = symref<T>(n, "b");
   Array1D<T> A = mk(a), B = mk(b);
   const auto& cB = B;
   Strict<T> x{sym<T>("x")};
   V<T> w[2];
   T v = x.val();
   auto want = [&](auto f) { for(i64 i = 0; i < n; ++i) w[i] = f(i); };
   int o = 0;
   switch(pick("form", 0, 10)) {
   case 0: want([&](i64 i) { return Op::ref(a[i], v); }); o = outcome([&] { auto& r = Op::run(A, x); CHECK(&r == &A, "a compound assignment returns its target"); }); break;
   case 1: want([&](i64 i) { return Op::ref(a[i], b[i]); }); o = outcome([&] { auto& r = Op::run(A, cB); CHECK(&r == &A, "a compound assignment by an array returns its target"); }); break;
   case 2: want([&](i64 i) { return Op::ref(a[i], b[n - 1 - i]); }); o = outcome([&] { Op::run(A, B(place::reverse)); }); break;
   case 3: want([&](i64 i) { return Op::ref(a[i], T(b[i] + T(1))); }); o = outcome([&] { Op::run(A, B + Strict<T>{T(1)}); }); break;
   case 4: want([&](i64 i) { return Op::ref(a[i], a[i]); }); o = outcome([&] { Op::run(A, A); }); break;
   case 5: want([&](i64 i) { return Op::ref(a[i], b[n - 1 - i]); }); o = outcome([&] { auto S = A(place::reverse); auto& r = Op::run(S, B); CHECK(&r == &S, "a compound assignment to a slice returns it"); }); break;
   case 6:
      want([&](i64 i) { return i == n - 1 ? Op::ref(a[i], v) : V<T>{a[i], false}; });
      o = outcome([&] { Op::run(A(place::lastN{n ? 1 : 0}), x); });
      break;
   case 7:
      want([&](i64 i) { return i == n - 1 ? Op::ref(a[i], b[0]) : V<T>{a[i], false}; });
      o = outcome([&] { std::vector<ImplicitInt> ix; if(n) ix.push_back(n - 1); Op::run(A(ix), cB(place::firstN{n ? 1 : 0})); });
      break;
   case 8: want([&](i64 i) { return Op::ref(a[i], v); }); o = outcome([&] { Op::run(A.view1D(), x); }); break;
   case 9:
      if(n == 2) {
         want([&](i64 i) { return i ? Op::ref(a[i], b[0]) : V<T>{a[i], false}; });
         o = outcome([&] { Op::run(A.view2D(1, 2).col(1), B(place::firstN{1})); });
      } else want([&](i64 i) { return V<T>{a[i], false}; });
      break;
   case 10: {
      Array1D<T> C(pick("c", 0, 3), Strict<T>{T(1)});
      i64 k = C.size().val();
      o = outcome([&] { if(k & 1) Op::run(A, C); else Op::run(A, C(place::all)); });
      if(k != n) {
         CHECK(o == 1, "a compound assignment of another size is refused");
         CHECK(eq(A, a), "a refused compound assignment changes nothing");
         return;
      }
      want([&](i64 i) { return Op::ref(a[i], T(1)); });
      break;
   }
   }
   judge(o, A, n, a.v, w);
   CHECK(eq(B, b), "a compound assignment leaves its source alone");
}
template <class T, class Op>
static void target2() {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   auto a = symref2<T>(m, n, "a"), b = symref2<T>(m, n, "b");
   Array2D<T> A = mk(a), B = mk(b);
   Strict<T> x{sym<T>("x")};
   V<T> w[4];
   T v = x.val();
   auto want = [&](auto f) { for(i64 i = 0; i < m * n; ++i) w[i] = f(i / n, i % n); };
   int o = 0;
   switch(pick("form", 0, 5)) {
   case 0: want([&](i64 i, i64 j) { return Op::ref(a(i, j), v); }); o = outcome([&] { auto& r = Op::run(A, x); CHECK(&r == &A, "a 2D compound assignment returns its target"); }); break;
   case 1: want([&](i64 i, i64 j) { return Op::ref(a(i, j), b(i, j)); }); o = outcome([&] { Op::run(A, B); }); break;
   case 2: want([&](i64 i, i64 j) { return Op::ref(a(i, j), b(m - 1 - i, j)); }); o = outcome([&] { Op::run(A(place::reverse, place::all), B); }); break;
   case 3:
      want([&](i64 i, i64 j) { return i == m - 1 ? Op::ref(a(i, j), b(0, j)) : V<T>{a(i, j), false}; });
      if(m) o = outcome([&] { Op::run(A.row(place::last), B.row(0)); });
      break;
   case 4:
      want([&](i64 i, i64 j) { return i == j ? Op::ref(a(i, j), v) : V<T>{a(i, j), false}; });
      if(m) o = outcome([&] { Op::run(A.diag(), x); });
      break;
   case 5: {
      i64 p = pick("p", 0, 2), q = p ? pick("q", 1, 2) : 0;
      Array2D<T> C(p, q, Strict<T>{T(1)});
      o = outcome([&] { Op::run(A, C); });
      if(p != m || q != n) {
         CHECK(o == 1, "a 2D compound assignment of another shape is refused");
         CHECK(eq(A, a), "a refused 2D compound assignment changes nothing");
         return;
      }
      want([&](i64 i, i64 j) { return Op::ref(a(i, j), T(1)); });
      break;
   }
   }
   judge(o, A, m * n, a.v, w);
   CHECK(eq(B, b), "a 2D compound assignment leaves its source alone");
}
HARNESS(reals1) {
   switch(pick("op", 0, 7)) {
   case 0: target1<long, Add>(); break;
   case 1: target1<long, Sub>(); break;
   case 2: target1<int, Mul>(); break;
   case 3: target1<long, Div>(); break;
   case 4: target1<unsigned long, Sub>(); break;
   case 5: target1<int, Div>(); break;
   case 6: target1<int, Add>(); break;
   case 7: target1<unsigned long, Mul>(); break;
   }
}
HARNESS(floats1) {
   switch(pick("op", 0, 3)) {
   case 0: target1<double, Add>(); break;
   case 1: target1<double, Sub>(); break;
   case 2: target1<float, Mul>(); break;
   case 3: target1<double, Div>(); break;
   }
}
HARNESS(ints1) {
   switch(pick("op", 0, 5)) {
   case 0: target1<long, Mod>(); break;
   case 1: target1<int, Shl>(); break;
   case 2: target1<long, Shr>(); break;
   case 3: target1<int, And>(); break;
   case 4: target1<unsigned long, Or>(); break;
   case 5: target1<long, Xor>(); break;
   }
}
HARNESS(reals2) {
   switch(pick("op", 0, 3)) {
   case 0: target2<long, Add>(); break;
   case 1: target2<double, Sub>(); break;
   case 2: target2<long, Mul>(); break;
   case 3: target2<int, Div>(); break;
   }
}
HARNESS(ints2) {
   switch(pick("op", 0, 5)) {
   case 0: target2<int, Mod>(); break;
   case 1: target2<int, Shl>(); break;
   case 2: target2<int, Shr>(); break;
   case 3: target2<long, And>(); break;
   case 4: target2<long, Or>(); break;
   case 5: target2<unsigned long, Xor>(); break;
   }
}
