//! configs: debug
//! bounds: 1D operands of 0..2 elements, 2D operands up to 2x2, types int, long, unsigned long, float, double, bool; every operator; 10 operand forms (array, slice, expression, scalar; left and right; nested); all values
//! assumes: shift counts below the width of the type and MIN / -1 excluded (undefined on the builtin too)
#include "common.hpp"
#include <limits>

// Scalar operations on builtins: the result, or bad when the strict operation must throw.
template <class T>
struct V { T v; bool bad; };

#define OPERATION(NAME, SYM, BAD, PRE)                                                                    \
   struct NAME {                                                                                          \
      template <class A, class B> static auto arr(const A& a, const B& b) { return a SYM b; }             \
      template <class T> static V<T> ref(V<T> a, V<T> b) {                                                \
         if(a.bad || b.bad) return {T{}, true};                                                           \
         T x = a.v, y = b.v;                                                                              \
         (void)x, (void)y;                                                                                \
         if(BAD) return {T{}, true};                                                                      \
         sym_assume(PRE);                                                                                 \
         return {static_cast<T>(x SYM y), false};                                                         \
      }                                                                                                   \
   }
template <class T> constexpr bool is_int = std::is_integral_v<T>;
template <class T> bool divok(T x, T y) {
   if constexpr(std::is_signed_v<T> && is_int<T>) return !(x == std::numeric_limits<T>::min() && y == T(-1));
   else return true;
}
OPERATION(Add, +, false, true);
OPERATION(Sub, -, false, true);
OPERATION(Mul, *, false, true);
OPERATION(Div, /, is_int<T> && y == 0, divok(x, y));
OPERATION(Mod, %, y == 0, divok(x, y));
OPERATION(Shl, <<, x < T(0) || y < T(0), y < T(8 * sizeof(T)));
OPERATION(Shr, >>, x < T(0) || y < T(0), y < T(8 * sizeof(T)));
OPERATION(And, &, false, true);
OPERATION(Or, |, false, true);
OPERATION(Xor, ^, false, true);
OPERATION(BAnd, &&, false, true);
OPERATION(BOr, ||, false, true);
OPERATION(BXor, ^, false, true);

// Reading the elements of e gives exactly r, and throws exactly where r is bad.
template <class E, class T>
static void compare(const E& e, i64 n, const V<T>* r) {
   CHECK(e.size().val() == n, "an elementwise expression has the size of its operands");
   for(i64 i = 0; i < n; ++i) {
      Strict<T> x{};
      int o = outcome([&] { x = e[i]; });
      if(r[i].bad) CHECK(o == 1, "~reading an element with an undefined operation throws");
      else CHECK(o == 0 && same(x, r[i].v), "an element is the scalar operation on the operand elements");
   }
}
template <class E, class T>
static void compare2(const E& e, i64 m, i64 n, const V<T>* r) {
   CHECK(e.rows().val() == m && e.cols().val() == n && e.size().val() == m * n, "a 2D elementwise expression has the shape of its operands");
   for(i64 i = 0; i < m; ++i)
      for(i64 j = 0; j < n; ++j) {
         Strict<T> x{};
         const V<T>& w = r[i * n + j];
         int o = outcome([&] { x = e(i, j); });
         if(w.bad) CHECK(o == 1, "~reading a 2D element with an undefined operation throws");
         else CHECK(o == 0 && same(x, w.v) && same(e.un(i * n + j), w.v), "a 2D element is the scalar operation on the operand elements");
      }
}
template <class T, class Op>
static void forms1() {
   i64 n = pick("n", 0, 2);
   auto a = symref<T>(n, "a"), b = symref<T>(n, "b");
   Array1D<T> A = mk(a), B = mk(b);
   T x = sym<T>("x");
   V<T> w[2];
   auto want = [&](auto f) { for(i64 i = 0; i < n; ++i) w[i] = f(i); };
   auto va = [&](i64 i) { return V<T>{a[i], false}; };
   auto vb = [&](i64 i) { return V<T>{b[i], false}; };
   V<T> vx{x, false};
   const auto& cA = A;
   switch(pick("form", 0, 9)) {
   case 0: want([&](i64 i) { return Op::ref(va(i), vb(i)); }); compare(Op::arr(A, B), n, w); break;
   case 1: want([&](i64 i) { return Op::ref(va(n - 1 - i), vb(i)); }); compare(Op::arr(cA(place::reverse), B), n, w); break;
   case 2: want([&](i64 i) { return Op::ref(va(i), vb(n - 1 - i)); }); compare(Op::arr(cA, B(place::reverse)), n, w); break;
   case 3: want([&](i64 i) { return Op::ref(Op::ref(va(i), vb(i)), vb(i)); }); compare(Op::arr(Op::arr(A, B), B), n, w); break;
   case 4: want([&](i64 i) { return Op::ref(va(i), Op::ref(va(i), vb(i))); }); compare(Op::arr(A, Op::arr(A, B)), n, w); break;
   case 5: want([&](i64 i) { return Op::ref(vx, va(i)); }); compare(Op::arr(Strict{x}, A), n, w); break;
   case 6: want([&](i64 i) { return Op::ref(va(i), vx); }); compare(Op::arr(A, Strict{x}), n, w); break;
   case 7: want([&](i64 i) { return Op::ref(vx, va(n - 1 - i)); }); compare(Op::arr(Strict{x}, A(place::reverse)), n, w); break;
   case 8: want([&](i64 i) { return Op::ref(Op::ref(vx, va(i)), Op::ref(vb(i), vx)); }); compare(Op::arr(Op::arr(Strict{x}, A), Op::arr(B, Strict{x})), n, w); break;
   case 9: {
      Array1D<T> C(pick("c", 0, 3));
      int o = outcome([&] { auto e = Op::arr(A, C); (void)e; });
      CHECK(o == (C.size().val() == n ? 0 : 1), "operands of different sizes are refused");
      o = outcome([&] { auto e = Op::arr(C(place::all), A); (void)e; });
      CHECK(o == (C.size().val() == n ? 0 : 1), "a slice operand of another size is refused");
      break;
   }
   }
}
template <class T, class Op>
static void forms2() {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   auto a = symref2<T>(m, n, "a"), b = symref2<T>(m, n, "b");
   Array2D<T> A = mk(a), B = mk(b);
   T x = sym<T>("x");
   V<T> w[4];
   auto want = [&](auto f) { for(i64 i = 0; i < m * n; ++i) w[i] = f(i / n, i % n); };
   auto va = [&](i64 i, i64 j) { return V<T>{a(i, j), false}; };
   auto vb = [&](i64 i, i64 j) { return V<T>{b(i, j), false}; };
   V<T> vx{x, false};
   const auto& cB = B;
   switch(pick("form", 0, 6)) {
   case 0: want([&](i64 i, i64 j) { return Op::ref(va(i, j), vb(i, j)); }); compare2(Op::arr(A, B), m, n, w); break;
   case 1: want([&](i64 i, i64 j) { return Op::ref(va(i, n - 1 - j), vb(i, j)); }); compare2(Op::arr(A(place::all, place::reverse), cB), m, n, w); break;
   case 2: want([&](i64 i, i64 j) { return Op::ref(va(i, j), vb(m - 1 - i, j)); }); compare2(Op::arr(A, cB(place::reverse, place::all)), m, n, w); break;
   case 3: want([&](i64 i, i64 j) { return Op::ref(Op::ref(va(i, j), vb(i, j)), va(i, j)); }); compare2(Op::arr(Op::arr(A, B), A), m, n, w); break;
   case 4: want([&](i64 i, i64 j) { return Op::ref(vx, vb(i, j)); }); compare2(Op::arr(Strict{x}, B), m, n, w); break;
   case 5: want([&](i64 i, i64 j) { return Op::ref(va(i, j), vx); }); compare2(Op::arr(A, Strict{x}), m, n, w); break;
   case 6: {
      i64 p = pick("p", 0, 3), q = p ? pick("q", 1, 3) : 0;
      Array2D<T> C(p, q);
      int o = outcome([&] { auto e = Op::arr(A, C); (void)e; });
      CHECK(o == (p == m && q == n ? 0 : 1), "2D operands of different shapes are refused");
      break;
   }
   }
}
template <class T>
static void reals() {
   switch(pick("op", 0, 3)) {
   case 0: forms1<T, Add>(); break;
   case 1: forms1<T, Sub>(); break;
   case 2: forms1<T, Mul>(); break;
   case 3: forms1<T, Div>(); break;
   }
}
template <class T>
static void ints() {
   switch(pick("op", 0, 5)) {
   case 0: forms1<T, Mod>(); break;
   case 1: forms1<T, Shl>(); break;
   case 2: forms1<T, Shr>(); break;
   case 3: forms1<T, And>(); break;
   case 4: forms1<T, Or>(); break;
   case 5: forms1<T, Xor>(); break;
   }
}
HARNESS(real_long) { reals<long>(); }
HARNESS(real_double) { reals<double>(); }
HARNESS(int_int) { ints<int>(); }
HARNESS(int_ulong) { ints<unsigned long>(); }
HARNESS_T(real_int) { reals<int>(); }
HARNESS_T(real_float) { reals<float>(); }
HARNESS_T(int_long) { ints<long>(); }
HARNESS(bools) {
   switch(pick("op", 0, 2)) {
   case 0: forms1<bool, BAnd>(); break;
   case 1: forms1<bool, BOr>(); break;
   case 2: forms1<bool, BXor>(); break;
   }
}
HARNESS(reals2D) {
   switch(pick("op", 0, 3)) {
   case 0: forms2<double, Add>(); break;
   case 1: forms2<int, Sub>(); break;
   case 2: forms2<double, Mul>(); break;
   case 3: forms2<double, Div>(); break;
   }
}
HARNESS(ints2D) {
   switch(pick("op", 0, 6)) {
   case 0: forms2<int, Mod>(); break;
   case 1: forms2<int, Shl>(); break;
   case 2: forms2<int, Shr>(); break;
   case 3: forms2<long, And>(); break;
   case 4: forms2<unsigned long, Or>(); break;
   case 5: forms2<int, Xor>(); break;
   case 6: forms2<int, Div>(); break;
   }
}
HARNESS(bools2D) {
   switch(pick("op", 0, 2)) {
   case 0: forms2<bool, BAnd>(); break;
   case 1: forms2<bool, BOr>(); break;
   case 2: forms2<bool, BXor>(); break;
   }
}
// Evaluated when read: elements changed after the expression was built are seen.
HARNESS(lazy) {
   i64 n = 2;
   auto a = symref<long>(n, "a"), b = symref<long>(n, "b"), c = symref<long>(n, "c");
   Array1D<long> A = mk(a), B = mk(b);
   auto e = A + B * A(place::reverse);
   for(i64 i = 0; i < n; ++i) A.un(i) = Strict{c[i]};
   for(i64 i = 0; i < n; ++i) CHECK(e[i].val() == c[i] + b[i] * c[n - 1 - i], "an expression is evaluated when it is read");
   Array1D<long> R = e;
   A = Strict{0L};
   for(i64 i = 0; i < n; ++i) CHECK(R[i].val() == c[i] + b[i] * c[n - 1 - i], "an array made of an expression has its elements");
   // an element is read back through an operand that the result overwrites
   auto f = B - A;
   B = B + B;
   for(i64 i = 0; i < n; ++i) CHECK(f[i].val() == 2 * b[i] && B[i].val() == 2 * b[i], "assigning an expression over its own operand is elementwise");
}
