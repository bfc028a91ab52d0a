//! configs: debug
//! bounds: 1D operands of 0..2 elements, 2D operands up to 2x2; arrays, slices and expressions; every unary function; all values (library functions such as exp are uninterpreted, so only the right function of the right element is shown)
//! assumes: conversions to integers of values that fit
#include "common.hpp"
#include <cmath>

#define UNARY(NAME, EXPR, REF)                                        \
   struct NAME {                                                      \
      template <class A> static auto arr(const A& a) { return EXPR; } \
      template <class T> static auto ref(T x) { return REF; }         \
   }
// The strict functions are named abs, exp, ... in spp; the builtin ones are taken from std.
UNARY(Plus, +a, x);
UNARY(Minus, -a, T(-x));
UNARY(Not, ~a, T(~x));
UNARY(LNot, !a, !x);
UNARY(Abs, spp::abs(a), T(x > T(0) ? x : T(0) - x));
UNARY(Exp, spp::exp(a), std::exp(x));
UNARY(Log, spp::log(a), std::log(x));
UNARY(Log2, spp::log2(a), std::log2(x));
UNARY(Log10, spp::log10(a), std::log10(x));
UNARY(Sqrt, spp::sqrt(a), std::sqrt(x));
UNARY(Cbrt, spp::cbrt(a), std::cbrt(x));
UNARY(Sin, spp::sin(a), std::sin(x));
UNARY(Cos, spp::cos(a), std::cos(x));
UNARY(Tan, spp::tan(a), std::tan(x));
UNARY(Inv, spp::inv(a), T(T(1) / x));
UNARY(PowInt3, spp::pow_int(a, 3), std::pow(x, T(3)));
UNARY(PowIntM2, spp::pow_int(a, -2), std::pow(x, T(-2)));
UNARY(PowHalf, spp::pow(a, ValueTypeOf<A>{0.5}), std::pow(x, T(0.5)));
UNARY(Fast0, spp::fast_pow_int(a, 0), (x == T(0) ? T(1) : T(1)));
UNARY(Fast1, spp::fast_pow_int(a, 1), x);
UNARY(Fast2, spp::fast_pow_int(a, 2), T(x * x));
UNARY(FastM1, spp::fast_pow_int(a, -1), T(T(1) / x));
UNARY(ToDouble, array_cast<double>(a), static_cast<double>(x));
UNARY(ToFloat, array_cast<float>(a), static_cast<float>(x));
UNARY(ToLong, array_cast<long>(a), static_cast<long>(x));
UNARY(ToInt, array_cast<int>(a), static_cast<int>(x));
UNARY(ToUnsigned, array_cast<unsigned>(a), static_cast<unsigned>(x));
UNARY(ToBool, array_cast<bool>(a), static_cast<bool>(x));
struct Twice {
   template <class A> static auto arr(const A& a) { return generate(a, [](auto x) { return x + x; }); }
   template <class T> static auto ref(T x) { return T(x + x); }
};

template <class T, class Op>
static void forms() {
   i64 m = pick("m", 0, 2), n = m ? pick("n", 1, 2) : 0;
   auto a = symref2<T>(m, n, "a");
   if constexpr(std::is_floating_point_v<T>)
      for(i64 i = 0; i < m * n; ++i)
         if constexpr(std::is_integral_v<decltype(Op::ref(T{}))> && !std::is_same_v<bool, decltype(Op::ref(T{}))>)
            sym_assume(a.v[i] > T(-1) && a.v[i] < T(2147483647));
   Array2D<T> A = mk(a);
   const auto& cA = A;
   auto chk = [&](const auto& e, auto at) {
      CHECK(e.rows().val() == m && e.cols().val() == n, "a unary expression has the shape of its operand");
      for(i64 i = 0; i < m; ++i)
         for(i64 j = 0; j < n; ++j) {
            static_assert(std::is_same_v<typename ValueTypeOf<decltype(e)>::value_type, std::remove_cvref_t<decltype(Op::ref(T{}))>>);
            CHECK(same(e(i, j), Op::ref(at(i, j))) && same(e.un(i * n + j), Op::ref(at(i, j))), "an element of a unary expression is the function of the operand element");
         }
   };
   switch(pick("form", 0, 4)) {
   case 0: chk(Op::arr(A), [&](i64 i, i64 j) { return a(i, j); }); break;
   case 1: chk(Op::arr(cA(place::reverse, place::all)), [&](i64 i, i64 j) { return a(m - 1 - i, j); }); break;
   case 2: chk(Op::arr(generate(A, [](auto x) { return x; })), [&](i64 i, i64 j) { return a(i, j); }); break;
   case 3:
      if(m) {
         auto e = Op::arr(A.row(0));
         CHECK(e.size().val() == n, "a unary 1D expression has the size of its operand");
         for(i64 j = 0; j < n; ++j) CHECK(same(e[j], Op::ref(a(0, j))), "an element of a unary 1D expression is the function of the operand element");
      }
      break;
   case 4: {
      Array1D<T> B = A.view1D();
      auto e = Op::arr(B);
      auto f = Op::arr(B)(place::reverse);
      CHECK(e.size().val() == m * n && f.size().val() == m * n, "a unary expression of an array has its size");
      for(i64 j = 0; j < m * n; ++j) CHECK(same(e[j], Op::ref(a.v[j])) && same(f[m * n - 1 - j], Op::ref(a.v[j])), "an element of a unary expression of an array is the function of the operand element");
   }
   }
}
HARNESS(signs) {
   switch(pick("op", 0, 11)) {
   case 0: forms<long, Plus>(); break;
   case 1: forms<double, Minus>(); break;
   case 2: forms<int, Minus>(); break;
   case 3: forms<long, Not>(); break;
   case 4: forms<unsigned, Not>(); break;
   case 5: forms<bool, LNot>(); break;
   case 6: forms<long, Abs>(); break;
   case 7: forms<double, Abs>(); break;
   case 8: forms<unsigned, Plus>(); break;
   case 9: forms<double, Twice>(); break;
   case 10: forms<int, Abs>(); break;
   case 11: forms<float, Plus>(); break;
   }
}
HARNESS(functions) {
   switch(pick("op", 0, 12)) {
   case 0: forms<double, Exp>(); break;
   case 1: forms<double, Log>(); break;
   case 2: forms<float, Log2>(); break;
   case 3: forms<double, Log10>(); break;
   case 4: forms<double, Sqrt>(); break;
   case 5: forms<double, Cbrt>(); break;
   case 6: forms<double, Sin>(); break;
   case 7: forms<float, Cos>(); break;
   case 8: forms<double, Tan>(); break;
   case 9: forms<double, Inv>(); break;
   case 10: forms<double, PowInt3>(); break;
   case 11: forms<double, PowIntM2>(); break;
   case 12: forms<double, PowHalf>(); break;
   }
}
HARNESS(fast_powers) {
   switch(pick("op", 0, 3)) {
   case 0: forms<double, Fast0>(); break;
   case 1: forms<double, Fast1>(); break;
   case 2: forms<double, Fast2>(); break;
   case 3: forms<double, FastM1>(); break;
   }
}
HARNESS(casts) {
   switch(pick("op", 0, 9)) {
   case 0: forms<long, ToDouble>(); break;
   case 1: forms<double, ToFloat>(); break;
   case 2: forms<double, ToLong>(); break;
   case 3: forms<long, ToInt>(); break;
   case 4: forms<int, ToUnsigned>(); break;
   case 5: forms<double, ToBool>(); break;
   case 6: forms<bool, ToLong>(); break;
   case 7: forms<float, ToDouble>(); break;
   case 8: forms<unsigned, ToLong>(); break;
   case 9: forms<long, ToBool>(); break;
   }
}
HARNESS(pairs) {
   i64 n = pick("n", 0, 2);
   auto a = symref<double>(n, "a"), b = symref<double>(n, "b");
   Array1D<double> A = mk(a), B = mk(b);
   Array1D<int> K(n);
   for(i64 i = 0; i < n; ++i) K[i] = Strict<int>{static_cast<int>(pick("k", -2, 3))};
   auto [p, q] = two_prod(A, B);
   CHECK(p.size().val() == n && q.size().val() == n, "the two parts of an elementwise two-product have the operands' size");
   for(i64 i = 0; i < n; ++i) {
      auto w = two_prods(Strict{a[i]}, Strict{b[i]});
      CHECK(same(p[i], w.first.val()) && same(q[i], w.second.val()), "elements of an elementwise two-product are two-products of the elements");
   }
   auto [r, s] = pow_prod(A, K);
   for(i64 i = 0; i < n; ++i) {
      Strict<double> x{}, y{};
      std::pair<Strict<double>, Strict<double>> w;
      int o = outcome([&] { x = r[i], y = s[i]; });
      int ow = outcome([&] { w = pow_prods(Strict{a[i]}, K[i]); });
      CHECK(o == ow, "an elementwise compensated power fails exactly where the scalar one does");
      if(!o) CHECK(same(x, w.first.val()) && same(y, w.second.val()), "elements of an elementwise compensated power are those of the elements");
   }
   Array1D<double> C(n + 1);
   Array1D<int> L(n + 1);
   CHECK(outcome([&] { auto z = two_prod(A, C); (void)z; }) == 1, "an elementwise two-product of different sizes is refused");
   CHECK(outcome([&] { auto z = pow_prod(A, L); (void)z; }) == 1, "an elementwise compensated power of different sizes is refused");
}
