//! configs: debug release
//! bounds: none on the values: every operator of Strict<bool>, int, long, unsigned, unsigned long, float and double for all operands (shift counts below the width); casts between all pairs of these types
//! assumes: what is undefined on the builtin type is excluded: signed overflow wraps here, MIN / -1, shifts of at least the width, conversions of floating point values outside the integer range; long double and __float128 are not encoded
//! query-ms: 60000
#include "common.hpp"
#include <limits>

template <class T> constexpr bool isint = std::is_integral_v<T>;
template <class T> static bool overflows(T x, T y) {
   if constexpr(std::is_signed_v<T> && isint<T>) return x == std::numeric_limits<T>::min() && y == T(-1);
   else return false;
}
template <class T> using Wide = std::conditional_t<isint<T>, std::make_unsigned_t<std::conditional_t<isint<T>, T, int>>, T>;
// wrap-around arithmetic on integers, IEEE on floating point
template <class T> static T add(T x, T y) { return static_cast<T>(Wide<T>(x) + Wide<T>(y)); }
template <class T> static T sub(T x, T y) { return static_cast<T>(Wide<T>(x) - Wide<T>(y)); }
template <class T> static T mul(T x, T y) { return static_cast<T>(Wide<T>(x) * Wide<T>(y)); }

#ifdef STRICT_DEBUG_OFF
constexpr bool checkedops = false;
#else
constexpr bool checkedops = true;
#endif
#define OP(NAME, SYM, BAD, PRE, WANT)                                                             \
   template <class T> static void NAME() {                                                        \
      T x = sym<T>("x"), y = sym<T>("y"), got{};                                                  \
      const bool bad = BAD;                                                                       \
      if(bad && !checkedops) return;  /* undefined */                                            \
      if(!bad) sym_assume(PRE);                                                                   \
      Strict<T> a{x}, b{y}, c{x};                                                                 \
      int o = outcome([&] { got = (a SYM b).val(); });                                            \
      CHECK(same(a, x) && same(b, y), "a binary operator leaves its operands alone");             \
      Strict<T>* r = nullptr;                                                                     \
      int p = outcome([&] { r = &(c SYM##= b); });                                                \
      if constexpr(checkedops) {                                                                  \
         CHECK((o == 1) == bad && (p == 1) == bad && o <= 1 && p <= 1, "an operator throws exactly when the operation is undefined on these operands"); \
         if(bad) { CHECK(same(c, x), "~a refused compound operator leaves its target alone"); return; } \
      }                                                                                            \
      T want = WANT;                                                                              \
      CHECK(same(got, want), "a binary operator gives the builtin result");              \
      CHECK(same(c, want) && r == &c && same(b, y), "a compound operator gives the builtin result and its target"); \
   }
OP(op_add, +, false, true, add(x, y))
OP(op_sub, -, false, true, sub(x, y))
OP(op_mul, *, false, true, mul(x, y))
OP(op_div, /, isint<T> && y == T(0), !overflows(x, y), static_cast<T>(x / y))
OP(op_rem, %, y == T(0), !overflows(x, y), static_cast<T>(x % y))
OP(op_and, &, false, true, static_cast<T>(x & y))
OP(op_or, |, false, true, static_cast<T>(x | y))
OP(op_xor, ^, false, true, static_cast<T>(x ^ y))
OP(op_shl, <<, x < T(0) || y < T(0), y < T(8 * sizeof(T)), static_cast<T>(Wide<T>(x) << y))
OP(op_shr, >>, x < T(0) || y < T(0), y < T(8 * sizeof(T)), static_cast<T>(Wide<T>(x) >> y))

template <class T>
static void compare() {
   T x = sym<T>("x"), y = sym<T>("y");
   Strict<T> a{x}, b{y};
   CHECK((a == b).val() == (x == y) && equal(a, b).val() == (x == y), "== gives the builtin result");
   CHECK((a != b).val() == !(x == y), "!= gives the builtin result");
   CHECK((a < b).val() == (x < y) && (a > b).val() == (y < x), "< and > give the builtin result");
   CHECK((a <= b).val() == (x <= y) && (a >= b).val() == (y <= x), "<= and >= give the builtin result");
   Strict<T> c = a, d{};
   d = a;
   CHECK(same(c, x) && same(d, x) && same(Strict<T>{}, T{}) && same(static_cast<T>(a), x), "construction, copy, assignment and conversion back keep the value");
   CHECK(same(Zero<T>, T(0)) && same(One<T>, T(1)), "Zero and One are 0 and 1");
}
template <class T>
static void unary() {
   T x = sym<T>("x");
   Strict<T> a{x};
   CHECK(same(+a, x), "unary + is the identity");
   if constexpr(!std::is_unsigned_v<T>) {
      CHECK(same(-a, isint<T> ? sub(T(0), x) : -x), "unary - gives the builtin result");
      CHECK(same(NegOne<T>, T(-1)), "NegOne is -1");
   }
   if constexpr(isint<T>) CHECK(same(~a, T(~x)), "unary ~ gives the builtin result");
   Strict<T> b{x}, c{x}, d{x}, e{x};
   auto *p = &++b, *q = &--c;
   T up = add(x, T(1)), down = sub(x, T(1));
   CHECK(p == &b && q == &c && same(b, up) && same(c, down), "pre-increment and -decrement give the builtin result and their target");
   auto f = d++, g = e--;
   CHECK(same(f, x) && same(g, x) && same(d, up) && same(e, down), "post-increment and -decrement give the old value and update the target");
   CHECK(same(a, x), "unary operators leave their operand alone");
   CHECK(same(Thousand<T>, T(1000)) && same(Million<T>, T(1000000)) && same(Billion<T>, T(1000000000)), "the named constants have their value");
}
// Casts from T to U by every spelling.
template <class T, class U>
static void cast1(T x) {
   if constexpr(!isint<T> && isint<U> && !std::is_same_v<U, bool>) {
      // inside the range of U
      constexpr T lo = std::is_unsigned_v<U> ? T(0) : static_cast<T>(std::numeric_limits<U>::min());
      constexpr T hi = static_cast<T>(std::numeric_limits<U>::max() / 2 + 1) * T(2);
      if(!(x >= lo && x < hi)) return;
   }
   U want = static_cast<U>(x);
   Strict<T> a{x};
   CHECK(same(strict_cast<U>(a), want) && same(strict_cast<U>(x), want), "strict_cast gives the builtin conversion");
   CHECK(same(builtin_cast<U>(a), want) && same(builtin_cast<U>(x), want), "builtin_cast gives the builtin conversion");
   if constexpr(!std::is_same_v<T, bool> && !std::is_same_v<U, bool>) CHECK(same(real_cast<U>(a), want) && same(real_cast<U>(x), want), "real_cast gives the builtin conversion");
   if constexpr(std::is_same_v<U, bool>) CHECK(same(a.sb(), want), ".sb() converts to bool");
   if constexpr(std::is_same_v<U, int>) CHECK(same(a.si(), want), ".si() converts to int");
   if constexpr(std::is_same_v<U, long>) CHECK(same(a.sl(), want) && same(to_index_t(a), want) && same(to_index_t(x), want), ".sl() and to_index_t convert to long");
   if constexpr(std::is_same_v<U, unsigned>) CHECK(same(a.sui(), want), ".sui() converts to unsigned");
   if constexpr(std::is_same_v<U, unsigned long>) CHECK(same(a.sul(), want) && to_size_t(a) == want && to_size_t(x) == want, ".sul() and to_size_t convert to unsigned long");
   if constexpr(std::is_same_v<U, float>) CHECK(same(a.sf(), want), ".sf() converts to float");
   if constexpr(std::is_same_v<U, double>) CHECK(same(a.sd(), want), ".sd() converts to double");
   if constexpr(isint<T> && !std::is_same_v<T, bool> && !isint<U>) CHECK(same(whole<U>(a), want) && same(whole<U>(x), want), "whole gives the floating point value of an integer");
}
template <class T>
static void casts() {
   T x = sym<T>("x");
   cast1<T, bool>(x);
   cast1<T, int>(x);
   cast1<T, long>(x);
   cast1<T, unsigned>(x);
   cast1<T, unsigned long>(x);
   cast1<T, float>(x);
   cast1<T, double>(x);
}
HARNESS(int_add) { op_add<int>(); }
HARNESS(int_sub) { op_sub<int>(); }
HARNESS(int_mul) { op_mul<int>(); }
HARNESS(int_div) { op_div<int>(); }
HARNESS(int_rem) { op_rem<int>(); }
HARNESS(int_and) { op_and<int>(); }
HARNESS(int_or) { op_or<int>(); }
HARNESS(int_xor) { op_xor<int>(); }
HARNESS(int_shl) { op_shl<int>(); }
HARNESS(int_shr) { op_shr<int>(); }
HARNESS(int_compare) { compare<int>(); }
HARNESS(int_unary) { unary<int>(); }
HARNESS(int_casts) { casts<int>(); }
HARNESS(long_add) { op_add<long>(); }
HARNESS(long_sub) { op_sub<long>(); }
HARNESS(long_mul) { op_mul<long>(); }
HARNESS(long_div) { op_div<long>(); }
HARNESS(long_rem) { op_rem<long>(); }
HARNESS(long_and) { op_and<long>(); }
HARNESS(long_or) { op_or<long>(); }
HARNESS(long_xor) { op_xor<long>(); }
HARNESS(long_shl) { op_shl<long>(); }
HARNESS(long_shr) { op_shr<long>(); }
HARNESS(long_compare) { compare<long>(); }
HARNESS(long_unary) { unary<long>(); }
HARNESS(long_casts) { casts<long>(); }
HARNESS(unsigned_add) { op_add<unsigned>(); }
HARNESS(unsigned_sub) { op_sub<unsigned>(); }
HARNESS(unsigned_mul) { op_mul<unsigned>(); }
HARNESS(unsigned_div) { op_div<unsigned>(); }
HARNESS(unsigned_rem) { op_rem<unsigned>(); }
HARNESS(unsigned_and) { op_and<unsigned>(); }
HARNESS(unsigned_or) { op_or<unsigned>(); }
HARNESS(unsigned_xor) { op_xor<unsigned>(); }
HARNESS(unsigned_shl) { op_shl<unsigned>(); }
HARNESS(unsigned_shr) { op_shr<unsigned>(); }
HARNESS(unsigned_compare) { compare<unsigned>(); }
HARNESS(unsigned_unary) { unary<unsigned>(); }
HARNESS(unsigned_casts) { casts<unsigned>(); }
HARNESS(ulong_add) { op_add<unsigned long>(); }
HARNESS(ulong_sub) { op_sub<unsigned long>(); }
HARNESS(ulong_mul) { op_mul<unsigned long>(); }
HARNESS(ulong_div) { op_div<unsigned long>(); }
HARNESS(ulong_rem) { op_rem<unsigned long>(); }
HARNESS(ulong_and) { op_and<unsigned long>(); }
HARNESS(ulong_or) { op_or<unsigned long>(); }
HARNESS(ulong_xor) { op_xor<unsigned long>(); }
HARNESS(ulong_shl) { op_shl<unsigned long>(); }
HARNESS(ulong_shr) { op_shr<unsigned long>(); }
HARNESS(ulong_compare) { compare<unsigned long>(); }
HARNESS(ulong_unary) { unary<unsigned long>(); }
HARNESS(ulong_casts) { casts<unsigned long>(); }
HARNESS(float_add) { op_add<float>(); }
HARNESS(float_sub) { op_sub<float>(); }
HARNESS(float_mul) { op_mul<float>(); }
HARNESS(float_div) { op_div<float>(); }
HARNESS(float_compare) { compare<float>(); }
HARNESS(float_unary) { unary<float>(); }
HARNESS(float_casts) { casts<float>(); }
HARNESS(double_add) { op_add<double>(); }
HARNESS(double_sub) { op_sub<double>(); }
HARNESS(double_mul) { op_mul<double>(); }
HARNESS(double_div) { op_div<double>(); }
HARNESS(double_compare) { compare<double>(); }
HARNESS(double_unary) { unary<double>(); }
HARNESS(double_casts) { casts<double>(); }
HARNESS(bool_) {
   bool x = sym<bool>("x"), y = sym<bool>("y");
   StrictBool a{x}, b{y};
   CHECK((a && b).val() == (x && y) && (a || b).val() == (x || y) && (a ^ b).val() == (x != y) && (!a).val() == !x, "logical operators give the builtin result");
   CHECK((a == b).val() == (x == y) && (a != b).val() == (x != y), "booleans compare as builtin ones");
   CHECK((a ? 1 : 2) == (x ? 1 : 2) && bool{a} == x && !Strict<bool>{}.val() && true_sb.val() && !false_sb.val(), "a strict boolean converts to its value");
   casts<bool>();
}
