//! configs: debug release
//! bounds: every 32- and 64-bit value in a named argument, and every double, unsigned and bool
//! assumes: sums of two positions do not overflow
#include "common.hpp"

// N: a named integer; given as a builtin and as a strict value of either width.
template <class N, bool nonneg, class V>
static void named(V v, i64 want) {
#ifdef STRICT_DEBUG_OFF
   bool refuse = false;
#else
   bool refuse = nonneg && want < 0;
#endif
   i64 r = 0;
   int o = outcome([&] {
      N n{v};
      N c = n;
      r = c.get().val();
      static_assert(std::is_same_v<decltype(c.get()), index_t>);
   });
   CHECK(o == (refuse ? 1 : 0), "a named size, position or count is refused exactly when it is negative, a stride or offset never");
   if(o == 0) CHECK(r == want, "a named integer holds exactly the number given");
}
template <class N, bool nonneg>
static void integers() {
   i64 x = sym_i64("x");
   named<N, nonneg>(x, x);
   named<N, nonneg>(Strict{x}, x);
   int y = sym<int>("y");
   named<N, nonneg>(y, y);
   named<N, nonneg>(Strict{y}, y);
   CHECK(N{}.get().val() == 0, "a named integer without a number is zero");
}
HARNESS(first) { integers<First, true>(); }
HARNESS(endmost) { integers<Endmost, true>(); }
HARNESS(size) { integers<Size, true>(); }
HARNESS(count) { integers<Count, true>(); }
HARNESS(pos) { integers<Pos, true>(); }
HARNESS(index) { integers<Index, true>(); }
HARNESS(rows) { integers<Rows, true>(); }
HARNESS(cols) { integers<Cols, true>(); }
HARNESS(implicit_nonneg) { integers<ImplicitNonNegInt, true>(); }
HARNESS(stride) { integers<Stride, false>(); }
HARNESS(implicit_int) { integers<ImplicitInt, false>(); }
HARNESS(implicit_static) { integers<ImplicitIntStatic, false>(); }

template <class N, class T>
static bool keeps(T v) {
   return same(N(v).get().val(), v) && same(N(Strict<T>{v}).get().val(), v) && same(N().get().val(), T{});
}
template <class T>
static void values() {
   T v = sym<T>("v");
   CHECK((keeps<Low<T>>(v) && keeps<High<T>>(v) && keeps<Start<T>>(v) && keeps<End<T>>(v) && keeps<Incr<T>>(v) && keeps<Value<T>>(v)), "a named value holds exactly the value given, and the default without one");
}
HARNESS(values_int) { values<int>(); }
HARNESS(values_long) { values<long>(); }
HARNESS(values_unsigned) { values<unsigned>(); }
HARNESS(values_double) { values<double>(); }
HARNESS(values_float) { values<float>(); }
HARNESS(values_bool) { values<bool>(); }
HARNESS(seed) {
   unsigned v = sym<unsigned>("v");
   CHECK((keeps<Seed>(v)), "a seed holds exactly the number given");
   bool b = sym<bool>("b");
   CHECK((keeps<ImplicitBool>(b)), "a flag holds exactly the truth value given");
}

static i64 position(const char* n) {
   i64 x = sym_i64(n);
   sym_assume(x > -(1l << 60) && x < (1l << 60));
   return x;
}
HARNESS(last_) {
   i64 i = position("i"), j = position("j");
   CHECK((place::last - i).get().val() == i && (place::last + i).get().val() == -i && (i + place::last).get().val() == -i, "last minus and plus i lie i before and after the last element");
   CHECK((place::last - i + j).get().val() == i - j && (place::last - i - j).get().val() == i + j && (j + (place::last - i)).get().val() == i - j, "offsets from the last element add up");
   CHECK((place::last - Strict{i}).get().val() == i && Last{i}.get().val() == i && place::last.get().val() == 0, "offsets from the last element are kept exactly");
}
HARNESS(sums) {
   i64 i = position("i"), j = position("j");
   CHECK((ImplicitInt{i} + ImplicitInt{j}).get().val() == i + j && (ImplicitInt{i} - ImplicitInt{j}).get().val() == i - j, "sums and differences of offsets are exact");
   CHECK((ImplicitIntStatic{i} + ImplicitIntStatic{j}).get().val() == i + j && (ImplicitIntStatic{i} - ImplicitIntStatic{j}).get().val() == i - j, "sums and differences of static offsets are exact");
   ImplicitInt c = ImplicitIntStatic{i};
   CHECK(c.get().val() == i, "a static offset converts to the same offset");
}
