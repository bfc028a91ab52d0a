//! configs: debug release
//! defs: -Dconsteval=constexpr
//! bounds: every 64-bit number after each integer suffix, in both spellings; in release builds every number the type can hold
//! assumes: the literal operators, which the compiler evaluates, are called as functions; floating point literals, which pass through long double, are outside
#include "common.hpp"

template <class T, class F>
static void literal(F f) {
   unsigned long long x = (unsigned long long)sym_i64("x");
   bool fits = x <= (unsigned long long)std::numeric_limits<T>::max();
#ifdef STRICT_DEBUG_OFF
   sym_assume(fits);
#endif
   T r{};
   int o = outcome([&] {
      auto v = f(x);
      static_assert(std::is_same_v<decltype(v), Strict<T>>);
      r = v.val();
   });
   CHECK(o == (fits ? 0 : 1), "a literal is refused exactly when its type cannot hold the number");
   if(o == 0) CHECK((unsigned long long)r == x && r >= T(0), "a literal has exactly the number written");
}
HARNESS(si) { literal<int>([](unsigned long long x) { return operator""_si(x); }); }
HARNESS(SI) { literal<int>([](unsigned long long x) { return operator""_SI(x); }); }
HARNESS(sl) { literal<long>([](unsigned long long x) { return operator""_sl(x); }); }
HARNESS(SL) { literal<long>([](unsigned long long x) { return operator""_SL(x); }); }
HARNESS(sui) { literal<unsigned>([](unsigned long long x) { return operator""_sui(x); }); }
HARNESS(SUI) { literal<unsigned>([](unsigned long long x) { return operator""_SUI(x); }); }
HARNESS(sul) { literal<unsigned long>([](unsigned long long x) { return operator""_sul(x); }); }
HARNESS(SUL) { literal<unsigned long>([](unsigned long long x) { return operator""_SUL(x); }); }
