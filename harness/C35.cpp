//! configs: debug
//! bounds: every pair of clock readings whose difference is representable (292 years either way), with and without restarts
//! assumes: std::chrono's clock is a stand-in that returns any reading, in nanoseconds
#include <chrono>
#include "common.hpp"
static i64 clock_reading = 0;
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point{nanoseconds{clock_reading}}; }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point{nanoseconds{clock_reading}}; }
} }
static bool took(const timer& t, i64 from) {
   clock_reading = sym_i64("now");
   i64 d;
   sym_assume(!__builtin_sub_overflow(clock_reading, from, &d));
   double s = t.wall_time().val(), want = double(d);
   return same(s, want / 1e9);
}
HARNESS(wall_time) {
   i64 a = clock_reading = sym_i64("start");
   timer t;
   CHECK(took(t, a), "the wall time is the seconds since the timer was made");
   CHECK(took(t, a), "asking for the wall time does not restart the timer");
   i64 b = clock_reading;
   t.restart();
   CHECK(took(t, b), "after a restart the wall time counts from there");
   timer u = t;
   CHECK(took(u, b), "a copied timer counts from the same start");
}
HARNESS(at_once) {
   clock_reading = sym_i64("start");
   timer t;
   CHECK(t.wall_time().val() == 0, "no time passes while the clock stands still");
   clock_reading = sym_i64("later");
   t.restart();
   CHECK(t.wall_time().val() == 0, "no time has passed at a restart");
}
