// Interface between a harness and (a) the symbolic executor /verif/symx, which interprets these calls,
// or (b) the native replay runtime (replay_rt.cpp), which reads the solver's values from a file.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// Fresh symbolic inputs: every value of the type.
std::int64_t sym_i64(const char* name) noexcept;
std::int32_t sym_i32(const char* name) noexcept;
std::int16_t sym_i16(const char* name) noexcept;
std::int8_t sym_i8(const char* name) noexcept;
double sym_f64(const char* name) noexcept;
float sym_f32(const char* name) noexcept;
// Restrict the inputs. Ends the path where the condition cannot hold.
void sym_assume(bool c) noexcept;
// The property: shown for all values on the path, or a counterexample.
void sym_check(bool c, const char* what) noexcept;
// A value split: one path for each feasible value (at most 4096).
std::int64_t sym_conc(std::int64_t x) noexcept;
// Floating-point identity (same bits, or both NaN).
bool sym_same_f64(double a, double b) noexcept;
bool sym_same_f32(float a, float b) noexcept;
// From here on up to k allocations may fail (std::bad_alloc), at any place.
void sym_oom(std::int32_t k) noexcept;
// Number of live heap blocks.
std::int64_t sym_live() noexcept;
// 1: a failed assert()/terminate() from here on ends the path quietly. 0: it is a violation.
void sym_abort_ok(std::int32_t on) noexcept;
// Only in the executor: marks the place that the harness must reach on some path.
void sym_reach(const char* what) noexcept;
}

#ifdef SYM_REPLAY
struct SymReg { SymReg(const char* n, void (*f)()); };
#define HARNESS(NAME)                                   \
   extern "C" void h_##NAME();                          \
   static SymReg reg_##NAME{#NAME, &h_##NAME};          \
   extern "C" void h_##NAME()
#else
#define HARNESS(NAME) extern "C" void h_##NAME()
#endif
// Explored in the thorough tier only.
#define HARNESS_T(NAME) HARNESS(NAME)
