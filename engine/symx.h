// Harness-side interface of the symbolic executor (engine/symx.cpp).
// The same harness is compiled twice: to LLVM bitcode (executed symbolically) and
// to a native program (replays a counterexample on the real compiled code).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
/// a fresh symbolic byte
unsigned char symx_byte(char const* name);
/// a fresh symbolic bit-vector of the given width (<= 64), zero extended
std::uint64_t symx_bits(char const* name, unsigned bits);
/// restricts the explored inputs
void symx_assume(int cond);
/// the solver must show the condition for every input on this path
void symx_assert(int cond, char const* message);
/// the solver must show that two texts of one length are equal for every input on this path
void symx_same(char const* a, char const* b, std::size_t size, char const* message);
/// marks a point every non-vacuous run has to reach
void symx_reach(char const* label);
/// one feasible concrete value of the argument (forks over every feasible value)
std::uint64_t symx_fork(std::uint64_t value);
/// ends this path quietly
void symx_stop() __attribute__((noreturn));
/// 1 when executed symbolically
int symx_active();
/// debug output
void symx_print(char const* data, std::size_t size);
}
/// symbolic choice in [0, n), forked to a concrete value on each path
inline unsigned symx_choice(char const* name, unsigned n) {
    unsigned char b = symx_byte(name);
    symx_assume(b < n);
    return static_cast<unsigned>(symx_fork(b));
}
#ifdef SYMX_PREFIX
#define SYMX_CAT_(a, b) symx_entry_##a##__##b
#define SYMX_CAT(a, b) SYMX_CAT_(a, b)
#define SYMX_ENTRY(name) extern "C" __attribute__((used)) void SYMX_CAT(SYMX_PREFIX, name)()
#else
#define SYMX_ENTRY(name) extern "C" __attribute__((used)) void symx_entry_##name()
#endif
