// Native side of symx.h: feeds the values of a counterexample to the harness.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
namespace { std::vector<unsigned long long> values; std::size_t pos = 0;
unsigned long long next(char const* n) { unsigned long long v = pos < values.size() ? values[pos] : 0; ++pos; if (getenv("SYMX_TRACE")) std::cerr << "  input " << n << " = " << v << "\n"; return v; } }
extern "C" {
unsigned char symx_byte(char const* n) { return static_cast<unsigned char>(next(n)); }
std::uint64_t symx_bits(char const* n, unsigned w) { auto v = next(n); return w >= 64 ? v : (v & ((1ULL << w) - 1)); }
void symx_assume(int c) { if (!c) { std::cerr << "REPLAY: assumption not met\n"; std::_Exit(77); } }
void symx_assert(int c, char const* m) { if (!c) { std::cout << "REPLAY-FAIL: " << m << std::endl; std::_Exit(1); } }
void symx_same(char const* a, char const* b, std::size_t n, char const* m) { symx_assert(std::memcmp(a, b, n) == 0, m); }
void symx_reach(char const* l) { std::cout << "REACH " << l << "\n"; }
std::uint64_t symx_fork(std::uint64_t v) { return v; }
void symx_stop() { std::cout << std::flush; std::cout << "REPLAY-OK\n" << std::flush; std::_Exit(0); }
int symx_active() { return 0; }
void symx_print(char const* d, std::size_t n) { if (getenv("SYMX_TRACE")) std::cerr.write(d, static_cast<std::streamsize>(n)) << "\n"; }
}
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    if (argc > 2) { std::ifstream f(argv[2]); std::string line;
        while (std::getline(f, line)) { if (line.empty() || line[0] == '#') continue; values.push_back(std::strtoull(line.c_str(), nullptr, 0)); } }
    auto* fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, (std::string("symx_entry_") + argv[1]).c_str()));
    if (!fn) { std::cerr << "no such entry\n"; return 2; }
    try { fn(); } catch (std::exception const& e) { std::cout << "REPLAY-FAIL: uncaught exception " << e.what() << std::endl; return 1; }
    std::cout << "REPLAY-OK\n";
    return 0;
}
