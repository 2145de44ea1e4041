// Small property-based testing engine: every case is a function of a sequence of bounded choices.
// The same case can be driven by a seeded generator, by a recorded choice sequence (replay, shrinking)
// or by fuzzer bytes. See pbt_main.cpp for the runner.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <type_traits>

namespace pbt {

struct failure { char msg[1600]; };

// allocations made by the engine itself (trace text) are not counted as allocations of the case
struct pause_count { pause_count(); ~pause_count(); };
long live_allocs();          // number of live blocks (or bytes under ASan) of the code under test
bool allocs_available();

struct choice_log { std::uint32_t* data; std::uint32_t* size; std::uint32_t capacity; };

class Case {
public:
    // mode: 0 generate from rng, 1 replay choices, 2 fuzzer bytes
    int mode = 0;
    std::uint64_t rng_state = 0;
    const std::uint32_t* in = nullptr; std::size_t in_size = 0; std::size_t pos = 0;
    const std::uint8_t* bytes = nullptr; std::size_t bytes_size = 0;
    choice_log out{};
    bool tracing = false;
    bool is_nontrivial = false;
    bool discarded = false;
    std::uint64_t digest = 1469598103934665603ull;
    std::uint64_t events = 0;
    char* trace = nullptr; std::size_t trace_cap = 0, trace_len = 0;

    std::uint64_t raw();
    // integer in [0, n); n >= 1
    std::uint32_t pick(std::uint32_t n);
    bool coin() { return pick(2) != 0; }
    // true with probability num/den, shrinks to false
    bool chance(std::uint32_t num, std::uint32_t den) { return pick(den) >= den - num; }
    std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + std::int64_t(pick(std::uint32_t(hi - lo + 1))); }
    std::uint32_t u32() { std::uint32_t h = pick(0x10000u); return (h << 16) | pick(0x10000u); }
    std::uint64_t u64() { std::uint64_t h = u32(); return (h << 32) | u32(); }
    // biased: small numbers, powers of two and neighbours, extremes, random
    std::uint64_t interesting();
    void nontrivial(bool v = true) { if (v) is_nontrivial = true; }
    void cls(const char* label);
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

[[noreturn]] void fail(const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

using test_fn = void (*)(Case&);
struct registrar { registrar(const char* name, test_fn f, double weight = 1.0, bool check_allocs = true, long once = 0); };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define REQUIRE(...) do { if (!(__VA_ARGS__)) ::pbt::fail(__FILE__, __LINE__, "%s", #__VA_ARGS__); } while (0)
#define REQUIRE_MSG(cond, ...) do { if (!(cond)) ::pbt::fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
#define FAIL(...) ::pbt::fail(__FILE__, __LINE__, __VA_ARGS__)
#define PROP(name) static void PBT_CAT(pbt_fn_, __LINE__)(::pbt::Case& c); \
    static ::pbt::registrar PBT_CAT(pbt_preg_, __LINE__)(name, &PBT_CAT(pbt_fn_, __LINE__)); \
    static void PBT_CAT(pbt_fn_, __LINE__)([[maybe_unused]] ::pbt::Case& c)
#define REG(name, fn) static ::pbt::registrar PBT_CAT(pbt_reg_, __COUNTER__)(name, fn)
#define REGW(name, fn, w) static ::pbt::registrar PBT_CAT(pbt_reg_, __COUNTER__)(name, fn, w)
// a test that takes no choices: run once (a finite space enumerated inside the test body)
#define REG_ONCE(name, fn) static ::pbt::registrar PBT_CAT(pbt_reg_, __COUNTER__)(name, fn, 1.0, true, 1)

// counts evaluations done inside an enumerating test
void count_evals(std::uint64_t n, std::uint64_t nontrivial);

// hides a value from the optimiser so that a stored representation has to be used
template<class T> inline void opaque(T& x) { asm volatile("" : : "r"(&x) : "memory"); }

} // namespace pbt
