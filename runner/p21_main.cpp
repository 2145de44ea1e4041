// Runs generated histories and prints what they observed; the results are compared between configurations.
#include "p21_common.hpp"
#include <cstdlib>
#include <unordered_set>
namespace ts {
std::vector<Test>& tests() { static std::vector<Test> v; return v; }
static u64 one(const Test& t, u64 seed, u64 k, int ops, std::string* log) {
    Ctx c; c.seed = mix(seed * 1000003 + k) ^ mix(std::hash<std::string>()(t.name) * 0 + k); c.limit = ops; c.log = log; t.fn(c); return c.x;
}
}
int main(int argc, char** argv) {
    using namespace ts; u64 seed = 1; long cases = 100; const char* only = nullptr; long which = -1; int ops = 60; std::string mode = "all";
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--seed") seed = std::strtoull(argv[++i], nullptr, 10); else if (a == "--cases") cases = std::atol(argv[++i]); else if (a == "--test") only = argv[++i]; else if (a == "--case") which = std::atol(argv[++i]); else if (a == "--ops") ops = std::atoi(argv[++i]); else if (a == "--mode") mode = argv[++i]; }
    std::unordered_set<u64> distinct;
    for (auto& t : tests()) {
        if (only && t.name != only) continue;
        if (mode == "all") {
            std::printf("T\t%s\t", t.name.c_str()); std::fflush(stdout); u64 h = 7; long n = t.fixed ? t.fixed : cases; u64 steps = 0; steps_done = 0;
            for (long k = 0; k < n; ++k) { const u64 before = steps_done, x = one(t, seed, u64(k), ops, nullptr); if (t.fixed || steps_done - before >= 3) distinct.insert(x); h = mix(h ^ x) + u64(k); }
            steps = steps_done; std::printf("%016llx\t%ld\t%llu\n", (unsigned long long)h, n, (unsigned long long)steps);
        } else if (mode == "cases") { long n = t.fixed ? t.fixed : cases; for (long k = 0; k < n; ++k) { std::printf("%ld\t", k); std::fflush(stdout); std::printf("%016llx\n", (unsigned long long)one(t, seed, u64(k), ops, nullptr)); std::fflush(stdout); } }
        else { std::string log; u64 h = one(t, seed, u64(which), ops, &log); std::printf("%s= %016llx\n", log.c_str(), (unsigned long long)h); }
    }
    std::printf("END\t%zu\n", distinct.size()); return 0;
}
