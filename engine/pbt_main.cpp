#include "pbt.hpp"
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <new>
#include <atomic>
#include <algorithm>
#include <map>
#include <unordered_set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
    #define PBT_ASAN 1
#elif defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #define PBT_ASAN 1
    #endif
#endif
#ifndef PBT_ASAN
    #define PBT_ASAN 0
#endif

namespace pbt {
static long g_live = 0;
static int g_paused = 1;

#if PBT_ASAN
}
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
namespace pbt {
long live_allocs() { return long(__sanitizer_get_current_allocated_bytes()); }
bool allocs_available() { return true; }
#else
long live_allocs() { return g_live; }
bool allocs_available() { return true; }
#endif
pause_count::pause_count() { ++g_paused; }
pause_count::~pause_count() { --g_paused; }

struct Test { const char* name; test_fn fn; double weight; bool allocs; long once; };
static std::vector<Test>& tests() { static std::vector<Test> v; return v; }
registrar::registrar(const char* name, test_fn f, double weight, bool a, long once) { tests().push_back({name, f, weight, a, once}); }

constexpr std::uint32_t CHOICES = 1u << 16;
constexpr std::uint32_t HASHES = 1u << 15;
constexpr std::uint32_t LABELS = 256;
constexpr std::uint32_t TRACE = 1u << 15;
struct Shared {
    std::uint32_t n_choices;
    std::uint32_t choices[CHOICES];
    std::uint32_t failed;      // 1: property failure reported by the case itself
    char msg[2048];
    std::uint64_t n_hashes; std::uint64_t hashes[HASHES];
    std::uint64_t cases, nontrivial, discarded, extra_evals, extra_nontrivial;
    std::uint32_t n_labels; struct { char name[64]; std::uint64_t count; } labels[LABELS];
    char trace[TRACE]; std::uint64_t trace_len;
    std::uint32_t case_nontrivial, case_discarded, finished;
};
static Shared* S;

static inline std::uint64_t splitmix(std::uint64_t& s) {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
std::uint64_t Case::raw() { return splitmix(rng_state); }
std::uint32_t Case::pick(std::uint32_t n) {
    if (n == 0) n = 1;
    std::uint32_t v;
    if (mode == 0) v = std::uint32_t(((raw() >> 32) * std::uint64_t(n)) >> 32);
    else if (mode == 1) { v = pos < in_size ? in[pos] : 0; ++pos; if (v >= n) v = v % n; }
    else {
        std::uint64_t x = 0; int k = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
        for (int i = 0; i < k; ++i) { x |= std::uint64_t(pos < bytes_size ? bytes[pos] : 0) << (8 * i); ++pos; }
        v = std::uint32_t(x % n);
    }
    if (out.data && *out.size < out.capacity) { out.data[*out.size] = v; ++*out.size; }
    digest = (digest ^ (v + 1)) * 1099511628211ull; digest ^= digest >> 29;
    return v;
}
std::uint64_t Case::interesting() {
    switch (pick(8)) {
    case 0: return pick(4);
    case 1: return pick(256);
    case 2: return std::uint64_t(0) - pick(300);
    case 3: { std::uint64_t b = std::uint64_t(1) << pick(64); return b + pick(3) - 1; }
    case 4: return pick(0x10000);
    case 5: { static const std::uint64_t t[] = {0x7f800000, 0xff800000, 0x7fc00000, 0x7fa00000, 0x7ff0000000000000ull, 0xfff0000000000000ull,
                0x7ff8000000000000ull, 0xfff8000000000000ull, 0x80000000, 0x8000000000000000ull, 0x7fffffff, 0x7fffffffffffffffull};
              return t[pick(sizeof(t) / sizeof(*t))] + pick(3) - 1; }
    case 6: return u32();
    default: return u64();
    }
}
void Case::cls(const char* label) {
    for (std::uint32_t i = 0; i < S->n_labels; ++i) if (std::strncmp(S->labels[i].name, label, 63) == 0) { ++S->labels[i].count; return; }
    if (S->n_labels < LABELS) { std::strncpy(S->labels[S->n_labels].name, label, 63); S->labels[S->n_labels].count = 1; ++S->n_labels; }
}
void Case::log(const char* fmt, ...) {
    ++events;
    if (!tracing) return;
    pause_count pc;
    va_list ap; va_start(ap, fmt);
    std::size_t room = TRACE - S->trace_len;
    if (room > 4) {
        int n = std::vsnprintf(S->trace + S->trace_len, room - 2, fmt, ap);
        if (n > 0) { S->trace_len += std::min<std::size_t>(std::size_t(n), room - 3); S->trace[S->trace_len++] = '\n'; S->trace[S->trace_len] = 0; }
    }
    va_end(ap);
}
void fail(const char* file, int line, const char* fmt, ...) {
    failure f; va_list ap; va_start(ap, fmt);
    const char* base = std::strrchr(file, '/'); base = base ? base + 1 : file;
    int n = std::snprintf(f.msg, sizeof f.msg, "%s:%d: ", base, line);
    std::vsnprintf(f.msg + n, sizeof f.msg - std::size_t(n), fmt, ap); va_end(ap);
    // recorded at once: the failure must not be lost if the exception is swallowed or unwinding crashes
    if (S && !S->failed) { S->failed = 1; std::strncpy(S->msg, f.msg, sizeof S->msg - 1); }
    throw f;
}
void count_evals(std::uint64_t n, std::uint64_t nt) { S->extra_evals += n; S->extra_nontrivial += nt; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

__attribute__((noinline)) static void dirty_stack(std::uint32_t k) {
    static const unsigned char pattern[4] = {0x00, 0xff, 0x01, 0xa5};
    volatile unsigned char buf[12288];
    for (std::size_t i = 0; i < sizeof buf; ++i) buf[i] = pattern[k];
    asm volatile("" : : "r"(&buf) : "memory");
}
// runs one case; returns false when it failed (S->failed/S->msg set)
static bool run_case_once(const Test& t, Case& c) {
    S->failed = 0;
    // what uninitialised storage of the case happens to contain is a choice too
    dirty_stack(c.pick(4));
    try { t.fn(c); }
    catch (const failure&) { }
    catch (...) { if (!S->failed) { S->failed = 1; std::snprintf(S->msg, sizeof S->msg, "an unexpected exception escaped from the case"); } }
    return S->failed == 0;
}
static bool run_case(const Test& t, Case& c) {
    long before = live_allocs();
    g_paused = 0;
    bool ok = run_case_once(t, c);
    g_paused = 1;
    long after = live_allocs();
    if (ok && t.allocs && after != before) {
        // lazily initialised library state allocates once: only an imbalance that repeats counts
        for (int i = 0; i < 2; ++i) {
            static std::uint32_t copy[CHOICES]; std::uint32_t n = S->n_choices; std::memcpy(copy, S->choices, n * sizeof(std::uint32_t));
            Case d; d.mode = 1; d.in = copy; d.in_size = n; d.out = {S->choices, &S->n_choices, CHOICES}; S->n_choices = 0;
            before = live_allocs(); g_paused = 0; ok = run_case_once(t, d); g_paused = 1; after = live_allocs();
            if (!ok) return false;
            if (after == before) return true;
        }
        S->failed = 1; std::snprintf(S->msg, sizeof S->msg, "memory allocated during the case is not balanced: %ld more live after than before", after - before);
        return false;
    }
    return ok;
}
static void limit_cpu(int sec) {
    itimerval it{}; it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr);
}
static void on_prof(int) { _exit(78); }

struct Result { bool ok = true; std::string msg; std::vector<std::uint32_t> choices; std::string trace; bool nontrivial = false; };

static void quiet_stderr(const char* path) { int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); } }
static std::string g_errfile;
static std::string read_err() {
    std::string s; FILE* f = std::fopen(g_errfile.c_str(), "r"); if (!f) return s; char buf[16384]; std::size_t n = std::fread(buf, 1, sizeof buf, f); s.assign(buf, n); std::fclose(f);
    return s;
}
static std::string summarise(const std::string& e) {
    std::string out; std::size_t p = 0; int lines = 0;
    while (p < e.size() && lines < 8) {
        std::size_t q = e.find('\n', p); if (q == std::string::npos) q = e.size();
        std::string l = e.substr(p, q - p); p = q + 1;
        if (l.find("runtime error") != std::string::npos || l.find("ERROR:") != std::string::npos || l.find("assertion") != std::string::npos || l.find("    #") != std::string::npos) { out += l.substr(0, 300) + " | "; ++lines; }
    }
    return out.empty() ? e.substr(0, 400) : out;
}
static std::string describe(int status) {
    char b[256];
    if (WIFSIGNALED(status)) std::snprintf(b, sizeof b, "the process was ended by signal %d", WTERMSIG(status));
    else if (WEXITSTATUS(status) == 78) std::snprintf(b, sizeof b, "the case used more than its CPU limit");
    else std::snprintf(b, sizeof b, "the process ended with status %d", WEXITSTATUS(status));
    return std::string(b) + ": " + summarise(read_err());
}
// replays choices in a child process
static Result replay(const Test& t, const std::vector<std::uint32_t>& ch, bool trace) {
    S->n_choices = 0; S->failed = 0; S->msg[0] = 0; S->finished = 0; S->trace_len = 0; S->trace[0] = 0; S->case_nontrivial = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        quiet_stderr(g_errfile.c_str());
        signal(SIGPROF, on_prof); limit_cpu(30);
        Case c; c.mode = 1; c.in = ch.data(); c.in_size = ch.size(); c.out = {S->choices, &S->n_choices, CHOICES}; c.tracing = trace;
        run_case(t, c);
        S->case_nontrivial = c.is_nontrivial; S->finished = 1;
        _exit(0);
    }
    int status = 0; while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
    Result r;
    r.choices.assign(S->choices, S->choices + S->n_choices);
    r.trace.assign(S->trace, S->trace_len); r.nontrivial = S->case_nontrivial;
    if (S->failed) { r.ok = false; r.msg = S->msg; }
    else if (!S->finished || status != 0) { r.ok = false; r.msg = describe(status); }
    return r;
}

static int run_batch(const Test& t, std::size_t index, std::uint64_t seed, long start, long n, bool want_sample) {
    S->n_hashes = 0; S->cases = S->nontrivial = S->discarded = S->extra_evals = S->extra_nontrivial = 0; S->n_labels = 0; S->finished = 0; S->failed = 0; S->msg[0] = 0;
    S->trace_len = 0; S->trace[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        quiet_stderr(g_errfile.c_str());
        signal(SIGPROF, on_prof);
        bool sampled = false;
        for (long k = 0; k < n; ++k) {
            limit_cpu(t.once ? 600 : 30);
            Case c; c.mode = 0; std::uint64_t mix = seed + std::uint64_t(start + k) * 0xd1342543de82ef95ull; c.rng_state = splitmix(mix);
            c.out = {S->choices, &S->n_choices, CHOICES}; S->n_choices = 0;
            if (want_sample && !sampled) { S->trace_len = 0; S->trace[0] = 0; c.tracing = true; }
            bool ok = run_case(t, c);
            if (!ok) { _exit(0); }
            ++S->cases; if (c.discarded) ++S->discarded;
            if (c.is_nontrivial && !c.discarded) { ++S->nontrivial; if (S->n_hashes < HASHES) S->hashes[S->n_hashes++] = c.digest ^ (std::uint64_t(index) << 48); if (want_sample && c.tracing) sampled = true; }
        }
        S->finished = 1; _exit(0);
    }
    int status = 0; while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
    return status;
}

static Result shrink(const Test& t, Result best, double budget) {
    double end = now() + budget; int tries = 0;
    auto attempt = [&](const std::vector<std::uint32_t>& cand) {
        if (now() > end || tries > 3000) return false;
        ++tries; Result r = replay(t, cand, false);
        if (r.ok) return false;
        // keep what was really consumed
        std::vector<std::uint32_t> used = r.choices; while (!used.empty() && used.back() == 0) used.pop_back();
        if (used.size() < best.choices.size() || (used.size() == best.choices.size() && used < best.choices)) { r.choices = used; best = r; return true; }
        return false;
    };
    { auto z = best.choices; while (!z.empty() && z.back() == 0) z.pop_back(); best.choices = z; }
    bool progress = true;
    while (progress && now() < end && tries <= 3000) {
        progress = false;
        for (std::size_t len : {64u, 32u, 16u, 8u, 5u, 4u, 3u, 2u, 1u}) {
            for (std::size_t i = best.choices.size(); i-- > 0;) {
                if (i + len > best.choices.size()) continue;
                auto cand = best.choices; cand.erase(cand.begin() + long(i), cand.begin() + long(i + len));
                if (attempt(cand)) { progress = true; if (i > best.choices.size()) i = best.choices.size(); }
                if (now() > end) break;
            }
        }
        for (std::size_t i = 0; i < best.choices.size() && now() < end; ++i) {
            for (int k = 0; k < 3 && i < best.choices.size() && best.choices[i] > 0; ++k) {
                auto cand = best.choices; cand[i] = k == 0 ? 0 : k == 1 ? cand[i] / 2 : cand[i] - 1;
                if (attempt(cand)) { progress = true; k = -1; if (i >= best.choices.size()) break; }
            }
        }
    }
    Result final = replay(t, best.choices, true);
    if (!final.ok) { final.choices = best.choices; return final; }
    return best;
}

static std::string json_escape(const std::string& s) {
    std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += char(ch); } return o;
}
static void write_replay(const char* path, const Test& t, const Result& r) {
    FILE* f = std::fopen(path, "w"); if (!f) return;
    std::fprintf(f, "test %s\n", t.name);
    std::fprintf(f, "choices"); for (auto v : r.choices) std::fprintf(f, " %u", v); std::fprintf(f, "\n");
    std::fprintf(f, "--- failure\n%s\n--- trace\n%s", r.msg.c_str(), r.trace.c_str());
    std::fclose(f);
}
} // namespace pbt

#if !PBT_ASAN && !defined(PBT_NO_NEW)
static void* count_alloc(std::size_t n, std::size_t al) {
    void* p = al > alignof(std::max_align_t) ? aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (pbt::g_paused == 0) ++pbt::g_live;
    return p;
}
static void count_free(void* p) { if (p && pbt::g_paused == 0) --pbt::g_live; std::free(p); }
void* operator new(std::size_t n) { return count_alloc(n, 0); }
void* operator new[](std::size_t n) { return count_alloc(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return count_alloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return count_alloc(n, std::size_t(a)); }
void operator delete(void* p) noexcept { count_free(p); }
void operator delete[](void* p) noexcept { count_free(p); }
void operator delete(void* p, std::size_t) noexcept { count_free(p); }
void operator delete[](void* p, std::size_t) noexcept { count_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { count_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { count_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { count_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { count_free(p); }
#endif

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=79:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=79"; }

#ifdef PBT_FUZZ
// libFuzzer entry: the first byte pair selects the test, the rest are choices
static void fuzz_setup() {
    using namespace pbt;
    if (!S) S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    using namespace pbt;
    fuzz_setup();
    if (size < 2) return 0;
    static std::vector<const Test*> sel; if (sel.empty()) for (auto& t : tests()) if (!t.once) sel.push_back(&t);
    const Test& t = *sel[(data[0] | data[1] << 8) % sel.size()];
    Case c; c.mode = 2; c.bytes = data + 2; c.bytes_size = size - 2; c.out = {S->choices, &S->n_choices, CHOICES};
    S->n_choices = 0; S->msg[0] = 0; S->n_labels = 0;
    const char* out = std::getenv("PBT_FUZZ_REPLAY");
    // written before the case runs? too slow: the choices are re-derived from the artifact by --bytes
    (void)out;
    if (!run_case_once(t, c)) { std::fprintf(stderr, "PBT-FAIL test=%s %s\n", t.name, S->msg); std::abort(); }
    return 0;
}
#else

int main(int argc, char** argv) {
    using namespace pbt;
    std::uint64_t seed = 1; long cases = 2000; double time_limit = 10; const char* stats = nullptr; const char* replay_in = nullptr; const char* replay_out = "/tmp/pbt-replay.txt"; const char* only = nullptr; const char* bytes_in = nullptr; double shrink_time = 25;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        auto is = [&](const char* n) { return std::strcmp(argv[i], n) == 0 && i + 1 < argc; };
        if (is("--seed")) seed = std::strtoull(argv[++i], nullptr, 10);
        else if (is("--cases")) cases = std::atol(argv[++i]);
        else if (is("--time")) time_limit = std::atof(argv[++i]);
        else if (is("--shrink-time")) shrink_time = std::atof(argv[++i]);
        else if (is("--stats")) stats = argv[++i];
        else if (is("--replay")) replay_in = argv[++i];
        else if (is("--bytes")) bytes_in = argv[++i];
        else if (is("--out")) replay_out = argv[++i];
        else if (is("--only")) only = argv[++i];
        else if (std::strcmp(argv[i], "--list") == 0) list = true;
    }
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_errfile = std::string(replay_out) + ".stderr";
    std::vector<Test> ts = tests();
    if (list) { for (auto& t : ts) std::printf("%s\n", t.name); return 0; }
    if (bytes_in) {
        FILE* f = std::fopen(bytes_in, "rb"); if (!f) return 2; std::vector<std::uint8_t> d(1 << 20); d.resize(std::fread(d.data(), 1, d.size(), f)); std::fclose(f);
        if (d.size() < 2) return 2;
        std::vector<const Test*> sel; for (auto& t : tests()) if (!t.once) sel.push_back(&t);
        const Test& t = *sel[(d[0] | d[1] << 8) % sel.size()];
        pid_t p = fork();
        if (p == 0) {
            quiet_stderr(g_errfile.c_str()); signal(SIGPROF, on_prof); limit_cpu(30);
            Case c; c.mode = 2; c.bytes = d.data() + 2; c.bytes_size = d.size() - 2; c.out = {S->choices, &S->n_choices, CHOICES};
            run_case(t, c); _exit(0);
        }
        int st; waitpid(p, &st, 0);
        Result r; r.choices.assign(S->choices, S->choices + S->n_choices);
        Result k = replay(t, r.choices, true);
        if (k.ok) { std::printf("PASS test=%s\n", t.name); return 0; }
        k = shrink(t, k, shrink_time); write_replay(replay_out, t, k);
        std::printf("FAIL test=%s %s\n", t.name, k.msg.c_str()); return 1;
    }
    if (replay_in) {
        FILE* f = std::fopen(replay_in, "r"); if (!f) { std::perror(replay_in); return 2; }
        unsigned long long bseed = 0; long bstart = 0, bn = 0; int bsample = 0;
        char name[512] = ""; std::vector<std::uint32_t> ch; std::string tok; char buf[1 << 16];
        while (std::fgets(buf, sizeof buf, f)) {
            if (std::strncmp(buf, "test ", 5) == 0) { std::sscanf(buf + 5, "%511[^\n]", name); }
            else if (std::strncmp(buf, "choices", 7) == 0) { char* q = buf + 7; for (;;) { char* e; unsigned long v = std::strtoul(q, &e, 10); if (e == q) break; ch.push_back(std::uint32_t(v)); q = e; } }
            else if (std::strncmp(buf, "batch ", 6) == 0) { std::sscanf(buf + 6, "%llu %ld %ld %d", &bseed, &bstart, &bn, &bsample); }
            else if (std::strncmp(buf, "---", 3) == 0) break;
        }
        std::fclose(f);
        for (auto& t : ts) if (std::strcmp(t.name, name) == 0) {
            if (bn > 0) {
                int q = run_batch(t, std::size_t(&t - ts.data()), bseed, bstart, bn, bsample != 0); bool f2 = !S->finished || q != 0;
                std::printf("%s test=%s\n%s\n", f2 ? "FAIL" : "PASS", t.name, S->msg); return f2 ? 1 : 0;
            }
            Result r = replay(t, ch, true);
            std::printf("%s test=%s\n%s\n--- trace\n%s", r.ok ? "PASS" : "FAIL", t.name, r.msg.c_str(), r.trace.c_str());
            return r.ok ? 0 : 1;
        }
        std::printf("unknown test %s\n", name); return 2;
    }
    double total_w = 0; for (auto& t : ts) total_w += t.weight;
    double t0 = now();
    std::map<std::string, std::uint64_t> labels; std::unordered_set<std::uint64_t> distinct; std::uint64_t evals = 0, extra_nt = 0, nontriv = 0, discarded = 0;
    std::vector<std::string> samples; std::vector<std::pair<std::string, std::uint64_t>> per_test;
    struct St { long done = 0; std::uint64_t seed; };
    std::vector<St> st(ts.size());
    for (std::size_t i = 0; i < ts.size(); ++i) { std::uint64_t h = seed * 0x9e3779b97f4a7c15ull + 12345; for (const char* p = ts[i].name; *p; ++p) h = (h ^ std::uint64_t((unsigned char)*p)) * 1099511628211ull; st[i].seed = h; }
    bool bad = false; std::string bad_line;
    long batch = 64;
    while (!bad) {
        bool any = false;
        for (std::size_t i = 0; i < ts.size() && !bad; ++i) {
            Test& t = ts[i];
            if (only && std::strstr(t.name, only) == nullptr) continue;
            long want = t.once ? t.once : std::max(1L, long(double(cases) * t.weight));
            if (st[i].done >= want) continue;
            // every test gets its first batch, whatever the time limit
            if (st[i].done > 0 && now() - t0 > time_limit) continue;
            any = true;
            long n = std::min(want - st[i].done, batch);
            bool want_sample = st[i].done == 0;
            int status = run_batch(t, i, st[i].seed, st[i].done, n, want_sample);
            evals += S->cases + S->extra_evals; nontriv += S->nontrivial; discarded += S->discarded; extra_nt += S->extra_nontrivial;
            for (std::uint64_t k = 0; k < S->n_hashes; ++k) distinct.insert(S->hashes[k]);
            for (std::uint32_t k = 0; k < S->n_labels; ++k) labels[S->labels[k].name] += S->labels[k].count;
            if (want_sample && S->trace_len) samples.push_back(std::string(t.name) + ": " + std::string(S->trace, std::min<std::size_t>(S->trace_len, 900)));
            st[i].done += n;
            if (!S->finished || status != 0) {
                std::uint64_t done_in_batch = S->cases;
                Result r; r.ok = false; r.choices.assign(S->choices, S->choices + S->n_choices);
                r.msg = S->failed ? std::string(S->msg) : describe(status);
                int again = 0; Result rr;
                for (int k = 0; k < 3; ++k) { Result x = replay(t, r.choices, false); if (!x.ok) { ++again; rr = x; } }
                if (again == 3) {
                    rr.choices = r.choices;
                    Result s = shrink(t, rr, shrink_time);
                    write_replay(replay_out, t, s);
                    bad = true; bad_line = std::string("FAIL test=") + t.name + " " + s.msg;
                } else {
                    std::fprintf(stderr, "note: test %s failed in the batch (%s) but only %d of 3 replays did\n", t.name, r.msg.c_str(), again);
                    // the failure may need what an earlier case of the batch left behind: run the same batch again
                    long at = long(S->cases); int same = 0;
                    at = long(done_in_batch);
                    for (int k = 0; k < 3; ++k) { int q = run_batch(t, i, st[i].seed, st[i].done - n, n, want_sample); if ((!S->finished || q != 0) && long(S->cases) == at) ++same; }
                    if (same == 3) {
                        FILE* f = std::fopen(replay_out, "w");
                        if (f) { std::fprintf(f, "test %s\nbatch %llu %ld %ld %d\n--- failure (needs the earlier cases of the batch)\n%s\n", t.name, (unsigned long long)st[i].seed, st[i].done - n, at + 1, int(want_sample), r.msg.c_str()); std::fclose(f); }
                        bad = true; bad_line = std::string("FAIL test=") + t.name + " " + r.msg;
                    } else labels["!unreproduced"] += 1;
                }
            }
        }
        if (!any) break;
        batch = std::min(4096L, batch * 2);
    }
    for (std::size_t i = 0; i < ts.size(); ++i) per_test.push_back({ts[i].name, std::uint64_t(st[i].done)});
    if (stats) {
        FILE* f = std::fopen(stats, "w");
        if (f) {
            std::fprintf(f, "{\"evaluations\": %llu, \"distinct\": %llu, \"nontrivial\": %llu, \"enumerated_nontrivial\": %llu, \"discarded\": %llu, \"wall\": %.2f,\n \"labels\": {", (unsigned long long)evals, (unsigned long long)distinct.size(), (unsigned long long)nontriv, (unsigned long long)extra_nt, (unsigned long long)discarded, now() - t0);
            bool first = true; for (auto& l : labels) { std::fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", json_escape(l.first).c_str(), (unsigned long long)l.second); first = false; }
            std::fprintf(f, "},\n \"tests\": {"); first = true;
            for (auto& l : per_test) { std::fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", json_escape(l.first).c_str(), (unsigned long long)l.second); first = false; }
            std::fprintf(f, "},\n \"samples\": ["); first = true;
            for (auto& s : samples) { std::fprintf(f, "%s\"%s\"", first ? "" : ",\n  ", json_escape(s).c_str()); first = false; }
            std::fprintf(f, "]}\n"); std::fclose(f);
        }
    }
    unlink(g_errfile.c_str());
    if (bad) { std::printf("%s\n", bad_line.c_str()); return 1; }
    std::printf("OK evaluations=%llu distinct_nontrivial=%llu\n", (unsigned long long)evals, (unsigned long long)(distinct.size() + extra_nt));
    return 0;
}
#endif
