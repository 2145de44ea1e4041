// The default assertion of debug builds: the process prints a message and is ended by a signal.
#undef NDEBUG
#include <opt/option.hpp>
#include "pbt.hpp"
#include <string>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
namespace { // own types: this translation unit has another assertion macro than the other one
struct V { int v; int* p = nullptr; };
struct S { std::string s; S(int n) : s(std::size_t(n), 'x') {} };
struct Sent { float f; };
struct Result { bool signalled, spoke; };
template<class F> Result child(F&& f) {
    int p[2]; if (pipe(p)) FAIL("pipe"); std::fflush(nullptr); pid_t k = fork(); if (k < 0) FAIL("fork");
    if (k == 0) { for (int s : {SIGTRAP, SIGILL, SIGABRT, SIGSEGV, SIGBUS}) std::signal(s, SIG_DFL); dup2(p[1], 2); close(p[0]); close(p[1]); f(); _exit(0); }
    close(p[1]); std::string out; char b[512]; for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) out.append(b, std::size_t(n)); close(p[0]); int st = 0; waitpid(k, &st, 0);
    return {WIFSIGNALED(st) && (WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGABRT), out.find("opt::option") != std::string::npos || out.find("option.hpp") != std::string::npos};
}
}
static void death(pbt::Case& c) {
    bool e = c.coin(); int k = int(c.pick(9));
    opt::option<V> a; opt::option<S> b; opt::option<Sent> d; int x = 4; opt::option<V&> r; V v{1}; if (e) { a = V{x}; b.emplace(20); d = Sent{1.f}; r = v; }
    Result res = child([&] {
        const void* q = nullptr;
        switch (k) { case 0: q = &a.get(); break; case 1: q = &*b; break; case 2: q = d.operator->(); break; case 3: q = &r.get(); break; case 4: q = &std::as_const(b).get(); break; case 5: { auto&& z = *std::move(a); q = &z; break; } case 6: { S z = *std::move(b); q = z.s.data(); pbt::opaque(q); break; } case 7: q = &std::as_const(r)->v; break; default: q = &d->f; }
        pbt::opaque(q);
    });
    REQUIRE_MSG(res.signalled == !e, "accessor %d of an option that is %d: the default assertion %s the process", k, int(e), res.signalled ? "ended" : "did not end"); REQUIRE_MSG(res.spoke == !e, "the default assertion wrote %s message", res.spoke ? "a" : "no"); c.nontrivial();
}
static pbt::registrar death_reg("default assertion in a child process", &death, 0.01);
