// The six comparison operators against reference pairs (engaged, value).
#include "types.hpp"

// every operator answers from its own random table, so that an operator standing in for another one is seen
struct Tables { bool t[6][4][4]; int calls; int last; };
static Tables tb;
template<int K> struct TV { int id; };
#define TVOP(op, n) template<int A, int B> bool operator op(const TV<A>& a, const TV<B>& b) { ++tb.calls; tb.last = n; return tb.t[n][a.id & 3][b.id & 3]; }
TVOP(==, 0) TVOP(!=, 1) TVOP(<, 2) TVOP(<=, 3) TVOP(>, 4) TVOP(>=, 5)
// a result that is only convertible to bool
struct Answer { bool b; operator bool() const { return b; } };
template<int K> struct AV { int id; };
#define AVOP(op, n) template<int A, int B> Answer operator op(const AV<A>& a, const AV<B>& b) { ++tb.calls; tb.last = n; return Answer{tb.t[n][a.id & 3][b.id & 3]}; }
AVOP(==, 0) AVOP(!=, 1) AVOP(<, 2) AVOP(<=, 3) AVOP(>, 4) AVOP(>=, 5)

static const char* const op_names[] = {"==", "!=", "<", "<=", ">", ">="};
template<class A, class B> bool apply(int op, const A& a, const B& b) {
    switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; }
}
// reference: nothing is below everything
template<class A, class B> bool ref(int op, const A* a, const B* b) {
    if (a && b) return apply(op, *a, *b);
    return apply(op, a != nullptr, b != nullptr);
}
// all forms of one pair of states; a and b are null when empty
template<class A, class B> void pair_forms(const A* a, const B* b) {
    opt::option<A> x; opt::option<B> y; if (a) x.emplace(*a); if (b) y.emplace(*b);
    pbt::opaque(x); pbt::opaque(y);
    for (int op = 0; op < 6; ++op) {
        const char* n = op_names[op];
        bool w = ref(op, a, b), g = apply(op, x, y);
        REQUIRE_MSG(g == w, "option<%s>{%s} %s option<%s>{%s} is %d, expected %d", Ty<A>::name(), a ? "value" : "", n, Ty<B>::name(), b ? "value" : "", int(g), int(w));
        w = ref<B, A>(op, b, a); g = apply(op, y, x);
        REQUIRE_MSG(g == w, "option<%s> %s option<%s> is %d, expected %d", Ty<B>::name(), n, Ty<A>::name(), int(g), int(w));
        if (b) { w = ref(op, a, b); g = apply(op, x, *b); REQUIRE_MSG(g == w, "option<%s>{%s} %s %s value is %d, expected %d", Ty<A>::name(), a ? "value" : "", n, Ty<B>::name(), int(g), int(w));
            w = ref<B, A>(op, b, a); g = apply(op, *b, x); REQUIRE_MSG(g == w, "%s value %s option<%s>{%s} is %d, expected %d", Ty<B>::name(), n, Ty<A>::name(), a ? "value" : "", int(g), int(w)); }
        const A* null = nullptr;
        w = ref(op, a, null); g = apply(op, x, opt::none); REQUIRE_MSG(g == w, "option<%s>{%s} %s none is %d, expected %d", Ty<A>::name(), a ? "value" : "", n, int(g), int(w));
        w = ref(op, null, a); g = apply(op, opt::none, x); REQUIRE_MSG(g == w, "none %s option<%s>{%s} is %d, expected %d", n, Ty<A>::name(), a ? "value" : "", int(g), int(w));
    }
}
template<class A, class B> void compare(Case& c) {
    bool ea = c.chance(3, 4), eb = c.chance(3, 4); u64 s = c.interesting(), r = c.chance(1, 3) ? s : c.chance(1, 3) ? s + 1 : c.interesting();
    c.log("%s %d spec %llu, %s %d spec %llu", Ty<A>::name(), int(ea), (unsigned long long)s, Ty<B>::name(), int(eb), (unsigned long long)r);
    A a = Ty<A>::make(s); B b = Ty<B>::make(r);
    pair_forms(ea ? &a : nullptr, eb ? &b : nullptr);
    c.nontrivial(ea || eb);
}
#define CMP(A, B) REG("compare " #A " " #B, (&compare<A, B>));
template<> struct Ty<const char*> { static const char* make(u64 s) { return g_text + s % 62; } static const char* name() { return "const char*"; } };
template<class T> struct Ty<const T, void> : Ty<T> {};
using pid = std::pair<int, double>; using tup = std::tuple<int, std::string>; using vi = std::vector<int>; using ci = const int;
CMP(int, int) CMP(bool, bool) CMP(float, float) CMP(double, double) CMP(int, long long) CMP(int, double) CMP(unsigned char, int) CMP(bool, int) CMP(char, short)
CMP(std::string, std::string) CMP(std::string, std::string_view) CMP(std::string, const char*) CMP(std::string_view, std::string_view) CMP(E8, E8) CMP(ES, ES) CMP(E32, E32)
CMP(pid, pid) CMP(tup, tup) CMP(vi, vi) CMP(int*, int*) CMP(ci, int) CMP(ci, double)

// tables: which operator is used, how often, with which operands
template<template<int> class V> void tables(Case& c) {
    for (auto& t : tb.t) for (auto& r : t) for (auto& b : r) b = c.coin();
    bool ea = c.chance(3, 4), eb = c.chance(3, 4), raw = c.coin(); int ia = int(c.pick(4)), ib = int(c.pick(4)), op = int(c.pick(6)), form = int(c.pick(4));
    opt::option<V<1>> a; opt::option<V<2>> b; V<3> target{ib}; V<1> rtarget{ia}; if (ea) a.emplace(V<1>{ia}); if (eb) b.emplace(V<2>{ib});
    opt::option<V<1>&> ra; if (ea) ra = rtarget;
    tb.calls = 0; bool got, want; int calls;
    c.log("form %d op %s: %d,%d against %d,%d", form, op_names[op], int(ea), ia, int(eb), ib);
    switch (form) {
    case 0: got = apply(op, a, b); want = ea && eb ? tb.t[op][ia][ib] : apply(op, ea, eb); calls = ea && eb; break;
    case 1: got = apply(op, a, target); want = ea ? tb.t[op][ia][ib] : apply(op, false, true); calls = ea; break;
    case 2: got = apply(op, target, a); want = ea ? tb.t[op][ib][ia] : apply(op, true, false); calls = ea; break;
    default: got = apply(op, ra, b); want = ea && eb ? tb.t[op][ia][ib] : apply(op, ea, eb); calls = ea && eb; break;
    }
    REQUIRE_MSG(got == want, "form %d of operator%s answers %d, expected %d (left %d, right %d)", form, op_names[op], int(got), int(want), int(ea), int(eb));
    REQUIRE_MSG(tb.calls == calls, "operator%s compared the values %d times, expected %d", op_names[op], tb.calls, calls);
    REQUIRE_MSG(!calls || tb.last == op, "operator%s used the values' operator%s", op_names[op], op_names[tb.last]);
    (void)raw; c.nontrivial(ea || eb);
}
REG("operator tables", (&tables<TV>));
REG("operator tables, convertible results", (&tables<AV>));

// order axioms over triples
template<class T> void axioms(Case& c) {
    opt::option<T> v[3]; u64 base = c.interesting();
    for (auto& x : v) if (c.chance(3, 4)) x.emplace(Ty<T>::make(c.coin() ? base + c.pick(3) : c.interesting()));
    auto& a = v[0]; auto& b = v[1]; auto& d = v[2];
    REQUIRE(a == a && a <= a && a >= a && !(a < a) && !(a > a) && !(a != a));
    REQUIRE_MSG((a == b) == (b == a), "equality is not symmetric"); REQUIRE_MSG((a != b) == !(a == b), "!= is not the negation of =="); REQUIRE_MSG((a < b) == (b > a), "< and > are not mirrored"); REQUIRE_MSG((a <= b) == (b >= a), "<= and >= are not mirrored");
    REQUIRE_MSG((a <= b) == !(b < a), "<= is not the negation of the mirrored <"); REQUIRE_MSG(int(a < b) + int(a == b) + int(a > b) == 1, "trichotomy is violated");
    if (a == b && b == d) REQUIRE_MSG(a == d, "equality is not transitive"); if (a < b && b < d) REQUIRE_MSG(a < d, "< is not transitive"); if (a <= b && b <= d) REQUIRE_MSG(a <= d, "<= is not transitive");
    opt::option<T> e; REQUIRE(e <= a && a >= e && !(a < e)); REQUIRE((e < a) == a.has_value()); REQUIRE((e == a) == !a.has_value());
    // agreement of the heterogeneous forms
    // (a value that is itself an option is compared as an option: see the test of nested options)
    if constexpr (!opt::is_option_v<T>) { if (b.has_value()) { const T& w = *b; for (int op = 0; op < 6; ++op) { REQUIRE_MSG(apply(op, a, b) == apply(op, a, w), "comparison with an option and with its value disagree (%s)", op_names[op]); REQUIRE(apply(op, b, a) == apply(op, w, a)); } }
    else for (int op = 0; op < 6; ++op) { REQUIRE_MSG(apply(op, a, b) == apply(op, a, opt::none), "comparison with an empty option and with none disagree (%s)", op_names[op]); REQUIRE(apply(op, b, a) == apply(op, opt::none, a)); } }
    std::sort(std::begin(v), std::end(v)); REQUIRE(v[0] <= v[1] && v[1] <= v[2]); for (int i = 1; i < 3; ++i) REQUIRE_MSG(!(v[i - 1].has_value() && !v[i].has_value()), "sorting puts an empty option behind a full one");
    c.nontrivial(a.has_value() && b.has_value());
}
#include <algorithm>
REG("axioms int", (&axioms<int>)); REG("axioms bool", (&axioms<bool>)); REG("axioms string", (&axioms<std::string>)); REG("axioms enum", (&axioms<E8>)); REG("axioms string_view", (&axioms<std::string_view>));
REG("axioms pointer", (&axioms<int*>)); REG("axioms option<int>", (&axioms<opt::option<int>>)); REG("axioms option<bool>", (&axioms<opt::option<bool>>)); REG("axioms option<option<bool>>", (&axioms<opt::option<opt::option<bool>>>)); REG("axioms pair", (&axioms<std::pair<int, bool>>));

// options of options, nested to different depths
template<class T> void nested(Case& c) {
    using O = opt::option<T>; using OO = opt::option<O>;
    auto st = c.pick(3), su = c.pick(3), sv = c.pick(2); u64 s = c.interesting(), r = c.coin() ? s : c.interesting();
    T a = Ty<T>::make(s), b = Ty<T>::make(r);
    OO x, y; if (st == 1) x.emplace(opt::none); if (st == 2) x.emplace(a); if (su == 1) y.emplace(opt::none); if (su == 2) y.emplace(b);
    O z; if (sv) z.emplace(b);
    for (int op = 0; op < 6; ++op) {
        // lexicographic on (depth reached, value)
        bool want = st == 2 && su == 2 ? apply(op, a, b) : apply(op, int(st), int(su));
        REQUIRE_MSG(apply(op, x, y) == want, "nested options in states %d, %d: operator%s is %d, expected %d", int(st), int(su), op_names[op], int(!want), int(want));
        // option<option<T>> against option<T>: engaged flags first, then inner option against the value
        bool w2 = st > 0 && sv ? (st == 2 ? apply(op, a, b) : apply(op, false, true)) : apply(op, st > 0, sv > 0);
        REQUIRE_MSG(apply(op, x, z) == w2, "option<option<T>> in state %d %s option<T> in state %d: expected %d", int(st), op_names[op], int(sv), int(w2));
        REQUIRE(apply(op, x, opt::none) == apply(op, st > 0, false)); REQUIRE(apply(op, opt::none, x) == apply(op, false, st > 0));
    }
    c.nontrivial(st + su > 1);
}
REG("nested int", (&nested<int>)); REG("nested bool", (&nested<bool>)); REG("nested double", (&nested<double>)); REG("nested string", (&nested<std::string>));
PROP("reference options compare the referred objects") {
    int t[3] = {int(c.interesting()), int(c.interesting()), 0}; t[2] = t[0]; int i = int(c.pick(4)), j = int(c.pick(4));
    opt::option<int&> a; opt::option<const int&> b; opt::option<int> v; if (i < 3) a = t[i]; if (j < 3) { b = t[j]; v = t[j]; }
    for (int op = 0; op < 6; ++op) {
        bool want = i < 3 && j < 3 ? apply(op, t[i], t[j]) : apply(op, i < 3, j < 3);
        REQUIRE_MSG(apply(op, a, b) == want, "option<int&> %s option<const int&>", op_names[op]); REQUIRE(apply(op, a, v) == want);
        if (j < 3) { REQUIRE(apply(op, a, t[j]) == (i < 3 ? apply(op, t[i], t[j]) : apply(op, false, true))); REQUIRE(apply(op, t[j], a) == (i < 3 ? apply(op, t[j], t[i]) : apply(op, true, false))); }
        REQUIRE(apply(op, a, opt::none) == apply(op, i < 3, false)); REQUIRE(apply(op, opt::none, a) == apply(op, false, i < 3));
    }
    c.nontrivial(i < 3);
}
PROP("ordered containers of options") {
    std::set<opt::option<int>> s; std::set<std::pair<bool, int>> m; std::map<opt::option<std::string>, int> mp; std::map<std::pair<bool, std::string>, int> mm;
    int n = 1 + int(c.pick(20));
    for (int k = 0; k < n; ++k) { bool e = c.chance(4, 5); int v = int(c.pick(8)); opt::option<int> o; if (e) o = v; bool er = c.chance(1, 4);
        if (er) { REQUIRE(s.erase(o) == m.erase({e, e ? v : 0})); } else REQUIRE(s.insert(o).second == m.insert({e, e ? v : 0}).second);
        opt::option<std::string> os; std::string t = std::to_string(v); if (e) os = t; mp[os] = k; mm[{e, e ? t : ""}] = k; }
    REQUIRE(s.size() == m.size()); auto it = m.begin(); for (auto& o : s) { REQUIRE_MSG(o.has_value() == it->first && (!o.has_value() || *o == it->second), "the order of a set of options differs from the reference order"); ++it; }
    REQUIRE(mp.size() == mm.size()); auto jt = mm.begin(); for (auto& o : mp) { REQUIRE(o.first.has_value() == jt->first.first && (!o.first.has_value() || *o.first == jt->first.second) && o.second == jt->second); ++jt; }
    c.nontrivial(n > 3);
}
