// opt::io against direct insertion into / extraction from a twin stream.
#include "p09_common.hpp"
#include <sstream>
#include <iomanip>

struct Pt { int x = 0, y = 0; friend std::ostream& operator<<(std::ostream& o, const Pt& p) { return o << '<' << p.x << ';' << p.y << '>'; }
    friend std::istream& operator>>(std::istream& i, Pt& p) { char a, b, d; int x, y; if (i >> a >> x >> b >> y >> d && a == '<' && b == ';' && d == '>') { p.x = x; p.y = y; } else i.setstate(std::ios::failbit); return i; }
    friend bool operator==(const Pt& a, const Pt& b) { return a.x == b.x && a.y == b.y; } };
template<> struct Ty<Pt> { static Pt make(u64 s) { return {int(s), int(mix(s))}; } static bool same(const Pt& p, u64 s) { return p == make(s); } static const char* name() { return "Pt"; } };
template<class T> T printable(u64 s) { if constexpr (std::is_same_v<T, std::string>) { std::string r; for (u64 i = 0; i < s % 12; ++i) r += char(' ' + mix(s + i) % 95); return r; } else if constexpr (std::is_same_v<T, char>) return char('!' + s % 90); else return Ty<T>::make(s); }
template<class T> bool eq(const T& a, const T& b) { if constexpr (std::is_floating_point_v<T>) return bits_of(a) == bits_of(b) || (a != a && b != b); else return a == b; }

inline void format(Case& c, std::ios& a, std::ios& b) {
    for (int k = int(c.pick(4)); k-- > 0;) {
        unsigned f = c.pick(8), w = c.pick(14);
        for (std::ios* s : {&a, &b}) switch (f) { case 0: s->setf(std::ios::hex, std::ios::basefield); break; case 1: s->setf(std::ios::boolalpha); break; case 2: s->width(w); break; case 3: s->precision(w); break; case 4: s->fill(char('a' + w)); break; case 5: s->setf(std::ios::left, std::ios::adjustfield); break; case 6: s->setf(std::ios::showbase | std::ios::showpos); break; default: s->unsetf(std::ios::skipws); }
    }
}
inline void same_state(std::ios& a, std::ios& b, const char* op) {
    REQUIRE_MSG(a.rdstate() == b.rdstate(), "%s leaves state %d, direct use leaves %d", op, int(a.rdstate()), int(b.rdstate()));
    REQUIRE_MSG(a.width() == b.width() && a.precision() == b.precision() && a.flags() == b.flags() && a.fill() == b.fill(), "%s leaves other formatting", op);
}
template<class T, class Alt> void writes(Case& c) {
    using B = bare<T>; std::ostringstream x, y; int n = 1 + int(c.pick(5)); bool full = false;
    for (int k = 0; k < n; ++k) {
        format(c, x, y); u64 s = c.interesting(); bool e = c.coin(); full = full || e;
        B target = printable<B>(s); opt::option<T> o; if (e) { if constexpr (std::is_reference_v<T>) o = target; else o.emplace(target); }
        Alt alt = printable<Alt>(mix(s)); const auto& co = o; const Alt& calt = alt; unsigned form = c.pick(5);
        switch (form) {
        case 0: { auto& r = (x << opt::io(o)); REQUIRE_MSG(&r == &x, "io returned another stream"); if (e) y << target; break; }
        case 1: { auto& r = (x << opt::io(co)); REQUIRE(&r == &x); if (e) y << target; break; }
        case 2: { auto& r = (x << opt::io(o, alt)); REQUIRE(&r == &x); if (e) y << target; else y << alt; break; }
        case 3: { auto& r = (x << opt::io(co, calt)); REQUIRE(&r == &x); if (e) y << target; else y << alt; break; }
        default: { x << opt::io(co, "nothing") << opt::io(o) << ','; if (e) y << target << target << ','; else y << "nothing" << ','; } }
        REQUIRE_MSG(o.has_value() == e, "writing changed the option"); if (e) REQUIRE_MSG(eq<B>(o.get(), target), "writing changed the value"); REQUIRE(eq(alt, printable<Alt>(mix(s))));
        same_state(x, y, "writing"); REQUIRE_MSG(x.str() == y.str(), "wrote \"%s\", direct insertion writes \"%s\" (form %u, full %d)", x.str().c_str(), y.str().c_str(), form, int(e));
    }
    c.nontrivial(full);
}
inline std::string text(Case& c) {
    std::string r; int n = int(c.pick(7));
    for (int k = 0; k < n; ++k) {
        switch (c.pick(11)) { case 0: r += std::to_string(c.range(-300, 300)); break; case 1: r += "99999999999999999999999"; break; case 2: r += "1.5e10"; break; case 3: r += "-1e999"; break; case 4: r += "abc"; break; case 5: r += '0'; break; case 6: r += '1'; break; case 7: r += "<1;-2>"; break; case 8: r += "true"; break; case 9: r += "0x1F"; break; default: r += char(1 + c.pick(127)); }
        static const char* const sep[] = {" ", "\n", "", "\t  ", ","}; r += sep[c.pick(5)];
    }
    return r;
}
template<class T, class Alt> void reads(Case& c) {
    using B = bare<T>; std::string t = text(c); std::istringstream x(t), y(t); int n = 1 + int(c.pick(5)); bool full = false; c.log("reading from \"%s\"", t.c_str());
    for (int k = 0; k < n; ++k) {
        format(c, x, y); bool e = c.coin(); full = full || e; u64 s = c.interesting(); B target = printable<B>(s), twin = printable<B>(s), before = printable<B>(s); Alt alt = printable<Alt>(mix(s)), alt_twin = printable<Alt>(mix(s));
        opt::option<T> o; if (e) { if constexpr (std::is_reference_v<T>) o = target; else o.emplace(target); }
        const B* where = e ? std::addressof(o.get()) : nullptr;
        auto& r = (x >> opt::io(o, alt)); REQUIRE_MSG(&r == &x, "io returned another stream"); if (e) y >> twin; else y >> alt_twin;
        pbt::opaque(o); REQUIRE_MSG(o.has_value() == e, "reading made an option that was %d into %d", int(e), int(o.has_value()));
        if (e) { REQUIRE_MSG(eq<B>(o.get(), twin), "read another value than direct extraction"); REQUIRE(std::addressof(o.get()) == where); if constexpr (!std::is_reference_v<T>) REQUIRE(eq<B>(target, before)); }
        REQUIRE_MSG(eq(alt, alt_twin), e ? "the alternative of a full option was changed" : "the alternative got another value than direct extraction gives");
        same_state(x, y, "reading"); REQUIRE_MSG(x.tellg() == y.tellg(), "reading leaves the stream at %ld, direct extraction at %ld", long(x.tellg()), long(y.tellg()));
        if (!x && c.coin()) { x.clear(); y.clear(); }
    }
    std::string rx, ry; x.clear(); y.clear(); std::getline(x, rx, '\0'); std::getline(y, ry, '\0'); REQUIRE(rx == ry); c.nontrivial(full);
}
#define IO(T, A) REG("write " #T " or " #A, (&writes<T, A>)); REG("read " #T " or " #A, (&reads<T, A>));
IO(int, int) IO(int, std::string) IO(double, int) IO(bool, bool) IO(std::string, std::string) IO(char, int) IO(int&, int) IO(std::string&, double) IO(Pt, std::string) IO(long long, Pt) IO(float, float) IO(unsigned, char)
#undef IO
// user-defined stream types, chaining, and the alternative or value being the only thing touched
struct Rec { std::string log; };
inline Rec& operator<<(Rec& r, int v) { r.log += "i" + std::to_string(v); return r; } inline Rec& operator<<(Rec& r, const std::string& v) { r.log += "s" + v; return r; }
inline Rec& operator<<(Rec& r, const opt::option<int>&) { r.log += "option"; return r; }
inline Rec& operator>>(Rec& r, int& v) { r.log += "I"; v = 42; return r; } inline Rec& operator>>(Rec& r, std::string& v) { r.log += "S"; v = "read"; return r; }
PROP("user-defined streams") {
    bool e = c.coin(); int v = int(c.pick(100)); opt::option<int> o; if (e) o = v; Rec r; std::string alt = "alt"; std::string want;
    unsigned form = c.pick(4);
    switch (form) { case 0: REQUIRE(&(r << opt::io(o)) == &r); want = e ? "i" + std::to_string(v) : ""; break; case 1: REQUIRE(&(r << opt::io(std::as_const(o), alt)) == &r); want = e ? "i" + std::to_string(v) : "salt"; break;
    case 2: REQUIRE(&(r >> opt::io(o, alt)) == &r); want = e ? "I" : "S"; REQUIRE(o.has_value() == e && alt == (e ? "alt" : "read")); if (e) REQUIRE(*o == 42); break;
    default: r << opt::io(o, alt) << opt::io(o) << opt::io(o, v); want = e ? "i" + std::to_string(v) + "i" + std::to_string(v) + "i" + std::to_string(v) : "salti" + std::to_string(v); }
    REQUIRE_MSG(r.log == want, "the stream saw \"%s\", expected \"%s\"", r.log.c_str(), want.c_str()); c.nontrivial(e);
}
PROP("a throwing stream operator leaves the option alone") {
    bool e = c.coin(); opt::option<int> o; if (e) o = 5; int alt = 6; std::istringstream in("x"); in.exceptions(std::ios::failbit); bool thrown = false;
    try { in >> opt::io(o, alt); } catch (const std::ios::failure&) { thrown = true; } REQUIRE(thrown && o.has_value() == e && (e ? *o == 0 && alt == 6 : alt == 0)); c.nontrivial();
}
