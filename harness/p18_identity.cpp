// The stream operators get the contained object itself, or the alternative itself: neither is copied nor converted.
#include "types.hpp"
#include <sstream>
namespace {
struct Sink { std::vector<const void*> seen; std::vector<int> kind; };
struct Base { int id = 1; Base() = default; virtual ~Base() = default; virtual int kind() const { return 1; } };
struct Derived : Base { int more = 2; int kind() const override { return 2; } };
struct Abstract { virtual ~Abstract() = default; virtual int kind() const = 0; }; struct Concrete : Abstract { int kind() const override { return 3; } };
struct Fixed { int v = 4; Fixed() = default; explicit Fixed(int x) : v(x) {} Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete; };
struct Counted { int copies = 0; Counted() = default; Counted(const Counted& o) : copies(o.copies + 1) {} Counted& operator=(const Counted&) = default; };
template<class X> Sink& put(Sink& s, const X& x, int k) { s.seen.push_back(std::addressof(x)); s.kind.push_back(k); return s; }
Sink& operator<<(Sink& s, const Base& x) { return put(s, x, x.kind()); } Sink& operator<<(Sink& s, const Abstract& x) { return put(s, x, x.kind()); }
Sink& operator<<(Sink& s, const Fixed& x) { return put(s, x, 4); } Sink& operator<<(Sink& s, const Counted& x) { return put(s, x, 5 + x.copies); }
Sink& operator<<(Sink& s, const int& x) { return put(s, x, 10); } Sink& operator<<(Sink& s, const char& x) { return put(s, x, 11); } Sink& operator<<(Sink& s, const bool& x) { return put(s, x, 12); }
template<std::size_t N> Sink& operator<<(Sink& s, const char (&x)[N]) { return put(s, x, 13); }
Sink& operator>>(Sink& s, Base& x) { return put(s, x, x.kind()); } Sink& operator>>(Sink& s, Abstract& x) { return put(s, x, x.kind()); }
Sink& operator>>(Sink& s, Fixed& x) { return put(s, x, 4); } Sink& operator>>(Sink& s, Counted& x) { return put(s, x, 5 + x.copies); } Sink& operator>>(Sink& s, int& x) { return put(s, x, 10); }
template<class O, class A> void use(Case& c, O& o, A& alt, const void* value, int kind, const void* alt_at, int alt_kind, bool readable) {
    bool full = o.has_value(); const O& co = o; const A& calt = alt; Sink s; int n = 1 + int(c.pick(3)); std::vector<const void*> want; std::vector<int> kinds;
    auto add = [&] { want.push_back(full ? value : alt_at); kinds.push_back(full ? kind : alt_kind); };
    for (int i = 0; i < n; ++i) {
        int form = int(c.pick(readable ? 6 : 4)); c.log("form %d, full %d", form, int(full));
        switch (form) {
        case 0: s << opt::io(o, alt); add(); break;
        case 1: s << opt::io(co, calt); add(); break;
        case 2: s << opt::io(o); if (full) add(); break;
        case 3: s << opt::io(co) << opt::io(co, calt); if (full) add(); add(); break;
        default: if constexpr (!std::is_array_v<A>) { s >> opt::io(o, alt); add(); } break; }
    }
    REQUIRE_MSG(s.seen == want, "the stream operator got another object than the contained one or the alternative (full %d)", int(full));
    REQUIRE_MSG(s.kind == kinds, "the stream operator got a copy or another type (full %d)", int(full));
    REQUIRE(o.has_value() == full); c.nontrivial();
}
template<class T, class F> void alts(Case& c, opt::option<T>& o, const void* at, int kind, F&&) {
    switch (c.pick(5)) {
    case 0: { Derived d; Base& b = d; use(c, o, b, at, kind, &b, 2, true); break; }
    case 1: { Concrete d; Abstract& b = d; use(c, o, b, at, kind, &b, 3, true); break; }
    case 2: { Fixed f; use(c, o, f, at, kind, &f, 4, true); break; }
    case 3: { Counted k; use(c, o, k, at, kind, &k, 5, true); break; }
    default: { static char lit[] = "none"; use(c, o, lit, at, kind, lit, 13, false); } }
}
PROP("the contained object itself") {
    bool full = c.coin();
    switch (c.pick(7)) {
    case 0: { Derived d; opt::option<Base&> o; if (full) o = d; alts(c, o, static_cast<Base*>(&d), 2, 0); break; }
    case 1: { Concrete d; opt::option<Abstract&> o; if (full) o = d; alts(c, o, static_cast<Abstract*>(&d), 3, 0); break; }
    case 2: { opt::option<Fixed> o; if (full) o.emplace(6); alts(c, o, full ? &*o : nullptr, 4, 0); break; }
    case 3: { opt::option<Counted> o; if (full) o.emplace(); alts(c, o, full ? &*o : nullptr, 5, 0); break; }
    case 4: { int v = 3; opt::option<int&> o; if (full) o = v; alts(c, o, &v, 10, 0); break; }
    case 5: { Fixed f; opt::option<Fixed&> o; if (full) o = f; alts(c, o, &f, 4, 0); break; }
    default: { opt::option<Base> o; if (full) o.emplace(); alts(c, o, full ? &*o : nullptr, 1, 0); } }
}
}
