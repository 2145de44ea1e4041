// Enumerated value spaces and containers driven through their own states.
#include "p04_common.hpp"

// blocks of consecutive bit patterns; every block of 2^32 float patterns in the thorough tier
template<class F, class B> static void float_block(B first, B n, bool around) {
    u64 nt = 0;
    opt::option<F> o;
    for (B k = 0; k < n; ++k) {
        B b = first + k; bool res = sizeof(F) == 4 ? reserved_f32(std::uint32_t(b)) : reserved_f64(b); if (res) continue;
        F f; std::memcpy(&f, &b, sizeof b);
        o = f; pbt::opaque(o);
        if (!o.has_value()) FAIL("a %zu byte float with bits %llx is reported as empty", sizeof(F), (unsigned long long)b);
        B g; std::memcpy(&g, std::addressof(*o), sizeof g); if (g != b) FAIL("bits %llx came back as %llx", (unsigned long long)b, (unsigned long long)g);
        if ((k & 63) == 0 || around) { opt::option<F> p{o}; pbt::opaque(p); if (!p.has_value()) FAIL("a copy of bits %llx is empty", (unsigned long long)b); o.reset(); pbt::opaque(o); if (o.has_value()) FAIL("empty after reset is reported full"); std::memcpy(&g, std::addressof(*p), sizeof g); if (g != b) FAIL("a copy of bits %llx is %llx", (unsigned long long)b, (unsigned long long)g); }
        ++nt;
    }
    pbt::count_evals(n, nt);
}
PROP("float: a block of consecutive bit patterns") {
    std::uint32_t blk = c.pick(3) ? (c.coin() ? (nan32 & 0xFFFF0000u) : 0xFF800000u + (c.pick(128) << 16)) : c.pick(0x10000) << 16;
    std::uint32_t off = (c.coin() && blk == (nan32 & 0xFFFF0000u) ? (nan32 & 0xF000u)+ c.pick(0x1000) : c.pick(0xf800)); float_block<float, std::uint32_t>(blk + off, 2048, false); c.nontrivial();
}
PROP("double: a block of consecutive bit patterns") {
    u64 base = c.coin() ? nan64 - 1500 + c.pick(1500) : c.coin() ? c.u64() : 0xFFF0000000000000ull + (c.u64() & 0xfffffffffffffull); float_block<double, u64>(base, 1024, false); c.nontrivial();
}
static void around_ranges(Case& c) {
    float_block<float, std::uint32_t>(nan32 - 0x2000, 0x6000, true); float_block<double, u64>(nan64 - 0x2000, 0x6000, true);
    for (u64 e = 0; e < 2048; ++e) for (u64 sgn = 0; sgn < 2; ++sgn) for (u64 m : {0ull, 1ull, 0x8000000000000ull, 0x7ffffffffffffull, 0xfffffffffffffull, 0x6C79F55B0898Full, 0xBF26430BB3557ull}) float_block<double, u64>(((sgn << 63) | (e << 52) | m) - 1, 3, true);
    c.nontrivial();
}
REG_ONCE("floats around the reserved ranges and exponents", around_ranges);
#if defined(PBT_THOROUGH) && defined(__OPTIMIZE__) && defined(NDEBUG)
static void all_floats(Case& c) { for (u64 b = 0; b < 0x10000u; ++b) float_block<float, std::uint32_t>(std::uint32_t(b << 16), 0x10000, false); c.nontrivial(); }
REG_ONCE("every float bit pattern", all_floats);
#endif
// pointers: everything outside of the documented range is a value, including its neighbours
template<class P> static void pointer_block(u64 first, u64 n) {
    opt::option<P> o; u64 nt = 0;
    for (u64 k = 0; k < n; ++k) {
        u64 b = first + k; if (b >= 0xF8E1B1825D5D6C67ull && b <= 0xF8E1B1825D5D6E66ull) continue;
        P p; std::memcpy(&p, &b, 8); o = p; pbt::opaque(o);
        if (!o.has_value()) FAIL("the pointer %llx is reported as empty", (unsigned long long)b); u64 g; std::memcpy(&g, std::addressof(*o), 8); if (g != b) FAIL("the pointer %llx came back as %llx", (unsigned long long)b, (unsigned long long)g); ++nt;
        if (k % 16 == 0) { o.reset(); pbt::opaque(o); REQUIRE(!o.has_value()); }
    }
    pbt::count_evals(n, nt);
}
PROP("pointer: a block of addresses") {
    u64 base; switch (c.pick(6)) { case 0: base = 0xF8E1B1825D5D6C67ull - 700 + c.pick(1400); break; case 1: base = u64(0) - 4096 + c.pick(4096); break; case 2: base = c.pick(8192); break; case 3: base = c.u64() & 0x7fffffffffffull; break; case 4: base = 0x800000000000ull - c.pick(600); break; default: base = c.u64(); }
    if (c.coin()) pointer_block<int*>(base, 512); else if (c.coin()) pointer_block<void (*)()>(base, 512); else pointer_block<const void*>(base, 512); c.nontrivial();
}
// all values of small types
template<class T> static void all_bytes(Case& c, T, bool) { c.nontrivial(); }
static void small_enumerations(Case& c) {
    for (int i = 0; i < 250; ++i) { opt::option<ESS> o{ESS(i)}; pbt::opaque(o); if (!o || int(*o) != i) FAIL("ESS(%d)", i); }
    for (int i = -32768; i < 32768; ++i) { if (i >= 100 && i <= 110) continue; opt::option<ESE> o{ESE(i)}; pbt::opaque(o); if (!o || int(*o) != i) FAIL("ESE(%d)", i); *o = ESE::a; pbt::opaque(o); if (!o) FAIL("ESE::a"); }
    for (int i = 0; i < 16; ++i) { opt::option<E8> o{E8(i)}; pbt::opaque(o); if (!o || int(*o) != i) FAIL("E8(%d)", i); }
    for (unsigned i = 0; i < 512; ++i) { opt::option<E32> o{E32(i)}; pbt::opaque(o); if (!o || unsigned(*o) != i) FAIL("E32(%u)", i); }
    for (unsigned i = 1024; i < 200000; ++i) { opt::option<E32> o{E32(i)}; pbt::opaque(o); if (!o || unsigned(*o) != i) FAIL("E32(%u)", i); }
    for (int i = -70000; i < 70000; ++i) { if (i == -1 || i == -2 || i == 100) continue; opt::option<sent_int3> o{sent_int3(i)}; pbt::opaque(o); if (!o || int(*o) != i) FAIL("sentinel<int,-1,-2,100>(%d)", i); }
    for (int i = 0; i < 256; ++i) { opt::option<unsigned char> o{(unsigned char)i}; pbt::opaque(o); if (!o || int(*o) != i) FAIL("unsigned char %d", i); opt::option<signed char> q{(signed char)i}; pbt::opaque(q); if (!q || int(*q) != (signed char)i) FAIL("signed char %d", i); opt::option<std::pair<unsigned char, bool>> r{std::pair<unsigned char, bool>{(unsigned char)i, (i & 1) != 0}}; pbt::opaque(r); if (!r || r->first != i || r->second != ((i & 1) != 0)) FAIL("pair<unsigned char, bool> %d", i); }
    for (int i = 0; i < 65536; ++i) { opt::option<Padded16> o{Padded16(i)}; o->x = std::uint32_t(i) << 16 | unsigned(i); pbt::opaque(o); if (!o) FAIL("Padded16 %d", i); }
    pbt::count_evals(500000, 500000); c.nontrivial();
}
REG_ONCE("all values of small types", small_enumerations);

// a container inside an option against the same container outside: no operation on it makes the option look empty
template<class S> static void string_ops(Case& c) {
    using Ch = typename S::value_type; opt::option<S> o; S m; static const unsigned char f[] = {0, 0xff, 1}; Box<opt::option<S>> b(f[c.pick(3)]); o.emplace(); b->emplace();
    int n = 1 + int(c.pick(25));
    for (int k = 0; k < n; ++k) {
        opt::option<S>& x = c.coin() ? o : *b; if (&x != &o) o->swap(**b);
        std::size_t len = c.pick(5) == 0 ? c.pick(300) : c.pick(40); Ch ch = Ch(c.pick(256));
        switch (c.pick(18)) {
        case 0: x->clear(); m.clear(); break;
        case 1: x->shrink_to_fit(); break;
        case 2: x->assign(len, ch); m.assign(len, ch); break;
        case 3: x->push_back(ch); m.push_back(ch); break;
        case 4: if (!m.empty()) { x->pop_back(); m.pop_back(); } break;
        case 5: x->resize(len, ch); m.resize(len, ch); break;
        case 6: x->reserve(len); break;
        case 7: { S t(std::move(*x)); REQUIRE_MSG(x.has_value(), "the option is empty after its string was moved out"); *x = std::move(t); break; }
        case 8: { S t(std::move(*x)); REQUIRE_MSG(x.has_value(), "the option is empty after its string was moved out"); x->clear(); m.clear(); break; }
        case 9: *x = S(); m = S(); break;
        case 10: { S t(len, ch); x->swap(t); m.assign(len, ch); break; }
        case 11: x = S(len, ch); m.assign(len, ch); break;
        case 12: x.emplace(len, ch); m.assign(len, ch); break;
        case 13: { auto t = x; REQUIRE(t.has_value() && *t == m); x = std::move(t); break; }
        case 14: { opt::option<S> t = std::move(x); pbt::opaque(x); REQUIRE_MSG(x.has_value(), "a moved-from option appears empty"); x = std::move(t); break; }
        case 15: { auto t = x.take(); pbt::opaque(x); REQUIRE(!x.has_value()); REQUIRE(t.has_value() && *t == m); x = std::move(t); break; }
        case 16: { x.reset(); pbt::opaque(x); REQUIRE(!x); x.emplace(); m.clear(); break; }
        default: if (!m.empty()) { x->erase(m.size() / 2); m.erase(m.size() / 2); } break;
        }
        if (&x != &o) o->swap(**b);
        pbt::opaque(o); pbt::opaque(*b);
        REQUIRE_MSG(o.has_value() && b->has_value(), "the option appears empty although it holds a string of size %zu", m.size());
        REQUIRE_MSG(*o == m, "the string changed");
    }
    c.nontrivial(n > 2);
}
template<class Vec, class Mk> static void vector_ops(Case& c, Mk mk) {
    opt::option<Vec> o(std::in_place); Vec m; int n = 1 + int(c.pick(25));
    for (int k = 0; k < n; ++k) {
        std::size_t len = c.pick(5) == 0 ? c.pick(300) : c.pick(12); auto v = mk(c.pick(1000)); auto& x = o;
        switch (c.pick(15)) {
        case 0: x->clear(); m.clear(); break;
        case 1: x->shrink_to_fit(); break;
        case 2: x->assign(len, v); m.assign(len, v); break;
        case 3: x->push_back(v); m.push_back(v); break;
        case 4: if (!m.empty()) { x->pop_back(); m.pop_back(); } break;
        case 5: x->resize(len); m.resize(len); break;
        case 6: x->reserve(len); break;
        case 7: { Vec t(std::move(*x)); pbt::opaque(x); REQUIRE_MSG(x.has_value(), "the option is empty after its vector was moved out"); *x = std::move(t); break; }
        case 8: { Vec t(std::move(*x)); x->clear(); m.clear(); break; }
        case 9: *x = Vec(); m = Vec(); break;
        case 10: { Vec t(len, v); x->swap(t); m.assign(len, v); break; }
        case 11: x.emplace(len, v); m.assign(len, v); break;
        case 12: { opt::option<Vec> t = std::move(x); pbt::opaque(x); REQUIRE_MSG(x.has_value(), "a moved-from option appears empty"); x = std::move(t); break; }
        case 13: { auto t = x.take(); pbt::opaque(x); REQUIRE(!x.has_value()); x = std::move(t); break; }
        default: { x.reset(); pbt::opaque(x); REQUIRE(!x); x.emplace(); m.clear(); break; }
        }
        pbt::opaque(o);
        REQUIRE_MSG(o.has_value(), "the option appears empty although it holds a vector of size %zu", m.size()); REQUIRE_MSG(*o == m, "the vector changed");
    }
    c.nontrivial(n > 2);
}
PROP("string states") { string_ops<std::string>(c); }
PROP("wstring states") { string_ops<std::wstring>(c); }
PROP("u16string states") { string_ops<std::u16string>(c); }
PROP("u32string states") { string_ops<std::u32string>(c); }
PROP("pmr string states") { string_ops<std::pmr::string>(c); }
PROP("vector<int> states") { vector_ops<std::vector<int>>(c, [](unsigned x) { return int(x); }); }
PROP("vector<bool> states") { vector_ops<std::vector<bool>>(c, [](unsigned x) { return x % 2 == 1; }); }
PROP("vector<string> states") { vector_ops<std::vector<std::string>>(c, [](unsigned x) { return std::to_string(x); }); }
PROP("vector<char> states") { vector_ops<std::vector<char>>(c, [](unsigned x) { return char(x); }); }
PROP("pmr vector states") { vector_ops<std::pmr::vector<int>>(c, [](unsigned x) { return int(x); }); }
PROP("unique_ptr states") {
    opt::option<std::unique_ptr<int>> o(std::in_place); int* m = nullptr; int n = 1 + int(c.pick(20));
    for (int k = 0; k < n; ++k) {
        switch (c.pick(9)) {
        case 0: o->reset(); m = nullptr; break;
        case 1: o->reset(m = new int(k)); break;
        case 2: *o = std::unique_ptr<int>(m = new int(k)); break;
        case 3: { std::unique_ptr<int> t(o->release()); m = nullptr; break; }
        case 4: { std::unique_ptr<int> t = std::move(*o); pbt::opaque(o); REQUIRE(o.has_value()); *o = std::move(t); break; }
        case 5: *o = nullptr; m = nullptr; break;
        case 6: { std::unique_ptr<int> t(new int(3)); m = t.get(); o->swap(t); break; }
        case 7: { auto t = o.take(); pbt::opaque(o); REQUIRE(!o.has_value()); REQUIRE(t->get() == m); o = std::move(t); break; }
        default: { auto t = std::move(o); pbt::opaque(o); REQUIRE(o.has_value()); o = std::move(t); }
        }
        pbt::opaque(o); REQUIRE_MSG(o.has_value(), "the option appears empty although it holds a unique_ptr (%s)", m ? "full" : "null"); REQUIRE(o->get() == m);
    }
    c.nontrivial(n > 2);
}
PROP("string_view and bool in place") {
    opt::option<std::string_view> o(std::in_place); std::string_view m; opt::option<bool> b{false}; bool mb = false; int n = 1 + int(c.pick(16));
    for (int k = 0; k < n; ++k) {
        switch (c.pick(6)) { case 0: *o = m = {}; break; case 1: *o = m = std::string_view(g_text + c.pick(30), c.pick(30)); break; case 2: { std::size_t r = m.empty() ? 0 : c.pick(std::uint32_t(m.size()) + 1); o->remove_prefix(r); m.remove_prefix(r); break; } case 3: { std::string_view t(g_text, c.pick(5)); m = t; o->swap(t); break; } case 4: *o = m = std::string_view(g_text + 61, 0); break; default: *o = m = std::string_view(nullptr, 0); }
        switch (c.pick(5)) { case 0: *b = mb = !mb; break; case 1: { bool t = c.coin(); mb = t; using std::swap; swap(*b, t); break; } case 2: for (bool& x : b) x = mb = c.coin(); break; case 3: *b |= true; mb = true; break; default: *b = mb = (*b != c.coin()); }
        pbt::opaque(o); pbt::opaque(b); REQUIRE_MSG(o.has_value() && o->data() == m.data() && o->size() == m.size(), "the string_view changed or vanished"); REQUIRE_MSG(b.has_value() && *b == mb, "the bool changed or vanished");
    }
    c.nontrivial(n > 2);
}
struct VB { virtual ~VB() = default; int x = 1; virtual int f() { return 1; } }; struct VL : virtual VB { int y = 2; int f() override { return 2; } }; struct VR : virtual VB { int z = 3; }; struct VD : VL, VR { int w = 4; int f() override { return 4; } int g() { return 5; } };
struct NonPoly { int a; }; struct Tiny { char c; virtual void f() {} };
PROP("pointers to members: all offsets") {
    struct Big { char c[4096]; int last; }; using P = char (Big::*)[4096]; (void)sizeof(P);
    std::ptrdiff_t off = std::ptrdiff_t(c.coin() ? c.pick(1 << 20) : c.u32()) - (c.chance(1, 8) ? 1 : 0); int NonPoly::* p; std::memcpy(&p, &off, sizeof off); opt::option<int NonPoly::*> o{p}; pbt::opaque(o); REQUIRE_MSG(o.has_value(), "a member pointer of offset %ld is reported as empty", long(off)); REQUIRE(*o == p); opt::option<int NonPoly::*> q{o}; REQUIRE(q && *q == p); *q = nullptr; REQUIRE(q && *q == nullptr);
    // member functions: pointer to code or 1 + virtual table offset, with any adjustment
    struct Rep { std::ptrdiff_t ptr, adj; } r; r.ptr = c.coin() ? std::ptrdiff_t(1 + 8 * c.pick(500)) : c.coin() ? 0 : std::ptrdiff_t(0x400000 + 16 * c.u32()); r.adj = c.coin() ? 0 : 8 * std::ptrdiff_t(c.pick(4000)); int (VD::*f)(); static_assert(sizeof f == sizeof r); std::memcpy(&f, &r, sizeof f);
    opt::option<int (VD::*)()> of{f}; pbt::opaque(of); REQUIRE_MSG(of.has_value(), "a member function pointer (%lx, %ld) is reported as empty", long(r.ptr), long(r.adj)); Rep s; std::memcpy(&s, std::addressof(*of), sizeof s); REQUIRE(s.ptr == r.ptr && s.adj == r.adj);
    VD d; opt::option<int (VD::*)()> h; switch (c.pick(4)) { case 0: h = &VD::g; REQUIRE((d.**h)() == 5); break; case 1: h = &VD::f; REQUIRE((d.**h)() == 4); break; case 2: h = nullptr; REQUIRE(h.has_value()); break; default: break; }
    opt::option<int (VL::*)()> v{&VL::f}; REQUIRE((d.**v)() == 4); c.nontrivial();
}
PROP("polymorphic objects of every layout") {
    opt::option<VD> o; pbt::opaque(o); REQUIRE(!o.has_value()); o.emplace(); pbt::opaque(o); REQUIRE(o.has_value() && o->f() == 4 && static_cast<VB&>(*o).f() == 4); o->w = int(c.pick(100)); o->x = 77; opt::option<VD> p = o; REQUIRE(p && p->x == 77 && p->w == o->w); *p = VD(); REQUIRE(p && p->x == 1); p.reset(); pbt::opaque(p); REQUIRE(!p); o = p; pbt::opaque(o); REQUIRE(!o);
    opt::option<Tiny> t(std::in_place); t->c = char(c.pick(256)); pbt::opaque(t); REQUIRE(t.has_value()); t = opt::none; pbt::opaque(t); REQUIRE(!t); c.nontrivial();
}
// neighbours of a sentinel inside of a composite
template<class F> static void complex_parts(Case& c) { using B = std::conditional_t<sizeof(F) == 4, std::uint32_t, u64>; B im = B(spec04(c)), re = B(spec04(c)); if (sizeof(F) == 4 ? reserved_f32(std::uint32_t(re)) : reserved_f64(re)) re = 0; F p[2]; std::memcpy(&p[0], &re, sizeof(F)); std::memcpy(&p[1], &im, sizeof(F)); std::complex<F> z; std::memcpy(static_cast<void*>(&z), p, sizeof z); opt::option<std::complex<F>> o{z}; pbt::opaque(o); REQUIRE_MSG(o.has_value(), "a complex number with parts %llx %llx is reported as empty", (unsigned long long)re, (unsigned long long)im); REQUIRE(std::memcmp(std::addressof(*o), &z, sizeof z) == 0); c.nontrivial(); }
PROP("complex<float> parts") { complex_parts<float>(c); }
PROP("complex<double> parts") { complex_parts<double>(c); }
PROP("reserved values in members that do not hold the level") {
    // only the member with the most levels is looked at
    float f; std::uint32_t fb = nan32 + c.pick(256); std::memcpy(&f, &fb, 4); double d = double(c.pick(100)); void* p = reinterpret_cast<void*>(u64(c.pick(4096)));
    opt::option<std::tuple<float, void*>> t{std::tuple<float, void*>{f, p}}; pbt::opaque(t); REQUIRE(t.has_value() && std::get<1>(*t) == p); std::uint32_t g; std::memcpy(&g, &std::get<0>(*t), 4); REQUIRE(g == fb);
    opt::option<std::pair<double, double>> q; double e; u64 eb = nan64 + c.pick(256); std::memcpy(&e, &eb, 8); (void)q; (void)d;
    opt::option<std::array<double, 2>> a{std::array<double, 2>{d, e}}; pbt::opaque(a); REQUIRE(a.has_value()); u64 h; std::memcpy(&h, &(*a)[1], 8); REQUIRE(h == eb && (*a)[0] == d); c.nontrivial();
}
