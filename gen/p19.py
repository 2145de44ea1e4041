"""Random combinations of special members (deleted, trivial, user-provided, throwing, undeclared) and random families of constructors, assignments and conversions."""
import os, random
SUMMARY = {}
MODES = '0 deleted, 1 defaulted, 2 noexcept user-provided, 3 throwing user-provided, 4 undeclared (moves), 5 from non-const only (copies)'
def member(n, cc, mc, ca, ma, dt, dc, sw, traits):
    b = []
    init = 'v(o.v)' + (', lvl(0)' if traits else '')
    if dc == 1: b.append('%s() noexcept : v(0) {}' % n)
    elif dc == 2: b.append('%s() : v(0) {}' % n)
    elif dc == 0: b.append('%s() = delete;' % n)
    b.append('constexpr explicit %s(int x) noexcept : v(x) {}' % n)
    def sp(kind, mode, const, sig, body, cnt):
        if mode == 0: return '%s = delete;' % sig
        if mode == 1: return '%s = default;' % sig
        return '%s%s { ++ev.%s; %s }' % (sig, ' noexcept' if mode == 2 else '', cnt, body)
    ctor = lambda ref, mode, cnt: {0: '%s(%s) = delete;' % (n, ref), 1: '%s(%s) = default;' % (n, ref)}.get(mode) or '%s(%s o)%s : v(o.v) { ++ev.%s; }' % (n, ref, ' noexcept' if mode == 2 else '', cnt)
    asg = lambda ref, mode, cnt: {0: '%s& operator=(%s) = delete;' % (n, ref), 1: '%s& operator=(%s) = default;' % (n, ref)}.get(mode) or '%s& operator=(%s o)%s { ++ev.%s; v = o.v; return *this; }' % (n, ref, ' noexcept' if mode == 2 else '', cnt)
    b.append(ctor('const %s&' % n, cc, 'cc') if cc != 5 else '%s(%s& o) : v(o.v) { ++ev.cc; }' % (n, n))
    if mc != 4: b.append(ctor('%s&&' % n, mc, 'mc'))
    b.append(asg('const %s&' % n, ca, 'ca') if ca != 5 else '%s& operator=(%s& o) { ++ev.ca; v = o.v; return *this; }' % (n, n))
    if ma != 4: b.append(asg('%s&&' % n, ma, 'ma'))
    b.append({0: '~%s() = default;', 1: '~%s() { ++ev.dt; }', 2: '~%s() noexcept(false) { ++ev.dt; }'}[dt] % n)
    b = [x for x in b if x]
    s = 'struct %s { int v; %s%s' % (n, 'int lvl = 0; ' if traits else '', ' '.join(b))
    if sw == 1: s += ' friend void swap(%s& a, %s& b) noexcept { int t = a.v; a.v = b.v; b.v = t; }' % (n, n)
    elif sw == 2: s += ' friend void swap(%s& a, %s& b) { int t = a.v; a.v = b.v; b.v = t; }' % (n, n)
    elif sw == 3: s += ' friend void swap(%s&, %s&) = delete;' % (n, n)
    s += ' };\n'
    return s
def special(r, tag, i, combo):
    cc, mc, ca, ma, dt = combo; n = '%sS%d' % (tag, i); traits = r.random() < .4
    dc = r.choice([0, 1, 2]); sw = r.choice([0, 0, 0, 1, 2, 3])
    s = 'namespace {\n' + member(n, cc, mc, ca, ma, dt, dc, sw, traits) + '}\n'
    if traits: s += 'template<> struct opt::option_traits<%s> { static constexpr std::uintmax_t max_level = 3; static std::uintmax_t get_level(const %s* p) noexcept { return std::uintmax_t(p->lvl) - 7; } static void set_level(%s* p, std::uintmax_t l) noexcept { p->lvl = int(l) + 7; } };\n' % (n, n, n)
    label = '%s%s cc%d mc%d ca%d ma%d dt%d swap%d' % ('traits ' if traits else '', n, cc, mc, ca, ma, dt, sw)
    wraps = [n] + r.sample(['const %s' % n, 'std::array<%s, 2>' % n, 'std::tuple<%s, bool>' % n, 'std::pair<bool, %s>' % n, 'opt::option<%s>' % n, 'std::tuple<%s>' % n, 'opt::option<opt::option<%s>>' % n, 'std::pair<%s, opt::option<%s>>' % (n, n), '%s&' % n, 'const %s&' % n, '%s&&' % n], 3)
    if cc == 5: wraps = [w for w in wraps if 'std::' not in w]
    # g++ computes the triviality of anonymous unions of types whose move operations are defaulted, deleted and therefore ignored imprecisely
    if mc == 0 or ma == 0: wraps = [w for w in wraps if 'opt::option' not in w]
    if cc == 1 and mc in (0, 2, 3): wraps = [w for w in wraps if not w.startswith('const ') or w.endswith('&')]   # moving a const object copies it trivially, the stored object is not const
    if dt == 2: wraps = [w for w in [n, 'const %s' % n] if w == n or not (cc == 1 and mc in (0, 2, 3))]   # the standard library requires element types not to throw on destruction
    body = ' '.join('mirror<%s>("%s = %s");' % (w, w, label) for w in wraps)
    s += 'static void %s_m(Case& c) { %s c.nontrivial(); }\nREG_ONCE("special members of %s", %s_m);\n' % (n, body, n, n)
    s += 'static void %s_c(Case& c) { conduct<%s>(c, "%s", %d, %d, %d, %d, %s); }\nREG("conduct of %s", %s_c);\n' % (n, n, label, cc, mc, ca, ma, 'true' if dt else 'false', n, n)
    return s
FIXED = ['int', 'bool', 'double', 'const int', 'int*', 'const char*', 'std::string', 'const std::string', 'std::string_view', 'std::vector<int>', 'std::unique_ptr<Base19>', 'std::unique_ptr<Derived19>', 'std::shared_ptr<Base19>', 'std::any', 'std::optional<int>', 'std::function<void()>', 'std::variant<int, std::string>', 'opt::option<int>', 'opt::option<bool>', 'opt::option<std::string>', 'opt::option<opt::option<int>>', 'std::nullptr_t', 'Base19', 'Derived19', 'Any19', 'FromOpt19', 'FromBool19']
PRE = '''namespace { struct Base19 { Base19(); Base19(const Base19&); Base19(Base19&&) noexcept; Base19& operator=(const Base19&); virtual ~Base19() = default; int x; }; struct Derived19 : Base19 { Derived19(); int y; };
struct Any19 { int k; template<class X, class = std::enable_if_t<!std::is_same_v<std::decay_t<X>, Any19>>> Any19(X&&) : k(1) {} };
struct FromOpt19 { int k; FromOpt19() : k(0) {} FromOpt19(int) : k(1) {} FromOpt19(const opt::option<int>&) : k(2) {} };
struct FromBool19 { int k; FromBool19(bool) : k(1) {} FromBool19& operator=(bool) { return *this; } }; }
'''
def family(r, tag, nt):
    """mutually related types: constructors and assignments of each from sources, options of sources and builtins; conversions of sources"""
    src = ['%sA%d' % (tag, k) for k in range(3)]; tgt = ['%sT%d' % (tag, k) for k in range(nt)]
    s = 'namespace {\n' + ''.join('struct %s; ' % x for x in src + tgt) + '\n'
    froms = src + ['int', 'bool', 'const char*', 'std::string'] + ['opt::option<%s>' % x for x in src] + ['opt::option<int>', 'opt::option<bool>', 'opt::none_t']
    for t in tgt:
        b = ['int k; %s(char*, char*) : k(9) {}' % t]   # never an aggregate
        for f in r.sample(froms, r.randint(1, 5)):
            for form in r.sample(['%s const&', '%s&&', '%s&', '%s'], r.choice([1, 1, 2])):
                if form == '%s' and len(b) and any(f in x for x in b): continue
                if form == '%s' and (f in src or 'option' in f): form = '%s const&'   # incomplete here
                k = r.choice(['', '', 'explicit ', 'explicit ', 'del'])
                d = '%s%s(%s)%s' % ('' if k == 'del' else k, t, form % f, ' = delete;' if k == 'del' else ' : k(1) {}')
                if any(('(%s)' % (form % f)) in x and 'operator' not in x for x in b): continue
                b.append(d)
        for f in r.sample(froms, r.randint(0, 4)):
            form = r.choice(['%s const&', '%s&&', '%s const&'])
            d = '%s& operator=(%s)%s' % (t, form % f, r.choice([' { return *this; }', ' { return *this; }', ' { return *this; }', ' = delete;']))
            b.append(d)
        if r.random() < .5: b.append('%s() : k(0) {}' % t)
        m = r.choice([0, 0, 0, 1, 2, 3])
        if m == 1: b.append('%s(const %s&) = delete; %s(%s&&) : k(2) {} %s& operator=(%s&&) { return *this; } ' % ((t,) * 6))
        if m == 2: b.append('%s(const %s&) : k(2) {} %s& operator=(const %s&) = delete; ' % ((t,) * 4))
        if m == 3: b.append('%s(const %s&) = delete; %s& operator=(const %s&) = delete; ' % ((t,) * 4))
        s += 'struct %s { %s };\n' % (t, ' '.join(b))
    for a in src:
        b = ['int k; %s(int x) : k(x) {}' % a]
        for f in r.sample(tgt + ['int', 'bool', 'double', 'std::string'], r.randint(0, 4)):
            b.append('%soperator %s() %s { throw 1; }' % (r.choice(['', '', 'explicit ']), f, r.choice(['const', 'const', '', '&&', 'const&', '&'])))
        s += 'struct %s { %s };\n' % (a, ' '.join(b))
    s += '}\n'
    return s, src, tgt
def generate(d, seed, tier):
    n1, per, n2, nt = (4, 40, 3, 7) if tier == 'quick' else (14, 60, 9, 8)
    out = []; r = random.Random('p19-%s-%s' % (seed, tier)); count = 0
    combos = [(a, b, c, e, f) for a in (0, 1, 2, 3, 5) for b in (0, 1, 2, 3, 4) for c in (0, 1, 2, 3, 5) for e in (0, 1, 2, 3, 4) for f in (0, 0, 1, 2)]
    picked = r.sample(combos, n1 * per)
    for t in range(n1):
        s = '#include "p19_common.hpp"\n'
        for i in range(per): s += special(r, 'g%d_' % t, i, picked[t * per + i]); count += 1
        p = os.path.join(d, 'p19_g%d.cpp' % t); open(p, 'w').write(s); out.append(p)
    for t in range(n2):
        s = '#include "p19_common.hpp"\n' + PRE; fam, src, tgt = family(r, 'f%d_' % t, nt); s += fam
        others = src + tgt + r.sample(FIXED, 6) + ['int', 'bool', 'opt::option<int>', 'opt::option<%s>' % src[0], 'opt::option<%s>' % tgt[0]]
        others = list(dict.fromkeys(others)); names = ', '.join('"%s"' % x for x in others)
        rows = tgt + ['opt::option<%s>' % tgt[1], 'opt::option<%s>' % src[1], 'bool', 'const %s' % tgt[2], 'std::pair<int, %s>' % tgt[0]]
        for k, x in enumerate(rows):
            s += 'static void f%d_%d(Case& c) { static const char* const n[] = {%s}; against<%s, %s>(c, "%s", n); }\nREG_ONCE("construction and assignment of option<%s>", f%d_%d);\n' % (t, k, names, x, ', '.join(others), x, x, t, k)
        p = os.path.join(d, 'p19_f%d.cpp' % t); open(p, 'w').write(s); out.append(p)
    nf = 1 if tier == 'quick' else 3
    for t in range(nf):
        s = '#include "p19_common.hpp"\n' + PRE; rows = r.sample(FIXED, 12) if tier == 'quick' else FIXED[t::nf]
        cols = r.sample(FIXED, 14) if tier == 'quick' else FIXED
        names = ', '.join('"%s"' % x for x in cols)
        for k, x in enumerate(rows):
            s += 'static void x%d_%d(Case& c) { static const char* const n[] = {%s}; against<%s, %s>(c, "%s", n); }\nREG_ONCE("construction and assignment of option<%s>", x%d_%d);\n' % (t, k, names, x, ', '.join(cols), x, x, t, k)
        p = os.path.join(d, 'p19_x%d.cpp' % t); open(p, 'w').write(s); out.append(p)
    SUMMARY.update({'special member combinations': count, 'families of convertible types': n2, 'modes': MODES})
    return out
