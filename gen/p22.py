"""Random wrappers: sentinel, sentinel_f, member, enforce and sentinel_option_traits over many kinds of types, and nests of them."""
import os, random, subprocess, tempfile
SUMMARY = {}
INTS = [('signed char', 8, 1), ('unsigned char', 8, 0), ('char', 8, 1), ('short', 16, 1), ('unsigned short', 16, 0), ('int', 32, 1), ('unsigned', 32, 0), ('long', 64, 1), ('unsigned long', 64, 0), ('long long', 64, 1), ('char16_t', 16, 0), ('char32_t', 32, 0), ('wchar_t', 32, 1)]
def lim(b, s): return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
def lit(v, b, s):
    if b < 32 or (b == 32 and s): return '(-2147483647 - 1)' if v == -(1 << 31) else str(v)
    if s: return '(-9223372036854775807LL - 1)' if v == -(1 << 63) else '%dLL' % v
    return '%dULL' % v if b == 64 else '%dU' % v
def distinct(r, b, s, n):
    lo, hi = lim(b, s); out = []
    while len(out) < n:
        v = r.choice([lo, hi, 0, 1, -1, 2, lo + 1, hi - 1, r.randint(lo, hi), 7, 100, hi // 2, (out[-1] + 1) if out else 3])
        if lo <= v <= hi and v not in out: out.append(v)
    return out
def count(r): return r.choice([1, 1, 2, 2, 3, 3, 4, 5, 8, 17])
def wrap_desc(tag, label, T, W, n, free, same, put=None, state=None, keeps=True):
    s = 'struct %s { using T = %s; using W = %s; static constexpr unsigned long long n = %s; static const char* label() { return "%s"; }\n' % (tag, T, W, n, label.replace('"', "'"))
    s += '  static T free(u64 s) { %s }\n  static bool same(const T& a, const T& b) { %s }\n  static constexpr bool raw = %s, keeps = %s;\n' % (free, same, 'true' if put else 'false', 'true' if put and keeps else 'false')
    s += '  static void put(T& t, int k) { %s }\n  static int state(const T& t) { %s }\n};\n' % (put or '(void)t; (void)k;', state or '(void)t; return -1;')
    return s
def switch(n, f): return 'switch (k) { ' + ' '.join('case %d: %s; break;' % (i, f(i)) for i in range(n)) + ' }'
def ifs(n, f): return ' '.join('if (%s) return %d;' % (f(i), i) for i in range(n)) + ' return -1;'
def plain_kind(r, tag):
    """(declarations, T, values as literals, free body, equality of t with value i, assignment of value i to t)"""
    k = r.choice(['int', 'int', 'int', 'int', 'enum', 'scoped', 'pointer', 'double', 'float', 'bool', 'memptr', 'fnptr', 'struct', 'padded'])
    if k == 'int':
        T, b, s = r.choice(INTS); n = count(r); v = distinct(r, b, s, n); L = [lit(x, b, s) for x in v]
        if T not in ('char', 'wchar_t') and b >= 16 and r.random() < .3: L = ['%s(%s)' % (T, x) if ' ' not in T else 'static_cast<%s>(%s)' % (T, x) for x in L]
        near = ', '.join('u64(%s)' % lit((x + d), 64, 1) if -(1 << 63) <= x + d < (1 << 63) else 'u64(%s)' % lit((x + d) % (1 << 64), 64, 0) for x in v[:6] for d in (-1, 1))
        free = 'static const u64 near[] = {%s}; for (u64 i = 0;; ++i) { T t = T(i == 0 && s %% 3 == 0 ? near[s / 3 %% %d] : i ? mix(s + i) : s); if (state(t) < 0) return t; }' % (near, 2 * min(6, len(v)))
        return '', T, L, free, lambda i, e='t': e + ' == T(%s)' % lit(v[i], b, s), lambda i, e='t': e + ' = T(%s)' % lit(v[i], b, s)
    if k in ('enum', 'scoped'):
        e = tag + 'E'; n = r.randint(1, 4); m = n + r.randint(1, 5); vals = r.sample(range(0, 200), m); und = r.choice(['int', 'unsigned char', 'unsigned short', 'long'])
        d = 'enum %s%s : %s { %s };\n' % ('class ' if k == 'scoped' else '', e, und, ', '.join('%s_%d = %d' % (e, i, x) for i, x in enumerate(vals)))
        q = (lambda i: '%s::%s_%d' % (e, e, i)); idx = r.sample(range(m), n); rest = [i for i in range(m) if i not in idx]
        return d, e, [q(i) for i in idx], 'static const T all[] = {%s}; return all[s %% %d];' % (', '.join(q(i) for i in rest), len(rest)), lambda i, e='t': e + ' == ' + q(idx[i]), lambda i, e='t': e + ' = ' + q(idx[i])
    if k == 'pointer':
        T = r.choice(['const int*', 'int*', 'int*']); d = 'inline int %s_g[8]; inline int %s_a, %s_b;\n' % (tag, tag, tag); pool = ['nullptr', '&%s_a' % tag, '&%s_b' % tag, '&%s_g[3]' % tag][:4]; L = r.sample(pool[:3], r.randint(1, 3))
        return d, T, L, 'for (u64 i = s;; ++i) { T all[] = {&%s_g[s %% 8], &%s_a, &%s_b, nullptr, &%s_g[7]}; T t = all[i %% 5]; if (state(t) < 0) return t; }' % (tag, tag, tag, tag), lambda i, e='t': e + ' == %s' % L[i], lambda i, e='t': e + ' = %s' % L[i]
    if k in ('double', 'float'):
        n = r.randint(1, 4); v = r.sample([-1, 0, 1, 2, 100, -7, 65536], n)
        return '', k, [str(x) for x in v], 'for (u64 i = 0;; ++i) { T t = T(std::int64_t(mix(s + i) %% 2001) - 1000) / T(s %% 4 + 1); if (s %% 5 == 0) t = std::numeric_limits<T>::infinity(); if (state(t) < 0) return t; }', lambda i, e='t': e + ' == T(%d)' % v[i], lambda i, e='t': e + ' = T(%d)' % v[i]
    if k == 'bool':
        v = r.choice(['true', 'false']); return '', 'bool', [v], 'return !%s;' % v, lambda i, e='t': e + ' == %s' % v, lambda i, e='t': e + ' = %s' % v
    if k == 'memptr':
        d = 'struct %sM { int a, b, c; };\n' % tag; L = r.sample(['nullptr', '&%sM::b' % tag], r.randint(1, 2))
        return d, 'int %sM::*' % tag, L, 'return s %% 2 ? &%sM::a : &%sM::c;' % (tag, tag), lambda i, e='t': e + ' == %s' % L[i], lambda i, e='t': e + ' = %s' % L[i]
    if k == 'fnptr':
        d = 'inline int %s_f(int x) { return x; } inline int %s_h(int x) { return x + 1; } inline int %s_i(int x) { return x + 2; }\n' % (tag, tag, tag); L = r.sample(['nullptr', '%s_f' % tag], r.randint(1, 2))
        return d, 'int (*)(int)', L, 'return s %% 2 ? %s_h : %s_i;' % (tag, tag), lambda i, e='t': e + ' == %s' % L[i], lambda i, e='t': e + ' = %s' % L[i]
    n = count(r); v = distinct(r, 32, 1, n); pad = 'char before; ' if k == 'padded' else ''
    d = 'struct %sS { %sint x; %sS() = default; %sS(int y, %s) : %sx(y) {} bool operator==(int y) const { return x == y; } %sS& operator=(int y) { x = y; return *this; } };\n' % (tag, pad, tag, tag, 'char b' if pad else 'int', 'before(b), ' if pad else '', tag)
    free = 'for (u64 i = 0;; ++i) { T t(int(i ? mix(s + i) : s), 1); if (state(t) < 0) return t; }'
    return d, tag + 'S', [lit(x, 32, 1) for x in v], free, lambda i, e='t': e + '.x == (%s)' % lit(v[i], 32, 1), lambda i, e='t': e + '.x = (%s)' % lit(v[i], 32, 1)
def eq(T): return 'return a.x == b.x;' if T.endswith('S') else 'return a == b;'
def sentinel(r, tag):
    d, T, L, free, is_, put = plain_kind(r, tag); n = len(L); fix = free.replace('%%', '%')
    if r.random() < .35:   # user-supplied functions, with no usable == and =
        kind = 'F'; S = tag + 'F'; d += 'struct %s { %s x; %s() = default; explicit %s(%s y) : x(y) {} bool operator==(int) const = delete; };\n' % (S, decl_safe(T), S, S, T) if not fn_like(T) else ''
        if fn_like(T): S = None
        if S:
            by_index = r.random() < .5; vals = [str(i * 3 + 1) for i in range(n)] if by_index else L
            cmp = ' '.join('if (v == %s) return %s;' % (x, is_(i, 'f.x')) for i, x in enumerate(vals)) if by_index else None
            if by_index:
                d += 'struct %sC { bool operator()(const %s& f, int v) const { using T = %s; ++calls[0]; %s std::abort(); } static inline long calls[2] = {}; };\n' % (tag, S, alias(T), cmp)
                d += 'struct %sP { void operator()(%s& f, int v) const { using T = %s; ++%sC::calls[1]; %s std::abort(); } };\n' % (tag, S, alias(T), tag, ' '.join('if (v == %s) { %s; return; }' % (x, put(i, 'f.x')) for i, x in enumerate(vals)))
            else:
                d += 'struct %sC { template<class V> bool operator()(const %s& f, V v) const { ++calls[0]; return f.x == v; } static inline long calls[2] = {}; };\nstruct %sP { template<class V> void operator()(%s& f, V v) const { ++%sC::calls[1]; f.x = v; } };\n' % (tag, S, tag, S, tag)
            W = 'opt::sentinel_f<%s, %sC, %sP, %s>' % (S, tag, tag, ', '.join(vals))
            fix2 = 'using U = %s; auto st = [](const U& t) { using T = U; %s }; auto f = [&]() -> U { using T = U; auto state = st; (void)state; %s }; return %s(f());' % (alias(T), ifs(n, is_), fix, S)
            out = d + wrap_desc(tag, 'sentinel_f<struct of %s, %d values>' % (T, n), S, W, n, fix2, 'return %s;' % ('a.x.x == b.x.x' if T.endswith('S') else 'a.x == b.x'), 'using T = %s; ' % alias(T) + switch(n, lambda i: put(i, 't.x')), 'using U = %s; const U& u = t.x; return [](const U& t) { using T = U; %s }(u);' % (alias(T), ifs(n, is_)))
            out = out.replace('T(', 'T(')
            out += 'static void %s_calls(Case& c) { using O = opt::option<%s>; long a = %sC::calls[0], b = %sC::calls[1]; O o; REQUIRE_MSG(%sC::calls[1] == b + 1, "%s: constructing an empty option does not call the set function once"); REQUIRE(!o.has_value()); REQUIRE(%sC::calls[0] > a); o = %s::free(c.interesting()); b = %sC::calls[1]; REQUIRE(o.has_value()); o.reset(); REQUIRE_MSG(%sC::calls[1] == b + 1, "%s: reset does not call the set function once"); c.nontrivial(); }\n' % (tag, W, tag, tag, tag, tag, tag, tag, tag, tag, tag)
            return out, n, tag, True
    W = 'opt::sentinel<%s, %s>' % (T, ', '.join(L)); extra = False
    x = r.random()
    if x < .12 and n >= 1:   # the wrapper of one enforced
        W = 'opt::enforce<%s>' % W; T2 = W[len('opt::enforce<'):-1]
        return d + wrap_desc(tag, 'enforce<sentinel<%s>>' % T, T2, W, n, 'using V = %s; auto st = [](const V& t) { using T = V; %s }; auto f = [&]() -> V { using T = V; auto state = st; (void)state; %s }; return T2(f());'.replace('T2', 'T') % (alias(T), ifs(n, is_), fix), eq(T).replace('a', 'a.m', 1).replace(' b', ' b.m'), 'using T = %s; ' % alias(T) + switch(n, lambda i: put(i, 't.m')), 'using V = %s; return [](const V& t) { using T = V; %s }(t.m);' % (alias(T), ifs(n, is_))), n, tag, False
    return d + wrap_desc(tag, 'sentinel<%s, %d values>' % (T, n), T if not fn_like(T) else alias(T), W, n, fix, eq(T), switch(n, put), ifs(n, is_)), n, tag, False
def fn_like(T): return '(*)' in T
def alias(T): return T if not fn_like(T) else 'std::decay_t<int(int)>'
def decl_safe(T): return T
# members with reserved states of their own: (declarations, type, constructor expression from u64 s, levels)
def member_type(r, tag, j):
    k = r.choice(['bool', 'double', 'float', 'int*', 'ref', 'enum', 'sent', 'optint', 'string', 'vector', 'shared', 'unique', 'plain', 'view', 'pair', 'nested'])
    if k == 'bool': return '', 'bool', 'bool(s & 1)', 254, True
    if k in ('double', 'float'): return '', k, '%s(s %% 1000)' % k, 256, True
    if k == 'int*': return 'inline int %s_i%d[4];\n' % (tag, j), 'int*', '&%s_i%d[s %% 4]' % (tag, j), 512, True
    if k == 'ref': return 'inline int %s_r%d[4];\n' % (tag, j), 'std::reference_wrapper<int>', 'std::ref(%s_r%d[s %% 4])' % (tag, j), 256, True
    if k == 'enum': return 'enum class %sN%d { a, SENTINEL, b };\n' % (tag, j), '%sN%d' % (tag, j), 's & 1 ? %sN%d::a : %sN%d::b' % (tag, j, tag, j), 1, True
    if k == 'sent': n = r.randint(1, 3); return '', 'opt::sentinel<int, %s>' % ', '.join(str(-1 - i) for i in range(n)), 'int(s % 1000)', n, True
    if k == 'optint': return '', 'opt::option<int>', 's %% 3 ? opt::option<int>(int(s %% 1000)) : opt::option<int>()'.replace('%%', '%'), 254, True
    if k == 'string': return '', 'std::string', 'std::string(s % 40, char(97 + s % 26))', 255, False
    if k == 'vector': return '', 'std::vector<int>', 'std::vector<int>(s % 5, int(s))', 255, False
    if k == 'shared': return '', 'std::shared_ptr<int>', 's & 1 ? std::make_shared<int>(int(s)) : nullptr', 0, False
    if k == 'unique': return '', 'std::unique_ptr<int>', 's & 1 ? std::make_unique<int>(int(s)) : nullptr', 255, False
    if k == 'plain': return '', 'long', 'long(s)', 0, False
    if k == 'view': return '', 'std::string_view', 's & 1 ? std::string_view("abc") : std::string_view()', 255, True
    if k == 'pair': return '', 'std::pair<int, bool>', 'std::pair<int, bool>(int(s), bool(s & 1))', 254, True
    return '', 'opt::option<bool>', 's %% 3 ? opt::option<bool>(bool(s & 4)) : opt::option<bool>()'.replace('%%', '%'), 253, True
OTHER = [('int', 'int(s)'), ('char', 'char(s)'), ('double', 'double(s % 77)'), ('bool', 'bool(s & 2)'), ('std::string', 'std::string("x")'), ('int*', 'nullptr'), ('long', 'long(s)')]
def eqm(t, f):
    if t.startswith('std::reference_wrapper'): return '&a.%s.get() == &b.%s.get()' % (f, f)
    if t.startswith('opt::sentinel'): return 'a.%s.m == b.%s.m' % (f, f)
    if '_ptr<' in t: return 'bool(a.%s) == bool(b.%s) && (!a.%s || *a.%s == *b.%s)' % (f, f, f, f, f)
    return 'a.%s == b.%s' % (f, f)
def member(r, tag):
    d, mt, expr, n, triv = member_type(r, tag, 0); others = [r.choice(OTHER) for _ in range(r.randint(0, 3))]
    fields = [('sel', mt, expr)] + [('o%d' % i, t, e) for i, (t, e) in enumerate(others)]; r.shuffle(fields)
    base = r.random() < .25; raw = all(t != 'std::string' for _, t, _ in fields) and triv
    S = tag + 'T'
    if base:
        d += 'struct %sB { %s sel; explicit %sB(u64 s) : sel(%s) {} };\n' % (tag, mt, tag, expr)
        fs = [f for f in fields if f[0] != 'sel']; d += 'struct %s : %s%sB { %s %s(u64 s)%s {} };\n' % (S, 'Pre%s, ' % tag if False else '', tag, ' '.join('%s %s;' % (t, f) for f, t, _ in fs), 'explicit ' + S, ' : ' + ', '.join(['%sB(s)' % tag] + ['%s(%s)' % (f, e) for f, t, e in fs]))
    else: d += 'struct %s { %s explicit %s(u64 s) : %s {} };\n' % (S, ' '.join('%s %s;' % (t, f) for f, t, _ in fields), S, ', '.join('%s(%s)' % (f, e) for f, t, e in fields))
    W = 'opt::member<%s, &%s::sel>' % (S, S)
    tr = 'opt::option_traits<%s>' % mt
    if mt.startswith('opt::sentinel'): put, state = 't.sel.m = -1 - k;', 'return t.sel.m < 0 && t.sel.m >= -%d ? -1 - t.sel.m : -1;' % n
    elif mt.endswith('N0'): put, state = '(void)k; t.sel = decltype(t.sel)::SENTINEL;', 'return t.sel == %s::SENTINEL ? 0 : -1;' % mt
    else: put, state = '%s::set_level(&t.sel, std::uintmax_t(k));' % tr, 'auto l = %s::get_level(&t.sel); return l < %d ? int(l) : -1;' % (tr, n)
    return d + wrap_desc(tag, 'member of type %s%s among %d' % (mt, ' of a base' if base else '', len(fields)), S, W, n, 'return T(s);', 'return %s;' % ' && '.join(eqm(t, f) for f, t, _ in fields), put if raw else None, state if raw else None, mt.startswith('opt::sentinel')), n, tag, False
def enforce(r, tag):
    n = 0
    while n == 0: d, mt, expr, n, triv = member_type(r, tag, 0)
    tr = 'opt::option_traits<%s>' % mt; raw = triv and not mt.startswith('opt::sentinel') and not mt.endswith('N0')
    e = ('bool(a) == bool(b) && (!a || *a == *b)' if '_ptr<' in mt else 'a == b') if not mt.startswith(('std::ref', 'opt::sent')) else ('&a.get() == &b.get()' if mt.startswith('std::ref') else 'a.m == b.m')
    return d + wrap_desc(tag, 'enforce<%s>' % mt, mt, 'opt::enforce<%s>' % mt, n, 'return T(%s);' % expr, 'return %s;' % e, '%s::set_level(&t, std::uintmax_t(k));' % tr if raw else None, 'auto l = %s::get_level(&t); return l < %d ? int(l) : -1;' % (tr, n) if raw else None, False), n, tag, False
def traits(r, tag):
    """sentinel_option_traits specialisations: the option of the type itself"""
    k = r.choice(['struct', 'struct', 'int']); s = tag + 'Q'; v = r.choice([0, -1, 77, 2147483647]); two = r.random() < .4
    d = 'struct %s { int x; %sfriend bool operator==(const %s& a, const %s& b) { return a.x == b.x%s; } };\n' % (s, 'short y; ' if two else '', s, s, ' && a.y == b.y' if two else '')
    d += '}\ntemplate<> struct opt::sentinel_option_traits<%s> { static constexpr %s sentinel_value{%d%s}; };\nnamespace {\n' % (s, s, v, ', 5' if two else '')
    # a wrapper-shaped view: enforce clones the traits of the type
    return d + wrap_desc(tag, 'enforce of a type with sentinel_option_traits', s, 'opt::enforce<%s>' % s, 1, 'T t{}; t.x = int(s); %s if (state(t) == 0) t.x ^= 1; return t;' % ('t.y = short(s % 7);' if two else ''), 'return a == b;', '(void)k; t = opt::sentinel_option_traits<%s>::sentinel_value;' % s, 'return t.x == %d%s ? 0 : -1;' % (v, ' && t.y == 5' if two else '')), 1, tag, False
# whether option<enforce<T>> is accepted, for types that do and do not have spare states
ENF = [('int', 0), ('char', 0), ('long', 0), ('float', 1), ('double', 1), ('bool', 1), ('unsigned char', 0), ('int*', 1), ('void*', 1), ('std::nullptr_t', 0), ('std::string', 1), ('std::vector<int>', 1), ('std::unique_ptr<int>', 1), ('std::pair<int, long>', 0), ('std::pair<int, float>', 1), ('std::tuple<>', 0), ('std::tuple<char, int>', 0), ('std::tuple<char, bool>', 1), ('std::array<int, 3>', 0), ('std::array<bool, 3>', 1), ('opt::option<int>', 1), ('opt::option<bool>', 1), ('opt::sentinel<int, -1>', 1), ('opt::sentinel<int>', 0), ('opt::option<opt::sentinel<int, -1>>', 0), ('opt::option<opt::sentinel<int, -1, 3>>', 1), ('std::reference_wrapper<int>', 1), ('opt::enforce<bool>', 1), ('std::pair<opt::sentinel<long, 1>, char>', 1), ('Enf', 0), ('Ens', 1), ('Mem', 1), ('Un', 0), ('Cls', 0), ('opt::member<Mix, &Mix::b>', 1), ('opt::member<Mix, &Mix::i>', 0), ('std::optional<int>', 0), ('std::complex<float>', 1), ('unsigned long long', 0), ('wchar_t', 0)]
PRE = '#include <opt/option.hpp>\n#include <array>\n#include <complex>\n#include <functional>\n#include <memory>\n#include <optional>\n#include <string>\n#include <tuple>\n#include <vector>\nstruct Enf { Enf(int); int x; }; enum class Ens { a, SENTINEL }; struct Cls { Cls(); char c[5]; }; union Un { int a; float b; }; struct Mix { Mix(); int i; bool b; }; struct Mem { bool b; int i; };\n'
def rejects(flags, cc, t):
    src = PRE + 'void f(opt::option<opt::enforce<%s>>& o) { o.reset(); (void)o.has_value(); }\n' % t
    return subprocess.run([cc, *flags, '-w', '-fsyntax-only', '-x', 'c++', '-'], input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
def enforced(r, tier):
    from concurrent.futures import ThreadPoolExecutor
    pick = ENF if tier != 'quick' else r.sample(ENF, 26); jobs = [(t, w, cc, std) for t, w in pick for cc, std in [r.choice([('g++-13', '-std=c++17'), ('g++-13', '-std=c++20'), ('clang++-18', '-std=c++17'), ('clang++-18', '-std=c++20')])]]
    if tier == 'quick' : pass
    def one(j):
        t, w, cc, std = j; p = rejects([std, '-I' + os.environ.get('REPO_INCLUDE', '/repo/include')], cc, t); return j, p.returncode == 0, ('opt::enforce<T>' in p.stdout), p.stdout[:200]
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, jobs))
def generate(d, seed, tier):
    files, per = (3, 9) if tier == 'quick' else (8, 14); r = random.Random('p22-%s-%s' % (seed, tier)); out = []; kinds = {}
    for t in range(files):
        body, regs = '', ''
        for i in range(per):
            tag = 'w%d_%d' % (t, i); f = r.choices([sentinel, member, enforce, traits], [6, 3, 1, 1])[0]; kinds[f.__name__] = kinds.get(f.__name__, 0) + 1
            s, n, D, calls = f(r, tag); body += s
            depths = sorted(set([1, min(n, 2), r.randint(1, max(1, min(n, 4))), min(n, 4)] + ([n + 1] if n <= 3 else [])))
            for k in [k for k in depths if k]: regs += 'REG("%d options around %s", (&wrap::nested<%s, %d>));\n' % (k, tag, D, k)
            regs += 'REG("plain use of %s", (&wrap::plain<%s>));\n' % (tag, D)
            if calls: regs += 'REG("calls of %s", &%s_calls);\n' % (tag, tag)
        src = '#include "p22_common.hpp"\n#include <cstdlib>\n#include <limits>\nnamespace {\n' + body + '}\n' + regs
        p = os.path.join(d, 'p22_g%d.cpp' % t); open(p, 'w').write(src); out.append(p)
    s = '#include "p22_common.hpp"\nstatic void enforce_accepts(Case&) {\n'
    res = enforced(r, tier)
    for (ty, w, cc, std), ok, named, txt in res:
        good = (ok == bool(w)) and (ok or named); why = 'accepted' if ok else ('rejected by the static assertion' if named else 'rejected, but not by its static assertion')
        s += 'REQUIRE_MSG(%s, "%%s", "enforce<%s> (%s %s) is %s, expected %s");\n' % ('true' if good else 'false', ty, cc, std, why, 'accepted' if w else 'rejected by the static assertion')
    s += 'pbt::count_evals(%d, %d); }\nREG_ONCE("enforce accepts exactly the types with spare states", enforce_accepts);\n' % (len(res), len(res))
    p = os.path.join(d, 'p22_enforce.cpp'); open(p, 'w').write(s); out.append(p)
    SUMMARY.update({'generated wrappers': files * per, 'kinds': kinds, 'enforce decisions': len(res)})
    return out
