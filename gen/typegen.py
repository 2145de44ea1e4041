"""Random contained types: leaves with known documented levels, closed under pair, tuple, array, aggregate,
tuple-like class, padded class, complex, const members and option. Emits Ty<> specialisations (harness/types.hpp)."""
import random

# (C++ spelling, level expression, default constructible, trivially copyable, copyable)
LEAVES = [
    ('bool', 'BI(254)', 1, 1, 1), ('float', 'BI(256)', 1, 1, 1), ('double', 'BI(256)', 1, 1, 1), ('int*', 'BI(512)', 1, 1, 1), ('const char*', 'BI(512)', 1, 1, 1),
    ('int', '0', 1, 1, 1), ('unsigned char', '0', 1, 1, 1), ('char', '0', 1, 1, 1), ('short', '0', 1, 1, 1), ('long long', '0', 1, 1, 1), ('u64', '0', 1, 1, 1),
    ('std::string', 'BI(255)', 1, 0, 1), ('std::string_view', 'BI(255)', 1, 1, 1), ('std::vector<int>', 'BI(255)', 1, 0, 1), ('std::unique_ptr<int>', 'BI(255)', 1, 0, 0), ('std::shared_ptr<int>', '0', 1, 0, 1), ('std::wstring', 'BI(255)', 1, 0, 1), ('PlainVec', 'BI(255)', 1, 0, 1), ('PlainStr', 'BI(255)', 1, 0, 1), ('std::vector<bool>', 'BI(255)', 1, 0, 1),
    ('std::reference_wrapper<int>', 'BI(256)', 0, 1, 1), ('int Host::*', 'BI(255)', 1, 1, 1), ('int (Host::*)(int)', 'BI(255)', 1, 1, 1), ('void (*)()', 'BI(512)', 1, 1, 1),
    ('ES', 'BI(1)', 1, 1, 1), ('ESS', 'BI(6)', 1, 1, 1), ('ESE', 'BI(11)', 1, 1, 1), ('E8', 'BI(SAME)', 1, 1, 1), ('E32', 'BI(SAME)', 1, 1, 1), ('EU', 'BI(SAME)', 1, 1, 1),
    ('Padded', 'BI(255)', 1, 1, 1), ('Padded16', 'BI(65535)', 0, 1, 1), ('Poly', 'BI(255)', 0, 0, 1), ('PolyD', 'BI(255)', 0, 0, 1),
    ('sent_int', '1', 0, 1, 1), ('sent_int3', '3', 0, 1, 1), ('UT', '3', 0, 1, 1), ('UTN<false>', '2', 0, 0, 1), ('TrackedN<1>', '0', 0, 0, 1), ('MoveOnly', '0', 0, 0, 0), ('TriNoDef', '0', 0, 1, 1), ('Empty', '0', 1, 1, 1),
    ('std::complex<float>', 'BI(256)', 1, 1, 1), ('std::complex<double>', 'BI(256)', 1, 1, 1),
]

class Node:
    def __init__(self, cpp, lv, defs=(), dc=True, tc=True, cp=True, assignable=True, depth=0):
        self.cpp, self.lv, self.defs, self.dc, self.tc, self.cp, self.asg, self.depth = cpp, lv, list(defs), dc, tc, cp, assignable, depth
        # (good_kids) options of classes or of move-only types: Boost.PFR's constructibility probes do not compile for
        # aggregates with such a member under clang (the same with std::optional), so aggregates do not get one

    @property
    def size(self):
        # rough compile-time weight: Boost.PFR probes every way of initialising an aggregate's members
        import re
        return len(re.findall(r'[<,]', self.cpp)) + sum(len(re.findall(r'[<,;]', d.split(chr(10))[0])) for d in self.defs) + 1

def merge(nodes):
    out = []
    for n in nodes:
        for d in n.defs:
            if d not in out: out.append(d)
    return out

class Gen:
    def __init__(self, seed, prefix='G'):
        self.r = random.Random(seed); self.n = 0; self.prefix = prefix
    def leaf(self, want_level=None):
        while True:
            c, lv, dc, tc, cp = self.r.choice(LEAVES)
            if want_level is not None and (lv == '0') == want_level: continue
            lv = lv.replace('SAME', 'opt::option_traits<%s>::max_level' % c)
            return Node(c, lv, dc=bool(dc), tc=bool(tc), cp=bool(cp))
    def kids(self, n, depth):
        # one element somewhere that carries levels, the others mostly do not: a wrong choice of member shows
        k = [self.leaf(False) if self.r.random() < .55 else self.any(depth - 1) for _ in range(n)]
        if self.r.random() < .85: k[self.r.randrange(n)] = self.any(depth - 1, True)
        return k
    def any(self, depth, leveled=False):
        if depth <= 0: return self.leaf(True if leveled else None)
        k = self.r.choice(['leaf', 'pair', 'pair', 'tuple', 'tuple', 'array', 'struct', 'struct', 'struct', 'option', 'option', 'tlike', 'padded', 'sentmem'])
        return getattr(self, 'mk_' + k)(depth)
    def good_kids(self, n, depth):
        while True:
            k = self.kids(n, depth)
            if sum(x.size for x in k) > 14 or any(x.depth > 1 and x.size > 5 for x in k): n = max(1, n - self.r.randint(0, 1)); depth = max(1, depth - self.r.randint(0, 1)); continue
            if not any('opt::option<' in x.cpp or any('opt::option<' in d for d in x.defs) for x in k): return k
            k = [x for x in k]
            if all(self.simple_option(x) or not ('opt::option<' in x.cpp or any('opt::option<' in d for d in x.defs)) for x in k): return k
    def simple_option(self, x): return x.cp and not x.defs and x.depth == 1 and x.cpp.startswith('opt::option<') and x.cpp not in ('opt::option<Empty>', 'opt::option<Padded>')
    def top(self, depth):
        while True:
            n = self.any(depth)
            if n.depth > 0: return n
    def mk_leaf(self, d): return self.leaf()
    def mk_pair(self, d):
        a, b = self.kids(2, d); ca = cb = ''
        if self.r.random() < .12 and a.cp and self.safe_const(a): ca = 'const '
        lv = 'mx(%s, %s)' % ('0' if ca else a.lv, b.lv)
        return Node('std::pair<%s, %s>' % (self.cst(ca, a.cpp), b.cpp), lv, merge([a, b]), a.dc and b.dc, a.tc and b.tc, a.cp and b.cp, a.asg and b.asg and not ca, 1 + max(a.depth, b.depth)).bi()
    def cst(self, c, cpp): return cpp if not c else 'std::add_const_t<%s>' % cpp
    def safe_const(self, n): return n.asg
    def mk_tuple(self, d):
        k = self.kids(self.r.randint(1, 5), d)
        # Boost.PFR does not count the fields of an aggregate with a tuple of one move-only element (clang)
        if len(k) == 1 and not k[0].cp: k = k + [self.leaf()]
        return Node('std::tuple<%s>' % ', '.join(x.cpp for x in k), 'mx(%s)' % ', '.join(x.lv for x in k), merge(k), all(x.dc for x in k), all(x.tc for x in k), all(x.cp for x in k), all(x.asg for x in k), 1 + max(x.depth for x in k)).bi()
    def mk_array(self, d):
        e = self.any(d - 1, True); n = self.r.choice([1, 2, 3, 7])
        return Node('std::array<%s, %d>' % (e.cpp, n), e.lv, e.defs, e.dc, e.tc, e.cp, e.asg, 1 + e.depth).bi()
    def mk_option(self, d):
        e = self.any(d - 1)
        return Node('opt::option<%s>' % e.cpp, 'OPTL(%s)' % e.lv, e.defs, True, e.tc, e.cp, e.asg, 1 + e.depth)
    def fresh(self, p): self.n += 1; return '%s%s%d' % (self.prefix, p, self.n)
    def make_text(self, k): return ['Ty<%s>::make(%s)' % (x.cpp, 's' if i == 0 else 'mix(s + %d)' % i) for i, x in enumerate(k)]
    def same_text(self, k, acc): return ' && '.join('Ty<%s>::same(%s, %s)' % (x.cpp, acc(i), 's' if i == 0 else 'mix(s + %d)' % i) for i, x in enumerate(k))
    def mk_struct(self, d):
        k = self.good_kids(self.r.randint(1, 6), d); nm = self.fresh('S')
        con = [self.r.random() < .1 and x.cp and x.asg for x in k]
        body = ' '.join('%s%s m%d;' % ('const ' if c and not x.cpp.endswith(')') and '*' not in x.cpp else '', D(x.cpp), i) for i, (x, c) in enumerate(zip(k, con)))
        con = [c and not x.cpp.endswith(')') and '*' not in x.cpp for x, c in zip(k, con)]
        df = 'struct %s { %s };\ntemplate<> struct Ty<%s> { using T = %s; static T make(u64 s) { return T{%s}; } static bool same(const T& v, u64 s) { return %s; } static const char* name() { return "%s"; } };' % (
            nm, body, nm, nm, ', '.join(self.make_text(k)), self.same_text(k, lambda i: 'v.m%d' % i), ('struct{' + body + '}').replace('"', ''))
        lv = 'mx(%s)' % ', '.join('0' if c else x.lv for x, c in zip(k, con))
        # a class with a single member that is itself empty or polymorphic members stay ordinary aggregates
        n = Node(nm, 'PFR(%s)' % lv, merge(k) + [df], all(x.dc for x in k), all(x.tc for x in k), all(x.cp for x in k), all(x.asg for x in k) and not any(con), 1 + max(x.depth for x in k))
        return n.bi()
    def mk_tlike(self, d):
        k = self.kids(self.r.randint(1, 4), d); nm = self.fresh('T'); member = self.r.random() < .5
        body = ' '.join('%s m%d;' % (D(x.cpp), i) for i, x in enumerate(k))
        args = ', '.join('%s a%d' % (D(x.cpp), i) for i, x in enumerate(k)); init = ', '.join('m%d(std::move(a%d))' % (i, i) for i in range(len(k)))
        sel = ' else '.join('if constexpr (I == %d) return (%%sm%d);' % (i, i) for i in range(len(k)))
        df = 'class %s { %s public: explicit %s(%s) : %s {}\n' % (nm, body, nm, args, init)
        if member: df += ' template<std::size_t I> auto& get() & { %s } template<std::size_t I> const auto& get() const& { %s } template<std::size_t I> auto&& get() && { %s }\n' % (sel.replace('%s', ''), sel.replace('%s', ''), ' else '.join('if constexpr (I == %d) return std::move(m%d);' % (i, i) for i in range(len(k))))
        else: df += ' template<std::size_t I> friend auto& get(%s& x) { %s } template<std::size_t I> friend const auto& get(const %s& x) { %s }\n' % (nm, sel.replace('%s', 'x.'), nm, sel.replace('%s', 'x.'))
        df += ' static bool same(const %s& v, u64 s) { return %s; } };\n' % (nm, self.same_text(k, lambda i: 'v.m%d' % i))
        df += 'template<> struct std::tuple_size<%s> : std::integral_constant<std::size_t, %d> {};\n' % (nm, len(k))
        for i, x in enumerate(k): df += 'template<> struct std::tuple_element<%d, %s> { using type = %s; };\n' % (i, nm, x.cpp)
        df += 'template<> struct Ty<%s> { using T = %s; static T make(u64 s) { return T(%s); } static bool same(const T& v, u64 s) { return T::same(v, s); } static const char* name() { return "tuple-like class{%s}"; } };' % (nm, nm, ', '.join(self.make_text(k)), body)
        return Node(nm, 'mx(%s)' % ', '.join(x.lv for x in k), merge(k) + [df], False, all(x.tc for x in k), all(x.cp for x in k), all(x.asg for x in k), 1 + max(x.depth for x in k)).bi()
    def mk_padded(self, d):
        k = self.kids(self.r.randint(1, 3), d); nm = self.fresh('P'); pt, lv = self.r.choice([('std::uint8_t', 255), ('std::uint16_t', 65535), ('std::uint32_t', 4294967295), ('unsigned char', 255), ('std::uint64_t', '18446744073709551615u')])
        mem = ['%s m%d;' % (D(x.cpp), i) for i, x in enumerate(k)]; pos = self.r.randint(0, len(k)); mem.insert(pos, '%s PADDING = 0;' % pt); body = ' '.join(mem)
        args = ', '.join('%s a%d' % (D(x.cpp), i) for i, x in enumerate(k)); init = ', '.join('m%d(std::move(a%d))' % (i, i) for i in range(len(k)))
        df = 'struct %s { %s explicit %s(%s) : %s {} };\ntemplate<> struct Ty<%s> { using T = %s; static T make(u64 s) { return T(%s); } static bool same(const T& v, u64 s) { return v.PADDING == 0 && %s; } static const char* name() { return "class{%s}"; } };' % (
            nm, body, nm, args, init, nm, nm, ', '.join(self.make_text(k)), self.same_text(k, lambda i: 'v.m%d' % i), body)
        return Node(nm, 'BI(%s)' % lv, merge(k) + [df], False, all(x.tc for x in k), all(x.cp for x in k), all(x.asg for x in k), 1 + max(x.depth for x in k))
    def mk_sentmem(self, d):
        # levels through a named member with opt::member, even when another member has more levels
        k = self.kids(self.r.randint(1, 4), d); nm = self.fresh('M'); pos = self.r.randrange(len(k))
        body = ' '.join('%s m%d;' % (D(x.cpp), i) for i, x in enumerate(k))
        args = ', '.join('%s a%d' % (D(x.cpp), i) for i, x in enumerate(k)); init = ', '.join('m%d(std::move(a%d))' % (i, i) for i in range(len(k)))
        df = 'struct %sb { %s explicit %sb(%s) : %s {} };\nusing %s = opt::member<%sb, &%sb::m%d>;\ntemplate<> struct Ty<%s> { using T = %s; static T make(u64 s) { return T(%s); } static bool same(const T& w, u64 s) { const %sb& v = w; return %s; } static const char* name() { return "member wrapper of class{%s}"; } };' % (
            nm, body, nm, args, init, nm, nm, nm, pos, nm, nm, ', '.join(self.make_text(k)), nm, self.same_text(k, lambda i: 'v.m%d' % i), body)
        return Node(nm, k[pos].lv, merge(k) + [df], False, all(x.tc for x in k), all(x.cp for x in k), all(x.asg for x in k), 1 + max(x.depth for x in k))

def D(cpp): return cpp if '(' not in cpp and '::*' not in cpp else 'std::common_type_t<%s>' % cpp
def _bi(n): n.lv = 'BI(%s)' % n.lv; return n
Node.bi = _bi

HEAD = '''#include "%s"
#ifndef LEVEL_MACROS
#define LEVEL_MACROS
template<class... L> constexpr std::uintmax_t mx(L... l) { std::uintmax_t r = 0; ((r = std::uintmax_t(l) > r ? std::uintmax_t(l) : r), ...); return r; }
constexpr std::uintmax_t OPTL_(std::uintmax_t l) { return l > 0 ? l - 1 : 254; }
#if OPTION_USE_BUILTIN_TRAITS
#define BI(...) (__VA_ARGS__)
#else
#define BI(...) 0
#endif
#define OPTL(...) BI(OPTL_(__VA_ARGS__))
#ifdef OPTION_HAS_PFR
#define PFR(...) (__VA_ARGS__)
#else
#define PFR(...) 0
#endif
#endif
'''

def emit(directory, name, header, seed, ntypes, nfiles, reg, depth=3, extra_defs=''):
    """reg(node, index) -> registration text; returns file list and a summary"""
    import os
    files, summ = [], []
    for f in range(nfiles):
        g = Gen(seed * 7919 + f, 'G%d' % f); text = HEAD % header; seen = set(); k = 0; regs = []
        text += extra_defs
        done = []
        for i in range(ntypes):
            n = g.top(g.r.choice([1, 2, 2, depth]))
            for d in n.defs:
                if d not in seen: seen.add(d); text += d + '\n'
            regs.append(reg(n, i)); summ.append(n.cpp)
        text += '\n'.join(regs) + '\n'
        p = os.path.join(directory, '%s_%d.cpp' % (name, f)); open(p, 'w').write(text); files.append(p)
    return files, summ
