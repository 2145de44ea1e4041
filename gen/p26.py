"""Random classes with overloaded constructors and random aggregates, with random argument lists."""
import os, random
SUMMARY = {}
PARAMS = ['mk::A&', 'const mk::A&', 'mk::A&&', 'const mk::A&&', 'mk::A', 'int', 'int&', 'const int&', 'double', 'bool', 'const std::string&', 'std::string&&', 'std::string', 'std::string&', 'std::unique_ptr<int>', 'std::unique_ptr<int>&&', 'const char*', 'std::initializer_list<int>', 'int*', 'std::nullptr_t', 'const std::vector<int>&', 'std::vector<int>&&']
# expression, type as forwarded, parameters it fits
ARGS = {'e.a': 'mk::A&', 'e.b': 'mk::A&', 'e.ca': 'const mk::A&', 'std::move(e.a)': 'mk::A&&', 'std::move(e.b)': 'mk::A&&', 'std::move(e.ca)': 'const mk::A&&', 'e.d': 'mk::D&', 'std::move(e.d)': 'mk::D&&', 'e.i': 'int&', 'e.ci': 'const int&', 'std::move(e.i)': 'int&&', 'e.x': 'double&', 'e.t': 'bool&', 'e.s': 'std::string&', 'e.cs': 'const std::string&',
        'std::move(e.s)': 'std::string&&', 'std::move(e.u)': 'std::unique_ptr<int>&&', '"abc"': 'const char (&)[4]', 'e.il': 'std::initializer_list<int>&', 'e.p': 'int*&', 'std::move(e.p)': 'int*&&', 'e.v': 'std::vector<int>&', 'std::move(e.v)': 'std::vector<int>&&'}
FITS = {'mk::A&': ['e.a', 'e.b', 'e.d'], 'const mk::A&': ['e.a', 'e.ca', 'std::move(e.a)', 'std::move(e.ca)', 'e.d'], 'mk::A&&': ['std::move(e.a)', 'std::move(e.b)', 'std::move(e.d)'], 'const mk::A&&': ['std::move(e.a)', 'std::move(e.ca)'], 'mk::A': ['e.a', 'e.ca', 'std::move(e.b)', 'std::move(e.ca)'], 'int': ['e.i', 'e.ci', 'std::move(e.i)', 'e.x'], 'int&': ['e.i'], 'const int&': ['e.i', 'e.ci', 'std::move(e.i)'],
        'double': ['e.x', 'e.i'], 'bool': ['e.t', 'e.i', 'e.p'], 'const std::string&': ['e.s', 'e.cs', 'std::move(e.s)', '"abc"'], 'std::string&&': ['std::move(e.s)', '"abc"'], 'std::string': ['e.s', 'e.cs', 'std::move(e.s)', '"abc"'], 'std::string&': ['e.s'], 'std::unique_ptr<int>': ['std::move(e.u)'], 'std::unique_ptr<int>&&': ['std::move(e.u)'], 'const char*': ['"abc"'], 'std::initializer_list<int>': ['e.il'], 'int*': ['e.p', 'std::move(e.p)'],
        'std::nullptr_t': ['e.p'], 'const std::vector<int>&': ['e.v', 'std::move(e.v)'], 'std::vector<int>&&': ['std::move(e.v)']}
def arglist(r, ctors):
    """an argument list: for one of the constructors, or of arbitrary arguments"""
    if ctors and r.random() < .85:
        used = set(); out = []
        for p in r.choice(ctors): out.append(r.choice(FITS[p]))
        if r.random() < .08 and out: out.pop()
        return out
    return [r.choice(list(ARGS)) for _ in range(r.randint(0, 3))]
def ok(l):
    # the same object is not given twice when it is given away once
    m = [x[10:-1] for x in l if x.startswith('std::move')]; return not any(sum(y in (x, x[10:-1] if x.startswith('std::move') else '') for x in l) > 1 for y in m)
def lst(nm, l):
    types = [ARGS[x] for x in l]
    return 'struct %s { static auto args([[maybe_unused]] mk::Env& e) { return std::tuple<%s>(%s); } static constexpr bool plain = true; static const char* label() { return "%s"; } };\n' % (nm, ', '.join(types), ', '.join(l), ', '.join(l).replace('"', '\\"').replace('std::', '').replace('e.', ''))
def klass(r, nm):
    base = r.choice(['mk::Base', 'mk::Base', 'mk::Base', 'mk::Imm']); ctors = []; s = 'struct %s : %s { static const char* label() { return "%s"; }\n' % (nm, base, '%s'); desc = []
    n = r.randint(2, 6); seen = set()
    for k in range(n):
        ps = tuple(r.choice(PARAMS) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 4])))
        if k == 0 and r.random() < .3: ps = ('std::initializer_list<int>',) + ps[:2]
        key = tuple(p for p in ps)
        if key in seen: continue
        seen.add(key); ctors.append(ps); e = r.random() < .4; d = r.random() < .06
        s += '    %s%s(%s)%s\n' % ('explicit ' if e else '', nm, ', '.join('%s p%d' % (p, i) for i, p in enumerate(ps)), ' = delete;' if d else ' : %s(%d) { mk::ctor<%s>(%d%s); }' % (base, k + 1, ', '.join(ps), k + 1, ''.join(', p%d' % i for i in range(len(ps)))))
        desc.append('(%s)%s%s' % (', '.join(ps).replace('std::', '').replace('mk::', ''), ' explicit' if e else '', ' deleted' if d else ''))
    if r.random() < .25:
        s += '    template<class P0, class P1, class... P> explicit %s(P0&& p0, P1&& p1, P&&... p) : %s(90) { mk::rec.add(long(sizeof...(P))); mk::rec.add(mk::where(p0)); mk::rec.add(mk::where(p1)); mk::rec.add(std::is_lvalue_reference_v<P0> * 4 + std::is_lvalue_reference_v<P1> * 2 + std::is_const_v<std::remove_reference_t<P0>>); (mk::rec.add(mk::where(p) * 2 + std::is_lvalue_reference_v<P>), ...); }\n' % (nm, base); desc.append('(T&&, U&&, V&&...)')
    s += '    struct Fill {}; explicit %s(Fill) : %s(77) {} static void fill(opt::option<%s>& o) { o.emplace(Fill{}); }\n};\n' % (nm, base, nm)
    return s % ('class with constructors ' + ' '.join(desc)), ctors
# members of aggregates: declaration, how the value is recorded, arguments that initialise it (nothing narrows)
MEMBERS = [('mk::A', ['e.a', 'e.ca', 'std::move(e.a)', 'std::move(e.ca)', 'std::move(e.b)'], False), ('int', ['e.i', 'e.ci', 'std::move(e.i)'], True), ('double', ['e.x'], True), ('bool', ['e.t'], True), ('std::string', ['e.s', 'e.cs', 'std::move(e.s)', '"abc"'], True), ('std::unique_ptr<int>', ['std::move(e.u)'], True), ('int*', ['e.p', 'std::move(e.p)'], True), ('std::vector<int>', ['e.v', 'std::move(e.v)'], True), ('const int', ['e.i', 'e.ci'], True)]
def aggregate(r, nm):
    n = r.randint(1, 5); ms = [r.choice(MEMBERS) for _ in range(n)]; body = ''; mand = 0; desc = []
    for i, (t, a, d) in enumerate(ms):
        init = ''
        if d and t in ('int', 'const int', 'double', 'bool') and r.random() < .4: init = ' = 1'
        if t == 'std::string' and r.random() < .4: init = ' = "default"'
        if t == 'const int' and not init: init = ' = 3'
        body += ' %s m%d%s;' % (t, i, init); desc.append(t.replace('std::', '').replace('mk::', '') + init.replace('"', '\\"'))
        if not d: mand = i + 1
    s = 'struct %s {%s static const char* label() { return "aggregate of %s"; } static void fill(opt::option<%s>& o); };\n' % (nm, body, ', '.join(desc), nm)
    s += 'namespace mk { template<> inline long how_of<%s>(const %s& x) { u64 h = 17; %s return long(h >> 1); } template<> inline long hops_of<%s>(const %s&) { return 0; } }\n' % (nm, nm, ' '.join('h = mix(h * 31 + u64(value(x.m%d)));' % i for i in range(n)), nm, nm)
    first = {'mk::A': 'mk::A(5)', 'std::unique_ptr<int>': 'std::unique_ptr<int>()', 'std::vector<int>': 'std::vector<int>()', 'std::string': 'std::string("x")', 'int': '1', 'const int': '1', 'double': '1.5', 'bool': 'true', 'int*': 'nullptr'}
    s += 'inline void %s::fill(opt::option<%s>& o) { o.emplace(%s); }\n' % (nm, nm, ', '.join(first[t] for t, _, _ in ms))
    def args():
        k = r.randint(mand, n); return [r.choice(ms[i][1]) for i in range(k)]
    return s, args
def generate(d, seed, tier):
    files, per, lists = (4, 6, 6) if tier == 'quick' else (8, 12, 10); r = random.Random('p26-%s-%s' % (seed, tier)); out = []; nl = 0
    for f in range(files):
        s = '#include "p26_common.hpp"\n'; regs = []
        for i in range(per):
            nm = 'M%d_%d' % (f, i); agg = i % 3 == 2
            if agg: t, args = aggregate(r, nm)
            else: t, ctors = klass(r, nm); args = lambda: arglist(r, ctors)
            s += t; seen = set()
            for j in range(lists):
                for _ in range(20):
                    l = args()
                    if ok(l) and tuple(l) not in seen: break
                else: continue
                seen.add(tuple(l)); ln = '%s_L%d' % (nm, j); s += lst(ln, l); regs.append('REG("%s arguments %d", (&mk::test<%s, %s, %d>));\n' % (nm, j, nm, ln, 1 if agg else 0)); nl += 1
        p = os.path.join(d, 'p26_g%d.cpp' % f); open(p, 'w').write(s + ''.join(regs)); out.append(p)
    SUMMARY.update({'generated classes and aggregates': files * per, 'argument lists': nl})
    return out
