"""Random enumeration definitions (underlying type, scope, enumerators, conventions, surroundings) and padding members."""
import os, random
SUMMARY = {}
U = [('unsigned char', 8, 0), ('std::uint8_t', 8, 0), ('unsigned short', 16, 0), ('unsigned', 32, 0), ('unsigned long long', 64, 0), ('char16_t', 16, 0), ('signed char', 8, 1), ('char', 8, 1), ('short', 16, 1), ('int', 32, 1), ('long', 64, 1)]
ARGS = ['int', 'Other08(5)', 'Other08::y', 'bool', 'void (*)(int)', "')'", "'('", "','", '&g08', 'Local', 'std::pair<int, char>', 'sizeof(int)', 'char (*)[3]', '-1', 'Other08(300)', 'Lam', "'}'", "'{'", 'int (*(*)(char, int))(bool)']
def is_type(a): return a in ('int', 'bool', 'void (*)(int)', 'Local', 'std::pair<int, char>', 'char (*)[3]', 'Lam', 'int (*(*)(char, int))(bool)')
def lim(bits, sg): return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
def lit(v, sg, bits):
    if sg: return '(-9223372036854775807LL - 1)' if v == -(1 << 63) else '%dLL' % v
    return '%dULL' % v
def u64(v, bits): return v & ((1 << bits) - 1)
def enum(r, tag, i):
    name = '%sE%d' % (tag, i); ul, bits, sg = r.choice(U); scoped = r.random() < 0.6; fixed = scoped or r.random() < 0.8
    lo, hi = lim(bits, sg); probe = 256 if bits == 8 else 1024
    style = r.choice(['plain', 'plain', 'flags', 'flags', 'gaps', 'high', 'empty', 'sentinel', 'start', 'start', 'startend', 'startend', 'edge', 'edge'])
    if not fixed and style in ('empty', 'high', 'edge'): style = 'gaps'
    if not fixed: ul, bits, sg = 'unsigned', 32, 0; lo, hi = lim(32, 0)
    vals = []
    def rnd(): return r.choice([lo, hi, 0, 1, r.randint(0, min(hi, 40)), r.randint(0, min(hi, 300)), r.randint(lo, hi), min(hi, 1 << r.randint(0, bits - 1 - sg)), min(hi, (1 << r.randint(0, bits - 1 - sg)) - 1)])
    if style == 'plain': s = r.choice([0, 0, 1, r.randint(0, 60)]); vals = list(range(s, s + r.randint(1, 9)))
    elif style == 'flags': vals = [1 << k for k in r.sample(range(bits - sg if fixed else 9), r.randint(1, min(6, bits - sg)))] + ([0] if r.random() < .5 else [])
    elif style in ('gaps', 'sentinel', 'start', 'startend'): vals = [rnd() for _ in range(r.randint(1, 6))] if fixed else [r.randint(0, 900) for _ in range(r.randint(1, 6))]
    elif style == 'high': vals = [r.randint(min(hi, 1000), min(hi, 5000)) for _ in range(r.randint(1, 3))]
    elif style == 'edge': p = 1 << r.randint(0, 10 if bits > 8 else 8); vals = [min(hi, max(lo, p + r.choice([-2, -1, 0, 1]))) for _ in range(r.randint(1, 2))]
    vals = sorted(set(v for v in vals if lo <= v <= hi)); special = []; kind, first, last = (0, 0, 0) if sg else (1, 0, 0); small = False
    if style == 'sentinel': s = rnd() if fixed else r.randint(0, 900); vals = [v for v in vals if v != s]; special = [('SENTINEL', s)]; kind, first, last = 2, s, s
    if style == 'start':
        s = r.choice([hi, hi - 1, hi - r.randint(0, min(hi - 1, 100)), r.randint(max(lo, 1), hi)]) if fixed else r.choice([901, 1000]); s = max(s, lo + 1); vals = [v for v in vals if v < s]; special = [('SENTINEL_START', s)]; kind, first, last = 2, s, (1 << 31) * 2 - 1 if not fixed else hi
    if style == 'startend':
        s = r.choice([lo, hi, rnd(), rnd(), rnd()]) if fixed else r.randint(0, 900); e = r.choice([s, s, min(hi, s + 1), min(hi, s + r.randint(0, 200)), r.randint(s, hi)]) if fixed else s + r.randint(0, 90)
        if s == lo and e == hi: s += 1
        vals = [v for v in vals if not s <= v <= e]; special = [('SENTINEL_START', s), ('SENTINEL_END', e)]; kind, first, last = 2, s, e
    # enumerator range of a type without a fixed underlying type
    cap = hi if fixed else (1 << max([v for v in vals] + [v for _, v in special] + [1]).bit_length()) - 1
    legit = set(vals); inside = []
    if kind == 1:
        inside = [v for v in vals if v < probe]; small = False
        ors = set([0]) if style == 'flags' and 0 in vals else set()
        for _ in range(40):
            k = r.sample(vals, r.randint(1, len(vals))) if vals else []
            x = 0
            for v in k: x |= v
            if k: ors.add(x)
        legit |= ors
        if inside: legit |= {v for v in (0, 1, max(inside) // 2, max(inside) - 1) if 0 <= v <= max(inside)} if style != 'high' else set()
        if bits > 8 and fixed: legit |= {1024, 1025, hi, hi - 1, min(hi, 4096)}
        if inside and (1 << max(inside).bit_length()) <= probe // 2: small = True
        if not inside:
            kind = 0; legit |= {lo, hi, 1, 2, 127, 128, 254, 255} | {r.randint(lo, hi) for _ in range(30)}
        legit = {v for v in legit if v <= cap}
    else:
        cand = {lo, lo + 1, hi, hi - 1, 0, 1, first - 1, last + 1, first - 2, last + 2} | {r.randint(lo, hi) for _ in range(20)} | {first - r.randint(1, 300), last + r.randint(1, 300)}
        legit |= {v for v in cand if lo <= v <= (cap if not fixed else hi)}
        if kind == 2: legit = {v for v in legit if not first <= v <= last}
        if kind == 2: small = True
    if not legit: return enum(r, tag, i)
    order = vals + []; r.shuffle(order)
    items = [(name + 'e%d' % k, v) for k, v in enumerate(order)] + special
    if order and r.random() < .3: items.append((name + 'alias', r.choice(order)))
    r.shuffle(items)
    body = ', '.join('%s%s = %s' % (n, r.choice(['', '', ' [[deprecated]]']), lit(v, sg, bits) if fixed else '%d' % v) for n, v in items)
    d = 'enum %s%%s%s { %s };' % ('class ' if scoped else '', ' : ' + ul if fixed and (ul != 'int' or not scoped or r.random() < .5) else '', body)
    ctx = r.choice(['plain', 'ns', 'anon', 'member', 'template', 'template', 'anonmember', 'local'])
    if not scoped and special and ctx in ('plain', 'anon'): ctx = 'ns'
    pre = ''
    if ctx == 'plain': pre, q = d % name, name
    elif ctx == 'ns': pre, q = 'namespace %s_a { namespace %s_b { %s } }' % (name, name, d % name), '%s_a::%s_b::%s' % (name, name, name)
    elif ctx == 'anon': pre, q = 'namespace { %s }' % (d % name), name
    elif ctx == 'member': pre, q = 'struct %s_S { %s };' % (name, d % 'E'), '%s_S::E' % name
    elif ctx == 'anonmember': pre, q = 'namespace { struct %s_S { %s }; }' % (name, d % 'E'), '%s_S::E' % name
    elif ctx == 'local':
        if not scoped and not fixed: ctx = 'member'; pre, q = 'struct %s_S { %s };' % (name, d % 'E'), '%s_S::E' % name
        else: pre, q = 'inline auto %s_f(int, char) { %s return E{}; }' % (name, d % 'E'), 'decltype(%s_f(1, 2))' % name
    else:
        args = [r.choice(ARGS) for _ in range(r.randint(1, 4))]
        par = ', '.join('class T%d' % k if is_type(a) else 'auto T%d' % k for k, a in enumerate(args))
        pre, q = 'template<%s> struct %s_S { %s };' % (par, name, d % 'E'), '%s_S<%s>::E' % (name, ', '.join(args))
        small = small and kind == 2
    if not fixed: small = small and kind == 2
    full = bits <= 16 and fixed and kind != 1
    data = sorted(u64(v, bits) for v in legit)
    reg = 'using %s_t = %s;\nEN08(%s_t, "%s", %d, %s, %s, %s, %s, %s)\nRE08(%s_t, "%s")' % (name, q, name, name, kind, lit(first, 1, 64) if first < (1 << 63) else '%dULL' % first, lit(last, 1, 64) if last < (1 << 63) else '%dULL' % last, 'true' if small else 'false', 'true' if full else 'false', ', '.join('%dULL' % v for v in data), name, name)
    if r.random() < .25: reg += '\nRN08(%s_t, "%s", %d)' % (name, name, r.choice([2, 3]))
    return pre + '\n' + reg, '%s (%s, %s, %s)' % (q, ul if fixed else 'no fixed type', style, items[:4])
PADS = [('std::uint8_t', 'std::uint8_t'), ('std::uint16_t', 'std::uint16_t'), ('std::uint32_t', 'std::uint32_t'), ('std::uint64_t', 'std::uint64_t'), ('bool', 'bool'), ('char16_t', 'char16_t'), ('unsigned', 'unsigned')]
FIELDS = ['int', 'double', 'float', 'bool', 'std::string', 'unsigned char', 'short', 'u64', 'int*', 'std::unique_ptr<int>', 'std::vector<int>', 'opt::option<int>']
def pad(r, tag, i):
    name = '%sP%d' % (tag, i); m, mt = r.choice(PADS); fs = [r.choice([f for f in FIELDS if f != 'std::unique_ptr<int>']) for _ in range(r.randint(1, 4))]
    pos = r.randint(0, len(fs)); mem = ['%s f%d;' % (f, k) for k, f in enumerate(fs)]; mem.insert(pos, r.choice(['%s PADDING = 0;', '%s PADDING{};', 'alignas(16) %s PADDING{};']) % m)
    base = r.random() < .3
    ctor = '%s(%s) : %s {}' % ('B' if base else name, ', '.join('%s a%d' % (f, k) for k, f in enumerate(fs)), ', '.join('f%d(std::move(a%d))' % (k, k) for k in range(len(fs))))
    if base: d = 'namespace %s_n { struct B { %s %s }; }\nstruct %s : %s_n::B { int own = 5; using B::B; };' % (name, ' '.join(mem), 'explicit ' + ctor, name, name)
    else: d = 'struct %s { %s %s };' % (name, ' '.join(mem), 'explicit ' + ctor)
    mk = ', '.join('Ty<%s>::make(s + %d)' % (f, k * 77) for k, f in enumerate(fs)); same = ' && '.join('Ty<%s>::same(v.f%d, s + %d)' % (f, k, k * 77) for k, f in enumerate(fs))
    d += '\ntemplate<> struct Ty<%s> { static %s make(u64 s) { return %s(%s); } static bool same(const %s& v, u64 s) { return %s; } static const char* name() { return "%s"; } };\nPD08(%s, %s, "")\nRP08(%s, "%s")' % (name, name, name, mk, name, same, name, name, m, name, name)
    if r.random() < .4: d += '\nREGW("nested %s", (&nested<%s, 2>), 0.5);' % (name, name)
    return d, '%s { %s }' % (name, ' '.join(mem))
def generate(directory, seed, tier):
    files, summ = [], []; nf, ne, npd = (8, 40, 8) if tier == 'thorough' else (6, 22, 4)
    for f in range(nf):
        r = random.Random(seed * 104729 + f); tag = 'X%d' % f
        t = '#include "p08_common.hpp"\nnamespace { struct Local {}; }\n[[maybe_unused]] static const auto lam08 = [](int) {}; using Lam = std::remove_const_t<decltype(lam08)>;\n'
        for i in range(ne): d, s = enum(r, tag, i); t += d + '\n'; summ.append(s)
        for i in range(npd): d, s = pad(r, tag, i); t += d + '\n'; summ.append(s)
        p = os.path.join(directory, 'gen_p08_%d.cpp' % f); open(p, 'w').write(t); files.append(p)
    SUMMARY.update({'generated_types': len(summ), 'examples': summ[:10]})
    return files
