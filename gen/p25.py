"""Random classes with user-provided, self-checking traits, alone and inside generated composite types."""
import os, random, importlib.util
def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py')); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
typegen = _load('typegen'); Node = typegen.Node
SUMMARY = {}
LEVELS = [1, 1, 2, 2, 3, 5, 20, 253, 254, 255, 256, 257, 513, 70000, 1 << 40]
def user(r, nm, tracked_only=False):
    """returns (definition, levels, trivially copyable, copyable, assignable, throwing, tracked)"""
    kind = r.choice(['class', 'class', 'class', 'class', 'plain', 'plain', 'aggregate', 'dtor', 'enum', 'off'])
    M = 0 if kind == 'off' else r.choice(LEVELS); form = r.choice(['full', 'full', 'enable', 'template']); style = r.randrange(3); key = r.choice([0, 0, 1, 0x5a << 40]); clob = r.random() < .6
    body = ['u64 state;', 'u64 v;']; r.shuffle(body)
    pre = r.choice(['', '', '', 'bool pre = false;', 'int pre[3] = {};', 'std::string pre;', 'double pre = 0;'])
    if kind in ('plain', 'aggregate', 'dtor') and 'string' in pre: pre = ''
    if pre: body.insert(r.randint(0, 2), pre)
    last = body[-1].split()[1].strip(';').split('[')[0]
    tracked = kind == 'class' or (kind == 'off' and r.random() < .6)
    thr = tracked and r.random() < .4; cp = not tracked or r.random() < .85; asg = True
    tag = 'Tag_' + nm if form == 'enable' and kind not in ('enum', 'aggregate') else ''
    virt = tracked and r.random() < .15; ne = '' if thr else ' noexcept'; pt = ' reg::point();' if thr else ''
    base = ' : ' + tag if tag else ''
    if form == 'template' and kind in ('enum',): form = 'full'
    C = nm if form != 'template' else nm + '_t'; use = nm
    s = ''
    if tag: s += 'struct %s {};\n' % tag
    tmpl = 'template<class X> ' if form == 'template' else ''
    if kind == 'enum':
        s += 'enum class %s : u64 {};\n' % nm
        make = 'return %s(s & 0xffffffffu);' % nm; same = 'return u64(v) == (s & 0xffffffffu);'; off = '0'; end = '8'; isv = 'x < 0x100000000u'; tracked = thr = False; cp = True
    elif kind == 'aggregate':
        s += tmpl + 'struct %s { %s };\n' % (C, ' '.join(b.replace('u64 state;', 'u64 state = ut::LIVE;').replace('u64 v;', 'u64 v = 0;') for b in body))
        make = 'T t{}; t.v = s; return t;'; same = 'return v.v == s && v.state == ut::LIVE;'
    elif kind in ('plain', 'dtor') or (kind == 'off' and not tracked):
        s += tmpl + 'struct %s%s { %s explicit %s(u64 x) noexcept : state(ut::LIVE), v(x) {} %s};\n' % (C, base, ' '.join(sorted(body, key=body.index)), C, '~%s() { ut::scribble(this, __builtin_offsetof(%s, state)); } ' % (C, C) if kind == 'dtor' else '')
        make = 'return T(s);'; same = 'return v.v == s && v.state == ut::LIVE;'
    else:
        d = 'ut::start(this); '
        fail = 'try { reg::point(); } catch (...) { ut::scribble(this, __builtin_offsetof(%s, state)); throw; } ' % C if thr else ''
        s += tmpl + 'struct %s%s { %s %s\n' % (C, base, ' '.join(body), 'virtual int who() const { return 1; }' if virt else '')
        s += '  explicit %s(u64 x)%s { %s%sv = x; state = ut::LIVE; ut::born(this); }\n' % (C, ne, d, fail)
        if cp: s += '  %s(const %s& o)%s { o.check(); %s%sv = o.v; state = ut::LIVE; ut::born(this); }\n' % (C, C, ne, d, fail)
        else: s += '  %s(const %s&) = delete;\n' % (C, C)
        s += '  %s(%s&& o)%s { o.check(); %s%sv = o.v; state = ut::LIVE; ut::born(this); o.v = MOVED; }\n' % (C, C, ne, d, fail)
        if cp: s += '  %s& operator=(const %s& o)%s { check(); o.check();%s v = o.v; return *this; }\n' % (C, C, ne, pt)
        s += '  %s& operator=(%s&& o)%s { check(); o.check();%s v = o.v; if (&o != this) o.v = MOVED; return *this; }\n' % (C, C, ne, pt)
        s += '  %s~%s() { reg::died(this); ut::scribble(this, __builtin_offsetof(%s, state)); }\n  void check() const { reg::used(this); if (state != ut::LIVE) FAIL("the mark of a live object was overwritten"); }\n' % ('virtual ' if virt else '', C, C)
        s += '  friend bool operator==(const %s& a, const %s& b) { a.check(); b.check(); return a.v == b.v; } friend bool operator<(const %s& a, const %s& b) { return a.v < b.v; }\n};\n' % (C, C, C, C)
        make = 'return T(s);'; same = 'v.check(); return v.v == s;'
    if form == 'template': s += 'using %s = %s<int>;\n' % (nm, C)
    if kind != 'enum': off = '__builtin_offsetof(%s, state)' % nm; end = '__builtin_offsetof(%s, %s) + sizeof(%s::%s)' % (nm, last, nm, last); isv = 'x == ut::LIVE'
    desc = '%s, %d levels%s%s%s%s' % (kind, M, ', throwing' if thr else '', ', move-only' if not cp else '', ', virtual' if virt else '', ', ' + form)
    s += 'struct I_%s { static constexpr u64 M = %du, key = %du; static constexpr bool tracked = %s, clobber = %s; static constexpr int style = %d; static const char* label() { return "%s{%s; %s}"; } static std::size_t offset() { return %s; } static std::size_t end() { return %s; } static bool is_value(u64 x) { return %s; } };\n' % (nm, M, key, str(tracked).lower(), str(clob).lower(), style, nm, ' '.join(body), desc, off, end, isv)
    if M: fn = ' static std::uintmax_t get_level(const %s* p) noexcept { return ut::get<%s, I_%s>(p); } static void set_level(%s* p, std::uintmax_t l) noexcept { ut::set<%s, I_%s>(p, l); }' % (nm, nm, nm, nm, nm, nm)
    else: fn = r.choice(['', ' static std::uintmax_t get_level(const %s*) noexcept { ut::bad("%s: get_level called, max_level is 0"); return 0; } static void set_level(%s*, std::uintmax_t) noexcept { ut::bad("%s: set_level called, max_level is 0"); }' % (nm, nm, nm, nm)])
    head = {'full': 'template<> struct opt::option_traits<%s>' % nm, 'enable': 'template<class T> struct opt::option_traits<T, std::enable_if_t<std::is_base_of_v<%s, T> && !std::is_const_v<T>>>' % tag, 'template': 'template<class X> struct opt::option_traits<%s<X>>' % C}[form if tag or form != 'enable' else 'full']
    s += '%s { static constexpr std::uintmax_t max_level = %du;%s };\n' % (head, M, fn)
    s += 'template<> struct Ty<%s> { using T = %s; static T make(u64 s) { %s } static bool same(const T& v, u64 s) { %s } static const char* name() { return I_%s::label(); } };' % (nm, nm, make, same, nm)
    if tracked: s += '\ntemplate<> inline constexpr int live_per_value<%s> = 1;' % nm
    n = Node(nm, str(M), [s], dc=kind in ('enum', 'aggregate'), tc=not tracked and kind != 'dtor', cp=cp)
    n.user = True; n.throwing = thr; n.kind = kind; n.M = M; n.tracked = tracked
    return n
class Gen(typegen.Gen):
    def __init__(self, seed, prefix): super().__init__(seed, prefix); self.pool = []; self.k = 0
    def new(self): self.k += 1; n = user(self.r, '%sU%d' % (self.prefix, self.k)); self.pool.append(n); return n
    def leaf(self, want_level=None):
        if self.r.random() < .6:
            n = self.new() if len(self.pool) < 6 or self.r.random() < .3 else self.r.choice(self.pool)
            return n
        return super().leaf(want_level)
def _uncounted(f):
    # the objects registered by members of generated classes are not counted (the registry still has to be empty at the end)
    def g(self, d):
        n = f(self, d)
        if any('live_per_value' in x or 'TrackedN' in x or 'MoveOnly' in x or 'UTN' in x for x in n.defs): n.defs[-1] += '\ntemplate<> inline constexpr int live_per_value<%s> = -1000000;' % n.cpp
        return n
    return g
for _k in ('mk_struct', 'mk_tlike', 'mk_padded', 'mk_sentmem'): setattr(Gen, _k, _uncounted(getattr(typegen.Gen, _k)))
def generate(d, seed, tier):
    files, per = (4, 7) if tier == 'quick' else (8, 14); out = []; types = []; users = 0
    for f in range(files):
        g = Gen('p25-%s-%s-%d' % (seed, tier, f), 'V%d' % f); text = '#include "p25_common.hpp"\n'; seen = set(); regs = []
        def add(n):
            nonlocal text
            for x in n.defs:
                if x not in seen: seen.add(x); text += x + '\n'
        for i in range(per):
            n = g.new() if i < per // 2 else g.any(g.r.choice([1, 1, 2]), True)
            while i >= per // 2 and not any('I_' in x for x in n.defs): n = g.any(g.r.choice([1, 1, 2]), True)
            add(n); types.append(n.cpp if i >= per // 2 else n.defs[-1][:0] + n.kind); c = n.cpp
            thr = any('reg::point' in x for x in n.defs)
            regs.append('UT_REG("nested", nested<%s, %d>)' % (c, [2, 1, 3, 4, 2, 6][i % 6]))
            regs.append('UT_REG("states of", %s<%s>)' % ('throwing_machine' if thr and n.cp else 'state_machine', c))
            if n.cp and n.asg and (thr or i % 3 == 0) and not c.startswith('opt::option<'): regs.append('UT_REG("faults in", Inj<%s>::run)' % c)
            regs.append('REG("levels of %s", (&ut::direct<%s>));' % (c.replace('"', ''), c))
            regs.append('REG("levels of option<%s>", (&ut::direct<opt::option<%s>>));' % (c.replace('"', ''), c))
            if i < per // 2:
                regs.append('REG("levels of pair<option<option<%s>>, int>", (&ut::direct<std::pair<opt::option<opt::option<%s>>, int>>));' % (c, c))
                if n.kind not in ('off',): regs.append('REG("options of references to %s", (&ut::indirect<%s>));' % (c, c))
                if n.M > 0 and n.tc: regs.append('REG("in-place changes of %s", (&ut::InPlace<%s, I_%s, %d>::run));' % (c, c, c, min(n.M, 3)))
        users += g.k
        p = os.path.join(d, 'p25_g%d.cpp' % f); open(p, 'w').write(text + '\n'.join(x if x.startswith('REG') else x + ';' for x in regs) + '\n'); out.append(p)
    SUMMARY.update({'generated classes with traits': users, 'types': len(types), 'examples': [t for t in types if len(t) > 12][:8]})
    return out
