"""Random classes with every combination of trivial, user-provided, undeclared and deleted special members, with and without spare states."""
def one(r, n, traits=None):
    cc = r.choice([0, 1, 1, 2, 2, 3]); mc = r.choice([1, 2, 3] if cc == 0 else [1, 2, 2, 3, 4]); ca = r.choice([0, 1, 1, 2, 2, 3]); ma = r.choice([1, 2, 3] if ca == 0 else [1, 2, 2, 3, 4])
    if cc == 0 and r.random() < .15: mc = 0
    if mc == 0: ca = 0; ma = 0
    if ca == 0 and r.random() < .2: ma = 0
    dt = r.choice([0, 0, 1]); sw = r.choice([0, 0, 1]); va = r.choice([0, 1]); traits = r.random() < .4 if traits is None else traits
    lv = ', lvl(0)' if traits else ''
    def ctor(ref, m, src, cnt, mark):
        if m == 4: return ''
        if m == 0: return '%s(%s) = delete;' % (n, ref)
        if m == 1: return '%s(%s) = default;' % (n, ref)
        return '%s(%s o)%s : v(o.v), kept(%d), gone(0)%s { ++conduct::ev.%s; %s}' % (n, ref, ' noexcept' if m == 2 else '', mark, lv, cnt, src)
    def asg(ref, m, src, cnt):
        if m == 4: return ''
        if m == 0: return '%s& operator=(%s) = delete;' % (n, ref)
        if m == 1: return '%s& operator=(%s) = default;' % (n, ref)
        return '%s& operator=(%s o)%s { ++conduct::ev.%s; v = o.v; gone = 0; %sreturn *this; }' % (n, ref, ' noexcept' if m == 2 else '', cnt, src)
    gone = 'if (&o != this) o.gone = 1; '
    b = ['explicit %s(int x)%s : v(x), kept(1), gone(0)%s { ++conduct::ev.vc; }' % (n, r.choice(['', ' noexcept']), lv),
         ctor('const %s&' % n, cc, '', 'cc', 2), ctor('%s&&' % n, mc, gone, 'mc', 3), asg('const %s&' % n, ca, '', 'ca'), asg('%s&&' % n, ma, gone, 'ma')]
    if va: b.append('%s& operator=(int x) { ++conduct::ev.va; v = x; gone = 0; return *this; }' % n)
    if dt: b.append('~%s() { ++conduct::ev.dt; }' % n)
    if sw: b.append('friend void swap(%s& a, %s& b)%s { ++conduct::ev.sw; int t = a.v; a.v = b.v; b.v = t; }' % (n, n, r.choice(['', ' noexcept'])))
    label = '%s%s{copy ctor %d, move ctor %d, copy assign %d, move assign %d%s%s%s}' % (n, ' with traits ' if traits else ' ', cc, mc, ca, ma, ', destructor' if dt else '', ', swap' if sw else '', ', = int' if va else '')
    s = 'namespace { struct %s { int v, kept, gone; %sstatic constexpr int CC = %d, MC = %d, CA = %d, MA = %d; static constexpr bool DT = %s, SW = %s, VA = %s; static const char* label() { return "%s"; } %s struct Target { int v, how; Target(const %s& x) : v(x.v), how(1) {} Target(%s&& x) : v(x.v), how(2) {} }; }; }\n' % (
        n, 'int lvl = 0; ' if traits else '', cc, mc, ca, ma, *(str(bool(x)).lower() for x in (dt, sw, va)), label, ' '.join(x for x in b if x), n, n)
    if traits: s += 'template<> struct opt::option_traits<%s> { static constexpr std::uintmax_t max_level = 3; static std::uintmax_t get_level(const %s* p) noexcept { return std::uintmax_t(p->lvl) - 7; } static void set_level(%s* p, std::uintmax_t k) noexcept { p->lvl = int(k) + 7; } };\n' % (n, n, n)
    return s
