"""Random pairs of classes with conversions of every kind between them (constructors and assignments per value category, implicit, explicit,
deleted, conversion operators, constructors taking options or bool, greedy templates) and pairs of standard and scalar types."""
import os, random
SUMMARY = {}
CATS = [('const %s&', 1), ('%s&&', 2), ('%s&', 3), ('const %s&&', 4)]
def pair(r, k):
    F, T = 'F%d' % k, 'T%d' % k; FO, TO = F + '<O>', T + '<O>'; desc = []
    ev = 'conv::Log<O, %d>::n = conv::Log<O, %d>::n * 16 + ' % (k, k)
    s = 'template<template<class> class O> struct %s;\n' % T
    style = r.choice(['ctors', 'ctors', 'ctors', 'operators', 'value', 'none', 'greedy', 'mixed'])
    nocopy_f = r.random() < .15; nocopy_t = r.random() < .15
    s += 'template<template<class> class O> struct %s { int v, gone = 0; explicit %s(int x) : v(x) {} ' % (F, F)
    s += ('%s(const %s&) = delete; ' % (F, F) if nocopy_f else '%s(const %s& o) : v(o.v), gone(o.gone) {} ' % (F, F)) + '%s(%s&& o) : v(o.v), gone(o.gone) { o.gone = 1; } %s& operator=(const %s&) = %s; ' % (F, F, F, F, 'delete' if nocopy_f else 'default')
    if style in ('operators', 'mixed'):
        q = r.choice([['const&'], ['const&', '&&'], ['&&'], ['&'], [''], ['const'], ['&', 'const&', '&&', 'const&&']])
        for x in q:
            e = r.random() < .25; s += '%soperator %s<O>() %s { %s %d; return %s<O>(typename %s<O>::Tag{}, v, %d); } ' % ('explicit ' if e else '', T, x, ev, 5, T, T, 60 + q.index(x)); desc.append('operator %s%s' % (x, ' explicit' if e else ''))
    s += '};\n'
    s += 'template<template<class> class O> struct %s { struct Tag {}; int v, how, hops = 0; %s(Tag, int x, int h) : v(x), how(h) {} ' % (T, T)
    s += ('%s(const %s&) = delete; ' % (T, T) if nocopy_t else '%s(const %s& o) : v(o.v), how(o.how), hops(o.hops + 1) { %s 1; } ' % (T, T, ev)) + '%s(%s&& o) : v(o.v), how(o.how), hops(o.hops + 16) { o.how = -o.how; %s 2; } ' % (T, T, ev)
    if r.random() < .9: s += '%s& operator=(%s) { v = o.v; how = o.how + 1000; hops = o.hops + 256; %s 3; return *this; } ' % (T, 'const %s& o' % T if not nocopy_t and r.random() < .4 else '%s&& o' % T, ev)
    def ctor(a, h, e, dele):
        return ('explicit ' if e else '') + '%s(%s o)' % (T, a) + (' = delete; ' if dele else ' : v(o.v), how(%d) { %s 4; %s} ' % (h, ev, 'o.gone = 2; ' if h == 2 else ''))
    if style in ('ctors', 'mixed'):
        for a, h in r.sample(CATS, r.randint(1, 4)):
            e = r.random() < .3; d = r.random() < .12; s += ctor(a % FO, h, e, d); desc.append('from %s%s%s' % (a % 'From', ' explicit' if e else '', ' deleted' if d else ''))
    if style == 'value': e = r.random() < .3; s += ctor(FO, 5, e, False); desc.append('from From%s' % (' explicit' if e else ''))
    if style == 'greedy':
        e = r.random() < .3; sfin = r.random() < .6
        s += 'template<class U%s> %s%s(U&& u) : v(7), how(40) { (void)u; %s 6; } ' % (', std::enable_if_t<!std::is_same_v<std::decay_t<U>, %s>, int> = 0' % T if sfin else ', std::enable_if_t<std::is_same_v<std::decay_t<U>, %s>, int> = 0' % FO, 'explicit ' if e else '', T, ev); desc.append('greedy template%s%s' % (' explicit' if e else '', '' if sfin else ' for From only'))
    if r.random() < .45:
        for a, h in r.sample(CATS, r.randint(1, 3)):
            d = r.random() < .12; s += '%s& operator=(%s o)%s' % (T, a % FO, ' = delete; ' if d else ' { v = o.v; how = %d; %s 7; %sreturn *this; } ' % (50 + h, ev, 'o.gone = 3; ' if h == 2 else '')); desc.append('= %s%s' % (a % 'From', ' deleted' if d else ''))
    if r.random() < .35:   # constructors taking the option itself: each category present, deleted or absent
        k4 = r.choice([1, 1, 2, 3, 4]); keep = r.choice([0, 1, k4])
        for j, (a, h) in enumerate(r.sample(CATS, k4)):
            e = r.random() < .4; d = j >= max(1, keep) or r.random() < .15
            s += '%s%s(%s o)%s' % ('explicit ' if e else '', T, a % ('O<%s>' % FO), ' = delete; ' if d else ' : v(o.has_value() ? 1 : 2), how(%d) { %s 8; } ' % (70 + h, ev)); desc.append('from %s%s%s' % (a % 'option<From>', ' explicit' if e else '', ' deleted' if d else ''))
    if r.random() < .25:
        k4 = r.choice([1, 1, 2, 3, 4]); keep = r.choice([0, 1, k4])
        for j, (a, h) in enumerate(r.sample(CATS, k4)):
            d = j >= max(1, keep) or r.random() < .15
            s += '%s& operator=(%s o)%s' % (T, a % ('O<%s>' % FO), ' = delete; ' if d else ' { v = o.has_value() ? 1 : 2; how = %d; %s 9; return *this; } ' % (80 + h, ev)); desc.append('= %s%s' % (a % 'option<From>', ' deleted' if d else ''))
    if r.random() < .15: e = r.random() < .5; s += '%s%s(bool b) : v(b), how(90) { %s 10; } ' % ('explicit ' if e else '', T, ev); desc.append('from bool%s' % (' explicit' if e else ''))
    if r.random() < .1: s += '%s& operator=(bool b) { v = b; how = 91; %s 11; return *this; } ' % (T, ev); desc.append('= bool')
    s += '};\n'
    s += '''struct P%d { static constexpr bool light = false; template<template<class> class O> using To = T%d<O>; template<template<class> class O> using From = F%d<O>; static const char* label() { return "%s"; }
  template<template<class> class O> static F%d<O> make(int v) { return F%d<O>(v); } template<template<class> class O> static T%d<O> dst(int v) { return T%d<O>(typename T%d<O>::Tag{}, v, 33); }
  template<template<class> class O> static void start() { conv::Log<O, %d>::n = 1; } template<template<class> class O> static long events() { return conv::Log<O, %d>::n; }
  template<template<class> class O> static void code(const T%d<O>& x, conv::Out& o) { o.push_back(x.v); o.push_back(x.how); o.push_back(x.hops); } template<template<class> class O> static void code(const F%d<O>& x, conv::Out& o) { o.push_back(x.v); o.push_back(x.gone); } };
''' % (k, k, k, 'To{%s%s}%s' % (', '.join(desc), ', move-only' if nocopy_t else '', ', move-only From' if nocopy_f else ''), k, k, k, k, k, k, k, k, k)
    return s
def generate(d, seed, tier):
    files, per = (4, 6) if tier == 'quick' else (8, 16); r = random.Random('p24-%s-%s' % (seed, tier)); out = []
    for t in range(files):
        s = '#include "p24_common.hpp"\nnamespace {\n'
        for i in range(per): s += pair(r, t * 100 + i)
        s += '}\n' + ''.join('REG("conversions of pair %d", (&conv::test<P%d>));\n' % (t * 100 + i, t * 100 + i) for i in range(per))
        p = os.path.join(d, 'p24_g%d.cpp' % t); open(p, 'w').write(s); out.append(p)
    SUMMARY.update({'generated pairs of classes': files * per})
    return out
