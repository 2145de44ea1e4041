"""Histories over fixed and generated types, and the constant programs, with every observation written down."""
import os, random, re
import p20
SUMMARY = {}
NOT_NESTED = {'or value', 'or value move', 'reference', 'assigning values of references', 'reference none', 'deduction'}
EXTRA = [
 ('not a number', 'if constexpr (std::is_floating_point_v<T>) { const T q = s & 1 ? std::numeric_limits<T>::quiet_NaN() : -std::numeric_limits<T>::quiet_NaN(); O t(q); h.o(t); h.n(t == q); h.n(t != q); h.n(t < A); h.n(A < t); h.n(t == t); B = t; h.o(B); B = T(1); h.o(B); A = q; h.o(A); opt::option<O> w(t); h.n(w.has_value()); h.o(*w); }', 'true'),
 ('value_or_throw', 'try { h.v(A.value_or_throw()); } catch (const opt::bad_access& e) { h.str(e.what()); } try { h.v(static_cast<const O&>(A).value()); } catch (const std::exception& e) { h.str(e.what()); }', 'true'),
 ('io', 'if constexpr (std::is_integral_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, double>) { std::ostringstream os; os << opt::io(A) << " " << opt::io(static_cast<const O&>(B)) << " " << opt::io(A, "nothing") << opt::io(B, 5); h.str(os.str().c_str()); }', 'true'),
 ('hash', 'if constexpr (std::is_integral_v<T> || std::is_same_v<T, std::string> || std::is_enum_v<T>) { h.n(std::hash<O>()(A)); h.n(std::hash<O>()(A) == std::hash<O>()(B)); std::unordered_set<O> q; if constexpr (copies<T>) { q.insert(A); q.insert(B); q.insert(O()); q.insert(O(V())); h.n(q.size()); h.n(q.count(A)); } }', 'K<T>::cmp'),
 ('containers', 'std::vector<O> q; q.push_back(A); q.emplace_back(V()); q.push_back(opt::none); q.insert(q.begin(), B); q.resize(6); q.erase(q.begin() + 1); for (auto& e : q) h.o(e); if constexpr (K<T>::cmp && !std::is_floating_point_v<T>) { if constexpr (std::is_integral_v<T> || std::is_same_v<T, std::string>) { std::map<O, int> m; m[A] = 1; m[B] = 2; m[O()] = 3; m[O(V())] = 4; for (auto& e : m) { h.o(e.first); h.n(u64(e.second)); } } }', 'copies<T>'),
 ('lookup', 'std::map<int, T> m; m.emplace(3, V()); m.emplace(4, V()); auto r = opt::lookup(m, int(s % 5)); h.n(r.has_value()); if (r.has_value()) { h.v(r.get()); r.get() = V(); } for (auto& e : m) h.v(e.second); const auto& k = m; h.n(opt::lookup(k, 4).has_value()); std::unordered_map<std::string, T> u; u.emplace("a", V()); h.n(opt::lookup(u, s & 1 ? "a" : "b").has_value()); if constexpr (!std::is_same_v<T, bool>) { std::vector<T> q; q.push_back(V()); q.push_back(V()); auto e = opt::at(q, s % 4); h.n(e.has_value()); if (e.has_value()) h.v(e.get()); h.v(opt::at_front(q).get()); h.v(opt::at_back(q).get()); std::vector<T> n; h.n(opt::at_front(n).has_value()); h.n(opt::at_back(n).has_value()); h.n(opt::at(n, 0).has_value()); }', 'true'),
 ('throwing', 'throw_at = int(s % 3); O t(A); h.o(t); B = A; h.o(B); t = V(); A = t; throw_at = -1;', 'copies<T>'),
 ('throwing emplace', 'throw_at = int(s % 2); const T x(V()); A.emplace(x); throw_at = -1;', 'copies<T>'),
 ('throwing value_or', 'throw_at = int(s % 2); const T x(V()); h.v(A.value_or(x)); h.v(static_cast<const O&>(A) | x); throw_at = -1;', 'copies<T> && !opt::is_option_v<T>'),
 ('callback throws', 'try { A.map([&](T& x) -> int { h.v(x); throw Boom{3}; }); } catch (const Boom& e) { h.n(u64(e.code)); } try { A.or_else([&]() -> O { throw Boom{4}; }); } catch (const Boom& e) { h.n(u64(e.code)); } try { h.o(A.take_if([&](T&) -> bool { throw Boom{5}; })); } catch (const Boom& e) { h.n(u64(e.code)); }', 'copies<T>'),
 ('nest of four', 'using O2 = opt::option<O>; using O3 = opt::option<O2>; using O4 = opt::option<O3>; O4 q; int to = int(s % 5); if (to > 0) q.emplace(); if (to > 1) q->emplace(); if (to > 2) (*q)->emplace(); if (to > 3) (**q)->emplace(V()); auto look = [&](const O4& w) { h.n(w.has_value()); if (w) { h.n(w->has_value()); if (*w) { h.n((*w)->has_value()); if (**w) h.o(***w); } } }; look(q); O4 w(static_cast<O4&&>(q)); look(w); int back = int(s / 5 % 4); if (back == 0) w.reset(); else if (back == 1 && w) w->reset(); else if (back == 2 && w && *w) (*w)->reset(); else if (w && *w && **w) (**w)->reset(); look(w); q = static_cast<O4&&>(w); look(q); w.swap(q); look(q); look(w); h.o(opt::flatten(static_cast<O4&&>(w)));', '!opt::is_option_v<T>'),
 ('members of composites', 'struct S { O a; O b; bool c; }; std::pair<O, bool> p(static_cast<O&&>(A), true); opt::option<std::pair<O, bool>> q(static_cast<std::pair<O, bool>&&>(p)); h.n(q.has_value()); h.o(q->first); q->first.reset(); h.n(q.has_value()); h.o(q->first); q->first.emplace(V()); h.n(q.has_value()); A = static_cast<O&&>(q->first); q.reset(); h.n(q.has_value()); opt::option<std::tuple<int, O>> t; h.n(t.has_value()); t.emplace(3, O()); h.n(t.has_value()); h.o(std::get<1>(*t)); t = opt::none; h.n(t.has_value()); opt::option<std::array<O, 2>> z; h.n(z.has_value()); z.emplace(); h.n(z.has_value()); h.o((*z)[0]); (*z)[0] = V(); h.n(z.has_value()); h.o((*z)[0]); z.reset(); h.n(z.has_value());', 'true'),
 ('bool', 'opt::option<bool> q; if (s & 1) q = (s & 2) != 0; h.o(q); h.n(q == true); h.n(q < false); q |= true; h.o(q); opt::option<opt::option<bool>> w(std::in_place, q); h.n(w->has_value()); w->reset(); h.n(w.has_value()); h.o(*w); w.reset(); h.n(w.has_value());', 'true'),
]
def machine(seed):
    r = random.Random('p21-machine-%s' % seed); cases = []
    for n, pre, code, post, kw in p20.OPS:
        conds = []
        if kw.get('copy'): conds.append('copies<T>')
        if kw.get('cmp'): conds.append('K<T>::cmp')
        if n in NOT_NESTED: conds.append('!opt::is_option_v<T>')
        guard = ' '.join('if (%s%s.has_value()) break;' % ('!' if v else '', k) for k, v in pre.items())
        cases.append((n, code.replace('std::array<O, 3> q{{O(V()), O(V()), static_cast<O&&>(A)}}', 'std::array<O, 3> q{{O(V()), O(V()), O(static_cast<O&&>(A))}}'), ' && '.join(conds) or 'true', guard))
    for n, code, cond in EXTRA: cases.append((n, code, cond, ''))
    body = ''
    for i, (n, code, cond, guard) in enumerate(cases):
        body += 'template<class T> struct Op<T, %d> { using O = opt::option<T>; static void run(Ctx& h, O& A, O& B, u64 s) { (void)s; (void)A; (void)B; h.label("%s"); if constexpr (%s) { do { %s\n%s } while (false); } } };\n' % (i, n, cond, guard, re.sub(r'mk<T>', 'mk<T>', sub(code, r)))
    n = len(cases)
    return '''// generated
#pragma once
#include "p21_common.hpp"
namespace ts {
template<class T, int I> struct Op;
%stemplate<class T, int... I> void dispatch(Ctx& h, opt::option<T>& A, opt::option<T>& B, u64 s, u64 k, std::integer_sequence<int, I...>) { using F = void (*)(Ctx&, opt::option<T>&, opt::option<T>&, u64); static constexpr F f[] = {&Op<T, I>::run...}; f[k](h, A, B, s); }
template<class T> void machine(Ctx& h) {
    using O = opt::option<T>; O x[3]; properties<T>(h); for (O& e : x) if (h.pick(3)) e.emplace(mk<T>(h.next())); throw_at = -1;
    const int n = 1 + int(h.pick(60)); for (int i = 0; i < n && i < h.limit; ++i) {
        ++steps_done; const u64 a = h.pick(3), b = (a + 1 + h.pick(2)) %% 3, s = h.next(); const u64 k = h.pick(%d);
        try { dispatch<T>(h, x[a], x[b], s, k, std::make_integer_sequence<int, %d>()); } catch (const Boom& e) { throw_at = -1; h.n(u64(e.code) + 500); } catch (const opt::bad_access&) { h.n(888); }
        throw_at = -1; h.o(x[a]); h.o(x[b]);
    }
    for (O& e : x) h.o(e);
}
}
#define MACHINE(...) TS_REG("history over " #__VA_ARGS__, (&ts::machine<__VA_ARGS__>))
''' % (body, n, n), n
def sub(code, r):
    while 'V()' in code: code = code.replace('V()', 'mk<T>(s + %du)' % r.randint(1, 99999), 1)
    return code
SCALAR = ['bool', 'int', 'unsigned char', 'short', 'double', 'float', 'int*', 'const char*', 'En0', 'En1', 'En2', 'En3', 'En4', 'En5', 'long long']
PLAIN = SCALAR + ['std::string', 'std::string_view', 'std::vector<int>', 'std::vector<bool_>', 'Mk', 'Poly', 'Lit', 'Priv', 'Ownr', 'Padd']
FIXED = ['bool', 'int', 'double', 'float', 'int*', 'const char*', 'std::string', 'std::string_view', 'std::vector<int>', 'std::unique_ptr<int>', 'std::shared_ptr<int>', 'std::reference_wrapper<int>', 'std::complex<float>', 'int ts::Host::*', 'ts::Mf', 'ts::Fp', 'En0', 'En1', 'En2', 'En3', 'En4', 'En5', 'Mk', 'Th', 'Poly', 'Ownr', 'Priv', 'Padd', 'Empty0', 'opt::sentinel<int, -1, -2>', 'opt::option<int>', 'opt::option<bool>', 'std::pair<bool, std::string>', 'std::optional<int>', 'std::variant<int, std::string>', 'opt::option<opt::option<std::string>>', 'std::array<double, 2>', 'std::tuple<int, std::string, bool>', 'std::pair<std::unique_ptr<int>, int>']
def gen_type(r, tag, defs, depth):
    k = r.choice(['pair', 'tuple', 'array', 'option', 'option', 'struct', 'struct', 'leaf', 'vector', 'optional'] if depth else ['leaf'])
    if k == 'leaf': return r.choice([p for p in PLAIN if 'bool_' not in p] + ['Mk', 'Th', 'std::unique_ptr<int>', 'std::shared_ptr<int>'])
    if k == 'vector': return 'std::vector<%s>' % r.choice(['int', 'std::string', 'Mk', 'double'])
    if k == 'optional': return 'std::optional<%s>' % r.choice(['int', 'std::string', 'bool', 'En0'])
    if k == 'pair': return 'std::pair<%s, %s>' % (gen_type(r, tag, defs, depth - 1), gen_type(r, tag, defs, depth - 1))
    if k == 'tuple': return 'std::tuple<%s>' % ', '.join(gen_type(r, tag, defs, depth - 1) for _ in range(r.randint(2, 4)))
    if k == 'array': return 'std::array<%s, %d>' % (gen_type(r, tag, defs, depth - 1), r.randint(1, 3))
    if k == 'option': return 'opt::option<%s>' % gen_type(r, tag, defs, depth - 1)
    n = '%sS%d' % (tag, len(defs)); fs = [r.choice(PLAIN[:-7] + ['opt::option<int>', 'opt::option<bool>', 'std::pair<int, bool>', 'opt::option<double>']) for _ in range(r.randint(1, 4))]; fs = [f for f in fs if 'bool_' not in f]
    d = 'struct %s { %s };\n' % (n, ' '.join('%s f%d;' % (f, i) for i, f in enumerate(fs)))
    d += 'template<> struct K<%s> { static %s make(u64 s) { return %s{%s}; } static u64 key(const %s& x) { u64 h = 3; %s return h; } static constexpr bool cmp = true; }; TS_REL(%s)\n' % (n, n, n, ', '.join('K<%s>::make(mix(s + %d))' % (f, i) for i, f in enumerate(fs)), n, ' '.join('h = mix(h) + K<%s>::key(x.f%d);' % (f, i) for i, f in enumerate(fs)), n)
    defs.append(d); return n
def generate(d, seed, tier):
    files, per = (8, 2) if tier == 'quick' else (12, 5); out = []; types = []
    text, n = machine(seed); open(os.path.join(d, 'p21_machine.hpp'), 'w').write(text)
    for f in range(files):
        r = random.Random('p21-%s-%s-%d' % (seed, tier, f)); defs = []; ts = [t for i, t in enumerate(FIXED) if i % files == f]
        gs = [gen_type(r, 'V%d' % f, defs, 1 + i % 3) for i in range(per)]
        p = os.path.join(d, 'p21_g%d.cpp' % f); types += gs
        open(p, 'w').write('#include "p21_machine.hpp"\nnamespace ts {\n%s}\nusing namespace ts;\n%s' % (''.join(defs), ''.join('MACHINE(%s);\n' % t for t in dict.fromkeys(ts + gs))))
        out.append(p)
    # the constant programs
    q = os.path.join(d, 'constants'); os.makedirs(q, exist_ok=True)
    if tier != 'quick' or True:
        for i, p in enumerate(p20.generate(q, seed, 'quick')):
            if tier == 'quick' and (i + int(seed)) % 3: continue
            out.append(p)
    SUMMARY.update({'operations': n, 'fixed types': len(FIXED), 'generated types': types[:20]})
    return out
