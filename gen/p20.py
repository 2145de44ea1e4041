"""Programs over options of literal types that are evaluated as constants and at run time."""
import os, random
SUMMARY = {}
# op: (name, {variable: state needed (0 empty, 1 full, absent: any)}, code, {variable: state afterwards}); 'AB' are options, V() a fresh value
# states afterwards may be 'A' / 'B' (the state of that variable before), 'A|B', 'A&B', None (not known statically)
OPS = []
def op(name, pre, code, post=None, **kw): OPS.append((name, pre, code, post or {}, kw))
A1, B1, A0 = {'A': 1}, {'B': 1}, {'A': 0}
op('default', {}, 'A = O();', {'A': 0}, nc=1); op('from none', {}, 'O t(opt::none); h.o(t);', defc=1); op('in place', {}, 'O t(std::in_place, V()); h.o(t);'); op('from value', {}, 'O t(V()); h.o(t);'); op('from const value', {}, 'const T x(V()); O t(x); h.o(t); O w = x; h.o(w);', copy=1)
op('copy', {}, 'O t(A); h.o(t); h.o(A);', copy=1); op('move', {}, 'O t(static_cast<O&&>(A)); h.o(t); h.n(A.has_value());', {}); op('const copy', {}, 'const O& k = A; O t = k; h.o(t);', copy=1); op('const option', {}, 'const O t(V()); h.o(t); h.v(*t); h.v(t.get());')
op('copy assign', {}, 'A = B;', {'A': 'B'}, copy=1); op('move assign', {}, 'A = static_cast<O&&>(B); h.n(B.has_value());', {'A': 'B'}); op('self assign', {}, 'A = static_cast<const O&>(A); h.o(A);', copy=1); op('value assign', {}, 'h.o(A = V());', {'A': 1}); op('lvalue assign', {}, 'const T x(V()); A = x;', {'A': 1}, copy=1); op('none assign', {}, 'h.o(A = opt::none);', {'A': 0})
op('reset', {}, 'A.reset();', {'A': 0}); op('emplace', {}, 'h.v(A.emplace(V()));', {'A': 1}); op('emplace over', A1, 'T& r = A.emplace(V()); h.n(&r == &A.get());', {'A': 1}); op('try_emplace', {}, 'h.v(A.try_emplace(V()));', {'A': 1}); op('try_emplace full', A1, 'T& r = A.try_emplace(V()); h.n(&r == &A.get());')
op('observe', {}, 'h.n(A.has_value()); h.n(bool(A)); h.n(!A); h.n(A == opt::none); h.n(opt::none == A); h.n(A != opt::none); h.n(opt::none != A); const O& k = A; h.n(k.has_value()); h.n(k.ptr_or_null() == nullptr); h.n(A.ptr_or_null() != nullptr);')
op('none order', {}, 'h.n(A < opt::none); h.n(A <= opt::none); h.n(A > opt::none); h.n(A >= opt::none); h.n(opt::none < A); h.n(opt::none <= A); h.n(opt::none > A); h.n(opt::none >= A);')
op('has_value_and', {}, 'h.n(A.has_value_and([](const T& x) { return K<T>::key(x) % 2 == 0; })); const O& k = A; h.n(k.has_value_and([&](const T& x) { h.v(x); return true; })); h.n(static_cast<O&&>(A).has_value_and([](T&& x) { return K<T>::key(x) % 3 == 0; })); h.n(static_cast<const O&&>(A).has_value_and([](const T&&) { return false; }));')
op('take', {}, 'h.o(A.take()); h.o(A);', {'A': 0}); op('take_if', {}, 'h.o(A.take_if([&](T& x) { h.v(x); return K<T>::key(x) % 2 == 0; })); h.o(A);', {'A': None})
op('take_if yes', {}, 'h.o(A.take_if([&](const T&) { return true; }));', {'A': 0}); op('take_if no', {}, 'h.o(A.take_if([&](const T&) { return false; })); h.o(A);', defc=1)
op('inspect', {}, 'int k = 0; h.n(&A.inspect([&](T& x) { ++k; h.v(x); }) == &A); static_cast<const O&>(A).inspect([&](const T&) { k += 2; }); static_cast<O&&>(A).inspect([&](T&&) { k += 4; }); static_cast<const O&&>(A).inspect([&](const T&&) { k += 8; }); h.n(u64(k));')
op('inspect writes', A1, 'A.inspect([&](T& x) { x = V(); });')
op('access', A1, 'h.v(*A); h.v(A.get()); h.v(A.get_unchecked()); h.v(A.value()); h.v(A.value_or_throw()); h.n(&*A == A.operator->()); h.n(A.ptr_or_null() == &A.get()); h.n(&*A.begin() == &A.get()); const O& k = A; h.v(*k); h.v(k.get()); h.v(k.get_unchecked()); h.v(k.value()); h.v(k.value_or_throw()); h.n(&*k == k.operator->()); h.v(*static_cast<const O&&>(A)); h.v(static_cast<const O&&>(A).get()); h.v(static_cast<const O&&>(A).value()); h.v(static_cast<O&&>(A).get_unchecked());')
op('write', A1, '*A = V(); h.o(A); A.get() = V(); h.o(A); *A.operator->() = V(); h.o(A); *A.ptr_or_null() = V(); h.o(A); A.value() = V();')
op('move out', A1, 'T x = *static_cast<O&&>(A); h.v(x); h.o(A); A.get() = static_cast<T&&>(x); T y = static_cast<O&&>(A).get(); h.v(y); *A = static_cast<T&&>(y); T z = static_cast<O&&>(A).value(); h.v(z); *A = static_cast<T&&>(z); T w = static_cast<O&&>(A).value_or_throw(); h.v(w); *A = static_cast<T&&>(w);')
op('value_or', {}, 'h.v(static_cast<const O&>(A).value_or(V())); const T d(V()); h.v(A.value_or(d)); h.v(static_cast<O&&>(A).value_or(V())); h.n(A.has_value());', copy=1); op('value_or move', {}, 'h.v(static_cast<O&&>(A).value_or(V())); h.n(A.has_value());')
op('value_or_construct', {}, 'h.v(A.value_or_construct(V())); h.v(static_cast<O&&>(A).value_or_construct(V()));', copy=1); op('value_or_construct move', {}, 'h.v(static_cast<O&&>(A).value_or_construct(V()));')
op('map_or', {}, 'h.n(A.map_or(u64(5), [&](T& x) { return K<T>::key(x) + 1; })); h.n(static_cast<const O&>(A).map_or(u64(5), [](const T& x) { return K<T>::key(x); })); h.n(static_cast<O&&>(A).map_or(u64(6), [](T&& x) { return K<T>::key(x); })); h.n(static_cast<const O&&>(A).map_or(u64(6), [](const T&& x) { return K<T>::key(x) * 3; }));')
op('map_or_else', {}, 'h.n(A.map_or_else([&] { h.n(9); return u64(5); }, [&](T& x) { return K<T>::key(x) + 1; })); h.n(static_cast<const O&>(A).map_or_else([] { return u64(1); }, [](const T& x) { return K<T>::key(x); })); h.n(static_cast<O&&>(A).map_or_else([] { return u64(2); }, [](T&& x) { return K<T>::key(x); })); h.n(static_cast<const O&&>(A).map_or_else([] { return u64(2); }, [](const T&& x) { return K<T>::key(x) * 7; }));')
op('map', {}, 'h.o(A.map([](T& x) { return int(K<T>::key(x) % 1000); })); h.o(static_cast<const O&>(A).map([](const T& x) { return Lit(int(K<T>::key(x) % 1000), 4); })); h.o(static_cast<O&&>(A).map([](T&& x) -> long long { return (long long)(K<T>::key(x)); })); h.o(static_cast<const O&&>(A).map([](const T&& x) { return (unsigned char)(K<T>::key(x)); }));')
op('map to self', {}, 'h.o(static_cast<O&&>(A).map([&](T&& x) -> T { h.v(x); return V(); }));', defc=1)
op('map to reference', {}, 'auto r = A.map([](T& x) -> T& { return x; }); h.n(r.has_value()); if (r.has_value()) { h.v(r.get()); h.n(&r.get() == &A.get()); }')
op('and_then', {}, 'h.o(A.and_then([&](T& x) { return K<T>::key(x) % 2 ? opt::option<int>(3) : opt::option<int>(); })); h.o(static_cast<const O&>(A).and_then([](const T& x) { return opt::option<long long>((long long)K<T>::key(x)); })); h.o(static_cast<O&&>(A).and_then([](T&&) { return opt::option<int>(); })); h.o(static_cast<const O&&>(A).and_then([](const T&&) { return opt::option<int>(8); }));')
op('and_then self', {}, 'h.o(static_cast<O&&>(A).and_then([&](T&& x) { return O(static_cast<T&&>(x)); }));', defc=1)
op('or_else', {}, 'h.o(static_cast<const O&>(A).or_else([&] { h.n(1); return O(V()); })); h.o(A.or_else([] { return O(); }));', copy=1, defc=1); op('or_else move', {}, 'h.o(static_cast<O&&>(A).or_else([&] { return O(V()); }));')
op('filter', {}, 'h.o(A.filter([](T& x) { return K<T>::key(x) % 2 == 0; })); h.o(static_cast<const O&>(A).filter([](const T& x) { return K<T>::key(x) % 2 == 1; }));', copy=1, defc=1); op('filter move', {}, 'h.o(static_cast<O&&>(A).filter([](const T& x) { return K<T>::key(x) % 2 == 0; }));', defc=1)
op('swap', {}, 'A.swap(B);', {'A': 'B', 'B': 'A'}); op('free swap', {}, 'opt::swap(A, B); h.o(A);', {'A': 'B', 'B': 'A'}); op('adl swap', {}, 'using std::swap; swap(A, B);', {'A': 'B', 'B': 'A'}); op('self swap', A0, 'A.swap(A); h.o(A);')
op('iterator arithmetic', {}, 'auto i = A.begin(); auto j = i; h.n(u64(i - j)); h.n(i == j); h.n(i != j); h.n(i <= j); j += 0; j -= 0; h.n(u64(j - i)); const O& q = A; auto ci = q.begin(); h.n(u64(ci - q.begin())); if (A.has_value()) { h.v(*i); h.v(i[0]); h.v(ci[0]); h.v(*(i + 0)); ++j; --j; h.v(*j); j++; j--; h.n(i == j); h.v(*(0 + ci)); h.n(i.operator->() == &A.get()); typename O::const_iterator k(i); h.n(k == ci); }');
op('iterate', {}, 'int k = 0; for (T& x : A) { h.v(x); ++k; } const O& q = A; for (const T& x : q) { h.v(x); k += 10; } h.n(u64(k)); h.n(A.begin() != A.end()); h.n(q.begin() == q.end());')
op('compare', {}, 'h.n(A == B); h.n(A != B); h.n(A < B); h.n(A <= B); h.n(A > B); h.n(A >= B); h.n(A == A); h.n(A < A);', cmp=1); op('compare values', {}, 'const T x(V()); h.n(A == x); h.n(A != x); h.n(A < x); h.n(A <= x); h.n(A > x); h.n(A >= x); h.n(x == A); h.n(x != A); h.n(x < A); h.n(x <= A); h.n(x > A); h.n(x >= A);', cmp=1)
op('compare with own value', A1, 'h.n(A == *A); h.n(*A >= A); h.n(A < *A);', cmp=1)
op('or value', {}, 'h.v(A | V()); h.v(static_cast<const O&>(A) | V());', copy=1); op('or value move', {}, 'h.v(static_cast<O&&>(A) | V());'); op('or option', {}, 'h.o(A | B); h.o(B | A);', copy=1); op('or option move', {}, 'h.o(static_cast<O&&>(A) | static_cast<O&&>(B));'); op('xor', {}, 'h.o(A ^ B); h.o(B ^ A);', copy=1, defc=1); op('xor move', {}, 'h.o(static_cast<O&&>(A) ^ static_cast<O&&>(B));', defc=1); op('and', {}, 'h.o(A & B); h.o(opt::option<int>(3) & B); h.o(A & opt::option<int>(3)); h.o(opt::option<int>() & opt::option<short>(short(4)));', copy=1, defc=1); op('and move', {}, 'h.o(opt::option<short>(short(1)) & static_cast<O&&>(B));', defc=1)
op('or assign', {}, 'h.o(A |= V());', {'A': 1}); op('or assign option', {}, 'h.o(A |= static_cast<const O&>(B));', {'A': 'A|B'}, copy=1)
op('zip', {}, 'auto z = opt::zip(A, B, opt::option<int>(4)); h.n(z.has_value()); if (z.has_value()) { h.v(std::get<0>(*z)); h.v(std::get<1>(*z)); h.v(std::get<2>(*z)); }', copy=1); op('zip move', {}, 'auto z = opt::zip(static_cast<O&&>(A), opt::option<long long>(9)); h.n(z.has_value()); if (z.has_value()) h.v(std::get<0>(*z));')
op('zip_with', {}, 'h.o(opt::zip_with([&](const T& x, const T& y, int k) { return int((K<T>::key(x) + 3 * K<T>::key(y)) % 9999) + k; }, A, B, opt::option<int>(2))); h.o(opt::zip_with([](T&& x, short) { return (long long)K<T>::key(x); }, static_cast<O&&>(A), opt::option<short>(short(3)))); int k = 0; opt::zip_with([&](const T&, int) { ++k; }, A, opt::option<int>()); h.n(u64(k));')
op('unzip', {}, 'auto z = opt::zip(A, opt::option<int>(7)); auto [x, y] = opt::unzip(z); h.o(x); h.o(y); auto w = opt::unzip(static_cast<decltype(z)&&>(z)); h.o(std::get<0>(w));', copy=1, defc=1)
op('unzip of pairs', {}, 'opt::option<std::pair<T, int>> z(std::in_place, V(), 7); auto [x, y] = opt::unzip(static_cast<opt::option<std::pair<T, int>>&&>(z)); h.o(x); h.o(y);', defc=1)
op('from_nullable', {}, 'T x(V()); opt::option<T&> r = opt::from_nullable(&x); h.n(&r.get() == &x); h.o(r); opt::option<T&> e = opt::from_nullable(static_cast<T*>(nullptr)); h.o(e); const T* q = A.ptr_or_null(); auto w = opt::from_nullable(q); h.o(w); opt::option<T&> u = opt::from_nullable(A.ptr_or_null()); h.n(u.has_value());')
op('make_option', {}, 'h.o(opt::make_option(V())); const T x(V()); h.o(opt::make_option(x)); h.o(opt::make_option<T>(V()));', copy=1); op('make_option move', {}, 'h.o(opt::make_option(V()));'); op('deduction', {}, 'opt::option t(V()); h.o(t); opt::option w = V(); h.o(w);')
op('reference', A1, 'opt::option<T&> r(*A); h.n(&*r == &*A); h.o(r); *r = V(); h.o(A); opt::option<const T&> c(r); h.o(c); r.reset(); h.o(r); r = *A; h.o(r); opt::option<T&> s2; s2 = r; h.o(s2); s2.swap(r); h.o(s2.take()); h.o(s2); h.n(r.map([](T& x) { return K<T>::key(x) % 7; }).value_or(u64(3))); T z(V()); r.emplace(z); h.n(&r.get() == &z); h.n(r == z); h.n(r.value() == z);', cmp=1)
op('reference none', {}, 'opt::option<T&> r; h.o(r); h.n(r.ptr_or_null() == nullptr); opt::option<T&> q = opt::none; h.o(q); h.n(r == q); for (T& x : r) h.v(x); h.o(r.or_else([&] { return opt::from_nullable(A.ptr_or_null()); })); h.o(r | q); h.o(r ^ q);', cmp=1)
op('assigning values of references', {}, 'T x(V()); opt::option<T&> r(x); O t(r); h.o(t); h.o(r); A = r; h.o(A); h.n(r.value_or(x) == x);', {'A': 1}, copy=1, cmp=1)
op('pass through', {}, 'auto f = [](O x) { return x; }; h.o(f(static_cast<O&&>(A)));'); op('aggregate of options', {}, 'struct S { O x; int y; O z; }; S q{static_cast<O&&>(A), 3, O(V())}; h.o(q.x); h.o(q.z); S w(static_cast<S&&>(q)); h.o(w.x); h.o(w.z);'); op('array of options', {}, 'std::array<O, 3> q{{O(V()), O(V()), static_cast<O&&>(A)}}; for (O& x : q) h.o(x); q[0] = static_cast<O&&>(q[2]); h.o(q[0]);')
op('flatten', {}, 'opt::option<O> q(std::in_place, static_cast<O&&>(A)); h.n(q.has_value()); h.o(opt::flatten(static_cast<opt::option<O>&&>(q)));', nested=1)
op('nested', {}, 'opt::option<opt::option<O>> q; h.n(q.has_value()); q.emplace(); h.n(q.has_value()); h.n(q->has_value()); q->emplace(V()); h.o(**q); (*q)->reset(); h.n((*q)->has_value()); q->reset(); h.n(q->has_value()); q = opt::none; h.n(q.has_value()); auto w = q; h.n(w.has_value());', nested=1, copy=1)
op('const contained', {}, 'opt::option<const T> q(V()); h.o(q); h.v(*q); opt::option<const T> e; h.o(e); e.emplace(V()); h.o(e); e.reset(); h.o(e); h.n(q.map([](const T& x) { return K<T>::key(x); }).get());', defc=1)
# of particular types
INTS = [
 ('converting', 'h.o(opt::option<long long>(A)); opt::option<long long> t; t = A; h.o(t); t = opt::option<short>(short(3)); h.o(t); t = static_cast<O&&>(A); h.o(t); opt::option<short> e; t = e; h.o(t); t = short(8); h.o(t); h.n(A == t); h.n(t <= A); h.n(A < e); h.n(e != t); h.n(A == 3LL);', {}),
 ('option_cast', 'h.o(opt::option_cast<long long>(A)); h.o(opt::option_cast<unsigned char>(A)); h.o(opt::option_cast<short>(static_cast<O&&>(A)));', {}),
 ('at', 'std::array<int, 4> q{{1, 2, int(s % 100), 4}}; h.o(opt::at(q, s % 6)); h.o(opt::at_front(q)); h.o(opt::at_back(q)); const std::array<int, 2> k{{5, 6}}; h.o(opt::at(k, s % 3)); *opt::at(q, 1) = 9; h.n(u64(q[1])); h.o(opt::at(std::array<int, 2>{{1, 2}}, 1));', {}),
 ('get of tuples', 'opt::option<std::tuple<int, short>> q(std::in_place, int(s % 100), short(3)); h.o(opt::get<0>(q)); h.o(opt::get<short>(q)); opt::get<0>(q).get() = 5; h.n(u64(std::get<0>(*q))); const opt::option<std::pair<int, long long>> e; h.o(opt::get<0>(e)); h.o(opt::get<1>(opt::option<std::pair<int, long long>>(std::in_place, 3, 4)));', {}),
 ('get of variants', 'std::variant<int, short, long long> q(short(s % 50)); h.o(opt::get<1>(q)); h.o(opt::get<int>(q)); const auto& k = q; h.o(opt::get<short>(k)); h.o(opt::get<2>(k)); opt::get<short>(q).get() = 4; h.o(opt::get<1>(q));', {}),
 ('emplace several arguments', 'opt::option<Lit> q(std::in_place, int(s % 77), short(4)); h.o(q); opt::option<Lit> w(int(s % 9), short(2)); h.o(w); h.o(opt::make_option<Lit>(3, short(4))); h.n(u64(q.map(&Lit::sum).get())); h.n(u64(q.map(&Lit::a).get())); opt::option<Ag> g(std::in_place, 5, (unsigned short)(6)); h.o(g); h.n(u64(q.value_or_construct(1).a)); h.n(u64(q.has_value_and([](const Lit& x) { return x.sum() > 40; })));', {}),
]
# name, C++20 only, copyable, has states of its own, needs flags (no built-in traits), integer
TYPES = [('int', 0, 1, 0, 0), ('unsigned char', 0, 1, 0, 0), ('long long', 0, 1, 0, 0), ('char32_t', 0, 1, 0, 0), ('Lit', 0, 1, 0, 0), ('Ag', 0, 1, 0, 0), ('Cp', 0, 1, 0, 0), ('Sg', 0, 1, 0, 0), ('Pr', 0, 1, 0, 0), ('Ar', 0, 1, 0, 0), ('Tu', 0, 1, 0, 0), ('Tr', 0, 1, 1, 0), ('Se', 0, 1, 1, 0), ('Own', 1, 1, 0, 0), ('Mo', 1, 0, 0, 0),
 ('std::vector<int>', 1, 1, 0, 1), ('On', 0, 1, 0, 1), ('Bp', 0, 1, 0, 1), ('bool', 0, 1, 0, 1), ('double', 0, 1, 0, 1)]
def sub(code, r):
    while 'V()' in code: code = code.replace('V()', 'mk<T>(s + %du)' % r.randint(1, 99999), 1)
    import re
    return re.sub(r'\bB\b', 'b_', re.sub(r'\bA\b', 'a_', code))
def start(var, st, t, r):
    v = {'A': 'a_', 'B': 'b_'}[var]
    if st == 1: return sub('O %s(V()); ' % v, r)
    return sub('O %s(V()); %s.reset(); ' % (v, v), r) if t[3] else 'O %s; ' % v
def wanted(o, t):
    k = o[4]
    return not (k.get('copy') and not t[2]) and not (k.get('nested') and not t[4] )
def int_ops(): return [(n, {}, c, p, {'int': 1}) for n, c, p in INTS]
def matrix(d):
    """every operation alone in every state: used to find what can be a constant at all"""
    r = random.Random(1); out = []
    for t in TYPES:
        text = '#include "p20_common.hpp"\nusing namespace cx;\n'; k = 0
        if t[4]: text += '#if CX_FLAGS\n'
        if t[1]: text += '#if CX20\n'
        for o in OPS + (int_ops() if t[0] == 'int' else []):
            if not wanted(o, t): continue
            for a in (0, 1):
                for b in ((0, 1) if 'B' in o[2].replace('Bp', '') else (0,)):
                    if o[1].get('A', a) != a or o[1].get('B', b) != b: continue
                    k += 1; text += '/*%s|%d|%d*/ namespace m%d { using T = %s; using O = opt::option<T>; constexpr u64 f(u64 s) { H h; %s%s{ %s } h.o(a_); h.o(b_); return h.x; } constexpr auto r = evaluate<8>(&f, 77); }\n' % (o[0], a, b, k, t[0], start('A', a, t, r), start('B', b, t, r), sub(o[2], r))
        if t[1]: text += '#endif\n'
        if t[4]: text += '#endif\n'
        p = os.path.join(d, 'm_%s.cpp' % ''.join(c for c in t[0] if c.isalnum())); open(p, 'w').write(text); out.append((t[0], p))
    return out
# programs: sequences of operations on three options; states are tracked as far as they are known
import json
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p20_table.json')))
def states(o, sa, sb):
    """states that the operation can meet, or None when a needed state is not certain"""
    res = []
    for a in ((sa,) if sa is not None else (0, 1)):
        for b in ((sb,) if sb is not None else (0, 1)):
            if o[1].get('A', a) != a or o[1].get('B', b) != b: return None
            res.append('%s|%d|%d' % (o[0], a, b if uses_b(o) else 0))
    return res
def uses_b(o):
    import re
    return re.search(r'\bB\b', o[2]) is not None
def after(w, a, b):
    return a if w == 'A' else b if w == 'B' else (None if a is None and b != 1 or b is None and a != 1 else int(a == 1 or b == 1)) if w == 'A|B' else w
def moved(o): return None
def program(r, t, name, cxx20, todo):
    tab = TABLE[t[0]]; never, only = set(tab['never']), set(tab['only20']); ops = [o for o in OPS + (int_ops() if t[0] == 'int' else []) if wanted(o, t)]
    vs = ['x0', 'x1', 'x2']; st = {}; body = ''; n = r.randint(5, 14) if cxx20 else r.randint(4, 10); used = []
    for v in vs:
        k = r.choice([0, 1, 1]) if not t[3] else 1
        dyn = cxx20 and not t[3] and r.random() < .4
        if dyn: body += sub('O %s; if ((mix(s + %d) & 1) != 0) %s = V();\n' % (v, r.randint(1, 999), v), r); st[v] = None
        elif k: body += sub('O %s(V());\n' % v, r); st[v] = 1
        else: body += 'O %s%s;\n' % (v, r.choice(['', '{opt::none}', ' = opt::none', '{}'])); st[v] = 0
    tries = 0
    while n > 0 and tries < 400:
        tries += 1; o = todo[-1] if todo and tries % 3 else r.choice(ops); x, y = r.sample(vs, 2); S = states(o, st[x], st[y])
        if S is None or any(k in never or (not cxx20 and k in only) for k in S): 
            if todo and o is todo[-1] and tries % 30 == 29: todo.insert(0, todo.pop())
            continue
        if todo and o is todo[-1]: todo.pop()
        import re
        code = sub(o[2], r); code = re.sub(r'\ba_\b', x, re.sub(r'\bb_\b', y, code))
        body += '/* %s */ { %s }\n' % (o[0], code); a, b = st[x], st[y]; used.append(o[0])
        st[x] = after(o[3].get('A', 'A'), a, b); st[y] = after(o[3].get('B', 'B'), a, b); n -= 1
    for v in vs: body += 'h.o(%s);\n' % v
    return 'namespace %s { using T = %s; using O = opt::option<T>; constexpr u64 f(u64 s) { H h;\n%sreturn h.x; }\nCX_PROGRAM(f, %du, "%s over %s: %s"); }\n' % (name, t[0], body, r.randint(1, 10 ** 6), name, t[0], ', '.join(used)), used
def generate(d, seed, tier):
    per = 3 if tier == 'quick' else 14; out = []; total = [0, 0]; ops_used = set(); lengths = 0
    groups = [[t for i, t in enumerate(TYPES) if i % 7 == g] for g in range(7)]
    for g, ts in enumerate(groups):
        r = random.Random('p20-%s-%s-%d' % (seed, tier, g)); text = '#include "p20_common.hpp"\nusing namespace cx;\n'
        for t in ts:
            ops = [o for o in OPS + (int_ops() if t[0] == 'int' else []) if wanted(o, t)]
            tn = ''.join(c for c in t[0] if c.isalnum())
            for c20 in ((1,) if t[1] else (0, 1)):
                # every operation occurs in some program; then more programs at random
                todo = ops[:]; r.shuffle(todo); k = 0
                if t[4]: text += '#if CX_FLAGS\n'
                if c20: text += '#if CX20\n'
                tab = set(TABLE[t[0]]['never']) | (set(TABLE[t[0]]['only20']) if not c20 else set())
                todo = [o for o in todo if any(S and not any(q in tab for q in S) for S in (states(o, a, b) for a in (0, 1) for b in (0, 1)))]
                while (todo and k < 25) or k < per:
                    p, used = program(r, t, 'p%d_%s_%d' % (c20, tn, k), c20, todo); text += p; k += 1; total[c20] += 1; ops_used |= set(used); lengths += len(used)
                if c20: text += '#endif\n'
                if t[4]: text += '#endif\n'
        p = os.path.join(d, 'p20_g%d.cpp' % g); open(p, 'w').write(text); out.append(p)
    SUMMARY.update({'programs for both language modes': total[0], 'programs for C++20': total[1], 'operations': len(ops_used), 'operations in programs': lengths, 'types': [t[0] for t in TYPES]})
    return out
