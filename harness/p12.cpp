// Hashing: forwarding, equality implies equal hashes, unordered containers against ordered models.
#include "types.hpp"
#include <unordered_set>
#include <bitset>
#include <system_error>
#include <thread>
#include <typeindex>

template<class T, class = void> struct hash_ok : std::false_type {};
template<class T> struct hash_ok<T, std::void_t<decltype(std::hash<T>{}(std::declval<const T&>()))>> : std::true_type {};

struct Mod { int v; friend bool operator==(const Mod& a, const Mod& b) { return a.v % 16 == b.v % 16; } };
static int hash_calls; static const Mod* hash_arg;
template<> struct std::hash<Mod> { std::size_t operator()(const Mod& m) const { ++hash_calls; hash_arg = &m; return std::size_t(m.v & 15) * 0x9E3779B97F4A7C15ull; } };
template<> struct Ty<Mod> { static Mod make(u64 s) { return Mod{int(s & 0xffff)}; } static const char* name() { return "Mod"; } };
// collides with everything, including the hash of an empty option
struct Zero { int v; friend bool operator==(const Zero& a, const Zero& b) { return a.v == b.v; } };
template<> struct std::hash<Zero> { std::size_t operator()(const Zero&) const noexcept { return 0; } };
template<> struct Ty<Zero> { static Zero make(u64 s) { return Zero{int(s)}; } static const char* name() { return "Zero"; } };
struct NoHash { int v; };
struct Disabled { int v; }; template<> struct std::hash<Disabled> { hash() = delete; std::size_t operator()(const Disabled&) const; };
static_assert(hash_ok<opt::option<int>>::value && hash_ok<opt::option<const int>>::value && hash_ok<opt::option<std::string>>::value && hash_ok<opt::option<Mod>>::value && hash_ok<opt::option<opt::option<int>>>::value && hash_ok<opt::option<E8>>::value, "options of hashable types are hashable");
static_assert(hash_ok<opt::option<std::unique_ptr<int>>>::value && hash_ok<opt::option<int*>>::value && hash_ok<opt::option<bool>>::value && hash_ok<opt::option<std::string_view>>::value, "options of hashable types are hashable");
static_assert(!std::is_default_constructible_v<std::hash<opt::option<NoHash>>> && !hash_ok<opt::option<NoHash>>::value && !hash_ok<opt::option<Disabled>>::value && !hash_ok<opt::option<std::vector<int>>>::value && !hash_ok<opt::option<opt::option<NoHash>>>::value, "options of types without a hash have none");
static_assert(std::is_default_constructible_v<std::hash<opt::option<int>>> && std::is_copy_constructible_v<std::hash<opt::option<int>>> && std::is_copy_assignable_v<std::hash<opt::option<int>>>);
static_assert(noexcept(std::hash<opt::option<int>>{}(std::declval<const opt::option<int>&>())) && noexcept(std::hash<opt::option<Zero>>{}(std::declval<const opt::option<Zero>&>())) && !noexcept(std::hash<opt::option<Mod>>{}(std::declval<const opt::option<Mod>&>())), "noexcept of the hash follows the value's hash");

template<class T> void forwards(Case& c) {
    using O = opt::option<T>; using V = std::remove_const_t<T>; std::hash<O> h;
    u64 s = c.interesting(), r = c.chance(1, 3) ? s : c.interesting();
    static const unsigned char fill[] = {0, 0xff, 0x5a};
    Box<O> a(fill[c.pick(3)]), b(fill[c.pick(3)]), e1(fill[c.pick(3)]), e2(fill[c.pick(3)]);
    bool ea = c.chance(4, 5), eb = c.chance(4, 5);
    if (ea) a->emplace(Ty<V>::make(s)); if (eb) b->emplace(Ty<V>::make(r));
    if (c.coin()) { e1->emplace(Ty<V>::make(r)); e1->reset(); } if (c.coin()) { e2->emplace(Ty<V>::make(s)); *e2 = opt::none; }
    c.log("%s: %d spec %llu; %d spec %llu", Ty<V>::name(), int(ea), (unsigned long long)s, int(eb), (unsigned long long)r);
    if (ea) REQUIRE_MSG(h(*a) == std::hash<V>{}(a->get()), "the hash of a full option<%s> is not the hash of its value", Ty<V>::name());
    REQUIRE_MSG(h(*e1) == h(*e2), "two empty option<%s> have different hashes", Ty<V>::name());
    if (!ea) REQUIRE_MSG(h(*a) == h(*e1), "two empty options have different hashes");
    if constexpr (std::is_copy_constructible_v<O>) { O copy = *a; REQUIRE_MSG(h(copy) == h(*a), "a copy has another hash"); if (*a == *b) REQUIRE_MSG(h(*a) == h(*b), "equal options have different hashes"); const O cc = *b; REQUIRE(h(cc) == h(*b)); }
    REQUIRE(h(*a) == h(*a)); REQUIRE(std::hash<O>{}(*a) == h(*a));
    c.nontrivial(ea);
}
#define HF(...) REG("hash " #__VA_ARGS__, (&forwards<__VA_ARGS__>));
HF(int) HF(bool) HF(float) HF(double) HF(unsigned char) HF(long long) HF(int*) HF(std::string) HF(std::string_view) HF(std::unique_ptr<int>) HF(E8) HF(ES) HF(const int) HF(const std::string) HF(opt::option<int>) HF(opt::option<bool>) HF(opt::option<opt::option<bool>>) HF(Mod) HF(Zero)

PROP("value hash is called once, with the contained object") {
    bool e = c.coin(); opt::option<Mod> o; if (e) o.emplace(Mod{int(c.pick(100))});
    hash_calls = 0; hash_arg = nullptr; (void)std::hash<opt::option<Mod>>{}(o);
    REQUIRE_MSG(hash_calls == int(e), "the value's hash was called %d times", hash_calls); if (e) REQUIRE(hash_arg == &o.get());
    opt::option<Mod> p, q; if (e) { p.emplace(Mod{5}); q.emplace(Mod{21}); REQUIRE(p == q && std::hash<opt::option<Mod>>{}(p) == std::hash<opt::option<Mod>>{}(q)); }
    c.nontrivial(e);
}
PROP("positive and negative zero") {
    opt::option<double> a{0.0}, b{-0.0}; opt::option<float> x{0.0f}, y{-0.0f}; REQUIRE(a == b && std::hash<opt::option<double>>{}(a) == std::hash<opt::option<double>>{}(b)); REQUIRE(x == y && std::hash<opt::option<float>>{}(x) == std::hash<opt::option<float>>{}(y)); c.nontrivial();
}
PROP("reference options hash deterministically") {
    int t[2] = {1, 1}; opt::option<int&> a, b; int i = int(c.pick(3)); if (i < 2) { a = t[i]; b = t[i]; } std::hash<opt::option<int&>> h; REQUIRE(h(a) == h(b)); opt::option<int&> d = a; REQUIRE(h(d) == h(a)); c.nontrivial(i < 2);
}
// option keys in unordered containers against a list-based model
template<class T> void container(Case& c) {
    using O = opt::option<T>; std::unordered_set<O> s; std::unordered_map<O, int> m; std::vector<std::pair<O, int>> model;
    auto find = [&](const O& k) { for (auto& e : model) if (e.first == k) return &e; return static_cast<std::pair<O, int>*>(nullptr); };
    int n = 2 + int(c.pick(24)); u64 base = c.interesting();
    for (int k = 0; k < n; ++k) {
        O key; if (c.chance(5, 6)) key.emplace(Ty<T>::make(c.chance(3, 4) ? base + c.pick(6) : c.interesting()));
        auto* f = find(key);
        switch (c.pick(4)) {
        case 0: case 1: REQUIRE_MSG(s.insert(key).second == (f == nullptr), "insert disagrees with the model"); m[key] = k; if (f) f->second = k; else model.push_back({key, k}); break;
        case 2: REQUIRE_MSG(s.count(key) == (f ? 1u : 0u), "an inserted key is %s found", f ? "not" : "spuriously"); { auto it = m.find(key); REQUIRE((it != m.end()) == (f != nullptr)); if (f) REQUIRE(it->second == f->second); } break;
        default: REQUIRE_MSG(s.erase(key) == (f ? 1u : 0u), "erase disagrees with the model"); m.erase(key); if (f) { *f = model.back(); model.pop_back(); } break;
        }
        if (c.chance(1, 5)) { s.rehash(1 + c.pick(200)); m.rehash(1 + c.pick(50)); }
        REQUIRE_MSG(s.size() == model.size() && m.size() == model.size(), "the container has %zu keys, the model %zu", s.size(), model.size());
    }
    for (auto& e : model) { REQUIRE(s.count(e.first) == 1); REQUIRE(m.at(e.first) == e.second); }
    c.nontrivial(n > 4);
}
#define HC(...) REG("container " #__VA_ARGS__, (&container<__VA_ARGS__>));
HC(int) HC(bool) HC(std::string) HC(int*) HC(E8) HC(opt::option<int>) HC(opt::option<opt::option<bool>>) HC(Mod) HC(Zero)
