// The default assertion macro: an access whose result is not used, or used twice, still throws for an empty option
// (an optimizer which takes the call for one without effects would discard it).
#include "p09_common.hpp"
namespace {
template<class T, int Cat> [[gnu::noinline]] int unused(opt::option<T>& o, int how, int times) {
    pbt::opaque(o); int thrown = 0;
    switch (how) {
    case 0: for (int i = 0; i < times; ++i) try { (void)as<Cat>(o).value_or_throw(); } catch (const opt::bad_access&) { ++thrown; } break;
    case 1: for (int i = 0; i < times; ++i) try { (void)as<Cat>(o).value(); } catch (const opt::bad_access&) { ++thrown; } break;
    case 2: try { (void)as<Cat>(o).value_or_throw(); } catch (...) { ++thrown; } try { (void)as<Cat>(o).value_or_throw(); } catch (const std::exception&) { ++thrown; } times = 2; break;
    case 3: try { (void)as<Cat>(o).value(); } catch (const std::exception&) { ++thrown; } try { (void)as<Cat>(o).value(); } catch (...) { ++thrown; } times = 2; break;
    case 4: { for (int i = 0; i < times; ++i) try { if (i % 2) (void)as<Cat>(o).value(); else (void)as<Cat>(o).value_or_throw(); } catch (const opt::bad_access& e) { ++thrown; REQUIRE(e.what() != nullptr); } break; }
    default: { auto f = [&]() noexcept(false) -> void { [[maybe_unused]] auto&& r = as<Cat>(o).value_or_throw(); }; for (int i = 0; i < times; ++i) try { f(); } catch (const opt::bad_access&) { ++thrown; } } }
    return times * 100 + thrown;
}
template<class T> void run(Case& c) {
    using V = bare<T>; u64 s = c.interesting(); Held<T> h(c.coin(), s); int how = int(c.pick(6)), cat = int(c.pick(4)), times = 1 + int(c.pick(4));
    c.log("option<%s> full %d, access %d in category %s, %d times", Ty<V>::name(), int(h.engaged), how, cat_names[cat], times);
    int r = cat == 0 ? unused<T, 0>(h.o, how, times) : cat == 1 ? unused<T, 1>(h.o, how, times) : cat == 2 ? unused<T, 2>(h.o, how, times) : unused<T, 3>(h.o, how, times);
    int want = h.engaged ? 0 : r / 100;
    REQUIRE_MSG(r % 100 == want, "%d accesses of option<%s> (full %d) with unused results in category %s: %d exceptions", r / 100, Ty<V>::name(), int(h.engaged), cat_names[cat], r % 100);
    h.unchanged("an access with an unused result"); c.nontrivial();
}
#define U16(...) REGW("unused result " #__VA_ARGS__, (&run<__VA_ARGS__>), 0.4);
U16(int) U16(bool) U16(double) U16(int*) U16(const int) U16(int&) U16(const std::string&) U16(std::string) U16(Padded) U16(ES) U16(std::vector<int>) U16(std::tuple<int, bool>) U16(Empty) U16(opt::option<int>) U16(opt::option<bool>)
}
