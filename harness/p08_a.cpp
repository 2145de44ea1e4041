// Fixed enumerations at the edges of the search, of the conventions and of the names.
#include "p08_common.hpp"
template<class T, auto V> struct S08 { enum class E : unsigned char { a = 0, b = 64, c = 150 }; enum F : unsigned short { d = 512, f = 1 }; };
namespace { enum class An : unsigned char { a, b = 255 }; enum class Bn : unsigned short { a, b = 1022 }; struct Loc08 {}; template<class T> struct Tn { enum class E : unsigned { a = 3, b = 256 }; }; }
template<int V> struct H8 { enum class E : unsigned char { a = V }; }; template<int V> struct H16 { enum class E : unsigned short { a = V }; }; template<int V> struct H32 { enum class E : unsigned { z = 0, a = V }; };
#define EDGE(K, V, KIND, ...) using K##_##V##_t = K<V>::E; EN08(K##_##V##_t, #K "<" #V ">", KIND, 0, 0, false, false, __VA_ARGS__) RE08(K##_##V##_t, #K "<" #V ">")
EDGE(H8, 0, 1, 0) EDGE(H8, 1, 1, 0, 1) EDGE(H8, 63, 1, 63, 0) EDGE(H8, 64, 1, 64, 63, 0) EDGE(H8, 127, 1, 127, 0) EDGE(H8, 128, 1, 0, 127, 128, 255, 254, 130) EDGE(H8, 254, 1, 0, 254, 255) EDGE(H8, 255, 1, 0, 254, 255, 128)
EDGE(H16, 511, 1, 511, 0, 1024, 65535) EDGE(H16, 512, 1, 512, 0, 1023, 1024, 1022) EDGE(H16, 1022, 1, 1022, 1023, 0) EDGE(H16, 1023, 1, 1023, 1022, 0, 1024) EDGE(H16, 1024, 0, 1024, 1023, 0, 1, 65535, 512) EDGE(H16, 65535, 0, 65535, 1023, 0, 1022)
EDGE(H32, 255, 1, 0, 255, 128, 1024, 0xffffffff) EDGE(H32, 256, 1, 0, 256, 511, 1024, 0xffffffff, 0x80000000) EDGE(H32, 1048576, 1, 0, 1048576, 1024)
enum class Fl : unsigned { none = 0, a = 1, b = 2, c = 64, d = 256, e = 2048 }; EN08(Fl, "flags", 1, 0, 0, true, false, 0, 1, 2, 3, 64, 65, 66, 67, 256, 257, 258, 320, 323, 2048, 2049, 2304, 2371) RE08(Fl, "flags")
using S1 = S08<int, Other08(5)>::E; EN08(S1, "S<int, (Other)5>::E", 1, 0, 0, false, false, 0, 64, 150, 128, 214) RE08(S1, "S<int, (Other)5>::E")
using S2 = S08<Loc08, &g08>::F; EN08(S2, "S<Loc, &g>::F", 1, 0, 0, false, false, 512, 1, 513, 1023, 1024) RE08(S2, "S<Loc, &g>::F")
EN08(An, "An", 1, 0, 0, false, false, 0, 255, 254, 128) RE08(An, "An") EN08(Bn, "Bn", 1, 0, 0, false, false, 0, 1022, 1023, 1024) RE08(Bn, "Bn")
using T1 = Tn<Loc08>::E; EN08(T1, "Tn", 1, 0, 0, false, false, 3, 256, 259, 1024) RE08(T1, "Tn")
enum Plain { pl_a, pl_b, pl_c = 30 }; EN08(Plain, "Plain", 1, 0, 0, false, false, 0, 1, 30, 31) RE08(Plain, "Plain")
enum SignedPlain { sp_a = -3, sp_b = 40 }; EN08(SignedPlain, "SignedPlain", 0, 0, 0, false, false, 0xfffffffd, 40, 0, 63, 0xffffffc0) RE08(SignedPlain, "SignedPlain")
enum class Bo : bool { f, t };
static void bools(Case& c) { for (int i = 0; i < 2; ++i) { opt::option<Bo> o{Bo(i)}; pbt::opaque(o); REQUIRE(o && *o == Bo(i)); opt::option<opt::option<Bo>> n{o}; REQUIRE(n && *n && **n == Bo(i)); n->reset(); REQUIRE(n && !*n); } c.nontrivial(); }
REG_ONCE("bool enumeration", bools);
enum class Le : long { a = 1, SENTINEL_START = -5 }; EN08(Le, "start in the negative", 2, -5, 9223372036854775807LL, true, false, 0xfffffffffffffffaull, 0x8000000000000000ull, 0xffffffffffffff00ull) RE08(Le, "start in the negative")
enum class Le2 : long { a = -100, SENTINEL_START = -5, SENTINEL_END = 7 }; EN08(Le2, "range around zero", 2, -5, 7, true, false, 0xfffffffffffffffaull, 0x8000000000000000ull, 8, 0x7fffffffffffffffull, 0xffffffffffffff9cull) RE08(Le2, "range around zero") RN08(Le2, "range around zero", 3)
enum class Uc : unsigned char { a, SENTINEL = 0x80 }; EN08(Uc, "single", 2, 0x80, 0x80, true, true, 0, 1, 0x7f, 0x81, 0xff) RE08(Uc, "single") RN08(Uc, "single", 3)
enum Sc : signed char { sc_a, SENTINEL_START = -128, SENTINEL_END = -127 }; EN08(Sc, "lowest two", 2, -128, -127, true, true, 0, 0x82, 0x7f, 0xff) RE08(Sc, "lowest two") RN08(Sc, "lowest two", 3)
