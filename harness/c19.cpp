// C19: bit level primitives: scanning, bit fields, width changes, constexpr float bits
#include <cmath>
#include <iostream>
#include "posit.h"
#include "floatconst2bits.hpp"
#include "mc.hpp"
#include "fl.hpp"
using namespace mc;
#define LL long long
template <class T> static std::vector<int64_t> words(bool rich) {
  const int W = sizeof(T) * 8; std::set<int64_t> s;
  if (W <= 16) { for (int64_t i = 0; i < (1ll << W); i++) s.insert(i); }
  else {
    for (int i = 0; i < W; i++) for (int d = -2; d <= 2; d++) s.insert((int64_t)(T)(((T)1 << i) + (T)d));
    for (int i = 0; i < W; i++) for (int j = 0; j <= i; j++) { T x = (((T)1 << i) | ((T)1 << j)); s.insert((int64_t)x); s.insert((int64_t)(T)(x - 1)); s.insert((int64_t)(T)~x); T m = (T)((T)~(T)0 >> (W - 1 - i)); s.insert((int64_t)(T)(m & ~(((T)1 << j) - 1))); }
    s.insert((int64_t)(T)0x5555555555555555ull); s.insert((int64_t)(T)0xaaaaaaaaaaaaaaaaull); s.insert((int64_t)(T)0x0123456789abcdefull);
    for (int i = 0; i < (rich ? 4096 : 256); i++) s.insert(i);
  }
  return std::vector<int64_t>(s.begin(), s.end());
}
template <class T> static T low(int n) { return n == 0 ? (T)0 : (T)((T)~(T)0 >> (sizeof(T) * 8 - n)); }
template <class T> static void scan(const char *n) {
  add(std::string("scan ") + n, 2, [](Ctx &c) { for (int64_t v : c.S1(words<T>(true))) { T x = (T)v; if (!x) continue; c.at(v); int e = 0; while (!(x >> (sizeof(T) * 8 - 1 - e) & 1)) e++; MC_OP(c, "findbitleftmost"); int g = findbitleftmostC(x); MC_CK(c, "findbitleftmost", g == e, "%llx: got %d expected %d", (LL)v, g, e);
      if (sizeof(T) == 8) { MC_OP(c, "count_leading_zeroes"); g = count_leading_zeroes((uint64_t)x); MC_CK(c, "count_leading_zeroes", g == e, "%llx: got %d expected %d", (LL)v, g, e); } } });
}
// hardware extraction, where the headers offer it for this build (the fallback is chosen when they do not)
struct Absent {};
namespace fallback { template <int, int> Absent bitset_gethwT(...) { return Absent(); } inline Absent bitset_gethw(...) { return Absent(); } }
using namespace fallback;
template <class T, int o, int k> static void hw(Ctx &, T, T, Absent) {}
template <class T, int o, int k, class G> static void hw(Ctx &c, T x, T e, G g) { MC_OP(c, "bitset_gethwT"); MC_CK(c, "bitset_gethwT", sizeof(G) == sizeof(T) && (T)g == e, "%llx [%d,%d]: got %llx", (LL)x, o, k, (LL)g); }
template <class T> static void hwr(Ctx &, T, int, int, T, Absent) {}
template <class T, class G> static void hwr(Ctx &c, T x, int o, int k, T e, G g) { MC_OP(c, "bitset_gethw"); MC_CK(c, "bitset_gethw", (T)g == e, "%llx [%d,%d]: got %llx", (LL)x, o, k, (LL)g); }
template <class T, bool> struct HwR { static void go(Ctx &, T, int, int, T) {} };
template <class T> struct HwR<T, true> { static void go(Ctx &c, T x, int o, int k, T e) { hwr<T>(c, x, o, k, e, bitset_gethw(x, o, k)); } };
// bit fields: every offset and size, run time form
template <class T> static void fields(const char *n) {
  add(std::string("fields ") + n, 4, [](Ctx &c) { const int W = sizeof(T) * 8; std::vector<int64_t> ws = words<T>(false); if (W == 16) { ws.clear(); for (int64_t i = 0; i < 65536; i += 7) ws.push_back(i); ws.push_back(65535); ws.push_back(32768); }
    for (int64_t v : c.S1(ws)) for (int o = 0; o < W; o++) for (int k = 1; o + k <= W; k++) { c.at(v, o, k); T x = (T)v, e = (T)((T)(x >> o) & low<T>(k));
      MC_OP(c, "bitset_get"); T g = (bitset_get<T>)(x, o, k); MC_CK(c, "bitset_get", g == e, "%llx [%d,%d]: got %llx", (LL)v, o, k, (LL)g);
      HwR<T, sizeof(T) == 2 || sizeof(T) == 4>::go(c, x, o, k, e);
      for (T y : {(T)0, (T)~(T)0, (T)0x5A5A5A5A5A5A5A5Aull}) { MC_OP(c, "bitset_part"); g = bitset_part(x, y, o, k); e = (T)((x & (T)~(T)(low<T>(k) << o)) | (T)((T)(y & low<T>(k)) << o)); MC_CK(c, "bitset_part", g == e, "%llx [%d,%d] := %llx: got %llx expected %llx", (LL)v, o, k, (LL)y, (LL)g, (LL)e); } } });
}
// compile time forms
template <class T, int o, int k> struct Field { static void go(Ctx &c, const std::vector<int64_t> &w) { for (int64_t v : w) { c.at(v); T x = (T)v, e = (T)((T)(x >> o) & low<T>(k)); MC_OP(c, "bitset_getT"); T g = bitset_getT(x, o, k), h = (T)(bitset_get<T, o, k>(x)); MC_CK(c, "bitset_getT", g == e && h == e, "%llx [%d,%d]: got %llx %llx", (LL)v, o, k, (LL)g, (LL)h); hw<T, o, k>(c, x, e, bitset_gethwT<o, k>(x));
  T p = bitset_part<T, T, o, k>(x, (T)0x5A5A5A5A5A5A5A5Aull), q = (T)((x & (T)~(T)(low<T>(k) << o)) | (T)((T)((T)0x5A5A5A5A5A5A5A5Aull & low<T>(k)) << o)); MC_CK(c, "bitset_partT", p == q, "%llx [%d,%d]: got %llx expected %llx", (LL)v, o, k, (LL)p, (LL)q); } } };
template <class T, int o, int k> struct Loop { static void go(Ctx &c, const std::vector<int64_t> &w) { Field<T, o, k>::go(c, w); Loop<T, (o + k == (int)sizeof(T) * 8 ? o + (sizeof(T) > 2 ? 5 : 1) : o), (o + k == (int)sizeof(T) * 8 ? 1 : sizeof(T) > 2 ? (o + k + 3 > (int)sizeof(T) * 8 ? (int)sizeof(T) * 8 - o : k + 3) : k + 1)>::go(c, w); } };
template <int k> struct Loop<uint8_t, 8, k> { static void go(Ctx &, const std::vector<int64_t> &) {} };
template <int k> struct Loop<uint16_t, 16, k> { static void go(Ctx &, const std::vector<int64_t> &) {} };
template <int k> struct Loop<uint32_t, 35, k> { static void go(Ctx &, const std::vector<int64_t> &) {} };
template <int k> struct Loop<uint64_t, 65, k> { static void go(Ctx &, const std::vector<int64_t> &) {} };
template <class T> static void tfields(const char *n) { add(std::string("constant fields ") + n, 4, [](Ctx &c) { std::vector<int64_t> w = c.S1(words<T>(false)); Loop<T, 0, 1>::go(c, w); }); }
// width changes
template <class A, int a, class B, int b> static void casts(Ctx &c, const std::vector<int64_t> &w) {
  for (int64_t v : w) { c.at(v, a, b); A x = (A)v; u128 low_ = x & low<A>(a); B e = (B)(a > b ? low_ >> (a - b) : low_ << (b - a));
    MC_OP(c, "cast_right_to_left"); B g = cast_right_to_left<A, a, B, b>()(x); MC_CK(c, "cast_right_to_left", g == e, "%llx, %d to %d bits: got %llx expected %llx", (LL)v, a, b, (LL)g, (LL)e);
    MC_OP(c, "cast_msb"); A y = (A)low_; g = cast_msb<A, a, B, b>()(y); MC_CK(c, "cast_msb", g == e, "%llx, %d to %d bits: got %llx expected %llx", (LL)y, a, b, (LL)g, (LL)e); }
}
template <class T, int N> static void leftmost(Ctx &c, const std::vector<int64_t> &w) { for (int64_t v : w) { c.at(v, N); T x = (T)v; MC_OP(c, "leftmost"); T g = bitset_leftmost_get_const<T, N>()(x), e = N == 0 ? (T)0 : (T)(x >> ((sizeof(T) * 8 - N) % (sizeof(T) * 8))); MC_CK(c, "leftmost", g == e, "%llx, %d bits: %llx", (LL)v, N, (LL)g); } }
template <class T> static void absv(const char *n) { typedef typename std::make_unsigned<T>::type U; add(std::string("abs ") + n, 1, [](Ctx &c) { for (int64_t v : c.S1(words<U>(true))) { T x = (T)(U)v; if (x == std::numeric_limits<T>::min()) continue; c.at(v); T e = x < 0 ? (T)-x : x; MC_OP(c, "abs"); MC_CK(c, "abs", pcabs(x) == e && pabs(x) == e, "%lld: %lld %lld", (LL)x, (LL)pcabs(x), (LL)pabs(x)); } }); }
static uint32_t wantbits(uint32_t b) { return (b & 0x7fffffff) == 0 ? 0 : (b & 0x7fffffff) > 0x7f800000 ? 0x7fc00000 : b; }
// compile time evaluation gives the same bits
constexpr uint32_t CT[] = {float2bits(0.0f), float2bits(1.0f), float2bits(-1.0f), float2bits(3.5f), float2bits(0x1p-149f), float2bits(-0x1.fffffep-127f), float2bits(0x1.fffffep127f), float2bits(0x1p-126f), float2bits(0.1f), float2bits(-1e30f)};
static const float CV[] = {0.0f, 1.0f, -1.0f, 3.5f, 0x1p-149f, -0x1.fffffep-127f, 0x1.fffffep127f, 0x1p-126f, 0.1f, -1e30f};
namespace { struct R { R() {
  scan<uint8_t>("8"); scan<uint16_t>("16"); scan<uint32_t>("32"); scan<uint64_t>("64");
  fields<uint8_t>("8"); fields<uint16_t>("16"); fields<uint32_t>("32"); fields<uint64_t>("64");
  tfields<uint8_t>("8"); tfields<uint16_t>("16"); tfields<uint32_t>("32"); tfields<uint64_t>("64");
  absv<int8_t>("8"); absv<int16_t>("16"); absv<int32_t>("32"); absv<int64_t>("64");
#define CA(A, a, B, b) add("cast " #A " " #a " to " #B " " #b, 1, [](Ctx &c) { casts<A, a, B, b>(c, c.S1(words<A>(false))); });
  CA(uint8_t, 8, uint8_t, 8) CA(uint8_t, 5, uint8_t, 8) CA(uint8_t, 2, uint16_t, 16) CA(uint8_t, 8, uint64_t, 64) CA(uint16_t, 10, uint8_t, 8) CA(uint16_t, 16, uint8_t, 8) CA(uint16_t, 7, uint32_t, 32) CA(uint16_t, 10, uint64_t, 64)
  CA(uint32_t, 23, uint8_t, 8) CA(uint32_t, 23, uint16_t, 16) CA(uint32_t, 23, uint32_t, 32) CA(uint32_t, 32, uint32_t, 32) CA(uint32_t, 23, uint64_t, 64) CA(uint32_t, 31, uint16_t, 16) CA(uint64_t, 52, uint8_t, 8) CA(uint64_t, 52, uint16_t, 16) CA(uint64_t, 52, uint32_t, 32) CA(uint64_t, 52, uint64_t, 64) CA(uint64_t, 64, uint64_t, 64) CA(uint64_t, 64, uint8_t, 8) CA(uint64_t, 33, uint32_t, 32)
#define LM(T, N) add("leftmost " #T " " #N, 1, [](Ctx &c) { leftmost<T, N>(c, c.S1(words<T>(false))); });
  LM(uint8_t, 0) LM(uint8_t, 1) LM(uint8_t, 2) LM(uint8_t, 5) LM(uint16_t, 0) LM(uint16_t, 3) LM(uint16_t, 11) LM(uint32_t, 0) LM(uint32_t, 4) LM(uint32_t, 31) LM(uint64_t, 0) LM(uint64_t, 1) LM(uint64_t, 9) LM(uint64_t, 63)
  add("float bits", 2, [](Ctx &c) { for (int64_t b : c.S1(floats(true))) { c.at(b); MC_OP(c, "float2bits"); uint32_t g = float2bits(bitsf(b)), e = wantbits((uint32_t)b); MC_CK(c, "float2bits", g == e, "float %llx: got %x expected %x", (LL)b, g, e); } });
  add("float bits at compile time", 1, [](Ctx &c) { std::vector<int64_t> s; for (int i = 0; i < 10; i++) s.push_back(i); for (int64_t i : c.S1(s)) { c.at(i); MC_CK(c, "float2bits constexpr", CT[i] == fbits(CV[i]), "%g: %x", CV[i], CT[i]); } });
  add("float bits all", 64, [](Ctx &c) { c.range(0, 0xffffffffll, [&](int64_t b) { c.at(b); uint32_t g = float2bits(bitsf(b)), e = wantbits((uint32_t)b); MC_CK(c, "float2bits", g == e, "float %llx: got %x expected %x", (LL)b, g, e); }); }, true);
  add("scan 32 all", 64, [](Ctx &c) { c.range(1, 0xffffffffll, [&](int64_t b) { c.at(b); int g = findbitleftmostC((uint32_t)b); MC_CK(c, "findbitleftmost", ((uint32_t)b << g) >> 31 && !(g && ((uint32_t)b >> (32 - g))), "%llx: %d", (LL)b, g); }); }, true);
} } r_; }
