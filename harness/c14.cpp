// C14: emulated small floats
#include "c14emu.hpp"
#include "float16native32.hpp"
// bit level conversions between formats
template <class S, class D> static void conv(const std::string &n, FFmt s, FFmt d) {
  add("convert " + n, 2, [s, d](Ctx &c) { for (int64_t v : c.S1(fpatterns(s, false))) {
    c.at(v); Num x = decodef(s, (uint64_t)v); MC_OP(c, "convert"); uint64_t g = convertfloats<S, D, uint64_t>((typename S::holder_t)v); MC_CK(c, "convert", okf(d, x, g), "bits %llx: got %llx expected %llx", (LL)v, (LL)g, (LL)encodef(d, x)); } });
}
// half precision: exact when representable, otherwise one of the two neighbours
static const FFmt H = {5, 10, true};
static bool okhalf(const Num &n, uint16_t g) {
  if (okf(H, n, g)) return true;
  if (n.c != REG) return false;
  bool tiny; uint64_t e = encodef(H, n, &tiny); if (tiny) e = (uint64_t)n.neg << 15;
  if (!tiny && sameval(decodef(H, e), n)) return false;
  return g == e + 1; // next larger magnitude (possibly infinity)
}
static float halfval(int64_t v) { float x = Impl<float>::of(decodef(H, (uint64_t)v)); return v == 0x8000 ? -0.0f : x; }
static void halfs() {
  add("half unary", 4, [](Ctx &c) { c.range(0, 65535, [&](int64_t v) {
    c.at(v); float16n32 a(float16n_t((uint16_t)v)); Num n = decodef(H, (uint64_t)v);
    MC_OP(c, "to float"); float x = a; MC_CK(c, "to float", okf(F32, n, fbits(x)), "bits %llx: got %g", (LL)v, x);
    double d = a; MC_CK(c, "to double", okf(F64, n, dbits(d)), "bits %llx: got %g", (LL)v, d);
    MC_OP(c, "through float"); float16n32 b(x); MC_CK(c, "through float", n.c == NAN_ ? decodef(H, b.raw()).c == NAN_ : n.c == ZERO ? (b.raw() & 0x7fff) == 0 : b.raw() == v, "bits %llx: came back %x", (LL)v, b.raw());
    MC_CK(c, "neg", (-a).raw() == (v ^ 0x8000) && a.neg().raw() == (v ^ 0x8000) && a.abs().raw() == (v & 0x7fff) && std::abs(a).raw() == (v & 0x7fff) && a.raw() == v, "bits %llx", (LL)v);
    MC_OP(c, "half"); MC_CK(c, "half", okhalf(fromf(x / 2), half(a).raw()), "bits %llx: %x", (LL)v, half(a).raw());
    MC_OP(c, "square"); MC_CK(c, "square", okhalf(fromf(x * x), square(a).raw()), "bits %llx: %x", (LL)v, square(a).raw());
    MC_OP(c, "inv"); MC_CK(c, "inv", okhalf(fromf(1 / x), inv(a).raw()), "bits %llx: %x", (LL)v, inv(a).raw());
    MC_OP(c, "sqrt"); { float q = std::sqrt(x); MC_CK(c, "sqrt", okhalf(fromf(q), sqrt(a).raw()), "bits %llx: %x", (LL)v, sqrt(a).raw()); }
  }); });
  add("half floats", 4, [](Ctx &c) { for (int64_t b : c.S1(floats(true))) { c.at(b); float x = bitsf(b); MC_OP(c, "from float"); float16n32 g(x); MC_CK(c, "from float", okhalf(fromf(x), g.raw()), "float bits %llx (%g): got %x", (LL)b, x, g.raw()); } });
  add("half all floats", 64, [](Ctx &c) { c.range(0, 0xffffffffll, [&](int64_t b) { c.at(b); float x = bitsf(b); MC_OP(c, "from float"); float16n32 g(x); MC_CK(c, "from float", okhalf(fromf(x), g.raw()), "float bits %llx (%g): got %x", (LL)b, x, g.raw()); }); }, true);
  add("half constants", 1, [](Ctx &c) { c.at(0); MC_CK(c, "constants", float16n32::one().raw() == 0x3c00 && float16n32::two().raw() == 0x4000 && float16n32::zero().raw() == 0 && float16n32().raw() == 0, "half constants"); });
  add("half pairs", 8, [](Ctx &c) {
    const std::vector<int64_t> s = fpatterns(H, true);
    for (int64_t v : c.S1(s)) for (int64_t w : c.S2(s)) {
      c.at(v, w); float16n32 a(float16n_t((uint16_t)v)), b(float16n_t((uint16_t)w)); float x = halfval(v), y = halfval(w);
#define HOP(NAME, EXPR, REF) MC_OP(c, NAME); { uint16_t r = (EXPR).raw(); float e = REF; MC_CK(c, NAME, okhalf(fromf(e), r), "%llx, %llx: got %x, exact %g", (LL)v, (LL)w, r, e); }
      HOP("mul", a * b, x * y) { uint16_t r = (a / b).raw(); MC_CK(c, "div", okhalf(fromf(x / y), r) || (w == 0x8000 && okhalf(fromf(-x / y), r)), "%llx, %llx: got %x, exact %g", (LL)v, (LL)w, r, x / y); } HOP("add", a + b, x + y) HOP("sub", a - b, x - y)
      { float16n32 t = a; t *= b; HOP("*=", t, x * y) } { float16n32 t = a; t += b; HOP("+=", t, x + y) }
      { volatile float q = x * y; volatile float z = x, s1 = q + z; float s2 = std::fma(x, y, x); MC_OP(c, "mulAdd"); uint16_t r = mulAdd(a, b, a).raw(); MC_CK(c, "mulAdd", okhalf(fromf(s1), r) || okhalf(fromf(s2), r), "%llx, %llx: got %x, exact %g", (LL)v, (LL)w, r, s2); }
      int g = (a == b) | (a < b) << 1 | (a <= b) << 2 | (a > b) << 3 | (a >= b) << 4, e = (x == y) | (x < y) << 1 | (x <= y) << 2 | (x > y) << 3 | (x >= y) << 4;
      MC_CK(c, "compare", g == e, "%llx ? %llx: %x expected %x", (LL)v, (LL)w, g, e);
    }
  });
}
namespace { struct R { R() {
  const FFmt M8 = {5, 2, true}, A16 = {8, 7, true}, BF = {8, 7, false};
  reg<binary8_emu>("binary8_emu", M8); reg<binary16_emu>("binary16_emu", H); reg<binary16alt_emu>("binary16alt_emu", A16); reg<binary32_emu>("binary32_emu", F32); reg<binary64_emu>("binary64_emu", F64);
  halfs();
  conv<half_trait, single_trait>("half to single", H, F32); conv<single_trait, half_trait>("single to half", F32, H);
  conv<single_trait, double_trait>("single to double", F32, F64); conv<double_trait, single_trait>("double to single", F64, F32);
  conv<half_trait, double_trait>("half to double", H, F64); conv<double_trait, half_trait>("double to half", F64, H);
  conv<single_trait, bfloat16_trait>("single to bfloat16", F32, BF); conv<bfloat16_trait, single_trait>("bfloat16 to single", BF, F32);
  conv<single_trait, half_traitalt>("single to alt half", F32, A16); conv<half_traitalt, single_trait>("alt half to single", A16, F32);
  conv<microfloat_trait, single_trait>("micro to single", M8, F32); conv<single_trait, microfloat_trait>("single to micro", F32, M8); conv<half_trait, microfloat_trait>("half to micro", H, M8); conv<microfloat_trait, half_trait>("micro to half", M8, H);
  conv<half_trait, bfloat16_trait>("half to bfloat16", H, BF); conv<bfloat16_trait, half_trait>("bfloat16 to half", BF, H);
} } r_; }
