// C14: tabulated 8 bit float
#include "binary8.hpp"
#include "flops.hpp"
#define LL long long
static const FFmt F = {BINARY8_EXP, BINARY8_MAN, true};
static binary8tab mkb(int64_t v) { return binary8tab(binary8tab::DeepInit(), (int8_t)v); }
namespace { struct R { R() {
  add("binary8tab unary", 1, [](Ctx &c) { c.range(0, 255, [&](int64_t v) {
    c.at(v); binary8tab a = mkb(v); Num n = decodef(F, (uint64_t)v); float x = Impl<float>::of(n);
    MC_OP(c, "to float"); { float g = (float)a; MC_CK(c, "to float", okf(F32, n, fbits(g)), "bits %llx: got %g", (LL)v, g); double d = (double)a; MC_CK(c, "to double", okf(F64, n, dbits(d)), "bits %llx: got %g", (LL)v, d); 
      if (n.c == REG || n.c == ZERO) MC_CK(c, "to int", (int)a == toint(n, 32), "bits %llx: got %d", (LL)v, (int)a);
      MC_CK(c, "through float", okf(F, n, binary8tab(g).uu()) && okf(F, n, binary8tab((double)g).uu()), "bits %llx", (LL)v); }
#define U(NAME, EXPR, REF) MC_OP(c, NAME); { unsigned g = (EXPR).uu(); float e = REF; MC_CK(c, NAME, okf(F, fromf(e), g), "bits %llx: got %x, exact %g", (LL)v, g, e); }
    U("inv", a.inv(), 1 / x) U("inv function", inv(a), 1 / x) U("half", a.half(), x / 2) U("half function", half(a), x / 2) U("square", a.square(), x * x) U("square function", square(a), x * x)
    MC_CK(c, "neg", (-a).uu() == (v ^ 0x80) && neg(a).uu() == (v ^ 0x80) && std::abs(a).uu() == (v & 0x7f), "bits %llx", (LL)v);
    MC_CK(c, "sign", a.is_negative() == (v >= 0x80) && is_negative(a) == (v >= 0x80) && a.uu() == v, "bits %llx", (LL)v);
    if ((n.c == REG || n.c == ZERO) && x <= 120 && x >= -120) {
      long double y = exp2l(x), d = x == floorl(x) ? 0 : y * 2.4e-7L; unsigned g = a.exp2().uu(); MC_OP(c, "exp2");
      MC_CK(c, "exp2", (okf(F, fromd((double)(y - d)), g) || okf(F, fromd((double)(y + d)), g)) && exp2(a).uu() == g, "bits %llx: got %x", (LL)v, g);
    }
  }); });
  add("binary8tab pairs", 4, [](Ctx &c) {
    const std::vector<int64_t> s = fpatterns(F, true);
    for (int64_t v : c.S1(s)) for (int64_t w : c.S2(s)) {
      c.at(v, w); binary8tab a = mkb(v), b = mkb(w); float x = Impl<float>::of(decodef(F, v)), y = Impl<float>::of(decodef(F, w));
#define OP(NAME, EXPR, REF) MC_OP(c, NAME); { unsigned r = (EXPR).uu(); float e = REF; MC_CK(c, NAME, okf(F, fromf(e), r), "%llx, %llx: got %x, exact %g", (LL)v, (LL)w, r, (double)e); }
      OP("mul", a * b, x * y) OP("div", a / b, x / y) OP("add", a + b, x + y) OP("sub", a - b, x - y)
      { binary8tab t = a; t *= b; OP("*=", t, x * y) } { binary8tab t = a; t += b; OP("+=", t, x + y) }
      int g = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5, e = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5;
      MC_CK(c, "compare", g == e, "%llx ? %llx: %x expected %x", (LL)v, (LL)w, g, e);
      if (x == x && y == y) MC_CK(c, "min max", std::min(a, b).v == (x <= y ? a.v : b.v) && std::max(a, b).v == (x >= y ? a.v : b.v), "%llx, %llx", (LL)v, (LL)w);
    }
  });
  add("binary8tab floats", 2, [](Ctx &c) { for (int64_t b : c.S1(floats(true))) { c.at(b); float x = bitsf(b); MC_OP(c, "from float"); unsigned g = binary8tab(x).uu(); MC_CK(c, "from float", okf(F, fromf(x), g), "float bits %llx (%g): got %x", (LL)b, x, g); } });
  add("binary8tab doubles", 2, [](Ctx &c) { Fmt big = {32, 5, 0}; for (int64_t b : c.S1(doubles(big, false))) { c.at(b); double x = bitsd(b); MC_OP(c, "from double"); unsigned g = binary8tab(x).uu(); MC_CK(c, "from double", okf(F, fromd(x), g), "double bits %llx (%g): got %x", (LL)b, x, g); } });
  add("binary8tab ints", 2, [](Ctx &c) { c.range(-70000, 70000, [&](int64_t i) { c.at(i); MC_OP(c, "from int"); unsigned g = binary8tab((int)i).uu(); MC_CK(c, "from int", okf(F, fromi(i), g), "%lld: got %x", (LL)i, g); }); });
  add("binary8tab constants", 1, [](Ctx &c) { c.at(0); const unsigned mn = 1u << F.fb, one = ((1u << (F.eb - 1)) - 1) << F.fb, mx = (((1u << F.eb) - 1) << F.fb) - 1; typedef std::numeric_limits<binary8tab> L;
    MC_CK(c, "constants", binary8tab().uu() == 0 && binary8tab::zero().uu() == 0 && binary8tab::one().uu() == one && binary8tab::afterone().uu() == one + 1 && binary8tab::max().uu() == mx && binary8tab::min().uu() == mn && L::max().uu() == mx && L::min().uu() == mn && (float)L::epsilon() == std::ldexp(1.0f, -F.fb), "constants"); });
} } r_; }
