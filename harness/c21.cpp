// C21: each of the 32 lanes of simd_posit8_32 computes what the scalar posit8 computes
#include "simdposit8.hpp"
#include "cfg.hpp"
#include <sstream>
using namespace mc;
int scalar8(int op, int a, int b);
float scalar8f(int a);
int scalar8i(int a);
int scalar8x(float a);
typedef simd_posit8_32 V;
static const Fmt F8 = {8, 0, S_NAN};
static bool usable() { return __builtin_cpu_supports("avx2"); }
static V load(const int8_t *p) { return V(_mm256_loadu_si256((const __m256i *)p)); }
static void store(int8_t *p, const __m256i &x) { _mm256_storeu_si256((__m256i *)p, x); }
// the value model: what the operation must give on one lane
static int64_t want(int op, int a, int b) {
  Num n = decode(F8, a), m = decode(F8, b);
  switch (op) {
    case 0: return encode(F8, add(n, m));
    case 1: return encode(F8, add(n, neg(m, false)));
    case 2: return encode(F8, mul(n, m));
    case 3: return encode(F8, div(n, m));
    case 4: return encode(F8, neg(n, false));
    case 5: return encode(F8, div(mkv(false, 1, 0), n));
    case 6: if (n.c == REG) n.e--; return encode(F8, n);
    case 7: if (n.c == REG) n.e++; return encode(F8, n);
    case 8: return encode(F8, mul(n, n));
    case 10: return n.c == NAN_ ? 1000 : n.neg ? -1 : 0;
    case 11: return n.c == NAN_ ? -1 : 0;
    case 12: return 0;
    case 13: return n.c == NAN_ || n.neg ? 1000 : (a < 64 ? -1 : 0);
  }
  return 1000; // exp2: only compared with the scalar type
}
static const char *NAMES[] = {"+", "-", "*", "/", "negate", "inv", "half", "twice", "square", "exp2", "is_negative", "is_nan", "is_infinity", "has_neg_exponent"};
static __m256i apply(int op, const V &a, const V &b, bool fn) {
  switch (op) {
    case 0: return (a + b).uu();
    case 1: return (a - b).uu();
    case 2: return (a * b).uu();
    case 3: return (a / b).uu();
    case 4: return fn ? neg(a).uu() : (-a).uu();
    case 5: return fn ? inv(a).uu() : a.inv().uu();
    case 6: return fn ? half(a).uu() : a.half().uu();
    case 7: return fn ? twice(a).uu() : a.twice().uu();
    case 8: return fn ? square(a).uu() : a.square().uu();
    case 9: return fn ? exp2(a).uu() : a.exp2().uu();
    case 10: return a.is_negative();
    case 11: return a.is_nan();
    case 12: return a.is_infinity();
    default: return a.has_neg_exponent();
  }
}
// the constructors of the vector type trace on std::cout
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet_;
// lane i holds the i-th successor of (a, b), so that every lane meets every operand pair
static void lanes(Ctx &c, int a, int b, bool fn) {
  int8_t x[32], y[32], r[32];
  for (int i = 0; i < 32; i++) { int k = ((a + 128) * 256 + (b + 128) + i * 257) & 65535; x[i] = (int8_t)((k >> 8) - 128); y[i] = (int8_t)((k & 255) - 128); }
  V p = load(x), q = load(y);
  for (int op = 0; op < 14; op++) {
    if (op >= 4 && (b & 31)) break; // unary: the second operand only places the lanes
    MC_OP(c, NAMES[op]);
    store(r, apply(op, p, q, fn));
    for (int i = 0; i < 32; i++) {
      int s = scalar8(op, x[i], y[i]); int64_t w = want(op, x[i], y[i]);
      c.hit(r[i]);
      MC_CK(c, NAMES[op], r[i] == s && (w == 1000 || r[i] == w), "lane %d, patterns %d, %d: got %d, scalar posit8 gives %d, value model %lld", i, x[i], y[i], r[i], s, (long long)w);
    }
    int8_t x2[32]; store(x2, p.uu()); MC_CK(c, "operands kept", !memcmp(x, x2, 32), "patterns %d %d", a, b);
  }
}
static void tofloats(Ctx &c, int a) {
  int8_t x[32];
  for (int i = 0; i < 32; i++) x[i] = (int8_t)(a + i * 37);
  MC_OP(c, "to floats"); std::array<float, 32> r = (std::array<float, 32>)load(x);
  for (int i = 0; i < 32; i++) { float w = scalar8f(x[i]); Num n = decode(F8, x[i]);
    MC_CK(c, "to floats", n.c == NAN_ ? r[i] != r[i] : r[i] == w && (n.c == ZERO ? r[i] == 0 : sameval(fromf(r[i]), n)), "lane %d, pattern %d: got %g, scalar posit8 gives %g", i, x[i], r[i], w); }
}
static void print(Ctx &c, int a) {
  int8_t x[32]; std::ostringstream o, w;
  for (int i = 0; i < 32; i++) x[i] = (int8_t)(a + i * 37);
  MC_OP(c, "print"); o << load(x);
  std::istringstream in(o.str()); std::string t; in >> t; bool ok = t == "a32(";
  for (int i = 0; i < 32; i++) { std::ostringstream e; e << scalar8f(x[i]); in >> t; if (i == 31 && !t.empty() && t.back() == ')') t.erase(t.size() - 1); ok = ok && t == e.str(); }
  MC_CK(c, "print", ok && !(in >> t), "patterns from %d: %s", a, o.str().c_str());
}
// bytes of a lane mask
static void printmask(Ctx &c, int a) {
  uint8_t x[32]; std::ostringstream o, w; w << "256i(" << std::hex;
  for (int i = 0; i < 32; i++) { x[i] = (uint8_t)(a + i * 37); w << " " << (int)x[i]; }
  w << ")"; MC_OP(c, "print mask"); o << _mm256_loadu_si256((const __m256i *)x);
  MC_CK(c, "print mask", o.str() == w.str(), "bytes from %d: %s", a, o.str().c_str());
}
static int sgauss2(int x, int m, int s) { return scalar8(9, scalar8(4, scalar8(6, scalar8(8, scalar8(3, scalar8(1, x, m), s), 0), 0), 0), 0); }
static void gauss(Ctx &c, int a, int s) {
  for (int m0 = 0; m0 < 256; m0 += 32) {
    int8_t x[32], m[32], g[32], r[32];
    for (int i = 0; i < 32; i++) { x[i] = (int8_t)(a + i * 5); m[i] = (int8_t)(m0 + i + a); g[i] = (int8_t)(s + i * 3); }
    MC_OP(c, "gauss2"); store(r, gauss2(load(x), load(m), load(g)).uu());
    for (int i = 0; i < 32; i++) { int w = sgauss2(x[i], m[i], g[i]); MC_CK(c, "gauss2", r[i] == w, "lane %d, patterns %d, %d, %d: got %d, scalar posit8 gives %d", i, x[i], m[i], g[i], r[i], w); }
  }
}
static void splat(Ctx &c, const char *name, const V &v, int w, int64_t e, double in) {
  int8_t r[32]; store(r, v.uu());
  for (int i = 0; i < 32; i++) MC_CK(c, name, r[i] == w && r[i] == e, "lane %d of %g: got %d, scalar posit8 gives %d, value model %lld", i, in, r[i], w, (long long)e);
}
namespace { struct R { R() {
  for (int g = 0; g < 8; g++) add("lane pairs " + std::to_string(g), 8, [g](Ctx &c) { if (!usable()) return; for (int64_t a : c.S1(fullset(F8))) if (((a + 128) & 7) == g) for (int64_t b : c.S2(fullset(F8))) { c.at(a, b); lanes(c, (int)a, (int)b, (a ^ b) & 32); } });
  add("floats out", 1, [](Ctx &c) { if (!usable()) return; for (int64_t a : c.S1(fullset(F8))) { c.at(a); tofloats(c, (int)a); print(c, (int)a); printmask(c, (int)a); } });
  add("gauss2", 8, [](Ctx &c) { if (!usable()) return; for (int64_t a : c.S1(fullset(F8))) for (int64_t b : c.S2(fullset(F8))) { c.at(a, b); gauss(c, (int)a, (int)b); } });
  add("floats in", 1, [](Ctx &c) { if (!usable()) return; for (int64_t b : c.S1(floats(false))) { float x = bitsf(b); c.at(b); MC_OP(c, "from float"); splat(c, "from float", V(x), scalar8x(x), encode(F8, fromf(x)), x); } });
  add("ints in", 1, [](Ctx &c) { if (!usable()) return; c.range(-4096, 4096, [&](int64_t i) { c.at(i); MC_OP(c, "from int"); splat(c, "from int", V((int)i), scalar8i((int)i), encode(F8, fromi(i)), (double)i); });
    for (int k = 12; k < 32; k++) for (int64_t d = -2; d <= 2; d++) for (int sg = -1; sg <= 1; sg += 2) { int64_t i = sg * (((int64_t)1 << k) + d); if (i < INT32_MIN || i > INT32_MAX) continue; c.at(i); MC_OP(c, "from int"); splat(c, "from int", V((int)i), scalar8i((int)i), encode(F8, fromi(i)), (double)i); } });
} } r_; }
