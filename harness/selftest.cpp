// The reference model against itself: the shift based encode/decode used by the
// explorers agree with the bit-by-bit definitions, and decode/encode/compare are
// mutually consistent and consistent with the hardware's IEEE arithmetic.
#include "ref.hpp"
#include <cmath>
#include <vector>
using namespace ref;
static long n, bad;
#define T(x, ...) do { n++; if (!(x)) { if (bad++ < 10) { printf("selftest: " __VA_ARGS__); printf("\n"); } } } while (0)
int main() {
  for (int N = 3; N <= 12; N++) for (int es = 0; es <= N - 3 && es <= 5; es++) for (int sp = 0; sp < 3; sp++) {
    Fmt f = {N, es, sp};
    if (N == 3 && sp == S_NANINF) continue;
    Num prev = mk(ZERO); bool have = false;
    for (int64_t v = top(f); v < -top(f); v++) {
      Num a = decode(f, v), b = decode_bits(f, v);
      T(sameval(a, b), "decode N=%d es=%d v=%ld", N, es, (long)v);
      T(encode(f, a) == v && encode_bits(f, a) == v, "roundtrip N=%d es=%d sp=%d v=%ld %ld", N, es, sp, (long)v, (long)encode(f, a));
      if (a.c == NAN_ || (a.c == INF && sp == S_INF)) continue;
      if (have) T(cmpval(prev, a) < 0, "order N=%d es=%d v=%ld", N, es, (long)v);
      prev = a; have = true;
    }
    // values between and outside: every scale, several fractions
    for (long e = -400; e <= 400; e++) for (uint64_t m : {1ull, 3ull, 5ull, 0xffull, 0x155ull, 0xfffffull, 0x80000001ull, 0x5555555555555555ull, 0xffffffffffffffffull}) for (int s = 0; s < 4; s++) {
      Num x = mkv(s & 1, m, e, s & 2);
      int64_t p = encode(f, x);
      T(p == encode_bits(f, x), "encode N=%d es=%d sp=%d m=%lx e=%ld: %ld %ld", N, es, sp, m, e, (long)p, (long)encode_bits(f, x));
      Num y = decode(f, p);
      T(y.c == REG && y.neg == x.neg, "finite");
      // truncation: |y| <= |x| unless saturated at minpos, and the next one is above
      Num ax = x; ax.sticky = false;
      if (llabs(p) > 1) T(cmpmag(y, ax) <= 0, "trunc N=%d es=%d", N, es);
      if (llabs(p) < maxpos(f)) { Num z = decode(f, p > 0 ? p + 1 : p - 1); int c = cmpmag(z, ax); T(c > 0 || (llabs(p) == 1 && c > 0), "trunc up N=%d es=%d m=%lx e=%ld p=%ld", N, es, m, e, (long)p); }
    }
  }
  for (int N : {16, 24, 32, 48, 63}) for (int es = 0; es <= 4; es++) for (int sp = 0; sp < 3; sp++) {
    Fmt f = {N, es, sp};
    for (int i = 0; i < N - 1; i++) for (int j = 0; j <= i; j++) for (int k = 0; k < 2; k++) {
      int64_t v = (int64_t)(((uint64_t)1 << i) | (((uint64_t)1 << j) - k));
      if (v > maxpos(f)) continue;
      for (int s = 0; s < 2; s++) {
        int64_t w = s ? -v : v;
        T(sameval(decode(f, w), decode_bits(f, w)) && encode(f, decode(f, w)) == w && encode_bits(f, decode(f, w)) == w, "big N=%d es=%d v=%ld", N, es, (long)w);
      }
    }
  }
  // exact arithmetic against the hardware: float operands, double results are exact for * and, when they fit, +
  std::vector<float> F;
  for (int e = -20; e <= 20; e += 4) for (int m : {1, 3, 7, 255, 12345, 0x7fffff, 0xffffff}) { F.push_back(ldexpf((float)m, e)); F.push_back(-ldexpf((float)m, e)); }
  for (float a : F) for (float b : F) {
    T(sameval(mul(fromf(a), fromf(b)), fromd((double)a * (double)b)), "mul %g %g", a, b);
    long double s = (long double)a + (long double)b; // exact: 24 bits each, scales differ by at most 63
    Num r = add(fromf(a), fromf(b));
    double d = (double)s;
    if ((long double)d == s && fabs(log2(fabs(a / b))) < 25) T(sameval(r, fromd(d)), "add %g %g", a, b);
    bool t; uint64_t q = encodef(F64, div(fromf(a), fromf(b)), &t);
    double hw = (double)a / (double)b; uint64_t hb; memcpy(&hb, &hw, 8);
    T(hb == q || hb == q + 1, "div %g %g", a, b);
    T(cmpval(fromf(a), fromf(b)) == (a < b ? -1 : a > b), "cmp");
  }
  for (uint64_t i = 0; i < 65536; i++) for (uint32_t lo : {0u, 1u, 0xffffu}) {
    uint32_t b = (uint32_t)(i << 16) | lo; float x; memcpy(&x, &b, 4);
    Num a = decodef(F32, b);
    T(x != x ? a.c == NAN_ : sameval(a, fromd((double)x)), "decodef %x", b);
    bool t; if (a.c == REG) T(encodef(F32, a, &t) == b, "encodef %x", b);
  }
  printf("selftest: %ld assertions, %ld failed\n", n, bad);
  return bad != 0;
}
