// Exact reference model of posits, IEEE-style floats and integers.
// Everything here is integer arithmetic on exact dyadic numbers; nothing is
// taken from the library under check.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <cstdio>

typedef unsigned __int128 u128;
typedef __int128 s128;

namespace ref {

enum Cls { ZERO, REG, INF, NAN_ };
enum Spec { S_NAN = 0, S_INF = 1, S_NANINF = 2 };

// value = (-1)^neg * (m + s) * 2^e  with 0 <= s < 1, s != 0 iff sticky
struct Num {
  Cls c;
  bool neg;
  u128 m;
  long e;
  bool sticky;
};

inline Num mk(Cls c, bool neg = false) { Num n; n.c = c; n.neg = neg; n.m = 0; n.e = 0; n.sticky = false; return n; }
inline Num mkv(bool neg, u128 m, long e, bool sticky = false) {
  Num n; n.c = REG; n.neg = neg; n.m = m; n.e = e; n.sticky = sticky;
  if (m == 0 && !sticky) { n.c = ZERO; n.neg = false; n.e = 0; }
  return n;
}

inline int bitlen(u128 m) {
  uint64_t h = (uint64_t)(m >> 64), l = (uint64_t)m;
  if (h) return 128 - __builtin_clzll(h);
  if (l) return 64 - __builtin_clzll(l);
  return 0;
}

struct Fmt { int N, es; int spec; };

inline int64_t top(const Fmt &f) { return (int64_t)(~(uint64_t)0 << (f.N - 1)); }
inline int64_t maxpos(const Fmt &f) { int64_t r = (int64_t)(((uint64_t)1 << (f.N - 1)) - 1); return f.spec == S_NANINF ? r - 1 : r; }
inline bool isnan(const Fmt &f, int64_t v) { return f.spec != S_INF && v == top(f); }
inline bool isinf(const Fmt &f, int64_t v) {
  if (f.spec == S_INF) return v == top(f);
  if (f.spec == S_NANINF) return v == maxpos(f) + 1 || v == -(maxpos(f) + 1);
  return false;
}
// what the format stores for a result that is infinite / not a number
inline int64_t enc_inf(const Fmt &f, bool neg) {
  if (f.spec == S_NANINF) return neg ? -(maxpos(f) + 1) : maxpos(f) + 1;
  return top(f);
}
inline int64_t enc_nan(const Fmt &f) { return top(f); }

// decode one N-bit pattern (sign extended in v), reading the string bit by bit
inline Num decode_bits(const Fmt &f, int64_t v) {
  if (v == 0) return mk(ZERO);
  if (isnan(f, v)) return mk(NAN_);
  if (isinf(f, v)) return mk(INF, f.spec == S_NANINF ? v < 0 : false);
  bool neg = v < 0;
  uint64_t p = neg ? (uint64_t)0 - (uint64_t)v : (uint64_t)v;
  int pos = f.N - 2; // next bit to read
  int r = (int)((p >> pos) & 1);
  int run = 0;
  while (pos >= 0 && (int)((p >> pos) & 1) == r) { run++; pos--; }
  if (pos >= 0) pos--; // terminator
  long k = r ? run - 1 : -run;
  long ex = 0;
  for (int i = 0; i < f.es; i++) {
    int b = 0;
    if (pos >= 0) { b = (int)((p >> pos) & 1); pos--; }
    ex = ex * 2 + b;
  }
  int fb = pos + 1;
  u128 m = 1;
  if (fb > 0) m = ((u128)1 << fb) | (p & (((uint64_t)1 << fb) - 1));
  Num n; n.c = REG; n.neg = neg; n.m = m; n.sticky = false;
  n.e = k * ((long)1 << f.es) + ex - (fb > 0 ? fb : 0);
  return n;
}
inline long scale(const Num &n) { return n.e + bitlen(n.m) - 1; }

// truncate an exact value (non zero) to the posit format, saturating
inline int64_t encode_bits(const Fmt &f, const Num &n) {
  switch (n.c) {
    case ZERO: return 0;
    case NAN_: return enc_nan(f);
    case INF: return enc_inf(f, n.neg);
    default: break;
  }
  long S = (long)1 << f.es;
  int64_t mp = maxpos(f);
  int64_t p;
  if (n.m == 0) p = 1; // only a sticky remains: below every posit
  else {
    long sc = scale(n);
    long maxsc = S * (f.spec == S_NANINF ? f.N - 3 : f.N - 2);
    long minsc = -S * (f.N - 2);
    if (sc >= maxsc) p = mp;
    else if (sc < minsc) p = 1;
    else {
      long k = sc >= 0 ? sc / S : -((-sc + S - 1) / S);
      long ex = sc - k * S;
      uint64_t acc = 0; int left = f.N - 1;
      // regime
      if (k >= 0) {
        for (long i = 0; i <= k && left > 0; i++) { acc = acc * 2 + 1; left--; }
        if (left > 0) { acc = acc * 2; left--; }
      } else {
        for (long i = 0; i < -k && left > 0; i++) { acc = acc * 2; left--; }
        if (left > 0) { acc = acc * 2 + 1; left--; }
      }
      for (int i = f.es - 1; i >= 0 && left > 0; i--) { acc = acc * 2 + ((ex >> i) & 1); left--; }
      int fb = bitlen(n.m) - 1;
      while (left > 0) {
        fb--;
        acc = acc * 2 + (fb >= 0 ? (uint64_t)((n.m >> fb) & 1) : 0);
        left--;
      }
      p = (int64_t)acc;
      if (p == 0) p = 1;
    }
  }
  return n.neg ? -p : p;
}

// The same two functions by shifts instead of bit by bit; selftest.cpp checks
// that they agree with the boring ones above on complete spaces.
inline Num decode(const Fmt &f, int64_t v) {
  if (v == 0) return mk(ZERO);
  if (isnan(f, v)) return mk(NAN_);
  if (isinf(f, v)) return mk(INF, f.spec == S_NANINF ? v < 0 : false);
  bool neg = v < 0;
  uint64_t p = neg ? (uint64_t)0 - (uint64_t)v : (uint64_t)v;
  const int B = f.N - 1;
  uint64_t l = p << (64 - B); // left aligned
  bool one = l >> 63;
  uint64_t x = one ? ~l : l;
  int run = x ? __builtin_clzll(x) : 64;
  if (run > B) run = B;
  int rem = B - run - 1;
  long k = one ? run - 1 : -run;
  long ex = 0; uint64_t fr = 0; int fb = 0;
  if (rem > 0) {
    uint64_t t = p & (((uint64_t)1 << rem) - 1);
    if (rem <= f.es) ex = (long)(t << (f.es - rem));
    else { fb = rem - f.es; ex = (long)(t >> fb); fr = t & (((uint64_t)1 << fb) - 1); }
  }
  Num n; n.c = REG; n.neg = neg; n.m = ((u128)1 << fb) | fr; n.sticky = false;
  n.e = k * ((long)1 << f.es) + ex - fb;
  return n;
}
inline int64_t encode(const Fmt &f, const Num &n) {
  if (n.c == ZERO) return 0;
  if (n.c == NAN_) return enc_nan(f);
  if (n.c == INF) return enc_inf(f, n.neg);
  const long S = (long)1 << f.es;
  int64_t p;
  if (n.m == 0) p = 1;
  else {
    const int bl = bitlen(n.m);
    const long sc = n.e + bl - 1;
    if (sc >= S * (f.spec == S_NANINF ? f.N - 3 : f.N - 2)) p = maxpos(f);
    else if (sc < -S * (f.N - 2)) p = 1;
    else {
      long k = sc >> f.es, ex = sc & (S - 1);
      int rl = (int)(k >= 0 ? k + 2 : 1 - k), left = f.N - 1 - rl;
      uint64_t reg = k >= 0 ? (((uint64_t)1 << (k + 1)) - 1) << 1 : 1, acc;
      if (left < 0) acc = reg >> -left;
      else if (left <= f.es) acc = (reg << left) | ((uint64_t)ex >> (f.es - left));
      else {
        int fl = left - f.es, fb = bl - 1;
        u128 fr = n.m ^ ((u128)1 << fb);
        uint64_t q = fl >= fb ? (uint64_t)(fr << (fl - fb)) : (uint64_t)(fr >> (fb - fl));
        acc = (reg << left) | ((uint64_t)ex << fl) | q;
      }
      p = (int64_t)acc;
      if (p == 0) p = 1;
    }
  }
  return n.neg ? -p : p;
}

// exact comparison of magnitudes of two REG values without sticky
inline int cmpmag(const Num &a, const Num &b) {
  long sa = scale(a), sb = scale(b);
  if (sa != sb) return sa < sb ? -1 : 1;
  // align to the top
  u128 x = a.m << (128 - bitlen(a.m)), y = b.m << (128 - bitlen(b.m));
  return x < y ? -1 : x > y ? 1 : 0;
}
inline bool sameval(const Num &a, const Num &b) {
  if (a.c != b.c) return false;
  if (a.c == REG) return a.neg == b.neg && a.sticky == b.sticky && cmpmag(a, b) == 0;
  if (a.c == INF) return a.neg == b.neg;
  return true;
}
// order of two reals/infinities: -1,0,1
inline int cmpval(const Num &a, const Num &b) {
  long A = a.c == ZERO ? 0 : a.neg ? -1 : 1, B = b.c == ZERO ? 0 : b.neg ? -1 : 1;
  if (A != B) return A < B ? -1 : 1;
  if (A == 0) return 0;
  int r;
  if (a.c == INF || b.c == INF) r = (a.c == INF) - (b.c == INF);
  else r = cmpmag(a, b);
  return A < 0 ? -r : r;
}

// The algebra of special values. Infinity is unsigned in S_INF (Num.neg=false).
inline Num mul(const Num &a, const Num &b) {
  if (a.c == NAN_ || b.c == NAN_) return mk(NAN_);
  if (a.c == INF || b.c == INF) {
    if (a.c == ZERO || b.c == ZERO) return mk(NAN_);
    return mk(INF, a.neg != b.neg);
  }
  if (a.c == ZERO || b.c == ZERO) return mk(ZERO);
  return mkv(a.neg != b.neg, a.m * b.m, a.e + b.e); // caller keeps mantissas <= 64 bits
}
inline Num div(const Num &a, const Num &b) {
  if (a.c == NAN_ || b.c == NAN_) return mk(NAN_);
  if (a.c == INF) return b.c == INF ? mk(NAN_) : mk(INF, b.c == ZERO ? a.neg : a.neg != b.neg);
  if (b.c == INF) return mk(ZERO);
  if (b.c == ZERO) return a.c == ZERO ? mk(NAN_) : mk(INF, a.neg);
  if (a.c == ZERO) return mk(ZERO);
  int sh = 128 - bitlen(a.m);
  u128 x = a.m << sh;
  u128 q = x / b.m, r = x % b.m;
  return mkv(a.neg != b.neg, q, a.e - sh - b.e, r != 0);
}
// exact sum; mantissas <= 64 bits. sticky says "a bit more (in magnitude)".
inline Num add(const Num &a, const Num &b) {
  if (a.c == NAN_ || b.c == NAN_) return mk(NAN_);
  if (a.c == INF || b.c == INF) {
    if (a.c == INF && b.c == INF) return a.neg == b.neg ? a : mk(NAN_);
    return a.c == INF ? a : b;
  }
  if (a.c == ZERO) return b;
  if (b.c == ZERO) return a;
  const Num *x = &a, *y = &b;
  if (cmpmag(a, b) < 0) { x = &b; y = &a; }
  // put x so that its top bit is bit 125
  int sx = 126 - bitlen(x->m);
  u128 X = x->m << sx; long e = x->e - sx;
  long d = y->e - e; // y = ym * 2^d in units of 2^e
  u128 Y; bool lost = false;
  if (d >= 0) Y = y->m << d;
  else if (-d >= 128) { Y = 0; lost = true; }
  else { Y = y->m >> (-d); lost = (y->m & ((((u128)1) << (-d)) - 1)) != 0; }
  if (x->neg == y->neg) return mkv(x->neg, X + Y, e, lost);
  u128 D = X - Y;
  if (lost) return mkv(x->neg, D - 1, e, true); // D - (something in (0,1)) = (D-1) + s
  return mkv(x->neg, D, e);
}
inline Num neg(const Num &a, bool unsignedinf) {
  Num r = a;
  if (a.c == REG || (a.c == INF && !unsignedinf)) r.neg = !a.neg;
  return r;
}

// ---- IEEE style binary formats -------------------------------------------
struct FFmt { int eb, fb; bool denorm; };
static const FFmt F32 = {8, 23, true}, F64 = {11, 52, true};

inline Num decodef(const FFmt &f, uint64_t bits) {
  bool neg = (bits >> (f.eb + f.fb)) & 1;
  uint64_t ex = (bits >> f.fb) & (((uint64_t)1 << f.eb) - 1);
  uint64_t fr = bits & (((uint64_t)1 << f.fb) - 1);
  long bias = ((long)1 << (f.eb - 1)) - 1;
  if (ex == ((uint64_t)1 << f.eb) - 1) return fr ? mk(NAN_) : mk(INF, neg);
  if (ex == 0) {
    if (!f.denorm) return mk(ZERO);
    return mkv(neg, fr, 1 - bias - f.fb);
  }
  return mkv(neg, fr | ((uint64_t)1 << f.fb), (long)ex - bias - f.fb);
}
// truncate to the format: overflow saturates to the largest finite, underflow
// (below the smallest denormal, or smallest normal without denormals) gives 0.
// returns magnitude bits|sign ; *tiny set when the exact value was non-zero but truncated to 0
inline uint64_t encodef(const FFmt &f, const Num &n, bool *tiny = nullptr) {
  if (tiny) *tiny = false;
  uint64_t sign = (uint64_t)n.neg << (f.eb + f.fb);
  uint64_t emax = ((uint64_t)1 << f.eb) - 1;
  long bias = ((long)1 << (f.eb - 1)) - 1;
  switch (n.c) {
    case ZERO: return 0;
    case NAN_: return (emax << f.fb) | ((uint64_t)1 << (f.fb - 1));
    case INF: return sign | (emax << f.fb);
    default: break;
  }
  if (n.m == 0) { if (tiny) *tiny = true; return 0; }
  long sc = scale(n);
  if (sc > bias) return sign | ((emax - 1) << f.fb) | (((uint64_t)1 << f.fb) - 1);
  long lsb = (sc < 1 - bias ? 1 - bias : sc) - f.fb; // weight of the last kept bit
  u128 q;
  long sh = n.e - lsb;
  if (sh >= 0) q = n.m << sh; else if (-sh >= 128) q = 0; else q = n.m >> (-sh);
  if (sc < 1 - bias) {
    if (!f.denorm) q = 0;
    if (q == 0) { if (tiny) *tiny = true; return 0; }
    return sign | (uint64_t)q;
  }
  return sign | ((uint64_t)(sc + bias) << f.fb) | ((uint64_t)q & (((uint64_t)1 << f.fb) - 1));
}
inline Num fromf(float x) { uint32_t b; memcpy(&b, &x, 4); return decodef(F32, b); }
inline Num fromd(double x) { uint64_t b; memcpy(&b, &x, 8); return decodef(F64, b); }
inline Num fromi(int64_t i) { bool n = i < 0; return mkv(n, n ? (uint64_t)0 - (uint64_t)i : (uint64_t)i, 0); }

// truncate to a two's complement integer of 'bits' bits with 'fr' fraction bits,
// saturating; specials -> 0
inline int64_t toint(const Num &n, int bits, int fr = 0) {
  if (n.c != REG) return 0;
  int64_t mx = (int64_t)(((uint64_t)1 << (bits - 1)) - 1), mn = -mx - 1;
  long sh = n.e + fr;
  if (scale(n) + fr >= bits - 1) return n.neg ? mn : mx;
  u128 q;
  if (sh >= 0) q = n.m << sh; else if (-sh >= 128) q = 0; else q = n.m >> (-sh);
  return n.neg ? -(int64_t)q : (int64_t)q;
}

inline std::string str(const Num &n) {
  char b[200];
  if (n.c == ZERO) return "0";
  if (n.c == NAN_) return "nan";
  if (n.c == INF) return n.neg ? "-inf" : "inf";
  snprintf(b, sizeof b, "%s0x%llx%016llx*2^%ld%s", n.neg ? "-" : "+", (unsigned long long)(n.m >> 64), (unsigned long long)n.m, n.e, n.sticky ? "+" : "");
  return b;
}
} // namespace ref
