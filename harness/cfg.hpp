// Posit configurations explored, state alphabets, and registration.
#pragma once
#include "posit.h"
#include "ref.hpp"
#include "mc.hpp"
#include "fl.hpp"

#ifndef NSHARD
#define NSHARD 1
#define SHARD 0
#endif

using namespace ref;

// X(index, storage, N, es, fraction type)
#define SMALL_CFGS(X) /* full pair spaces */                                   \
  X(0, int8_t, 4, 0, uint8_t) X(1, int8_t, 4, 1, uint8_t) X(2, int8_t, 5, 0, uint8_t) \
  X(3, int8_t, 5, 1, uint16_t) X(4, int8_t, 5, 2, uint8_t) X(5, int8_t, 6, 0, uint16_t) \
  X(6, int8_t, 6, 1, uint8_t) X(7, int8_t, 6, 2, uint8_t) X(8, int8_t, 6, 3, uint32_t) \
  X(9, int8_t, 7, 0, uint8_t) X(10, int8_t, 7, 1, uint64_t) X(11, int8_t, 7, 2, uint8_t) \
  X(12, int8_t, 7, 4, uint8_t) X(13, int8_t, 8, 0, uint8_t) X(14, int8_t, 8, 1, uint8_t) \
  X(15, int8_t, 8, 2, uint8_t) X(16, int8_t, 8, 3, uint16_t) X(17, int8_t, 8, 5, uint16_t) \
  X(18, int16_t, 8, 2, uint8_t) X(19, int16_t, 8, 0, uint16_t) X(20, int32_t, 8, 1, uint8_t) \
  X(21, int16_t, 9, 1, uint16_t) X(22, int64_t, 8, 2, uint16_t) X(23, int8_t, 8, 4, uint8_t) \
  X(24, int8_t, 7, 3, uint8_t) X(25, int64_t, 4, 1, uint8_t)

#define MID_CFGS(X) /* full unary spaces, boundary pair alphabets in quick */  \
  X(0, int16_t, 10, 0, uint16_t) X(1, int16_t, 10, 2, uint16_t) X(2, int16_t, 11, 1, uint16_t) \
  X(3, int16_t, 12, 0, uint16_t) X(4, int16_t, 12, 2, uint16_t) X(5, int16_t, 12, 3, uint32_t) \
  X(6, int16_t, 14, 2, uint16_t) X(7, int16_t, 15, 1, uint16_t) X(8, int16_t, 16, 0, uint16_t) \
  X(9, int16_t, 16, 1, uint16_t) X(10, int16_t, 16, 2, uint32_t) X(11, int16_t, 16, 3, uint64_t) \
  X(12, int32_t, 12, 1, uint16_t) X(13, int32_t, 16, 1, uint16_t) X(14, int32_t, 16, 2, uint32_t) X(15, int16_t, 16, 5, uint16_t) X(16, int16_t, 16, 10, uint16_t) \
  X(17, int16_t, 13, 8, uint16_t)

#define BIG_CFGS(X)                                                             \
  X(0, int32_t, 18, 1, uint32_t) X(1, int32_t, 20, 3, uint32_t) X(2, int32_t, 24, 2, uint32_t) \
  X(3, int32_t, 28, 0, uint32_t) X(4, int32_t, 31, 2, uint32_t) X(5, int32_t, 32, 0, uint64_t) \
  X(6, int32_t, 32, 1, uint32_t) X(7, int32_t, 32, 2, uint32_t) X(8, int32_t, 32, 3, uint64_t) \
  X(9, int32_t, 32, 4, uint64_t) X(10, int64_t, 32, 2, uint32_t) X(11, int64_t, 40, 2, uint64_t) \
  X(12, int64_t, 48, 3, uint64_t) X(13, int64_t, 56, 1, uint64_t) X(14, int64_t, 60, 3, uint64_t) \
  X(15, int64_t, 62, 1, uint64_t) X(16, int64_t, 63, 0, uint64_t) X(17, int32_t, 24, 5, uint32_t) \
  X(18, int32_t, 32, 6, uint32_t) X(19, int32_t, 32, 20, uint32_t) X(20, int64_t, 61, 4, uint64_t) \
  X(21, int64_t, 63, 8, uint64_t) X(22, int64_t, 64, 0, uint64_t) X(23, int64_t, 64, 2, uint64_t) X(24, int64_t, 64, 3, uint64_t) \
  X(25, int32_t, 32, 28, uint32_t) X(26, int64_t, 64, 40, uint64_t) X(27, int64_t, 60, 55, uint64_t)

template <class P> struct Tr;
template <class T, int N, int es, class FT, PositSpec S>
struct Tr<Posit<T, N, es, FT, S>> {
  static Fmt f() { Fmt r = {N, es, S == PositSpec::WithNan ? S_NAN : S == PositSpec::WithInf ? S_INF : S_NANINF}; return r; }
  enum { W = sizeof(FT) * 8, TB = sizeof(T) * 8 };
};

template <class P> inline P mkp(int64_t v) { return P(typename P::DeepInit(), (typename P::value_t)v); }

// value of an unpacked number as an exact model number
template <class U> inline Num unum(const U &u, bool keepinfsign = true) {
  const int fb = sizeof(u.fraction) * 8;
  if (u.isZero()) return mk(ZERO);
  if (u.isNaN()) return mk(NAN_);
  if (u.isInfinity()) return mk(INF, keepinfsign && u.negativeSign);
  return mkv(u.negativeSign, ((u128)1 << fb) | u.fraction, (long)u.exponent - fb);
}

inline bool canonical(const Fmt &f, int64_t v) { return v >= top(f) && v <= -(top(f) + 1); }

inline std::vector<int64_t> fullset(const Fmt &f) { // ordered simplest (small magnitude) first
  std::vector<int64_t> v;
  v.push_back(0);
  for (int64_t i = 1; i < -top(f); i++) { v.push_back(i); v.push_back(-i); }
  v.push_back(top(f));
  return v;
}

// n patterns of a Weyl lattice over all the patterns of the format (every pattern when there are not more)
inline std::vector<int64_t> lattice(const Fmt &f, int n) {
  if (f.N < 62 && ((int64_t)1 << f.N) <= n) return fullset(f);
  std::set<int64_t> s;
  for (int i = 1; i <= n; i++) { int64_t v = (int64_t)((uint64_t)i * 0x9e3779b97f4a7c15ull) >> (64 - f.N); if (v != top(f)) s.insert(v); }
  return std::vector<int64_t>(s.begin(), s.end());
}

// boundary alphabet: every regime, a set of exponents and of fraction shapes,
// and (rich) the two neighbours of each pattern
inline std::vector<int64_t> alphabet(const Fmt &f, int rich) {
  std::set<int64_t> s;
  const int B = f.N - 1;
  const int64_t lim = -(top(f) + 1);
  s.insert(0); s.insert(top(f));
  std::set<uint64_t> exps;
  uint64_t em = ((uint64_t)1 << f.es) - 1;
  if (f.es <= 2) for (uint64_t e = 0; e <= em; e++) exps.insert(e);
  else { exps.insert(0); exps.insert(1); exps.insert(em); exps.insert(em - 1); exps.insert(em >> 1); if (rich > 0) exps.insert((em >> 1) + 1); }
  for (int r = 1; r <= B; r++)
    for (int one = 0; one < 2; one++) {
      if (rich < 0 && r > 3 && r < B - 2 && (r % 5)) continue;
      // regime bits left aligned in B bits
      uint64_t base; int used;
      if (one) { base = r >= 64 ? ~(uint64_t)0 : (((uint64_t)1 << r) - 1) << (B - r); used = r + 1; }
      else { base = r < B ? (uint64_t)1 << (B - r - 1) : 0; used = r + 1; }
      for (uint64_t e : exps) {
        int rem = B - used;
        uint64_t w = base;
        if (rem <= 0) { rem = 0; }
        else if (rem <= f.es) { w |= e >> (f.es - rem); rem = 0; }
        else { rem -= f.es; w |= e << rem; }
        uint64_t m = rem ? ((((uint64_t)1 << (rem - 1)) - 1) * 2 + 1) : 0;
        uint64_t t[12]; int nt = 0;
        t[nt++] = 0; t[nt++] = m; t[nt++] = 1 & m; t[nt++] = (m >> 1) + (m ? 1 : 0);
        if (rich >= 0) { t[nt++] = m & ~(uint64_t)1; t[nt++] = 0x5555555555555555ull & m; }
        if (rich > 0) { t[nt++] = 0xAAAAAAAAAAAAAAAAull & m; t[nt++] = m >> 1; t[nt++] = m / 3 * 2; t[nt++] = 0x123456789abcdefull & m; t[nt++] = 3 & m; }
        for (int i = 0; i < nt; i++) {
          int64_t p = (int64_t)(w | t[i]);
          if (p > 0 && p <= lim) { s.insert(p); s.insert(-p); }
        }
      }
    }
  if (rich > 1) for (int64_t v : lattice(f, 16384)) s.insert(v);
  std::vector<int64_t> v(s.begin(), s.end());
  std::sort(v.begin(), v.end(), [](int64_t a, int64_t b) { uint64_t x = a < 0 ? 0 - (uint64_t)a : a, y = b < 0 ? 0 - (uint64_t)b : b; return x != y ? x < y : a > b; });
  return v;
}

// operands related to a by the algebra: its neighbours, the neighbours of -a, of about 1/a and of
// the pattern with the other regime sign; sums of these cancel and their products lie around one
inline std::vector<int64_t> relatives(const Fmt &f, int64_t a) {
  std::set<int64_t> s; const int64_t lim = -(top(f) + 1), h = (int64_t)1 << (f.N - 2);
  auto put = [&](int64_t v) { if (v >= top(f) && v <= lim) s.insert(v); };
  if (a == top(f)) { put(a); return std::vector<int64_t>(s.begin(), s.end()); }
  for (int d = -3; d <= 3; d++) { if (a < lim - 3 && a > top(f) + 3) put(a + d); if (-a < lim - 3 && -a > top(f) + 3) put(-a + d); }
  put(a); put(-a);
  const int64_t m = a < 0 ? -a : a, r = lim - m; // 2^(N-1) - |a|: the reciprocal of powers of two, an approximation elsewhere
  for (int d = -1; d <= 3; d++) if (m && r + d > 0 && r < lim - 3) { put(r + d); put(-(r + d)); }
  put(a ^ h); put(a ^ (h >> 1)); put(a / 2);
  return std::vector<int64_t>(s.begin(), s.end());
}

// Explorer<P>::reg(name) registers the jobs of one configuration; instantiated
// only in the translation unit whose shard owns it
template <class P> struct Explorer { static void reg(const std::string &name, int group); };
template <bool own> struct RegIf { template <class P> static void go(const std::string &, int) {} };
template <> struct RegIf<true> { template <class P> static void go(const std::string &n, int g) { Explorer<P>::reg(n, g); } };

#define CFG_REG_(G, off, k, T, N, es, FT, S) RegIf<((k) * 3 + off) % NSHARD == SHARD>::template go<Posit<T, N, es, FT, PositSpec::S>>("Posit<" #T "," #N "," #es "," #FT "," #S ">", G);
#define CFG_REG(G, k, T, N, es, FT) CFG_REG_(G, 0, k, T, N, es, FT, WithNan) CFG_REG_(G, 1, k, T, N, es, FT, WithInf) CFG_REG_(G, 2, k, T, N, es, FT, WithNanInf)
#define CFG_REG0(k, T, N, es, FT) CFG_REG(0, k, T, N, es, FT)
#define CFG_REG1(k, T, N, es, FT) CFG_REG(1, k, T, N, es, FT)
#define CFG_REG2(k, T, N, es, FT) CFG_REG(2, k, T, N, es, FT)
// the same translation unit is used for every list; NOSMALL etc. drop one
#ifdef GRID
#include "grid.hpp"
#define GRID_REG(T, N, es, FT, S) RegIf<((N) * 7 + (es) * 3) % NSHARD == SHARD>::template go<Posit<T, N, es, FT, PositSpec::S>>("Posit<" #T "," #N "," #es "," #FT "," #S ">", N <= 8 ? 0 : N <= 16 ? 1 : 2);
#endif
namespace {
struct RegisterAll {
#if !defined(GRID)
  RegisterAll() { SMALL_CFGS(CFG_REG0) MID_CFGS(CFG_REG1) BIG_CFGS(CFG_REG2) }
#elif GRID == 1
  RegisterAll() { GRID1(GRID_REG) }
#else
  RegisterAll() { GRID2(GRID_REG) }
#endif
};
}
