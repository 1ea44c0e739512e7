// C14: oracle for the emulated float formats: the operation in the implementation
// type (IEEE float or double), then truncated to the format.
#pragma once
#include "fl.hpp"
#include "mc.hpp"
#include <cmath>
#include <sstream>
using namespace mc;
inline Num narrow(double x) { return fromd(x); }
inline Num narrow(float x) { return fromf(x); }
// does bit pattern g of format F represent "exact value n truncated towards zero"?
inline bool okf(const FFmt &F, const Num &n, uint64_t g) {
  Num d = decodef(F, g);
  if (n.c == NAN_) return d.c == NAN_;
  if (n.c == INF) return d.c == INF && d.neg == n.neg;
  if (n.c == ZERO) return d.c == ZERO;
  bool tiny; uint64_t e = encodef(F, n, &tiny); const uint64_t sg = (uint64_t)1 << (F.eb + F.fb);
  if (tiny) return (g & ~sg) == 0 || (F.denorm && g == ((n.neg ? sg : 0) | 1)); // below the smallest number: zero, or the smallest of that sign
  return g == e;
}
template <class I> struct Impl; 
template <> struct Impl<float> { static float of(const Num &n) { if (n.c == NAN_) return NAN; uint32_t b = (uint32_t)encodef(F32, n); float f; memcpy(&f, &b, 4); return f; } };
template <> struct Impl<double> { static double of(const Num &n) { if (n.c == NAN_) return NAN; uint64_t b = encodef(F64, n); double f; memcpy(&f, &b, 8); return f; } };
// every bit pattern of a 16 bit or smaller format, a boundary alphabet otherwise
inline std::vector<int64_t> fpatterns(const FFmt &F, bool pairs) {
  std::vector<int64_t> v;
  const int B = F.eb + F.fb + 1;
  if (B <= (pairs ? 8 : 16)) { for (int64_t i = 0; i < (1ll << B); i++) v.push_back(i); return v; }
  std::set<int64_t> s;
  const uint64_t M = ((uint64_t)1 << F.fb) - 1, E = ((uint64_t)1 << F.eb) - 1, bias = E >> 1;
  std::set<uint64_t> ex;
  if (!pairs || F.eb <= 5) for (uint64_t e = 0; e <= E; e++) ex.insert(e);
  else for (uint64_t e : {(uint64_t)0, (uint64_t)1, (uint64_t)2, bias / 2, bias / 2 + 1, bias - (uint64_t)F.fb - 2, bias - (uint64_t)F.fb, bias - 12, bias - 11, bias - 3, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + 3, bias + 10, bias + 11, bias + (uint64_t)F.fb, bias + (uint64_t)F.fb + 1, bias + bias / 2, bias + bias / 2 + 1, E - 2, E - 1, E}) if (e <= E) ex.insert(e);
  std::vector<uint64_t> fr{0, 1, M, M >> 1, (M >> 1) + 1, 0x5555555555555555ull & M};
  if (!pairs) for (int k = 0; k < F.fb; k++) { fr.push_back((uint64_t)1 << k); fr.push_back(M ^ ((uint64_t)1 << k)); fr.push_back(M - (((uint64_t)1 << k) - 1)); }
  for (uint64_t e : ex) for (uint64_t q : fr) { uint64_t b = (e << F.fb) | q; s.insert((int64_t)b); s.insert((int64_t)(b | ((uint64_t)1 << (F.eb + F.fb)))); }
  return std::vector<int64_t>(s.begin(), s.end());
}
