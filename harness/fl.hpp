// float and double input alphabets, bit casts
#pragma once
#include <set>
#include <vector>
#include <cstring>
#include "ref.hpp"
using namespace ref;
// doubles: every exponent around the representable range of the format, and
// the extremes of the double format, times fraction shapes
inline std::vector<int64_t> doubles(const Fmt &f, bool rich) {
  std::set<uint64_t> s;
  std::set<int> ex;
  long S = (long)1 << f.es, mx = S * (f.N - 2) + 3;
  if (mx > 1100) mx = 1100;
  for (long e = -mx; e <= mx; e++) {
    if (!rich && S >= 8 && (e % S) != 0 && (e % S) != 1 && (e % S) != -1 && e < mx - 4 && e > -mx + 4) continue;
    long b = e + 1023; if (b >= 0 && b <= 2047) ex.insert((int)b);
  }
  int xs[] = {0, 1, 2, 52, 800, 896, 1023, 1150, 1500, 2045, 2046, 2047};
  for (int x : xs) ex.insert(x);
  const uint64_t M = ((uint64_t)1 << 52) - 1;
  std::vector<uint64_t> fr;
  fr.push_back(0); fr.push_back(M); fr.push_back(1); fr.push_back((uint64_t)1 << 51); fr.push_back(((uint64_t)1 << 51) - 1); fr.push_back(0x5555555555555ull); fr.push_back(0xAAAAAAAAAAAAAull & M);
  for (int k = 0; k < 52; k += rich ? 1 : 3) { fr.push_back((uint64_t)1 << k); fr.push_back(M - (((uint64_t)1 << k) - 1)); fr.push_back(M ^ ((uint64_t)1 << k)); }
  for (int e : ex) for (uint64_t q : fr) { uint64_t b = ((uint64_t)e << 52) | q; s.insert(b); s.insert(b | ((uint64_t)1 << 63)); }
  if (rich) for (uint64_t i = 1; i <= 65536; i++) { uint64_t b = i * 0x9e3779b97f4a7c15ull; if (i & 1) s.insert(b); s.insert((b & 0x800fffffffffffffull) | ((uint64_t)(1023 - (mx > 1000 ? 1000 : mx) + (long)(b % (uint64_t)(mx > 1000 ? 2000 : 2 * mx))) << 52)); } // a lattice of bit patterns, and of significands in the range of the format
  std::vector<int64_t> v; for (uint64_t b : s) v.push_back((int64_t)b);
  return v;
}
// the floats whose bits are in a boundary alphabet (the full 2^32 space is enumerated with Ctx::range)
inline std::vector<int64_t> floats(bool rich) {
  std::set<uint32_t> s;
  const uint32_t M = (1u << 23) - 1;
  std::vector<uint32_t> fr;
  fr.push_back(0); fr.push_back(M); fr.push_back(1); fr.push_back(0x2AAAAA); fr.push_back(0x555555); fr.push_back(1u << 22); fr.push_back((1u << 22) - 1);
  for (int k = 0; k < 23; k += rich ? 1 : 2) { fr.push_back(1u << k); fr.push_back(M - ((1u << k) - 1)); fr.push_back(M ^ (1u << k)); }
  for (uint32_t e = 0; e < 256; e++) for (uint32_t q : fr) { s.insert((e << 23) | q); s.insert((e << 23) | q | 0x80000000u); }
  if (rich) for (uint32_t i = 1; i <= 65536; i++) { uint32_t b = i * 2654435769u; s.insert(b); s.insert((b & 0x807fffffu) | ((127 - 20 + b % 40) << 23)); } // a lattice of bit patterns, and of significands around one
  return std::vector<int64_t>(s.begin(), s.end());
}

inline double bitsd(int64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline float bitsf(int64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
inline uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline uint32_t fbits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

