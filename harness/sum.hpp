// oracle for a packed sum of two exact terms computed with W working bits
#pragma once
#include "ref.hpp"
#include <algorithm>
using namespace ref;
static int sigbits(const Num &n) { u128 m = n.m; if (!m) return 0; while (!(m & 1)) m >>= 1; return bitlen(m); }
static long lsb(const Num &n) { u128 m = n.m; long e = n.e; while (m && !(m & 1)) { m >>= 1; e++; } return e; }
static Num strip(Num n) { while (n.c == REG && n.m && !(n.m & 1)) { n.m >>= 1; n.e++; } return n; }
// g is an acceptable packed x+y computed with W working bits.  Exact (one truncation)
// whenever the terms fit the working width; otherwise within the working precision.
static bool oksum(const Fmt &f, Num x, Num y, int W, int64_t g, int *kind) {
  x = strip(x); y = strip(y);
  Num s = add(x, y); int64_t e = encode(f, s);
  *kind = 0;
  if (x.c != REG || y.c != REG) { if ((x.c == REG && sigbits(x) > W - 2) || (y.c == REG && sigbits(y) > W - 2)) *kind = 1; return g == e; } // truncation of a truncation
  const bool exact = sigbits(x) <= W - 2 && sigbits(y) <= W - 2;
  long hi = std::max(scale(x), scale(y)), lo = std::min(lsb(x), lsb(y));
  if (exact && (x.neg == y.neg || hi - lo <= W - 3)) return g == e;
  if (sigbits(x) > 63 || sigbits(y) > 63) { *kind = 2; return true; }
  *kind = 1;
  const Num &L = cmpmag(x, y) >= 0 ? x : y, &M = cmpmag(x, y) >= 0 ? y : x;
  long eb = hi - (W - 4);
  Num up = add(strip(add(L, mkv(false, 1, eb))), M), dn = add(strip(add(L, mkv(true, 1, eb))), M);
  return encode(f, dn) <= g && g <= encode(f, up);
}
