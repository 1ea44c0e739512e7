// C03: conversion of any float or double into any posit
#include "cfg.hpp"
using namespace mc;
template <class P> static void fromfloat(Ctx &c, const Fmt &f, int64_t b) {
  c.at(b);
  float x = bitsf(b); int64_t e = encode(f, fromf(x));
  MC_OP(c, "from float"); int64_t g = P(x).v; c.hit(g);
  MC_CK(c, "from float", g == e, "float bits %08x (%.9g): got %lld expected %lld", (uint32_t)b, x, (long long)g, (long long)e);
  MC_OP(c, "from float bits"); g = P(typename P::single_tag(), (uint32_t)b).v;
  MC_CK(c, "from float bits", g == e, "float bits %08x (%.9g): got %lld expected %lld", (uint32_t)b, x, (long long)g, (long long)e);
}
template <class P> static void fromdouble(Ctx &c, const Fmt &f, int64_t b) {
  c.at(b);
  double x = bitsd(b); int64_t e = encode(f, fromd(x));
  MC_OP(c, "from double"); int64_t g = P(x).v; c.hit(g);
  MC_CK(c, "from double", g == e, "double bits %016llx (%.17g): got %lld expected %lld", (unsigned long long)b, x, (long long)g, (long long)e);
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  add(name + " double", 2, [f](Ctx &c) { for (int64_t b : c.S1(doubles(f, c.thorough))) fromdouble<P>(c, f, b); });
  add(name + " float", 1, [f](Ctx &c) { for (int64_t b : c.S1(floats(true))) fromfloat<P>(c, f, b); });
  // posit neighbourhoods: each posit value, the midpoint above it, and the doubles just around them
  add(name + " neighbours", group ? 2 : 1, [f](Ctx &c) {
    std::set<int64_t> s;
    for (int64_t v : f.N <= 10 ? fullset(f) : alphabet(f, 0)) {
      Num n = decode(f, v); if (n.c != REG) continue;
      bool t; uint64_t b = encodef(F64, n, &t); if (t) continue;
      for (int k = -2; k <= 2; k++) s.insert((int64_t)(b + k));
      if (bitlen(n.m) < 52) { Num h = mkv(n.neg, n.m * 2 + 1, n.e - 1); b = encodef(F64, h, &t); if (!t) for (int k = -1; k <= 1; k++) s.insert((int64_t)(b + k)); }
    }
    for (int64_t b : c.S1(std::vector<int64_t>(s.begin(), s.end()))) fromdouble<P>(c, f, b);
  });
  // every float (thorough), or every float whose low byte is one of 4 (quick), for a few formats
  const int T = Tr<P>::TB;
  bool pick = (f.N == 8 && f.es == 0 && T == 8) || (f.N == 16 && f.es == 1 && T == 16) || (f.N == 32 && f.es == 2 && T == 32);
  if (pick && f.spec != S_INF) {
    add(name + " all floats", 64, [f](Ctx &c) { c.range(0, 0xffffffffll, [&](int64_t b) { fromfloat<P>(c, f, b); }); }, true);
    if (f.spec == S_NAN) add(name + " floats24", 32, [f](Ctx &c) {
      static const int low[3] = {0, 1, 0xff};
      c.range(0, 0xffffffll, [&](int64_t b) { if (c.replay) { fromfloat<P>(c, f, b); return; } for (int k = 0; k < 3; k++) fromfloat<P>(c, f, (b << 8) | low[k]); });
    });
  }
}
static RegisterAll r_;
