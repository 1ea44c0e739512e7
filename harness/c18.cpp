// C18: functions on the unit range and the bit level approximations
#include "cfg.hpp"
#include <cmath>
using namespace mc;
#define LL long long
template <class P> static void one(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v); const P p = mkp<P>(v); Num n = decode(f, v); int64_t g, e; const LL V = v;
  const Num I = mkv(false, 1, 0);
  const bool unit = n.c == ZERO || (n.c == REG && !n.neg && cmpval(n, I) <= 0);
  MC_OP(c, "isUnitRange"); MC_CK(c, "isUnitRange", p.isUnitRange() == unit, "pattern %lld: %d", V, (int)p.isUnitRange());
  if (unit) {
    MC_OP(c, "urOneMinus"); P q = p.urOneMinus(); g = q.v;
    Num k = decode(f, g);
    MC_CK(c, "urOneMinus in range", k.c == ZERO || (k.c == REG && !k.neg && cmpval(k, I) <= 0), "pattern %lld: %lld", V, (LL)g);
    MC_CK(c, "urOneMinus involution", q.urOneMinus().v == v, "pattern %lld: %lld back %lld", V, (LL)g, (LL)q.urOneMinus().v);
    MC_CK(c, "urOneMinus reverses order", v == 0 || mkp<P>(v - 1).urOneMinus().v > g, "pattern %lld: %lld", V, (LL)g);
    if (f.es == 0) { Num mn = n; mn.neg = n.c == REG; e = encode(f, add(I, mn)); MC_CK(c, "urOneMinus exact", g == e && sameval(decode(f, e), add(I, mn)) && (P::one() - p).v == g, "pattern %lld: %lld expected %lld", V, (LL)g, (LL)e); }
    MC_OP(c, "urDeltaPs"); g = p.urDeltaPs().v; e = encode(f, mul(n, k)); MC_CK(c, "urDeltaPs", g == e, "pattern %lld: %lld expected %lld", V, (LL)g, (LL)e);
  }
  // sigmoid and softplus: flip the sign bit of the N bit pattern, shift it right by two (one)
  const uint64_t w = (uint64_t)v - (uint64_t)top(f); // 0 .. 2^N-1 in value order
  MC_OP(c, "pseudosigmoid"); g = p.pseudosigmoid().v; e = (int64_t)(w >> 2); MC_CK(c, "pseudosigmoid", g == e, "pattern %lld: %lld expected %lld", V, (LL)g, (LL)e); c.hit(g);
  int64_t s = g;
  MC_OP(c, "pseudosoftplus"); g = p.pseudosoftplus().v; e = (int64_t)(w >> 1); MC_CK(c, "pseudosoftplus", g == e, "pattern %lld: %lld expected %lld", V, (LL)g, (LL)e);
  if (n.c != REG && n.c != ZERO) return;
  { Num k = decode(f, s); MC_CK(c, "sigmoid in [0,1)", k.c == ZERO || (k.c == REG && !k.neg && cmpval(k, I) < 0), "pattern %lld: %lld", V, (LL)s); }
  if (v != -maxpos(f)) { MC_CK(c, "monotone", mkp<P>(v - 1).pseudosigmoid().v <= s && mkp<P>(v - 1).pseudosoftplus().v <= g, "pattern %lld", V); }
  { int64_t m = mkp<P>(-v).pseudosigmoid().v, o = encode(f, I); MC_CK(c, "sigmoid symmetric", m + s == o || m + s == o - 1, "pattern %lld: %lld %lld", V, (LL)s, (LL)m); }
  if (v == 0 && f.es == 0) MC_CK(c, "sigmoid(0)", sameval(decode(f, s), mkv(false, 1, -1)), "%lld", (LL)s);
  if (f.es == 0 && f.N >= 8 && n.c == REG) { // close to the functions they approximate
    double x = (double)encodef(F64, n); uint64_t xb = encodef(F64, n); memcpy(&x, &xb, 8);
    double ys, yp; uint64_t b = encodef(F64, decode(f, s)); memcpy(&ys, &b, 8); b = encodef(F64, decode(f, g)); memcpy(&yp, &b, 8);
    MC_CK(c, "sigmoid approximates", std::fabs(ys - 1 / (1 + std::exp(-x))) < 0.08, "x %g: %g is %g", x, ys, 1 / (1 + std::exp(-x)));
    if (x < 0) MC_CK(c, "softplus approximates", std::fabs(yp - std::log1p(std::exp(x))) < 0.32, "x %g: %g is %g", x, yp, std::log1p(std::exp(x)));
  }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  if (f.N <= 20) add(name, group == 0 ? 1 : f.N > 16 ? 8 : 2, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); });
  else {
    add(name, 2, [f](Ctx &c) { for (int64_t v : c.S1(alphabet(f, 2))) one<P>(c, f, v); });
    if (f.N <= 24 || (f.N == 32 && f.spec == S_NAN && (f.es == 2 || f.es == 0) && Tr<P>::TB == 32)) add(name + " all", 64, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); }, true);
  }
}
static RegisterAll r_;
