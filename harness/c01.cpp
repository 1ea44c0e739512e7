// C01: every bit pattern denotes its posit value
#include "cfg.hpp"
using namespace mc;
template <class P> static void one(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v);
  P p = mkp<P>(v); Num n = decode(f, v);
  const bool sinf = f.spec == S_NANINF;
  MC_OP(c, "unpack"); auto u = p.unpack(); Num un = unum(u, sinf);
  MC_CK(c, "unpack", sameval(un, n), "pattern %lld: got %s, is %s", (long long)v, str(un).c_str(), str(n).c_str());
  // sign, regime, exponent, fraction decomposition
  MC_OP(c, "unpack_low"); auto l = p.unpack_low();
  Num ln;
  const int B = sizeof(l.fraction) * 8;
  if (l.type == P::UnpackedT::Zero) ln = mk(ZERO);
  else if (l.type == P::UnpackedT::NaN) ln = mk(NAN_);
  else if (l.type == P::UnpackedT::Infinity) ln = mk(INF, sinf && l.negativeSign);
  else ln = mkv(l.negativeSign, ((u128)1 << B) | l.fraction, ((long)l.regime) * ((long)1 << f.es) + (long)l.exp - B);
  MC_CK(c, "unpack_low", sameval(ln, n) && (n.c != REG || (uint64_t)l.exp < ((uint64_t)1 << f.es)), "pattern %lld: regime %ld exp %ld give %s, is %s", (long long)v, (long)l.regime, (long)l.exp, str(ln).c_str(), str(n).c_str());
  MC_CK(c, "low2full", sameval(unum(P::unpacked_low2full(l), sinf), n), "pattern %lld", (long long)v);
  MC_CK(c, "implicit unpacked", sameval(unum(p.operator typename P::UnpackedT(), sinf), n), "pattern %lld", (long long)v);
  // classification
  MC_CK(c, "isNaN", p.isNaN() == (n.c == NAN_), "pattern %lld", (long long)v);
  MC_CK(c, "isinfinity", p.isinfinity() == (n.c == INF), "pattern %lld", (long long)v);
  MC_CK(c, "iszero", p.iszero() == (n.c == ZERO), "pattern %lld", (long long)v);
  if (n.c == REG || n.c == ZERO || (n.c == INF && sinf)) MC_CK(c, "isnegative", p.isnegative() == (n.c != ZERO && n.neg), "pattern %lld", (long long)v);
  MC_CK(c, "isone", p.isone() == (n.c == REG && sameval(n, mkv(false, 1, 0))), "pattern %lld", (long long)v);
  MC_CK(c, "hasNaN", p.hasNaN() == (f.spec != S_INF), "pattern %lld", (long long)v);
  // diagnostics
  MC_OP(c, "analyze"); auto i = p.analyze();
  MC_CK(c, "analyze class", i.nan == (n.c == NAN_) && i.infinity == (n.c == INF), "pattern %lld", (long long)v);
  if (n.c == REG) {
    long sc = scale(n), k = sc >> f.es, ex = sc & (((long)1 << f.es) - 1);
    int rs = (int)(k >= 0 ? k + 2 : 1 - k); if (rs > f.N - 1) rs = f.N - 1;
    int es = std::min(f.N - 1 - rs, f.es), fs = f.N - 1 - rs - es;
    MC_CK(c, "analyze fields", i.sign == n.neg && i.k == k && i.exp == ex && i.exponent == sc && i.rs == rs && i.es == es && i.fs == fs,
          "pattern %lld: sign %d k %d exp %d exponent %d rs %d es %d fs %d, expected k %ld exp %ld exponent %ld rs %d es %d fs %d", (long long)v, (int)i.sign, i.k, i.exp, i.exponent, i.rs, i.es, i.fs, k, ex, sc, rs, es, fs);
    const int FB = sizeof(i.ifraction) * 8;
    if (i.fs <= FB) MC_CK(c, "analyze fraction", sameval(mkv(n.neg, ((u128)1 << FB) | i.ifraction, sc - FB), n), "pattern %lld", (long long)v);
  }
  // the value as a double is exact whenever a double can hold it
  MC_OP(c, "todouble"); double d = (double)p; bool tiny; uint64_t e = encodef(F64, n, &tiny);
  if (!tiny && n.c == REG && sameval(decodef(F64, e), n)) MC_CK(c, "todouble", dbits(d) == e, "pattern %lld: got %.17g bits %llx, expected bits %llx", (long long)v, d, (unsigned long long)dbits(d), (unsigned long long)e);
  if (n.c == ZERO) MC_CK(c, "todouble zero", dbits(d) == 0, "got %g", d);
  if (n.c == NAN_) MC_CK(c, "todouble nan", d != d, "got %g", d);
  if (n.c == INF) MC_CK(c, "todouble inf", d == d && d - d != 0 && (!sinf || (d < 0) == n.neg), "pattern %lld got %g", (long long)v, d);
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  const bool nan = f.spec == S_NAN;
  // all patterns up to 20 bits (24 for the NaN flavour); thorough: all patterns up to 28, and of 32/2 and 32/0
  const int full = nan ? 24 : 20;
  if (f.N <= full) add(name, group == 0 ? 1 : f.N > 16 ? 16 : 2, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); });
  else {
    add(name + " alphabet", 4, [f](Ctx &c) { for (int64_t v : c.S1(alphabet(f, 2))) one<P>(c, f, v); });
    if (f.N <= 28 || (f.N <= 32 && nan)) add(name, 64, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); }, true);
  }
}
static RegisterAll r_;
