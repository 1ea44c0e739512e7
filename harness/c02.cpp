// C02: a posit survives leaving and re-entering the format
#include "cfg.hpp"
using namespace mc;
template <class P> static void one(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v);
  P p = mkp<P>(v); Num n = decode(f, v);
  const bool sinf = f.spec == S_NANINF; const long long V = v;
  MC_OP(c, "repack unpacked"); int64_t g = P(p.unpack()).v; MC_CK(c, "repack unpacked", g == v, "pattern %lld: got %lld", V, (long long)g);
  MC_OP(c, "repack decomposed"); g = P(p.unpack_low()).v; MC_CK(c, "repack decomposed", g == v, "pattern %lld: got %lld", V, (long long)g);
  MC_OP(c, "pack_low"); g = P::pack_low(p.unpack_low()).v; MC_CK(c, "pack_low", g == v, "pattern %lld: got %lld", V, (long long)g);
  MC_OP(c, "pack full2low"); g = P::pack_low(P::unpacked_full2low(p.unpack())).v; MC_CK(c, "pack full2low", g == v, "pattern %lld: got %lld", V, (long long)g);
  // towards float and double: truncated, saturated, sign and class kept
  bool tiny;
  MC_OP(c, "to double"); double d = (double)p; uint64_t e = encodef(F64, n, &tiny);
  if (n.c == NAN_) MC_CK(c, "to double", d != d, "nan became %g", d);
  else if (n.c == INF && !sinf) MC_CK(c, "to double", d == d && d - d != 0, "inf became %g", d);
  else if (tiny) MC_CK(c, "to double tiny", dbits(d) == 0 || dbits(d) == ((uint64_t)n.neg << 63) || dbits(d) == (((uint64_t)n.neg << 63) | 1), "pattern %lld: got %g", V, d);
  else MC_CK(c, "to double", dbits(d) == e, "pattern %lld: got %.17g bits %llx, expected bits %llx", V, d, (unsigned long long)dbits(d), (unsigned long long)e);
  MC_OP(c, "to float"); float x = (float)p; e = encodef(F32, n, &tiny);
  if (n.c == NAN_) MC_CK(c, "to float", x != x, "nan became %g", x);
  else if (n.c == INF && !sinf) MC_CK(c, "to float", x == x && x - x != 0, "inf became %g", x);
  else if (tiny) MC_CK(c, "to float tiny", fbits(x) == 0 || fbits(x) == ((uint32_t)n.neg << 31) || fbits(x) == (((uint32_t)n.neg << 31) | 1), "pattern %lld: got %g", V, x);
  else MC_CK(c, "to float", fbits(x) == e, "pattern %lld: got %.9g bits %x, expected bits %llx", V, x, fbits(x), (unsigned long long)e);
  MC_OP(c, "float bits"); uint32_t fb = p.as_float_bin(); MC_CK(c, "float bits", n.c == NAN_ ? (fb & 0x7fffffff) > 0x7f800000 : fb == fbits(x), "pattern %lld: got %x", V, fb);
  // and back, when the intermediate format held the value exactly
  if (n.c != REG || sameval(fromd(d), n)) { MC_OP(c, "through double"); g = P(d).v; MC_CK(c, "through double", g == v, "pattern %lld -> %.17g -> %lld", V, d, (long long)g); }
  if (n.c != REG || sameval(fromf(x), n)) {
    MC_OP(c, "through float"); g = P(x).v; MC_CK(c, "through float", g == v, "pattern %lld -> %.9g -> %lld", V, x, (long long)g);
    MC_OP(c, "through float bits"); g = P(typename P::single_tag(), fb).v; MC_CK(c, "through float bits", g == v, "pattern %lld -> %x -> %lld", V, fb, (long long)g);
  }
  if (n.c == ZERO || n.c == REG) {
    int64_t i = toint(n, 32);
    if (sameval(fromi(i), n)) { MC_OP(c, "through int"); int k = (int)p; g = P(k).v; MC_CK(c, "through int", k == i && g == v, "pattern %lld -> %d -> %lld", V, k, (long long)g); }
  }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  const bool nan = f.spec == S_NAN;
  const int full = nan ? 24 : 20;
  if (f.N <= full) add(name, group == 0 ? 1 : f.N > 16 ? 16 : 2, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); });
  else {
    add(name + " alphabet", 4, [f](Ctx &c) { for (int64_t v : c.S1(alphabet(f, 2))) one<P>(c, f, v); });
    if (f.N <= 28 || (f.N <= 32 && nan)) add(name, 64, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); }, true);
  }
}
static RegisterAll r_;
