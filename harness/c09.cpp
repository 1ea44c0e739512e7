// C09: half, twice and reciprocal are the exact result truncated towards zero
#include "cfg.hpp"
using namespace mc;
template <class P> static void one(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v);
  P p = mkp<P>(v); Num n = decode(f, v); const long long V = v; int64_t g, e;
  Num h = n; if (n.c == REG) h.e--;
  MC_OP(c, "half"); g = p.half().v; e = n.c == REG ? encode(f, h) : v; MC_CK(c, "half", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e); c.hit(g);
  h = n; if (n.c == REG) h.e++;
  MC_OP(c, "twice"); g = p.twice().v; e = n.c == REG ? encode(f, h) : v; MC_CK(c, "twice", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  Num r = div(mkv(false, 1, 0), n); e = encode(f, r);
  MC_OP(c, "inv"); g = p.inv().v; MC_CK(c, "inv", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  MC_OP(c, "~"); g = (~p).v; MC_CK(c, "~", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  MC_OP(c, "inv function"); g = inv(p).v; MC_CK(c, "inv function", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  // agreement with the general operations
  MC_OP(c, "1/x"); g = (P::one() / p).v; MC_CK(c, "1/x", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  MC_OP(c, "x/2"); g = (p / P::two()).v; MC_CK(c, "x/2", g == p.half().v, "pattern %lld: got %lld, half %lld", V, (long long)g, (long long)p.half().v);
  MC_OP(c, "2*x"); g = P(p * P::two()).v; MC_CK(c, "2*x", g == p.twice().v, "pattern %lld: got %lld, twice %lld", V, (long long)g, (long long)p.twice().v);
  MC_OP(c, "x*onehalf"); g = P(p * P::onehalf()).v; MC_CK(c, "x*onehalf", g == p.half().v, "pattern %lld: got %lld, half %lld", V, (long long)g, (long long)p.half().v);
  MC_OP(c, "x+x"); g = (p + p).v; MC_CK(c, "x+x", g == p.twice().v, "pattern %lld: got %lld, twice %lld", V, (long long)g, (long long)p.twice().v);
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  if (f.N <= 20 || (f.N <= 24 && f.spec == S_NAN)) add(name, group == 0 ? 1 : f.N > 16 ? 16 : 2, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); });
  else {
    add(name, 2, [f](Ctx &c) { for (int64_t v : c.S1(alphabet(f, 2))) one<P>(c, f, v); });
    if (f.N <= 24 || (f.N == 32 && f.spec == S_NAN && f.es == 2 && Tr<P>::TB == 32)) add(name + " all", 64, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); }, true);
  }
}
static RegisterAll r_;
