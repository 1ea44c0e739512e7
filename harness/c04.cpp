// C04: multiplication and division are the exact result truncated towards zero
#include "cfg.hpp"
using namespace mc;
template <class P> static inline void muldiv(Ctx &c, const Fmt &f, int64_t a, const P &p, const Num &n, int64_t b) {
  c.at(a, b);
  P q = mkp<P>(b); Num m = decode(f, b);
  MC_OP(c, "mul"); int64_t g = (P(p * q)).v, e = encode(f, mul(n, m)); c.hit(g);
  MC_CK(c, "mul", g == e, "pattern %lld * %lld: got %lld, exact product truncates to %lld", (long long)a, (long long)b, (long long)g, (long long)e);
  MC_OP(c, "div"); g = (P(p / q)).v; e = encode(f, div(n, m)); c.hit(g);
  MC_CK(c, "div", g == e, "pattern %lld / %lld: got %lld, exact quotient truncates to %lld", (long long)a, (long long)b, (long long)g, (long long)e);
}
template <class P> static void pairs(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B) {
  const Fmt f = Tr<P>::f();
  for (int64_t a : c.S1(A)) { P p = mkp<P>(a); Num n = decode(f, a); for (int64_t b : c.S2(B)) muldiv<P>(c, f, a, p, n, b); }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  add(name, group == 0 ? 1 : 8, [group, f](Ctx &c) {
    if (group == 0) pairs<P>(c, fullset(f), fullset(f));
    else if (group == 1 && f.N <= (c.thorough ? 12 : 10)) pairs<P>(c, fullset(f), fullset(f));
    else pairs<P>(c, alphabet(f, c.thorough ? 1 : 0), alphabet(f, c.thorough ? 1 : 0));
  });
  if (f.N > 10) {
    add(name + " lattice", 8, [f](Ctx &c) { auto s = lattice(f, c.thorough ? 8192 : 512); pairs<P>(c, s, s); });
    // every pattern up to 16 bits, boundary patterns and a lattice above, each with its relatives
    add(name + " relatives", 8, [f](Ctx &c) { for (int64_t a : c.S1(f.N <= 16 ? fullset(f) : alphabet(f, 2))) { P p = mkp<P>(a); Num n = decode(f, a); for (int64_t b : c.S2(relatives(f, a))) muldiv<P>(c, f, a, p, n, b); } });
    if (f.N <= 16) add(name + " all pairs", 64, [f](Ctx &c) { pairs<P>(c, fullset(f), fullset(f)); }, true);
  }
}
static RegisterAll r_;
