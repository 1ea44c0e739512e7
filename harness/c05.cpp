// C05: addition and subtraction
#include "cfg.hpp"
using namespace mc;
// exact when representable; truncated when the operands have the same sign or the aligned
// operands fit the working fraction; otherwise one of the two adjacent posits
template <class P> static bool okadd(const Fmt &f, const Num &n, const Num &m, int64_t g) {
  Num s = add(n, m); int64_t e = encode(f, s);
  if (g == e) return true;
  if (n.c != REG || m.c != REG || n.neg == m.neg || s.c == ZERO) return false;
  if (sameval(decode(f, e), s)) return false;
  long low = std::min(n.e, m.e), hi = std::max(scale(n), scale(m));
  if (hi - low <= (long)Tr<P>::W - 2) return false;
  int64_t up = e > 0 ? e + 1 : e - 1;
  return g == up && (e > 0 ? e : -e) != maxpos(f);
}
template <class P> static inline void addsub(Ctx &c, const Fmt &f, int64_t a, const P &p, const Num &n, int64_t b) {
  c.at(a, b);
  P q = mkp<P>(b); Num m = decode(f, b);
  MC_OP(c, "add"); int64_t g = (p + q).v; c.hit(g);
  MC_CK(c, "add", okadd<P>(f, n, m, g), "pattern %lld + %lld: got %lld, exact sum truncates to %lld", (long long)a, (long long)b, (long long)g, (long long)encode(f, add(n, m)));
  MC_OP(c, "add commutes"); int64_t h = (q + p).v;
  MC_CK(c, "add commutes", g == h, "pattern %lld + %lld: %lld, swapped %lld", (long long)a, (long long)b, (long long)g, (long long)h);
  Num mm = neg(m, f.spec == S_INF);
  MC_OP(c, "sub"); g = (p - q).v; c.hit(g);
  MC_CK(c, "sub", okadd<P>(f, n, mm, g), "pattern %lld - %lld: got %lld, exact difference truncates to %lld", (long long)a, (long long)b, (long long)g, (long long)encode(f, add(n, mm)));
}
template <class P> static void pairs(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B) {
  const Fmt f = Tr<P>::f();
  for (int64_t a : c.S1(A)) {
    P p = mkp<P>(a); Num n = decode(f, a);
    if (n.c == REG || n.c == ZERO) {
      c.at(a, a);
      MC_OP(c, "x-x"); int64_t g = (p - p).v; MC_CK(c, "x-x", g == 0, "pattern %lld: x-x gives %lld", (long long)a, (long long)g);
      MC_OP(c, "x+0"); g = (p + P::zero()).v; int64_t h = (P::zero() + p).v; MC_CK(c, "x+0", g == a && h == a, "pattern %lld: %lld %lld", (long long)a, (long long)g, (long long)h);
    }
    for (int64_t b : c.S2(B)) addsub<P>(c, f, a, p, n, b);
  }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  add(name, group == 0 ? 1 : 8, [group, f](Ctx &c) {
    if (group == 0) pairs<P>(c, fullset(f), fullset(f));
    else if (group == 1 && f.N <= (c.thorough ? 12 : 10)) pairs<P>(c, fullset(f), fullset(f));
    else pairs<P>(c, alphabet(f, c.thorough ? 1 : 0), alphabet(f, c.thorough ? 1 : f.spec == S_NAN ? 0 : -1));
  });
  if (f.N > 10) {
    add(name + " lattice", 8, [f](Ctx &c) { auto s = lattice(f, c.thorough ? 8192 : 400); pairs<P>(c, s, s); });
    // every pattern up to 16 bits, boundary patterns and a lattice above, each with its relatives
    add(name + " relatives", 8, [f](Ctx &c) { for (int64_t a : c.S1(f.N <= 16 ? fullset(f) : alphabet(f, 2))) { P p = mkp<P>(a); Num n = decode(f, a); for (int64_t b : c.S2(relatives(f, a))) addsub<P>(c, f, a, p, n, b); } });
    if (f.N <= 16) add(name + " all pairs", 64, [f](Ctx &c) { pairs<P>(c, fullset(f), fullset(f)); }, true);
  }
}
static RegisterAll r_;
