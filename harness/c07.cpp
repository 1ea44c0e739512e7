// C07: comparisons agree with the real values
#include "cfg.hpp"
using namespace mc;
template <class P> static void pairs(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B) {
  const Fmt f = Tr<P>::f();
  for (int64_t a : c.S1(A)) {
    P p = mkp<P>(a); Num n = decode(f, a);
    for (int64_t b : c.S2(B)) {
      c.at(a, b);
      P q = mkp<P>(b); Num m = decode(f, b);
      MC_OP(c, "compare");
      int g = (p == q) | (p != q) << 1 | (p < q) << 2 | (p <= q) << 3 | (p > q) << 4 | (p >= q) << 5;
      if (n.c == NAN_ || m.c == NAN_) { MC_CK(c, "compare nan", g == 2, "pattern %lld ? %lld: ==,!=,<,<=,>,>= is %x, NaN must be unordered", (long long)a, (long long)b, g); continue; }
      // the unsigned infinity has no place in the order: only equality and consistency
      if (f.spec == S_INF && (n.c == INF || m.c == INF)) {
        bool eq = n.c == m.c;
        bool ok = eq ? g == (1 | 8 | 32) : (g == (2 | 4 | 8) || g == (2 | 16 | 32));
        MC_CK(c, "compare unsigned infinity", ok, "pattern %lld ? %lld: ==,!=,<,<=,>,>= is %x", (long long)a, (long long)b, g);
        continue;
      }
      int r = cmpval(n, m), e = r == 0 ? (1 | 8 | 32) : r < 0 ? (2 | 4 | 8) : (2 | 16 | 32);
      MC_CK(c, "compare", g == e, "pattern %lld ? %lld: ==,!=,<,<=,>,>= is %x expected %x", (long long)a, (long long)b, g, e);
      MC_OP(c, "min"); int64_t h = std::min(p, q).v; MC_CK(c, "min", h == (r <= 0 ? a : b), "min(%lld,%lld) is %lld", (long long)a, (long long)b, (long long)h);
      MC_OP(c, "max"); h = std::max(p, q).v; MC_CK(c, "max", h == (r >= 0 ? a : b), "max(%lld,%lld) is %lld", (long long)a, (long long)b, (long long)h);
      // the same order on the values converted to double, where both are exact
      double x = (double)p, y = (double)q;
      if (n.c != INF && m.c != INF && (n.c == ZERO || sameval(fromd(x), n)) && (m.c == ZERO || sameval(fromd(y), m)))
        MC_CK(c, "double order", (x < y) == (p < q) && (x == y) == (p == q) && (x > y) == (p > q), "pattern %lld ? %lld as doubles %g %g", (long long)a, (long long)b, x, y);
    }
  }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  add(name, group == 0 ? 1 : 8, [group](Ctx &c) {
    const Fmt f = Tr<P>::f();
    if (f.N <= (c.thorough ? 12 : 10)) pairs<P>(c, fullset(f), fullset(f));
    else pairs<P>(c, alphabet(f, c.thorough ? 1 : 0), alphabet(f, c.thorough ? 1 : 0));
  });
  if (group && Tr<P>::f().N > 10) add(name + " lattice", 4, [](Ctx &c) { const Fmt f = Tr<P>::f(); auto s = lattice(f, c.thorough ? 4096 : 300); pairs<P>(c, s, s); });
  // adjacent patterns over the whole space
  if (group && Tr<P>::f().N <= 24) add(name + " adjacent", Tr<P>::f().N > 16 ? 16 : 2, [](Ctx &c) {
    const Fmt f = Tr<P>::f();
    c.range(top(f), -top(f) - 2, [&](int64_t v) {
      c.at(v); P p = mkp<P>(v), q = mkp<P>(v + 1); Num n = decode(f, v), m = decode(f, v + 1);
      if (n.c == NAN_ || (n.c == INF && f.spec == S_INF)) return;
      MC_OP(c, "adjacent"); MC_CK(c, "adjacent", cmpval(n, m) < 0 && p < q && !(q < p) && p != q && q > p && p <= q && q >= p && !(p == q) && !(p > q) && !(p >= q) && !(q <= p), "patterns %lld and %lld", (long long)v, (long long)v + 1);
    });
  }, Tr<P>::f().N > 20);
}
static RegisterAll r_;
