// C08: negation, absolute value and adjacency are exact symmetries; every result stays in the format
#include "cfg.hpp"
using namespace mc;
template <class P> static void one(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v);
  const bool ui = f.spec == S_INF;
  P p = mkp<P>(v); Num n = decode(f, v); const long long V = v; int64_t g, e;
  e = encode(f, neg(n, ui));
  MC_OP(c, "negate"); g = (-p).v; MC_CK(c, "negate", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  MC_OP(c, "neg member"); g = p.neg().v; MC_CK(c, "neg member", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  MC_OP(c, "neg function"); g = neg(p).v; MC_CK(c, "neg function", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  MC_OP(c, "negate twice"); g = (-(-p)).v; MC_CK(c, "negate twice", g == v, "pattern %lld: got %lld", V, (long long)g);
  Num an = n; if (!(n.c == INF && ui)) an.neg = false;
  e = encode(f, an);
  MC_OP(c, "abs"); g = p.abs().v; MC_CK(c, "abs", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  MC_OP(c, "std::abs"); g = std::abs(p).v; MC_CK(c, "std::abs", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  MC_OP(c, "abs even"); g = (-p).abs().v; MC_CK(c, "abs even", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  // neighbours: exactly one step in value, nothing in between, ends stay
  const bool fin = n.c == ZERO || n.c == REG;
  MC_OP(c, "next"); g = p.next().v; e = fin && v != maxpos(f) ? v + 1 : v; MC_CK(c, "next", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  if (fin && v != maxpos(f)) { MC_CK(c, "next above", cmpval(n, decode(f, g)) < 0, "pattern %lld next %lld", V, (long long)g); MC_OP(c, "next prev"); int64_t h = mkp<P>(g).prev().v; MC_CK(c, "next prev", h == v, "pattern %lld next %lld prev %lld", V, (long long)g, (long long)h); }
  MC_OP(c, "prev"); g = p.prev().v; e = fin && v != -maxpos(f) ? v - 1 : v; MC_CK(c, "prev", g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e);
  if (fin) { MC_OP(c, "prev mirror"); int64_t h = (-((-p).next())).v; MC_CK(c, "prev mirror", h == g, "pattern %lld: prev %lld, -next(-x) %lld", V, (long long)g, (long long)h); }
  // odd symmetry of the unary arithmetic
  if (fin) {
    P m = mkp<P>(-v);
    MC_OP(c, "half odd"); MC_CK(c, "half odd", m.half().v == -p.half().v, "pattern %lld", V);
    MC_OP(c, "twice odd"); MC_CK(c, "twice odd", m.twice().v == -p.twice().v, "pattern %lld", V);
    if (n.c == REG) { MC_OP(c, "inv odd"); MC_CK(c, "inv odd", m.inv().v == -p.inv().v, "pattern %lld", V); }
    double a = (double)p, b = (double)m; MC_OP(c, "double odd"); bool ty; encodef(F64, n, &ty); if (!ty) MC_CK(c, "double odd", a == -b, "pattern %lld: %g %g", V, a, b);
    float x = (float)p, y = (float)m; MC_OP(c, "float odd"); encodef(F32, n, &ty); if (!ty) MC_CK(c, "float odd", x == -y, "pattern %lld: %g %g", V, x, y);
    g = P(-a).v; e = P(a).v; MC_OP(c, "from double odd"); MC_CK(c, "from double odd", g == -e, "pattern %lld: %lld %lld", V, (long long)g, (long long)e);
    int i = (int)p, j = (int)m; if (i != 2147483647 && i != (-2147483647 - 1)) { MC_OP(c, "int odd"); MC_CK(c, "int odd", i == -j, "pattern %lld: %d %d", V, i, j); }
  }
  // every unary result is a pattern of the format (the unused high storage bits repeat the sign)
  MC_OP(c, "unary canonical");
  int64_t r[] = {(-p).v, p.abs().v, p.next().v, p.prev().v, p.half().v, p.twice().v, p.inv().v, (~p).v, P((float)p).v, P((double)p).v, P((int)p).v, p.pseudosigmoid().v, p.pseudosoftplus().v, P(p.unpack()).v};
  bool ok = true; for (int64_t x : r) ok = ok && canonical(f, x);
  MC_CK(c, "unary canonical", ok, "pattern %lld: some unary result is not an N bit pattern", V);
}
template <class P> static void pairs(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B) {
  const Fmt f = Tr<P>::f();
  for (int64_t a : c.S1(A)) {
    Num n = decode(f, a); if (n.c != REG && n.c != ZERO) continue;
    P p = mkp<P>(a), np = mkp<P>(-a);
    for (int64_t b : c.S2(B)) {
      Num m = decode(f, b); if (m.c != REG && m.c != ZERO) continue;
      c.at(a, b);
      P q = mkp<P>(b), nq = mkp<P>(-b); const long long X = a, Y = b;
      MC_OP(c, "mul sign"); int64_t g = P(p * q).v; MC_CK(c, "mul sign", P(np * nq).v == g && P(np * q).v == -g && P(p * nq).v == -g && canonical(f, g), "patterns %lld %lld", X, Y);
      if (m.c == REG) { MC_OP(c, "div sign"); g = (p / q).v; MC_CK(c, "div sign", (np / nq).v == g && (np / q).v == -g && (p / nq).v == -g && canonical(f, g), "patterns %lld %lld", X, Y); }
      MC_OP(c, "add sign"); g = (p + q).v; MC_CK(c, "add sign", (np + nq).v == -g && canonical(f, g), "patterns %lld %lld", X, Y);
      MC_OP(c, "sub sign"); g = (p - q).v; MC_CK(c, "sub sign", (q - p).v == -g && (p + nq).v == g && (np - nq).v == -g && canonical(f, g), "patterns %lld %lld", X, Y);
      MC_OP(c, "fma sign"); g = fma(p, q, p).v; MC_CK(c, "fma sign", fma(np, nq, p).v == g && fma(np, q, np).v == -g && fma(p, nq, np).v == -g && fma(q, p, p).v == g && canonical(f, g), "patterns %lld %lld", X, Y);
    }
  }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  if (f.N <= 20) add(name, group == 0 ? 1 : f.N > 16 ? 8 : 2, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); });
  else {
    add(name, 2, [f](Ctx &c) { for (int64_t v : c.S1(alphabet(f, 2))) one<P>(c, f, v); });
    if (f.N <= 24 || (f.N == 32 && f.spec == S_NAN && f.es == 2 && Tr<P>::TB == 32)) add(name + " all", 64, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); }, true);
  }
  add(name + " pairs", group ? 4 : 1, [f, group](Ctx &c) {
    if (f.N <= (c.thorough ? 10 : 8)) pairs<P>(c, fullset(f), fullset(f));
    else { auto s = alphabet(f, c.thorough && group != 2 ? 0 : -1); pairs<P>(c, s, s); }
  });
}
static RegisterAll r_;
