// C12, deferred multiplication build (POSITMUL): a*b+c and a*b+-c*d are fused
#include "cfg.hpp"
#include "sum.hpp"
using namespace mc;
template <class P> static void triples(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B, const std::vector<int64_t> &C) {
  const Fmt f = Tr<P>::f(); const int W = Tr<P>::W; int k; const bool ui = f.spec == S_INF;
  for (int64_t a : c.S1(A)) {
    P p = mkp<P>(a); Num n = decode(f, a);
    for (int64_t b : c.S2(B)) {
      P q = mkp<P>(b); Num m = decode(f, b); Num pr = mul(n, m);
      c.at(a, b, 0);
      MC_OP(c, "product"); { P x = p * q; int64_t e = encode(f, pr); MC_CK(c, "product", x.v == e && (p * q).asPosit().v == e, "%lld*%lld: got %lld expected %lld", (long long)a, (long long)b, (long long)x.v, (long long)e);
        P y = p; y *= q; MC_CK(c, "*=", y.v == e, "%lld*=%lld: got %lld expected %lld", (long long)a, (long long)b, (long long)y.v, (long long)e);
        double d = p * q, d2 = x; float g = p * q, g2 = x; int i = p * q, i2 = x; MC_CK(c, "product converted", (d == d2 || (d != d && d2 != d2)) && (g == g2 || (g != g && g2 != g2)) && i == i2, "%lld*%lld: %g %g %d, of the posit product %g %g %d", (long long)a, (long long)b, d, g, i, d2, g2, i2); }
      for (int64_t d : c.S3(C)) {
        c.at(a, b, d);
        P r = mkp<P>(d); Num o = decode(f, d);
        MC_OP(c, "a*b+c"); int64_t g = P(p * q + r).v; MC_CK(c, "a*b+c", oksum(f, pr, o, W, g, &k), "%lld*%lld+%lld: got %lld", (long long)a, (long long)b, (long long)d, (long long)g);
        MC_OP(c, "c+a*b"); int64_t h = P(r + p * q).v; MC_CK(c, "c+a*b", h == g && h == fma(p, q, r).v, "%lld+%lld*%lld: got %lld", (long long)d, (long long)a, (long long)b, (long long)h);
        MC_OP(c, "a*b-c"); { P x = p * q; Num no = neg(o, ui); int64_t l = P(p * q - r).v, l2 = (x - r).v; MC_CK(c, "a*b-c", l == l2 || oksum(f, pr, no, W, l, &k), "%lld*%lld-%lld: got %lld, of the product %lld", (long long)a, (long long)b, (long long)d, (long long)l, (long long)l2);
          MC_OP(c, "c-a*b"); int64_t u = P(r - p * q).v, u2 = (r - x).v; MC_CK(c, "c-a*b", u == u2 || oksum(f, neg(pr, ui), o, W, u, &k), "%lld-%lld*%lld: got %lld, of the product %lld", (long long)d, (long long)a, (long long)b, (long long)u, (long long)u2);
          MC_OP(c, "compared product"); MC_CK(c, "compared product", (p * q < r) == (x < r) && (r <= p * q) == (r <= x) && (p * q == r) == (x == r) && ((p * q) / r).v == (x / r).v, "%lld*%lld ? %lld", (long long)a, (long long)b, (long long)d); }
        Num p2 = mul(m, o);
        MC_OP(c, "a*b+c*d"); g = P(p * q + q * r).v; MC_CK(c, "a*b+c*d", oksum(f, pr, p2, W, g, &k), "%lld*%lld+%lld*%lld: got %lld", (long long)a, (long long)b, (long long)b, (long long)d, (long long)g);
        MC_OP(c, "a*b-c*d"); g = P(p * q - q * r).v; { Num m2 = p2; if (m2.c == REG || m2.c == INF) m2.neg = !m2.neg; (void)ui; if (!(f.spec == S_INF && (pr.c == INF || p2.c == INF))) MC_CK(c, "a*b-c*d", oksum(f, pr, m2, W, g, &k), "%lld*%lld-%lld*%lld: got %lld", (long long)a, (long long)b, (long long)b, (long long)d, (long long)g); }
      }
    }
  }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  if (f.N > 32) return;
  add(name + " deferred", group == 0 ? 1 : 2, [f, group](Ctx &c) {
    if (f.N <= (c.thorough ? 7 : 5)) { triples<P>(c, fullset(f), fullset(f), fullset(f)); return; }
    std::vector<int64_t> s = alphabet(f, -1), t; const size_t want = c.thorough ? 120 : 40;
    for (size_t i = 0; i < s.size(); i++) if (i < 6 || i + 6 > s.size() || i * want / s.size() != (i + 1) * want / s.size()) t.push_back(s[i]);
    for (int d = -1; d <= 1; d++) { t.push_back(((int64_t)1 << (f.N - 2)) + d); t.push_back(-(((int64_t)1 << (f.N - 2)) + d)); }
    triples<P>(c, t, t, t);
  });
}
static RegisterAll r_;
