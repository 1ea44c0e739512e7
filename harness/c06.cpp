// C06: the algebra of the exceptional values
#include "cfg.hpp"
using namespace mc;
template <class P> static void pairs(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B) {
  const Fmt f = Tr<P>::f();
  const bool ui = f.spec == S_INF;
  for (int64_t a : c.S1(A)) {
    P p = mkp<P>(a); Num n = decode(f, a);
    for (int64_t b : c.S2(B)) {
      P q = mkp<P>(b); Num m = decode(f, b);
      for (int sw = 0; sw < 2; sw++) { // both operand orders
        c.at(sw ? b : a, sw ? a : b);
        const P &x = sw ? q : p, &y = sw ? p : q; const Num &s = sw ? m : n, &t = sw ? n : m;
        const long long X = x.v, Y = y.v;
        int64_t g, e;
        const bool special = s.c != REG || t.c != REG;
        // with an exceptional operand the result is fixed; between finite
        // numbers the result is finite and non zero, except x-x and x/0
#define CHK(NAME, EXPR, EXACT)                                                                     \
        MC_OP(c, NAME); g = (EXPR).v; { Num ex = EXACT; e = encode(f, ex);                                  \
          if (special || ex.c != REG) MC_CK(c, NAME, g == e, "pattern %lld, %lld: got %lld expected %lld", X, Y, (long long)g, (long long)e); \
          else MC_CK(c, NAME " finite", canonical(f, g) && decode(f, g).c == REG && decode(f, g).neg == ex.neg, "pattern %lld, %lld: finite operands gave %lld", X, Y, (long long)g); }
        CHK("mul", P(x * y), mul(s, t))
        CHK("div", x / y, div(s, t))
        CHK("add", x + y, add(s, t))
        CHK("sub", x - y, add(s, neg(t, ui)))
        { P z = x; CHK("mul assign", z *= y, mul(s, t)) }
        { P z = x; CHK("div assign", z /= y, div(s, t)) }
        { P z = x; CHK("add assign", z += y, add(s, t)) }
        // fused: special product or special addend
        { Num pr = mul(s, t);
          if (pr.c != REG) {
            MC_OP(c, "fma exceptional product"); 
            for (int k = 0; k < 4; k++) {
              P z = k == 0 ? P::zero() : k == 1 ? P::one() : k == 2 ? P::nan() : P::pinf(); Num zn = decode(f, z.v);
              e = encode(f, add(pr, zn)); g = fma(x, y, z).v;
              MC_CK(c, "fma exceptional product", g == e, "fma(%lld,%lld,%lld): got %lld expected %lld", X, Y, (long long)z.v, (long long)g, (long long)e);
            }
          } else {
            MC_OP(c, "fma exceptional addend");
            for (int k = 2; k < 5; k++) {
              P z = k == 2 ? P::nan() : k == 3 ? P::pinf() : P::ninf(); Num zn = decode(f, z.v);
              e = encode(f, add(pr, zn)); g = fma(x, y, z).v;
              MC_CK(c, "fma exceptional addend", g == e, "fma(%lld,%lld,%lld): got %lld expected %lld", X, Y, (long long)z.v, (long long)g, (long long)e);
            }
          }
        }
        // dot product of two elements
        { Num d = add(mul(s, t), mul(s, t));
          P u[2] = {x, x}, w[2] = {y, y}; 
          if (d.c != REG) { MC_OP(c, "dot"); e = encode(f, d); g = P::dot(u, w, 2).v; MC_CK(c, "dot", g == e, "dot of %lld,%lld twice: got %lld expected %lld", X, Y, (long long)g, (long long)e); }
        }
        if (a == b) break;
      }
    }
  }
}
template <class P> static void one(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v);
  const bool ui = f.spec == S_INF;
  P p = mkp<P>(v); Num n = decode(f, v); const long long V = v; int64_t g;
  MC_OP(c, "neg"); g = (-p).v; MC_CK(c, "neg", n.c == REG ? decode(f, g).c == REG && g != 0 : g == encode(f, neg(n, ui)), "pattern %lld: got %lld", V, (long long)g);
  MC_OP(c, "abs"); g = p.abs().v; MC_CK(c, "abs", n.c == REG ? decode(f, g).c == REG : g == (n.c == INF && n.neg ? encode(f, neg(n, ui)) : v), "pattern %lld: got %lld", V, (long long)g);
  MC_OP(c, "inv"); g = p.inv().v; { Num r = div(mkv(false, 1, 0), n); MC_CK(c, "inv", n.c == REG ? decode(f, g).c == REG : g == encode(f, r), "pattern %lld: got %lld", V, (long long)g); }
  MC_OP(c, "half"); g = p.half().v; MC_CK(c, "half", n.c == REG ? decode(f, g).c == REG : g == v, "pattern %lld: got %lld", V, (long long)g);
  MC_OP(c, "twice"); g = p.twice().v; MC_CK(c, "twice", n.c == REG ? decode(f, g).c == REG : g == v, "pattern %lld: got %lld", V, (long long)g);
  MC_OP(c, "to double"); double d = (double)p;
  MC_CK(c, "to double", n.c == NAN_ ? d != d : n.c == INF ? d == d && d - d != 0 && (ui || (d < 0) == n.neg) : d - d == 0, "pattern %lld: got %g", V, d);
  MC_OP(c, "to float"); float x = (float)p;
  MC_CK(c, "to float", n.c == NAN_ ? x != x : n.c == INF ? x == x && x - x != 0 && (ui || (x < 0) == n.neg) : x - x == 0, "pattern %lld: got %g", V, x);
  if (n.c == NAN_ || n.c == INF) { MC_OP(c, "to int"); int i = (int)p; MC_CK(c, "to int", i == 0, "pattern %lld: got %d", V, i); }
  if (n.c != REG) {
    int64_t w = (P(d)).v; MC_CK(c, "from double", w == v, "pattern %lld: came back %lld", V, (long long)w);
    w = (P(x)).v; MC_CK(c, "from float", w == v, "pattern %lld: came back %lld", V, (long long)w);
  }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  auto all = [f](bool th) { return f.N <= 16 ? fullset(f) : alphabet(f, th ? 2 : 1); };
  add(name + " unary", 1, [f, all](Ctx &c) { for (int64_t v : c.S1(all(c.thorough))) one<P>(c, f, v); });
  // each exceptional value (and 1, -1, the extremes) against every number
  add(name + " special", 2, [f, all](Ctx &c) {
    std::vector<int64_t> sp{0, top(f), top(f) + 1, -(top(f) + 1), maxpos(f), -maxpos(f), 1, -1, (int64_t)1 << (f.N - 2), -((int64_t)1 << (f.N - 2))};
    std::sort(sp.begin(), sp.end()); sp.erase(std::unique(sp.begin(), sp.end()), sp.end());
    pairs<P>(c, all(c.thorough), sp);
  });
  // dot products with the exceptional terms at every position
  add(name + " dot", 1, [f](Ctx &c) {
    const bool th = c.thorough;
    std::vector<int64_t> sp{0, top(f), top(f) + 1, -(top(f) + 1), maxpos(f), 1, (int64_t)1 << (f.N - 2), -((int64_t)1 << (f.N - 2))};
    std::sort(sp.begin(), sp.end()); sp.erase(std::unique(sp.begin(), sp.end()), sp.end());
    std::vector<int64_t> t2; const int64_t K = sp.size();
    for (int64_t i = 0; i < K * K; i++) t2.push_back(i);
    for (int64_t i : c.S1(t2)) for (int64_t j : c.S2(t2)) for (int k = -1; k < (th ? (int)(K * K) : 4); k++) {
      const int64_t tk = k < 0 ? 0 : th ? k : k == 0 ? t2[0] : k == 1 ? K * K - 1 : k == 2 ? j : i;
      const int n = k < 0 ? 2 : 3;
      P u[3] = {mkp<P>(sp[i / K]), mkp<P>(sp[j / K]), mkp<P>(sp[tk / K])}, w[3] = {mkp<P>(sp[i % K]), mkp<P>(sp[j % K]), mkp<P>(sp[tk % K])};
      bool some = false; int cl = 0, sg = 0; // 1 infinite, 2 NaN
      for (int q = 0; q < n; q++) {
        Num m = mul(decode(f, u[q].v), decode(f, w[q].v)); some |= m.c == NAN_ || m.c == INF;
        if (m.c == NAN_) cl = 2; else if (m.c == INF) { const int s = f.spec == S_INF ? 1 : m.neg ? -1 : 1; if (cl == 1 && s != sg) cl = 2; else if (cl == 0) { cl = 1; sg = s; } }
      }
      if (!some) continue;
      c.at(i, j, tk); MC_OP(c, "dot");
      Num ex; ex.c = cl == 2 ? NAN_ : INF; ex.neg = sg < 0;
      const int64_t e = encode(f, ex), g = P::dot(u, w, n).v;
      MC_CK(c, "dot", g == e, "dot of %d terms: %lld*%lld, %lld*%lld, %lld*%lld: got %lld expected %lld", n, (long long)u[0].v, (long long)w[0].v, (long long)u[1].v, (long long)w[1].v, (long long)u[2].v, (long long)w[2].v, (long long)g, (long long)e);
    }
  });
  // no finite operation invents an exceptional value
  add(name + " finite", group ? 4 : 1, [f, group](Ctx &c) {
    if (f.N <= (c.thorough ? 10 : 8)) pairs<P>(c, fullset(f), fullset(f));
    else { auto s = alphabet(f, c.thorough && group != 2 ? 0 : -1); pairs<P>(c, s, s); }
  });
  // exceptional floats
  add(name + " float specials", 1, [f](Ctx &c) {
    std::vector<int64_t> v;
    v.push_back(0); v.push_back(0x80000000ll); v.push_back(0x7f800000); v.push_back(0xff800000ll);
    for (int k = 0; k < 23; k++) { v.push_back(0x7f800000 | (1 << k)); v.push_back(0xff800000ll | (1 << k)); } v.push_back(0x7fffffff); v.push_back(0xffffffffll);
    for (int64_t b : c.S1(v)) { c.at(b); float x = bitsf(b); MC_OP(c, "float"); int64_t e = encode(f, fromf(x)), g = P(x).v; MC_CK(c, "float", g == e, "float bits %llx: got %lld expected %lld", (long long)b, (long long)g, (long long)e); }
  });
  add(name + " double specials", 1, [f](Ctx &c) {
    std::vector<int64_t> v; const uint64_t I = 0x7ffull << 52, S = (uint64_t)1 << 63;
    v.push_back(0); v.push_back((int64_t)S); v.push_back((int64_t)I); v.push_back((int64_t)(I | S));
    for (int k = 0; k < 52; k++) { v.push_back((int64_t)(I | (1ull << k))); v.push_back((int64_t)(I | S | (1ull << k))); } v.push_back(-1); v.push_back((int64_t)~S);
    for (int64_t b : c.S1(v)) { c.at(b); double x = bitsd(b); MC_OP(c, "double"); int64_t e = encode(f, fromd(x)), g = P(x).v; MC_CK(c, "double", g == e, "double bits %llx: got %lld expected %lld", (long long)b, (long long)g, (long long)e); }
  });
}
static RegisterAll r_;
