// C12: fused multiply-add, dot product, compound assignment, chained histories
#include "cfg.hpp"
#include "sum.hpp"
#include <list>
using namespace mc;
template <class P> static inline void fused(Ctx &c, const Fmt &f, int64_t a, int64_t b, int64_t d, const P &p, const P &q, const Num &pr) {
  c.at(a, b, d); int k;
  P r = mkp<P>(d); Num o = decode(f, d);
  MC_OP(c, "fma"); int64_t g = fma(p, q, r).v; c.hit(g);
  bool ok = oksum(f, pr, o, Tr<P>::W, g, &k);
  MC_CK(c, "fma", ok, "fma(%lld,%lld,%lld): got %lld, exact value truncates to %lld (%s)", (long long)a, (long long)b, (long long)d, (long long)g, (long long)encode(f, add(strip(pr), o)), k ? "beyond the working precision" : "fits the working precision");
}
template <class P> static void triples(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B, const std::vector<int64_t> &C) {
  const Fmt f = Tr<P>::f();
  for (int64_t a : c.S1(A)) { P p = mkp<P>(a); Num n = decode(f, a);
    for (int64_t b : c.S2(B)) { P q = mkp<P>(b); Num pr = mul(n, decode(f, b)); for (int64_t d : c.S3(C)) fused<P>(c, f, a, b, d, p, q, pr); } }
}
// addends that nearly cancel the product, and those that dominate it or vanish beside it
template <class P> static void cancel(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B) {
  const Fmt f = Tr<P>::f();
  for (int64_t a : c.S1(A)) { P p = mkp<P>(a); Num n = decode(f, a);
    for (int64_t b : c.S2(B)) { P q = mkp<P>(b); Num pr = mul(n, decode(f, b)); for (int64_t d : c.S3(relatives(f, encode(f, pr)))) fused<P>(c, f, a, b, d, p, q, pr); } }
}
template <class P> static void compound(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B) {
  const Fmt f = Tr<P>::f(); (void)f;
  for (int64_t a : c.S1(A)) {
    P p = mkp<P>(a);
    for (int64_t b : c.S2(B)) {
      c.at(a, b); P q = mkp<P>(b); const long long X = a, Y = b;
      int64_t s = (p + q).v, m = P(p * q).v, d = (p / q).v;
      { P x = p; MC_OP(c, "+="); P &r = (x += q); MC_CK(c, "+=", x.v == s && &r == &x && q.v == b, "%lld += %lld: got %lld, sum is %lld", X, Y, (long long)x.v, (long long)s); }
      { P x = p; MC_OP(c, "*="); P &r = (x *= q); MC_CK(c, "*=", x.v == m && &r == &x && q.v == b, "%lld *= %lld: got %lld, product is %lld", X, Y, (long long)x.v, (long long)m); }
      { P x = p; MC_OP(c, "/="); P &r = (x /= q); MC_CK(c, "/=", x.v == d && &r == &x && q.v == b, "%lld /= %lld: got %lld, quotient is %lld", X, Y, (long long)x.v, (long long)d); }
      MC_OP(c, "operands unchanged"); MC_CK(c, "operands unchanged", p.v == a && q.v == b, "%lld %lld", X, Y);
    }
    c.at(a, a);
    { P x = p; x += x; MC_CK(c, "x+=x", x.v == (p + p).v, "pattern %lld: got %lld", (long long)a, (long long)x.v); }
    { P x = p; x *= x; MC_CK(c, "x*=x", x.v == P(p * p).v, "pattern %lld: got %lld", (long long)a, (long long)x.v); }
    { P x = p; x /= x; MC_CK(c, "x/=x", x.v == (p / p).v, "pattern %lld: got %lld", (long long)a, (long long)x.v); }
  }
}
// accumulator histories: all sequences of two chained compound operations
template <class P> static void chains(Ctx &c, const std::vector<int64_t> &A) {
  for (int64_t a : c.S1(A)) for (int64_t b : c.S2(A)) for (int64_t d : c.S3(A)) {
    c.at(a, b, d); P p = mkp<P>(a), q = mkp<P>(b), r = mkp<P>(d);
    P x = p; MC_OP(c, "+= then *="); (x += q) *= r; int64_t e = P((p + q) * r).v; MC_CK(c, "+= then *=", x.v == e, "%lld,%lld,%lld: got %lld expected %lld", (long long)a, (long long)b, (long long)d, (long long)x.v, (long long)e);
    x = p; MC_OP(c, "*= then +="); (x *= q) += r; { P t = p * q; e = (t + r).v; } MC_CK(c, "*= then +=", x.v == e, "%lld,%lld,%lld: got %lld expected %lld", (long long)a, (long long)b, (long long)d, (long long)x.v, (long long)e);
    x = p; MC_OP(c, "/= then +="); (x /= q) += r; e = ((p / q) + r).v; MC_CK(c, "/= then +=", x.v == e, "%lld,%lld,%lld: got %lld expected %lld", (long long)a, (long long)b, (long long)d, (long long)x.v, (long long)e);
    x = p; MC_OP(c, "*= then /="); (x *= q) /= r; { P t = p * q; e = (t / r).v; } MC_CK(c, "*= then /=", x.v == e, "%lld,%lld,%lld: got %lld expected %lld", (long long)a, (long long)b, (long long)d, (long long)x.v, (long long)e);
  }
}
// dot product histories: all vectors of a length over an alphabet, indexed by one number.
// While the accumulator can hold everything the result is the exact dot product truncated once.
template <class P> static void dots(Ctx &c, int len, const std::vector<int64_t> &A) {
  const Fmt f = Tr<P>::f(); const int W = Tr<P>::W;
  int64_t total = 1; for (int i = 0; i < 2 * len; i++) total *= (int64_t)A.size();
  c.range(0, total - 1, [&](int64_t h) {
    P u[8], w[8]; int64_t t = h; c.at(h);
    Num s = mk(ZERO); long hi = -100000, lo = 100000; bool spec = false, zero = false;
    Num part = mk(ZERO); (void)zero;
    for (int i = 0; i < len; i++) {
      u[i] = mkp<P>(A[t % A.size()]); t /= A.size(); w[i] = mkp<P>(A[t % A.size()]); t /= A.size();
      Num pr = strip(mul(decode(f, u[i].v), decode(f, w[i].v)));
      if (pr.c == REG) { hi = std::max(hi, scale(pr)); lo = std::min(lo, pr.e); } else if (pr.c != ZERO) spec = true;
      s = strip(add(s, pr));
    }
    (void)part; (void)spec;
    if (!spec && hi > lo && hi + 3 - lo > W - 3) { c.skipped++; return; }
    MC_OP(c, "dot"); int64_t g = P::dot(u, w, len).v, e = encode(f, s);
    MC_CK(c, "dot", g == e, "history %lld of length %d (first terms %lld*%lld, %lld*%lld): got %lld expected %lld", (long long)h, len, (long long)u[0].v, (long long)w[0].v, (long long)u[1].v, (long long)w[1].v, (long long)g, (long long)e);
    c.hit(g);
  });
}
// long histories: L terms, all equal to a filler except two at every pair of positions
template <class P> static void longdots(Ctx &c, int maxlen, const std::vector<int64_t> &A, const std::vector<int64_t> &Z) {
  const Fmt f = Tr<P>::f(); const int W = Tr<P>::W;
  const int64_t nv = (int64_t)A.size() * A.size() * Z.size(), one = (int64_t)1 << (f.N - 2);
  c.range(0, (int64_t)maxlen * maxlen * maxlen * nv - 1, [&](int64_t h) {
    int64_t t = h; const int64_t x = A[t % A.size()]; t /= A.size(); const int64_t y = A[t % A.size()]; t /= A.size(); const int64_t z = Z[t % Z.size()]; t /= Z.size();
    const int i = t % maxlen; t /= maxlen; const int j = t % maxlen; t /= maxlen; const int L = (int)t + 1;
    if (i >= L || j >= L || (i == j && x != y)) return;
    c.at(h);
    std::vector<P> u(L, mkp<P>(z)), w(L, mkp<P>(one));
    u[i] = mkp<P>(x); w[j] = mkp<P>(y); if (i != j) u[j] = mkp<P>(one);
    Num s = mk(ZERO); long hi = -100000, lo = 100000; bool spec = false; int lg = 0; while ((1 << lg) < L) lg++;
    for (int k = 0; k < L; k++) {
      Num pr = strip(mul(decode(f, u[k].v), decode(f, w[k].v)));
      if (pr.c == REG) { hi = std::max(hi, scale(pr)); lo = std::min(lo, pr.e); } else if (pr.c != ZERO) spec = true;
      s = strip(add(s, pr));
    }
    if (!spec && hi > lo && hi + lg - lo > W - 3) { c.skipped++; return; }
    MC_OP(c, "dot long"); int64_t g = P::dot(u.begin(), w.begin(), L).v, e = encode(f, s); c.hit(g);
    MC_CK(c, "dot long", g == e, "length %d, filler %lld*1, term %d is %lld, term %d is %lld: got %lld expected %lld", L, (long long)z, i, (long long)x, j, (long long)y, (long long)g, (long long)e);
  });
}
template <class P> static void dotmisc(Ctx &c) {
  const Fmt f = Tr<P>::f();
  for (int64_t a : c.S1(fullset(f))) {
    c.at(a); P p = mkp<P>(a); P u[3] = {p, P::one(), p}, w[3] = {P::one(), p, p};
    MC_OP(c, "dot empty"); MC_CK(c, "dot empty", P::dot(u, w, 0).v == 0 && P::dot(u, w, -1).v == 0, "pattern %lld", (long long)a);
    MC_OP(c, "dot one"); MC_CK(c, "dot one", P::dot(u, w, 1).v == a && P::dot(u + 2, w + 2, 1).v == P(p * p).v, "pattern %lld", (long long)a);
    MC_OP(c, "dot two"); MC_CK(c, "dot two", P::dot(u, w, 2).v == (p + p).v, "pattern %lld", (long long)a);
    std::vector<P> v1(u, u + 3), v2(w, w + 3); MC_OP(c, "dot iterators"); MC_CK(c, "dot iterators", P::dot(v1.begin(), v2.begin(), 3).v == P::dot(u, w, 3).v, "pattern %lld", (long long)a);
    std::list<P> l1(u, u + 3); MC_OP(c, "dot list"); MC_CK(c, "dot list", P::dot(l1.begin(), v2.cbegin(), 3).v == P::dot(u, w, 3).v, "pattern %lld", (long long)a);
    double du[2] = {(double)p, 1}, dw[2] = {1, 0}; if (P(du[0]).v == a && decode(f, a).c != INF && decode(f, a).c != NAN_) { MC_OP(c, "dot doubles"); MC_CK(c, "dot doubles", P::dot(du, dw, 2).v == a, "pattern %lld", (long long)a); }
    int iu[2] = {(int)(a % 5), 1}, iw[2] = {1, (int)(a % 3)}; MC_OP(c, "dot ints"); int64_t g = P::dot(iu, iw, 2).v, e = P(u[0]).v; (void)e; P q[2] = {P(iu[0]), P(1)}, r[2] = {P(1), P(iw[1])}; MC_CK(c, "dot ints", g == P::dot(q, r, 2).v, "pattern %lld", (long long)a);
  }
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  if (f.N <= 32) add(name + " fma", group == 0 && f.N <= 6 ? 1 : 4, [f, group](Ctx &c) {
    if (f.N <= (c.thorough ? 8 : 6)) { triples<P>(c, fullset(f), fullset(f), fullset(f)); return; }
    if (group == 0) { auto s = alphabet(f, c.thorough ? 0 : -1); triples<P>(c, fullset(f), s, f.N <= 7 || c.thorough ? fullset(f) : s); return; }
    std::vector<int64_t> s = alphabet(f, -1);
    // a thinner alphabet for triples: extremes, around one, a few regimes
    std::vector<int64_t> t; const size_t want = c.thorough ? 300 : 100;
    for (size_t i = 0; i < s.size(); i++) if (i < 6 || i + 6 > s.size() || i * want / s.size() != (i + 1) * want / s.size()) t.push_back(s[i]);
    for (int d = -2; d <= 2; d++) { t.push_back(((int64_t)1 << (f.N - 2)) + d); t.push_back(-(((int64_t)1 << (f.N - 2)) + d)); }
    triples<P>(c, t, t, t);
  });
  if (f.N <= 32 && f.N > 6) add(name + " fma cancellation", 4, [f](Ctx &c) {
    auto s = lattice(f, c.thorough ? 1024 : 96), t = alphabet(f, -1); const size_t want = c.thorough ? 200 : 60;
    for (size_t i = 0; i < t.size(); i++) if (i * want / t.size() != (i + 1) * want / t.size()) s.push_back(t[i]);
    cancel<P>(c, s, s);
  });
  add(name + " compound", group ? 2 : 1, [f](Ctx &c) {
    if (f.N <= 8) compound<P>(c, fullset(f), fullset(f)); else { auto s = alphabet(f, -1); compound<P>(c, s, s); }
  });
  if (f.N <= 5) add(name + " chains", 1, [f](Ctx &c) { chains<P>(c, fullset(f)); });
  if (f.N <= 10) add(name + " dot misc", 1, [](Ctx &c) { dotmisc<P>(c); });
}
static RegisterAll r_;
// accumulators that hold every dot product of these formats exactly
template <class P> static void regdot(const std::string &name) {
  const Fmt f = Tr<P>::f();
  const int64_t o = (int64_t)1 << (f.N - 2), t = maxpos(f);
  std::vector<int64_t> a4{0, 1, -1, o, -o, o + 1, -(o + 1), t, -t, o - 1, o / 2 + 1, -(o / 2)}, a3 = a4, a2 = fullset(f);
  a4.resize(f.spec == S_NAN ? 7 : 5);
  if (f.spec == S_NANINF) { a3.push_back(top(f)); a3.push_back(t + 1); a3.push_back(-(t + 1)); }
  else a3.push_back(top(f));
  if (f.N > 10) a2 = alphabet(f, 0);
  add(name + " dot 1", 1, [a2](Ctx &c) { dots<P>(c, 1, a2); });
  if (f.N <= 6) add(name + " dot 2", 4, [a2](Ctx &c) { dots<P>(c, 2, a2); }, f.N > 5);
  else add(name + " dot 2", 1, [f](Ctx &c) { std::vector<int64_t> s, al = alphabet(f, -1); for (size_t i = 0; i < al.size(); i += (al.size() + 21) / 22) s.push_back(al[i]); dots<P>(c, 2, s); });
  add(name + " dot 3", 8, [a3](Ctx &c) { auto a = a3; if (!c.thorough) a.erase(a.begin() + 8, a.begin() + 12); dots<P>(c, 3, a); });
  add(name + " dot 4", 8, [a4](Ctx &c) { auto a = a4; if (!c.thorough) a.resize(5); dots<P>(c, 4, a); });
  std::vector<int64_t> al(a4.begin(), a4.begin() + 5), az{0, 1, -o, o + 1}; al.push_back(t); al.push_back(-t);
  if (f.spec == S_NANINF) al.push_back(t + 1); al.push_back(top(f));
  add(name + " dot long", 8, [al, az](Ctx &c) { longdots<P>(c, c.thorough ? 68 : 18, al, az); });
  add(name + " dot 5", 32, [a4](Ctx &c) { auto a = a4; a.resize(5); dots<P>(c, 5, a); }, true);
}
namespace {
struct RD { RD() {
#define D_(k, T, N, es, FT, S) if (k % NSHARD == SHARD) regdot<Posit<T, N, es, FT, PositSpec::S>>("Posit<" #T "," #N "," #es "," #FT "," #S ">");
#if (SHARD == 0 || SHARD == 1) && !defined(GRID)
#define D(k, T, N, es, FT) D_(k, T, N, es, FT, WithNan) D_(k, T, N, es, FT, WithInf) D_(k, T, N, es, FT, WithNanInf)
  D(0, int8_t, 8, 0, uint32_t) D(0, int8_t, 8, 1, uint64_t) D(0, int8_t, 5, 0, uint32_t) D(1, int8_t, 5, 1, uint64_t) D(1, int8_t, 6, 1, uint64_t) D(1, int16_t, 12, 0, uint64_t) D(1, int16_t, 10, 0, uint64_t) D(1, int32_t, 14, 0, uint64_t)
#endif
} } rd_;
}
