// C24: every unpacked value, every decomposed value and every posit of another format with the same
// unpacked type packs into a posit exactly, truncated towards zero
#include "cfg.hpp"
#include <limits>
using namespace mc;
#define LL long long

static std::vector<int64_t> fracset(int W, int weyl) {
  std::set<uint64_t> s;
  const uint64_t M = W == 64 ? ~(uint64_t)0 : ((uint64_t)1 << W) - 1;
  if (W == 8) for (uint64_t i = 0; i <= M; i++) s.insert(i);
  else {
    s.insert(0); s.insert(M); s.insert(M / 3); s.insert(M / 3 * 2);
    for (int i = 0; i < W; i++) {
      const uint64_t b = (uint64_t)1 << i;
      s.insert(b); s.insert(M ^ b); s.insert(b - 1); s.insert(M ^ (b - 1)); s.insert((M ^ (b - 1)) & (M >> 1)); s.insert((b | b >> 1) & M);
    }
    for (int i = 1; i <= weyl; i++) s.insert(((uint64_t)i * 0x9e3779b97f4a7c15ull) >> (64 - W));
  }
  std::vector<int64_t> r; for (uint64_t x : s) r.push_back((int64_t)x);
  return r;
}
template <class ET> static std::vector<int64_t> expset(const Fmt &f) {
  std::set<int64_t> s; const int64_t S = (int64_t)1 << f.es, lo = -S * (f.N - 2), hi = S * (f.N - 2);
  const int64_t emin = std::numeric_limits<ET>::min(), emax = std::numeric_limits<ET>::max();
  auto put = [&](int64_t e) { if (e >= emin && e <= emax) s.insert(e); };
  if (hi - lo <= 600) for (int64_t e = lo - 6; e <= hi + 6; e++) put(e);
  for (int k = -f.N; k <= f.N; k++) for (int d = -2; d <= 2; d++) { put(k * S + d); put(k * S + S / 2 + d); }
  for (int i = 0; i < 41; i++) { const int64_t b = (int64_t)1 << i; put(b); put(-b); put(b - 1); put(1 - b); }
  if (sizeof(ET) < 8) { put(emin); put(emin + 1); put(emax); put(emax - 1); } // wider than the model's exponents otherwise
  return std::vector<int64_t>(s.begin(), s.end());
}

// posits of another format built from P's unpacked value
template <class Q, class P, bool same> struct Into { static void go(Ctx &, const Fmt &, int64_t, int, const P &, const Num &) {} };
template <class Q, class P> struct Into<Q, P, true> {
  static void go(Ctx &c, const Fmt &f, int64_t v, int k, const P &p, const Num &n) {
    const Fmt fq = Tr<Q>::f(); if (c.replay && c.rn > 1 && c.ra[1] != k) return;
    c.at(v, k); MC_OP(c, "into another format"); Q q(p.unpack());
    int64_t g = q.v, e = encode(fq, n), e2 = e; c.hit(g);
    if (n.c == INF && f.spec != S_NANINF) { Num m = n; m.neg = true; e2 = encode(fq, m); } // the sign of an unsigned infinity is not specified
    MC_CK(c, "into another format", g == e || g == e2, "pattern %lld into format %d (%d bits, es %d): got %lld, the value truncates to %lld", (LL)v, k, fq.N, fq.es, (LL)g, (LL)e);
    MC_OP(c, "into another format by conversion"); const typename P::UnpackedT u = p; Q r(u); MC_CK(c, "into another format by conversion", r.v == g, "pattern %lld into format %d: %lld, through unpack %lld", (LL)v, k, (LL)r.v, (LL)g);
    if (n.c == REG && sameval(decode(fq, g), n)) { MC_OP(c, "and back"); int64_t b = P(q.unpack()).v; MC_CK(c, "and back", b == v, "pattern %lld exact in format %d as %lld, back %lld", (LL)v, k, (LL)g, (LL)b); }
  }
};
#define QS(X) X(1, int8_t, 8, 0, uint8_t, WithNan) X(2, int8_t, 5, 2, uint8_t, WithInf) X(3, int16_t, 8, 1, uint8_t, WithNanInf) X(4, int16_t, 7, 2, uint8_t, WithNan) \
  X(5, int16_t, 12, 2, uint16_t, WithNan) X(6, int16_t, 10, 1, uint16_t, WithNanInf) X(7, int8_t, 8, 2, uint16_t, WithInf) \
  X(8, int16_t, 16, 2, uint32_t, WithNan) X(9, int32_t, 15, 2, uint16_t, WithInf) X(10, int32_t, 24, 2, uint32_t, WithNan) X(11, int32_t, 14, 0, uint32_t, WithNanInf) \
  X(12, int32_t, 32, 2, uint32_t, WithNan) X(13, int64_t, 32, 3, uint32_t, WithNanInf) X(14, int32_t, 30, 5, uint32_t, WithInf) \
  X(15, int64_t, 64, 2, uint64_t, WithNan) X(16, int64_t, 40, 3, uint64_t, WithInf) X(17, int64_t, 48, 0, uint64_t, WithNanInf) X(18, int32_t, 32, 4, uint64_t, WithNan) \
  X(19, int32_t, 28, 3, uint64_t, WithNan) X(20, int8_t, 8, 1, uint32_t, WithInf) X(21, int64_t, 8, 4, uint8_t, WithNan) X(22, int8_t, 7, 1, uint64_t, WithNanInf) X(23, int32_t, 16, 1, uint16_t, WithNan)
template <class P> static void into(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v); const P p = mkp<P>(v); const Num n = decode(f, v);
#define X(k, T, N, es, FT, S) { typedef Posit<T, N, es, FT, PositSpec::S> Q; Into<Q, P, std::is_same<typename Q::UnpackedT, typename P::UnpackedT>::value>::go(c, f, v, k, p, n); }
  QS(X)
#undef X
}

template <class P> static void packfull(Ctx &c, const Fmt &f, int64_t e, int64_t fr, int64_t s) {
  typedef typename P::UnpackedT U; enum { W = Tr<P>::W };
  c.at(e, fr, s);
  const Num n = mkv(s != 0, ((u128)1 << W) | (uint64_t)fr, (long)e - W);
  const int64_t x = encode(f, n);
  const U u((decltype(U::exponent))e, (decltype(U::fraction))(uint64_t)fr, s != 0);
  MC_OP(c, "pack unpacked"); int64_t g = P(u).v; c.hit(g);
  MC_CK(c, "pack unpacked", g == x, "exponent %lld fraction %llx sign %d: got %lld, the value truncates to %lld", (LL)e, (unsigned LL)fr, (int)s, (LL)g, (LL)x);
  MC_OP(c, "pack_posit"); g = pack_posit<typename P::value_t, P::vtotalbits, P::vesbits, typename P::fraction_t, P::PT::positspec>(u).v;
  MC_CK(c, "pack_posit", g == x, "exponent %lld fraction %llx sign %d: got %lld, the value truncates to %lld", (LL)e, (unsigned LL)fr, (int)s, (LL)g, (LL)x);
}
template <class P> static void packlow(Ctx &c, const Fmt &f, int64_t ks, int64_t ex, int64_t frac) { // ks: twice the regime, plus one when negative
  typedef typename P::PT PT; typedef typename PT::POSIT_UTYPE UT; enum { TB = Tr<P>::TB };
  c.at(ks, ex, frac);
  const bool s = ks & 1; const int64_t k = ks >> 1; const uint64_t fr = (uint64_t)frac;
  const Num n = mkv(s, ((u128)1 << TB) | fr, (long)k * (1L << f.es) + (long)ex - TB);
  const int64_t x = encode(f, n);
  const typename P::UnpackedLow low(s, (typename PT::POSIT_STYPE)k, (UT)ex, (UT)fr);
  MC_OP(c, "pack decomposed"); int64_t g = P(low).v; c.hit(g);
  MC_CK(c, "pack decomposed", g == x, "regime %lld exponent %lld fraction %llx sign %d: got %lld, the value truncates to %lld", (LL)k, (LL)ex, (unsigned LL)fr, (int)s, (LL)g, (LL)x);
}
template <class P> static void special(Ctx &c, const Fmt &f, int64_t t, int64_t s, int64_t junk) {
  typedef typename P::UnpackedT U; typedef typename P::UnpackedLow L;
  c.at(t, s, junk);
  const typename U::Type ty = t == 0 ? U::Zero : t == 1 ? U::NaN : U::Infinity;
  const int64_t x = t == 0 ? 0 : t == 1 ? enc_nan(f) : enc_inf(f, s != 0);
  U u(ty, s != 0);
  if (junk & 1) u.exponent = (decltype(u.exponent))77; // what an exceptional value carries besides its class does not matter
  if (junk & 2) u.exponent = (decltype(u.exponent))-99;
  if (junk & 4) u.fraction = (decltype(u.fraction))~(uint64_t)0;
  MC_OP(c, "pack special"); int64_t g = P(u).v; MC_CK(c, "pack special", g == x, "class %d sign %d: got %lld expected %lld", (int)t, (int)s, (LL)g, (LL)x);
  L l(ty, s != 0);
  if (junk & 1) l.regime = 1;
  if (junk & 2) l.exp = f.es ? 1 : 0;
  if (junk & 4) l.fraction = (decltype(l.fraction))~(uint64_t)0;
  MC_OP(c, "pack special decomposed"); g = P(l).v; MC_CK(c, "pack special decomposed", g == x, "class %d sign %d: got %lld expected %lld", (int)t, (int)s, (LL)g, (LL)x);
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  typedef decltype(P::UnpackedT::exponent) ET; enum { W = Tr<P>::W, TB = Tr<P>::TB };
  add(name + " unpacked", group == 2 ? 4 : 1, [f](Ctx &c) {
    const auto F = c.thorough && W == 16 && f.N <= 16 ? std::vector<int64_t>() : fracset(W, c.thorough ? 8192 : 256); const std::vector<int64_t> sg = {0, 1};
    for (int64_t e : c.S1(expset<ET>(f))) {
      if (F.empty() && !c.replay) { for (int64_t x = 0; x < 65536; x++) { packfull<P>(c, f, e, x, 0); packfull<P>(c, f, e, x, 1); } }
      else for (int64_t x : c.S2(F)) for (int64_t s : c.S3(sg)) packfull<P>(c, f, e, x, s);
    }
  });
  add(name + " decomposed", group == 2 ? 4 : 1, [f](Ctx &c) {
    std::vector<int64_t> K, E, F; std::set<int64_t> es; const int64_t S = (int64_t)1 << f.es;
    for (int k = -(f.N - 2); k <= f.N - (f.spec == S_NANINF ? 3 : 2); k++) { K.push_back(2 * k); K.push_back(2 * k + 1); }
    if (S <= 64) for (int64_t e = 0; e < S; e++) es.insert(e);
    else { for (int i = 0; i < f.es; i++) { const int64_t b = (int64_t)1 << i; es.insert(b); es.insert(b - 1); es.insert(S - b); es.insert(S - 1 - b); } es.insert(S / 3); es.insert(S / 3 * 2); }
    E.assign(es.begin(), es.end());
    F = fracset(TB, c.thorough ? 4096 : 128);
    for (int64_t k : c.S1(K)) for (int64_t e : c.S2(E)) for (int64_t x : c.S3(F)) packlow<P>(c, f, k, e, x);
  });
  add(name + " special", 1, [f](Ctx &c) { const std::vector<int64_t> t = {0, 1, 2}, s = {0, 1}, j = {0, 1, 2, 3, 4, 5, 6, 7}; for (int64_t a : c.S1(t)) for (int64_t b : c.S2(s)) for (int64_t d : c.S3(j)) special<P>(c, f, a, b, d); });
  add(name + " into other formats", f.N > 16 ? 8 : 1, [f](Ctx &c) { for (int64_t v : c.S1(f.N <= 16 || (c.thorough && f.N <= 24) ? fullset(f) : alphabet(f, 2))) into<P>(c, f, v); });
}
static RegisterAll r_;
