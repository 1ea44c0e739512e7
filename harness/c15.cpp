// C15: arithmetic on the unpacked form: special values, error bounds, exactness, conversions
#include "cfg.hpp"
#include "floattraits.hpp"
#include <memory>
using namespace mc;
#define LL long long
typedef __int128 s128_;
template <class U> static Num un(const U &u) { Num n = unum(u); if (n.c == REG) while (!(n.m & 1)) { n.m >>= 1; n.e++; } return n; }
// |got| against the exact |E|: returns 0 when got is within 2^(scale-W+3) of E; *above set when it exceeds it
static bool within(const Num &G, const Num &E, int W, bool *above, bool *exact) {
  *above = *exact = false;
  if (G.c != REG || E.c != REG || G.neg != E.neg || E.m == 0) return false;
  long se = scale(E), sg = scale(G);
  if (se - sg > 1 || sg - se > 1) return false;
  int sh = 125 - (bitlen(E.m) - 1); bool lost = E.sticky; u128 X;
  if (sh >= 0) X = E.m << sh; else { X = E.m >> -sh; lost = lost || (X << -sh) != E.m; }
  sh = 125 + (int)(sg - se) - (bitlen(G.m) - 1);
  u128 Y = G.m << sh;
  s128_ d = (s128_)X - (s128_)Y;
  *above = d < 0; *exact = d == 0 && !lost;
  s128_ bound = (s128_)1 << (125 - (W - 3));
  return d >= 0 ? d < bound : -d <= bound;
}
// states are (index of fraction/exponent/sign/class) into a table
template <class FT, class ET> struct Tab { typedef Unpacked<FT, ET> U; std::vector<U> u; std::vector<int64_t> idx; };
template <class FT, class ET> static void fill(Tab<FT, ET> &t, const std::vector<FT> &fr, const std::vector<ET> &ex) {
  typedef Unpacked<FT, ET> U;
  t.u.push_back(U::zero()); t.u.push_back(U::nan()); t.u.push_back(U::pinfinity()); t.u.push_back(U::ninfinity()); t.u.push_back(U::one());
  // the same classes as floats and operations leave them, whatever is in their unused fields
  const float inf = std::numeric_limits<float>::infinity();
  for (float x : {0.0f, inf, -inf, std::numeric_limits<float>::quiet_NaN()}) { t.u.push_back(U(x)); t.u.push_back(U((double)x)); }
  { const U a(5, (FT)((FT)~(FT)0 / 3), true), z = U::zero(), i = U::pinfinity(); t.u.push_back(a - a); t.u.push_back(a * z); t.u.push_back(a * i); t.u.push_back(a / z); t.u.push_back(a / i); t.u.push_back(a + i); t.u.push_back(z / z); t.u.push_back(i - i); }
  for (ET e : ex) for (FT f : fr) for (int s = 0; s < 2; s++) t.u.push_back(U(e, f, s != 0));
  for (size_t i = 0; i < t.u.size(); i++) t.idx.push_back((int64_t)i);
}
template <class FT> static std::vector<FT> fracs(bool lowzero, bool rich) {
  const int W = sizeof(FT) * 8; std::set<FT> s; const FT M = (FT)~(FT)0;
  s.insert(0); s.insert(M); s.insert((FT)1 << (W - 1)); s.insert((FT)(M >> 1)); s.insert((FT)(M / 3)); s.insert((FT)(M / 3 * 2)); s.insert((FT)(M / 5)); s.insert((FT)(M / 7 * 5)); s.insert((FT)1); s.insert((FT)3); s.insert((FT)(M - 1));
  for (int k = 0; k < W; k += rich ? 1 : 5) { s.insert((FT)1 << k); s.insert((FT)(M << k)); s.insert((FT)(M ^ ((FT)1 << k))); s.insert((FT)(((FT)1 << (W - 1)) + ((FT)1 << k))); }
  std::set<FT> r; for (FT f : s) r.insert(lowzero ? (FT)(f & (FT)~(FT)3) : f);
  return std::vector<FT>(r.begin(), r.end());
}
static const char *CN[] = {"regular", "infinity", "nan", "zero"};
#define UDESC(u) CN[(int)(u).type], (int)(u).negativeSign, (LL)(u).exponent, (unsigned LL)(u).fraction
template <class FT, class ET> static void one(Ctx &c, const Tab<FT, ET> &t, int64_t i) {
  typedef Unpacked<FT, ET> U; const int W = sizeof(FT) * 8; (void)W;
  c.at(i); const U a = t.u[i]; Num n = un(a);
  MC_OP(c, "negate"); { U b = -a; Num e = n; if (e.c == REG || e.c == INF) e.neg = !e.neg; MC_CK(c, "negate", sameval(un(b), e), "-(%s %d %lld %llx) is (%s %d %lld %llx)", UDESC(a), UDESC(b)); }
  MC_OP(c, "classify"); MC_CK(c, "classify", a.isZero() + a.isRegular() + a.isNaN() + a.isInfinity() == 1 && a.isPositive() == !a.negativeSign, "(%s %d %lld %llx)", UDESC(a));
  MC_OP(c, "inv"); { U b = a.inv(); Num e = div(mkv(false, 1, 0), n), g = un(b); bool ab = false, ex = false; bool ok = n.c == REG ? within(g, e, W, &ab, &ex) && (a.fraction != 0 || ex) && ((a.fraction & 3) || !ab) : n.c == INF ? g.c == ZERO : g.c == e.c; MC_CK(c, "inv", ok, "1/(%s %d %lld %llx) is (%s %d %lld %llx)", UDESC(a), UDESC(b)); }
  MC_OP(c, "x-x"); { U b = a - a; MC_CK(c, "x-x", n.c == NAN_ || n.c == INF ? b.isNaN() : b.isZero(), "(%s %d %lld %llx) minus itself is (%s %d %lld %llx)", UDESC(a), UDESC(b)); }
  MC_OP(c, "x*1"); { U b = a * U::one(), d = U::one() * a; bool low = a.fraction & 3; MC_CK(c, "x*1", low || (sameval(un(b), n) && sameval(un(d), n)), "(%s %d %lld %llx) times one is (%s %d %lld %llx)", UDESC(a), UDESC(b)); }
  MC_OP(c, "x+0"); { U b = a + U::zero(), d = U::zero() + a, e = a - U::zero(); MC_CK(c, "x+0", sameval(un(b), n) && sameval(un(d), n) && sameval(un(e), n), "(%s %d %lld %llx) plus zero is (%s %d %lld %llx)", UDESC(a), UDESC(b)); }
  // conversions of this value
  Num f = n; // fraction is W bits: conversions truncate it
  MC_OP(c, "to float"); { float g = (float)a; uint32_t gb = fbits(g); bool ty; uint32_t e = (uint32_t)encodef(F32, f, &ty); MC_CK(c, "to float", n.c == NAN_ ? g != g : ty ? (gb & 0x7fffffff) <= 1 : gb == e, "(%s %d %lld %llx) to float %x expected %x", UDESC(a), gb, e);
    U b(g); if (n.c == REG && !ty && (W <= 23 || sameval(fromf(g), n))) MC_CK(c, "float round trip", W > 23 || (a.exponent > -127 && a.exponent < 128) ? !(a.exponent > -127 && a.exponent < 128) || b == a : true, "(%s %d %lld %llx) came back (%s %d %lld %llx)", UDESC(a), UDESC(b)); }
  MC_OP(c, "to double"); { double g = (double)a; uint64_t gb = dbits(g); bool ty; uint64_t e = encodef(F64, f, &ty); MC_CK(c, "to double", n.c == NAN_ ? g != g : ty ? (gb << 1 >> 1) <= 1 : gb == e, "(%s %d %lld %llx) to double %llx expected %llx", UDESC(a), (LL)gb, (LL)e);
    U b(g); if (n.c == REG && sameval(fromd(g), n)) MC_CK(c, "double round trip", b == a, "(%s %d %lld %llx) came back (%s %d %lld %llx)", UDESC(a), UDESC(b)); }
  MC_OP(c, "to int"); { int64_t g = (int)a, e = toint(n, 32); MC_CK(c, "to int", g == e, "(%s %d %lld %llx) to int %lld expected %lld", UDESC(a), (LL)g, (LL)e); }
#define FXU(T, F) { typedef fixedtrait<T, sizeof(T) * 8, F> X; MC_OP(c, "to fixed " #T " " #F); int64_t g = a.template pack_xfixed<X>(), e = toint(n, sizeof(T) * 8, F); MC_CK(c, "to fixed " #T " " #F, g == e, "(%s %d %lld %llx): %lld expected %lld", UDESC(a), (LL)g, (LL)e); }
  FXU(int8_t, 0) FXU(int8_t, 7) FXU(int16_t, 5) FXU(int32_t, 30) FXU(int64_t, 17) FXU(int64_t, 63)
}
template <class FT, class ET> static void two(Ctx &c, const Tab<FT, ET> &t, int64_t i, int64_t j) {
  typedef Unpacked<FT, ET> U; const int W = sizeof(FT) * 8;
  c.at(i, j); const U a = t.u[i], b = t.u[j]; Num n = un(a), m = un(b); bool ab, ex; const bool lowa = a.fraction & 3, lowb = b.fraction & 3;
  MC_OP(c, "equal"); { bool e = n.c != NAN_ && m.c != NAN_ && sameval(n, m); MC_CK(c, "equal", (a == b) == e && (a != b) == !e, "(%s %d %lld %llx) == (%s %d %lld %llx): %d, != %d", UDESC(a), UDESC(b), (int)(a == b), (int)(a != b)); }
  MC_OP(c, "mul"); { U r = a * b, s = b * a; Num g = un(r); bool ok;
    if (n.c == REG && m.c == REG) { ok = within(g, mul(n, m), W, &ab, &ex) && !ab; } else ok = sameval(g, mul(n, m));
    MC_CK(c, "mul", ok, "(%s %d %lld %llx) * (%s %d %lld %llx) is (%s %d %lld %llx)", UDESC(a), UDESC(b), UDESC(r)); MC_CK(c, "mul commutes", sameval(g, un(s)), "(%s %d %lld %llx) * (%s %d %lld %llx)", UDESC(a), UDESC(b)); }
  MC_OP(c, "div"); { U r = a / b; Num g = un(r); bool ok;
    if (n.c == REG && m.c == REG) { Num q = div(n, m); ok = within(g, q, W, &ab, &ex) && (lowb || !ab); } else { Num e = div(n, m); ok = sameval(g, e); }
    MC_CK(c, "div", ok, "(%s %d %lld %llx) / (%s %d %lld %llx) is (%s %d %lld %llx)", UDESC(a), UDESC(b), UDESC(r)); }
  for (int sub = 0; sub < 2; sub++) {
    MC_OP(c, sub ? "sub" : "add"); U r = sub ? a - b : a + b; U s = sub ? -(b - a) : b + a; U k = a; if (sub) k -= b; else k += b;
    Num mm = m; if (sub && (m.c == REG || m.c == INF)) mm.neg = !m.neg;
    Num g = un(r), e = add(n, mm); bool ok;
    if (n.c != REG || m.c != REG) ok = sameval(g, e);
    else { // absolute error below 2^(largest scale - W + 3); exact when everything fits W-2 bits
      long hi = std::max(scale(n), scale(m)), lo = std::min(lowa ? scale(n) - W : scale(n) - W + 2, lowb ? scale(m) - W : scale(m) - W + 2); (void)lo;
      long low = 1l << 62; for (const Num *x : {&n, &m}) { u128 z = x->m; long e0 = x->e; while (!(z & 1)) { z >>= 1; e0++; } low = std::min(low, e0); }
      if (hi - low <= W - 2) ok = sameval(g, e);
      else { Num d = e; // |g - e|
        if (g.c == ZERO) d = e; else { Num ng = g; ng.neg = !g.neg; Num E = e; if (E.c == REG && bitlen(E.m) > 126) { int k2 = bitlen(E.m) - 126; E.m >>= k2; E.e += k2; } 
          if (E.c == ZERO) d = g; else {
            // align both at hi+1 -> bit 124
            auto al = [&](const Num &x) -> s128_ { long sh = x.e - (hi + 1 - 124); u128 v = sh >= 0 ? x.m << sh : -sh >= 128 ? 0 : x.m >> -sh; return x.neg ? -(s128_)v : (s128_)v; };
            s128_ df = al(E) - al(g); if (df < 0) df = -df; ok = df <= ((s128_)1 << (123 - (W - 3))); goto done; } }
        ok = d.c == ZERO || scale(d) < hi - W + 3;
      }
      done:;
      if (ok && n.neg == mm.neg && g.c == REG) { ok = g.neg == n.neg; }
    }
    MC_CK(c, sub ? "sub" : "add", ok, "(%s %d %lld %llx) %c (%s %d %lld %llx) is (%s %d %lld %llx), exact %s", UDESC(a), sub ? '-' : '+', UDESC(b), UDESC(r), str(e).c_str());
    MC_CK(c, sub ? "sub anticommutes" : "add commutes", sameval(un(s), g), "(%s %d %lld %llx), (%s %d %lld %llx)", UDESC(a), UDESC(b));
    MC_CK(c, sub ? "-=" : "+=", sameval(un(k), g), "(%s %d %lld %llx), (%s %d %lld %llx)", UDESC(a), UDESC(b));
  }
}
template <class FT, class ET> static void reg(const std::string &name, bool allfr) {
  const int W = sizeof(FT) * 8;
  auto unaryTab = std::make_shared<Tab<FT, ET>>(), pairTab = std::make_shared<Tab<FT, ET>>(), pairTab2 = std::make_shared<Tab<FT, ET>>();
  std::vector<FT> fr; if (W <= 16) { for (int64_t x = 0; x < (1ll << W); x++) fr.push_back((FT)x); } else fr = fracs<FT>(W == 64, true);
  std::vector<ET> ex; for (int e = -160; e <= 140; e += W <= 8 ? 1 : W == 16 ? 9 : 1) ex.push_back(e);
  for (int e : {-1100, -1075, -1074, -1023, -1022, -1021, 1022, 1023, 1024, -150, -149, -127, -126, -125, 127, 128, -1, 0, 1, 6, 7, 14, 15, 29, 30, 31, 45, 46, 62, 63, 64, -7, -17, -30, -63, -64}) ex.push_back(e);
  std::vector<ET> far; // exponents and distances that do not fit an int
  if (sizeof(ET) == 8) for (int k : {31, 32, 33, 40, 48, 60}) for (int d : {0, 1, 2, W / 2, W - 3, W, 3 * W}) for (int s = 0; s < 4; s++) { const int64_t x = ((int64_t)1 << k) + (s & 1 ? d : -d); far.push_back((ET)(s & 2 ? -x : x)); }
  if (sizeof(ET) == 2) for (int x : {16000, 8191, 4096, 2048}) { far.push_back((ET)x); far.push_back((ET)-x); }
  ex.insert(ex.end(), far.begin(), far.end());
  fill(*unaryTab, fr, ex);
  add(name + " unary", 8, [unaryTab](Ctx &c) { for (int64_t i : c.S1(unaryTab->idx)) one<FT, ET>(c, *unaryTab, i); });
  if (W == 8) { fill(*pairTab, fr, std::vector<ET>{0}); std::vector<ET> d; for (int e : {-40, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 30}) d.push_back(e); d.insert(d.end(), far.begin(), far.end()); fill(*pairTab2, fr, d); }
  else { auto p = fracs<FT>(W == 64, false); std::vector<ET> d0{0, 3}, d; for (int e : {0, 1, 2, 3, 7, W / 2, W / 2 + 1, W - 4, W - 3, W - 2, W - 1, W, W + 1, W + 2, 3 * W}) { d.push_back(e); if (e) d.push_back(-e); } d.insert(d.end(), far.begin(), far.end()); fill(*pairTab, p, d0); fill(*pairTab2, p, d); }
  add(name + " pairs", 16, [pairTab, pairTab2](Ctx &c) {
    Tab<FT, ET> both; both = *pairTab2; // second operand from the wider table; first indexes the same table
    std::vector<int64_t> first; for (size_t i = 0; i < both.u.size(); i++) if (both.u[i].type != 0 || both.u[i].exponent == 0 || both.u[i].exponent == 3) first.push_back((int64_t)i);
    for (int64_t i : c.S1(first)) for (int64_t j : c.S2(both.idx)) two<FT, ET>(c, both, i, j);
  });
}
// floats, halves and integers into the unpacked form
template <class FT, class ET> static void from(const std::string &name) {
  const int W = sizeof(FT) * 8;
  auto trunc = [](const Num &n) { Num r = n; if (r.c == REG) { int d = bitlen(r.m) - 1 - (int)sizeof(FT) * 8; if (d > 0) { r.m >>= d; r.e += d; } } return r; }; (void)W;
  typedef Unpacked<FT, ET> U;
  add(name + " from half", 2, [trunc](Ctx &c) { c.range(0, 65535, [&](int64_t v) { static const FFmt H = {5, 10, true}; c.at(v); MC_OP(c, "from half"); Num n = decodef(H, (uint64_t)v); U u = U::template make_floati<half_trait>((uint16_t)v); MC_CK(c, "from half", sameval(un(u), trunc(n)), "half %llx is (%s %d %lld %llx)", (LL)v, UDESC(u)); if (sizeof(FT) > 1) { uint16_t b = u.template pack_xfloati<half_trait>(); MC_CK(c, "half round trip", n.c == NAN_ ? (b & 0x7fff) > 0x7c00 : n.c == ZERO ? b == 0 : b == v, "half %llx came back %x", (LL)v, b); } }); });
  add(name + " from float", 4, [trunc](Ctx &c) { for (int64_t v : c.S1(floats(true))) { c.at(v); MC_OP(c, "from float"); float x = bitsf(v); U u(x); MC_CK(c, "from float", sameval(un(u), trunc(fromf(x))), "float %llx is (%s %d %lld %llx)", (LL)v, UDESC(u)); U w = U::template make_floati<single_trait>((uint32_t)v), y = U::template make_float<single_trait>(x); MC_CK(c, "from float bits", sameval(un(w), un(u)) && sameval(un(y), un(u)), "float %llx", (LL)v); } });
  add(name + " from double", 4, [trunc](Ctx &c) { Fmt big = {32, 4, 0}; for (int64_t v : c.S1(doubles(big, true))) { c.at(v); MC_OP(c, "from double"); double x = bitsd(v); U u(x); MC_CK(c, "from double", sameval(un(u), trunc(fromd(x))), "double %llx is (%s %d %lld %llx)", (LL)v, UDESC(u)); } });
  add(name + " from int", 4, [trunc](Ctx &c) { std::set<int64_t> s; for (int k = 0; k < 32; k++) for (int64_t d = -300; d <= 300; d++) { int64_t x = ((int64_t)1 << k) + d; if (x <= INT32_MAX) s.insert(x); if (-x >= INT32_MIN) s.insert(-x); } for (int i = -70000; i < 70000; i++) s.insert(i);
    for (int64_t v : c.S1(std::vector<int64_t>(s.begin(), s.end()))) { c.at(v); MC_OP(c, "from int"); U u((int)v); Num n = trunc(fromi(v)); MC_CK(c, "from int", sameval(un(u), n), "%lld is (%s %d %lld %llx)", (LL)v, UDESC(u));
      typedef fixedtrait<int, 32, 13> X; U w = U::template make_fixed<X>((int)v); if (n.c == REG) n.e -= 13; MC_CK(c, "from fixed", sameval(un(w), n), "%lld is (%s %d %lld %llx)", (LL)v, UDESC(w)); } });
  add(name + " all floats", 64, [trunc](Ctx &c) { c.range(0, 0xffffffffll, [&](int64_t v) { c.at(v); float x = bitsf(v); U u(x); Num n = fromf(x); MC_CK(c, "from float", sameval(un(u), trunc(n)), "float %llx", (LL)v); if (sizeof(FT) >= 4) { uint32_t b = u.template pack_xfloati<single_trait>(); MC_CK(c, "float round trip", n.c == NAN_ ? (b & 0x7fffffff) > 0x7f800000 : n.c == ZERO ? b == 0 : b == (uint32_t)v, "float %llx came back %x", (LL)v, b); } }); }, true);
}
namespace { struct R { R() {
#define UNP(F, E, A) reg<F, E>("Unpacked<" #F "," #E ">", A); from<F, E>("Unpacked<" #F "," #E ">");
#if SHARD == 0
  UNP(uint8_t, int, true)
#elif SHARD == 1
  UNP(uint16_t, int, false)
#elif SHARD == 2
  UNP(uint32_t, int, false)
#elif SHARD == 3
  UNP(uint64_t, int, false)
#elif SHARD == 4 // the exponents posits use besides int
  UNP(uint8_t, int16_t, true)
#elif SHARD == 5
  UNP(uint16_t, int16_t, false)
#elif SHARD == 6
  UNP(uint32_t, int64_t, false)
#else
  UNP(uint64_t, int64_t, false)
#endif
} } r_; }
