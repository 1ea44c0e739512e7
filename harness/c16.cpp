// C16: posits computed through a native floating type agree with the exact posit arithmetic
#include "cfg.hpp"
#include "positf.h"
#include <cmath>
using namespace mc;
#define LL long long
template <class T, int N, int es, class F, PositSpec S> struct Tr<PositF<T, N, es, F, S>> {
  static Fmt f() { Fmt r = {N, es, S == PositSpec::WithNan ? S_NAN : S == PositSpec::WithInf ? S_INF : S_NANINF}; return r; }
};
// truncated exact result; an inexact difference may also be the neighbour away from zero
static bool okadd(const Fmt &f, const Num &n, const Num &m, int64_t g) {
  Num s = add(n, m); int64_t e = encode(f, s);
  if (g == e) return true;
  if (n.c != REG || m.c != REG || n.neg == m.neg || s.c == ZERO) return false;
  if (sameval(decode(f, e), s)) return false;
  int64_t up = e > 0 ? e + 1 : e - 1;
  return g == up && (e > 0 ? e : -e) != maxpos(f);
}
template <class P> static void one(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v); const P p = mkp<P>(v); Num n = decode(f, v); const LL V = v; int64_t g, e;
#define U_(NAME, EXPR, WANT) MC_OP(c, NAME); g = (EXPR).v; e = (WANT); MC_CK(c, NAME, g == e, "pattern %lld: got %lld expected %lld", V, (LL)g, (LL)e)
  Num h = n; if (n.c == REG) h.e--; U_("half", p.half(), encode(f, h)); h = n; if (n.c == REG) h.e++; U_("twice", p.twice(), encode(f, h));
  Num r = div(mkv(false, 1, 0), n); U_("inv", p.inv(), encode(f, r)); U_("~", ~p, encode(f, r)); U_("inv function", inv(p), encode(f, r));
  U_("negate", -p, encode(f, neg(n, f.spec == S_INF))); U_("neg", p.neg(), encode(f, neg(n, f.spec == S_INF))); U_("neg function", neg(p), encode(f, neg(n, f.spec == S_INF)));
  Num an = n; if (!(n.c == INF && f.spec == S_INF)) an.neg = false; U_("abs", p.abs(), encode(f, an)); U_("std::abs", std::abs(p), encode(f, an));
  const bool fin = n.c == ZERO || n.c == REG; U_("next", p.next(), fin && v != maxpos(f) ? v + 1 : v); U_("prev", p.prev(), fin && v != -maxpos(f) ? v - 1 : v);
  U_("repack", P(p.unpack()), v); U_("through double", P((double)p), v); U_("through low form", P::pack_low(p.unpack_low()), v); U_("through unpacked", P::pack_posit(P::unpack_posit(p)), v);
  MC_OP(c, "unpack"); MC_CK(c, "unpack", sameval(unum(p.unpack(), f.spec != S_INF), n), "pattern %lld: %s is %s", V, str(unum(p.unpack())).c_str(), str(n).c_str());
  MC_OP(c, "to double"); { double d = (double)p; bool ty; uint64_t q = encodef(F64, n, &ty); MC_CK(c, "to double", n.c == NAN_ ? d != d : n.c == INF && f.spec == S_INF ? std::isinf(d) : dbits(d) == q, "pattern %lld: %g", V, d); }
  MC_OP(c, "to float"); { float d = (float)p; bool ty; uint32_t q = (uint32_t)encodef(F32, n, &ty); MC_CK(c, "to float", n.c == NAN_ ? d != d : n.c == INF && f.spec == S_INF ? std::isinf(d) : ty ? (fbits(d) & 0x7fffffff) <= 1 : fbits(d) == q, "pattern %lld: %g", V, d); }
  MC_OP(c, "to int"); g = (int)p; e = toint(n, 32); MC_CK(c, "to int", g == e, "pattern %lld: got %lld expected %lld", V, (LL)g, (LL)e);
  MC_OP(c, "classify"); MC_CK(c, "classify", p.isNaN() == (n.c == NAN_) && p.isinfinity() == (n.c == INF) && p.iszero() == (n.c == ZERO) && p.isnegative() == (v < 0) && p.isone() == (n.c == REG && sameval(n, mkv(false, 1, 0))) && p.hasNaN() == (f.spec != S_INF), "pattern %lld", V);
}
template <class P> static void pairs(Ctx &c, const Fmt &f, const std::vector<int64_t> &A, const std::vector<int64_t> &B) {
  for (int64_t a : c.S1(A)) { const P p = mkp<P>(a); Num n = decode(f, a);
    for (int64_t b : c.S2(B)) { c.at(a, b); const P q = mkp<P>(b); Num m = decode(f, b); int64_t g, e;
      MC_OP(c, "mul"); g = (p * q).v; e = encode(f, mul(n, m)); MC_CK(c, "mul", g == e, "pattern %lld * %lld: got %lld expected %lld", (LL)a, (LL)b, (LL)g, (LL)e); c.hit(g);
      { P t = p; t *= q; MC_CK(c, "*=", t.v == g, "pattern %lld *= %lld: %lld", (LL)a, (LL)b, (LL)t.v); }
      MC_OP(c, "div"); g = (p / q).v; e = encode(f, div(n, m)); MC_CK(c, "div", g == e, "pattern %lld / %lld: got %lld expected %lld", (LL)a, (LL)b, (LL)g, (LL)e);
      MC_OP(c, "add"); g = (p + q).v; MC_CK(c, "add", okadd(f, n, m, g), "pattern %lld + %lld: got %lld, exact sum truncates to %lld", (LL)a, (LL)b, (LL)g, (LL)encode(f, add(n, m)));
      { P t = p; t += q; MC_CK(c, "+=", t.v == g, "pattern %lld += %lld: %lld", (LL)a, (LL)b, (LL)t.v); MC_CK(c, "add commutes", (q + p).v == g, "pattern %lld + %lld", (LL)a, (LL)b); }
      Num mm = neg(m, f.spec == S_INF); MC_OP(c, "sub"); g = (p - q).v; MC_CK(c, "sub", okadd(f, n, mm, g), "pattern %lld - %lld: got %lld", (LL)a, (LL)b, (LL)g);
      MC_OP(c, "fma"); g = fma(p, q, p).v; { Num t = mul(n, m), s = add(t, n); if (f.spec == S_INF && t.c == INF && n.c == INF) s = mk(INF); e = encode(f, s); bool ok = g == e; if (!ok && s.c == REG && !sameval(decode(f, e), s)) ok = g == (e > 0 ? e + 1 : e - 1) && (e > 0 ? e : -e) != maxpos(f);
        MC_CK(c, "fma", ok, "pattern %lld * %lld + %lld: got %lld exact truncates to %lld", (LL)a, (LL)b, (LL)a, (LL)g, (LL)e); }
      MC_OP(c, "compare"); { int k = (p == q) | (p != q) << 1 | (p < q) << 2 | (p <= q) << 3 | (p > q) << 4 | (p >= q) << 5, w = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; MC_CK(c, "compare", k == w, "pattern %lld ? %lld: %x expected %x", (LL)a, (LL)b, k, w); }
      MC_CK(c, "min max", std::min(p, q).v == std::min(a, b) && std::max(p, q).v == std::max(a, b), "patterns %lld %lld", (LL)a, (LL)b);
    } }
}
// fused multiply-add on triples: exact when representable, else one of the two adjacent posits
template <class P> static void triples(Ctx &c, const Fmt &f, const std::vector<int64_t> &A, const std::vector<int64_t> &B, const std::vector<int64_t> &C) {
  for (int64_t a : c.S1(A)) { const P p = mkp<P>(a); Num n = decode(f, a);
    for (int64_t b : c.S2(B)) { const P q = mkp<P>(b); Num t = mul(n, decode(f, b));
      for (int64_t d : c.S3(C)) { c.at(a, b, d); const P r = mkp<P>(d); Num o = decode(f, d), s = add(t, o); if (f.spec == S_INF && t.c == INF && o.c == INF) s = mk(INF);
        MC_OP(c, "fma3"); const int64_t g = fma(p, q, r).v, e = encode(f, s); bool ok = g == e; if (!ok && s.c == REG && !sameval(decode(f, e), s)) ok = g == (e > 0 ? e + 1 : e - 1) && (e > 0 ? e : -e) != maxpos(f);
        MC_CK(c, "fma3", ok, "pattern %lld * %lld + %lld: got %lld exact truncates to %lld", (LL)a, (LL)b, (LL)d, (LL)g, (LL)e); } } }
}
// the reciprocal alone, for every pattern of the wide formats
template <class P> static void recip(Ctx &c, const Fmt &f) {
  c.range(top(f), -top(f) - 1, [&](int64_t v) { c.at(v); MC_OP(c, "inv all"); const P p = mkp<P>(v); const int64_t g = p.inv().v, e = encode(f, div(mkv(false, 1, 0), decode(f, v))); MC_CK(c, "inv all", g == e, "pattern %lld: got %lld expected %lld", (LL)v, (LL)g, (LL)e); });
}
template <class P> static void inputs(Ctx &c, const Fmt &f, int k) {
  if (k == 0) for (int64_t b : c.S1(doubles(f, c.thorough))) { c.at(b); double x = bitsd(b); if (fromd(x).c == REG && !(x == x)) continue; MC_OP(c, "from double"); int64_t g = P(x).v, e = encode(f, fromd(x)); MC_CK(c, "from double", g == e, "double %llx (%g): got %lld expected %lld", (LL)b, x, (LL)g, (LL)e); }
  if (k == 1) for (int64_t b : c.S1(floats(c.thorough))) { c.at(b); float x = bitsf(b); MC_OP(c, "from float"); Num n = fromf(x); if (n.c == INF && f.spec == S_INF) n.neg = false; int64_t g = P(x).v, e = encode(f, n); MC_CK(c, "from float", g == e, "float %llx (%g): got %lld expected %lld", (LL)b, x, (LL)g, (LL)e); }
  if (k == 2) { std::set<int64_t> s; for (int i = 0; i < 32; i++) for (int64_t d = -20; d <= 20; d++) { int64_t x = ((int64_t)1 << i) + d; if (x <= INT32_MAX) s.insert(x); if (-x >= INT32_MIN) s.insert(-x); } for (int i = -5000; i <= 5000; i++) s.insert(i);
    for (int64_t i : c.S1(std::vector<int64_t>(s.begin(), s.end()))) { c.at(i); MC_OP(c, "from int"); int64_t g = P((int)i).v, e = encode(f, fromi(i)); MC_CK(c, "from int", g == e, "%lld: got %lld expected %lld", (LL)i, (LL)g, (LL)e); } }
}
template <class P> static void consts(Ctx &c, const Fmt &f) {
  c.at(0); c.states++; typedef std::numeric_limits<P> L; const int64_t mx = maxpos(f), big = f.spec == S_NANINF ? mx + 1 : top(f), nbig = f.spec == S_NANINF ? -(mx + 1) : top(f);
#define K(NAME, EXPR, WANT) do { MC_OP(c, NAME); int64_t g_ = (int64_t)(EXPR).v, e_ = (WANT); MC_CK(c, NAME, g_ == e_, "got pattern %lld expected %lld", (LL)g_, (LL)e_); } while (0)
  K("zero", P::zero(), 0); K("one", P::one(), encode(f, mkv(false, 1, 0))); K("mone", P::mone(), encode(f, mkv(true, 1, 0))); K("two", P::two(), encode(f, mkv(false, 1, 1))); K("onehalf", P::onehalf(), encode(f, mkv(false, 1, -1)));
  K("max", P::max(), mx); K("min", P::min(), 1); K("lowest", P::lowest(), -mx); K("nan", P::nan(), top(f)); K("inf", P::inf(), big); K("pinf", P::pinf(), big); K("ninf", P::ninf(), nbig); K("infinity", P::infinity(), big);
  K("limits min", L::min(), 1); K("limits max", L::max(), mx); K("limits lowest", L::lowest(), -mx); K("limits infinity", L::infinity(), big); K("limits quiet_NaN", L::quiet_NaN(), top(f)); K("limits denorm_min", L::denorm_min(), 1);
  { int64_t o = encode(f, mkv(false, 1, 0)), n = o == mx ? o : o + 1; K("limits epsilon", L::epsilon(), encode(f, add(decode(f, n), mkv(true, 1, 0)))); }
  MC_CK(c, "limits flags", L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::radix == 2 && L::has_quiet_NaN == (f.spec != S_INF) && L::has_infinity == (f.spec != S_NAN) && !L::has_signaling_NaN && !L::has_denorm_loss && !L::is_iec559 && L::is_bounded && !L::is_modulo && !L::traps && !L::tinyness_before, "numeric_limits flags");
  const long S = (long)1 << f.es; MC_CK(c, "limits exponents", (long)L::max_exponent == S * (f.spec == S_NANINF ? f.N - 3 : f.N - 2) && (long)L::min_exponent == -S * (f.N - 2), "max %ld min %ld", (long)L::max_exponent, (long)L::min_exponent);
}
template <class P> static void reg(const std::string &n) {
  const Fmt f = Tr<P>::f();
  add(n + " constants", 1, [f](Ctx &c) { consts<P>(c, f); });
  add(n + " unary", 2, [f](Ctx &c) { if (f.N <= 16) c.range(top(f), -top(f) - 1, [&](int64_t v) { one<P>(c, f, v); }); else for (int64_t v : c.S1(alphabet(f, 2))) one<P>(c, f, v); });
  if (f.N > 16) add(n + " reciprocals", 16, [f](Ctx &c) { recip<P>(c, f); }, f.spec != S_NAN);
  add(n + " triples", 4, [f](Ctx &c) { if (f.N <= (c.thorough ? 8 : 6)) triples<P>(c, f, fullset(f), fullset(f), fullset(f)); else { std::vector<int64_t> s, al = alphabet(f, -1); const size_t want = c.thorough ? 200 : 70; for (size_t i = 0; i < al.size(); i++) if (i < 4 || i + 4 > al.size() || i * want / al.size() != (i + 1) * want / al.size()) s.push_back(al[i]); for (int d = -2; d <= 2; d++) { s.push_back(((int64_t)1 << (f.N - 2)) + d); s.push_back(-(((int64_t)1 << (f.N - 2)) + d)); } triples<P>(c, f, s, s, s); } });
  add(n + " pairs", f.N <= 8 ? 1 : 8, [f](Ctx &c) { if (f.N <= (c.thorough ? 12 : 10)) pairs<P>(c, f, fullset(f), fullset(f)); else pairs<P>(c, f, alphabet(f, 0), alphabet(f, c.thorough ? 0 : -1)); });
  for (int k = 0; k < 3; k++) add(n + (k == 0 ? " doubles" : k == 1 ? " floats" : " ints"), 1, [f, k](Ctx &c) { inputs<P>(c, f, k); });
}
namespace { struct R {
  template <class T, int N, int es, class F> void three(const std::string &n) { reg<PositF<T, N, es, F, PositSpec::WithNan>>(n + ",WithNan>"); reg<PositF<T, N, es, F, PositSpec::WithInf>>(n + ",WithInf>"); reg<PositF<T, N, es, F, PositSpec::WithNanInf>>(n + ",WithNanInf>"); }
#define Q(T, N, es, F) three<T, N, es, F>("PositF<" #T "," #N "," #es "," #F);
  R() {
#if SHARD == 0
    Q(int8_t, 8, 0, float) Q(int8_t, 8, 0, double) Q(int8_t, 6, 1, float)
#elif SHARD == 1
    Q(int8_t, 8, 2, float) Q(int8_t, 5, 0, float) Q(int16_t, 8, 1, float)
#elif SHARD == 2
    Q(int16_t, 10, 0, float) Q(int16_t, 12, 1, float) Q(int16_t, 12, 2, double)
#elif SHARD == 3
    Q(int16_t, 16, 1, double) Q(int16_t, 16, 2, double) Q(int32_t, 24, 2, double) Q(int32_t, 24, 0, double) Q(int32_t, 20, 1, double)
#endif
  }
} r_; }
