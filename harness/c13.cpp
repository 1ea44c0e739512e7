// C13: the tabulated posits agree with the exact format on every operand
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
#include "cfg.hpp"
#include <cmath>
#include <sstream>
using namespace mc;
#ifndef CFGNAME // another exponent size and flavour chosen by the build
#define CFGNAME ""
#endif
template <class Q> struct TF { static Fmt f() { Fmt r = {Q::vtotalbits, Q::vesbits, Q::PT::positspec == PositSpec::WithNan ? S_NAN : Q::PT::positspec == PositSpec::WithInf ? S_INF : S_NANINF}; return r; } };
template <class Q> static Q mkq(int64_t v) { return Q(typename Q::DeepInit(), (typename Q::value_t)v); }
// sums are formed with 24 significant bits, rounded to nearest, and then truncated to the format
static bool okadd(const Fmt &f, const Num &a, const Num &b, int64_t g, int W) {
  Num s = add(a, b); int64_t e = encode(f, s);
  if (g == e) return true;
  if (a.c != REG || b.c != REG || s.c == ZERO) return false;
  if (std::max(scale(a), scale(b)) - std::min(a.e, b.e) <= W) return false;
  if (W < 20 && a.neg == b.neg) return false; // posit12 adds with the generic code: same sign truncates exactly
  if (sameval(decode(f, e), s)) return false;
  int64_t up = e > 0 ? e + 1 : e - 1;
  return g == up && (e > 0 ? e : -e) != maxpos(f);
}
// posit12 has no free is_negative
template <class Q> static bool free_negative(const Q &q, bool &r) { r = is_negative(q); return true; }
static bool free_negative(const posit12 &, bool &) { return false; }
template <class Q> static void unary(Ctx &c, int64_t v) {
  typedef typename Q::FPT P;
  const Fmt f = TF<Q>::f();
  c.at(v); Q q = mkq<Q>(v); P p = mkp<P>(v); Num n = decode(f, v); const long long V = v; int64_t g, e;
#define U(NAME, EXPR, WANT) do { MC_OP(c, NAME); g = (EXPR).v; e = (WANT); MC_CK(c, NAME, g == e, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e); } while (0)
  U("inv", q.inv(), encode(f, div(mkv(false, 1, 0), n))); U("inv function", inv(q), e);
  { Num h = n; if (n.c == REG) h.e--; U("half", q.half(), encode(f, h)); U("half function", half(q), e); }
  { Num h = n; if (n.c == REG) h.e++; U("twice", q.twice(), encode(f, h)); U("twice function", twice(q), e); }
  U("square", q.square(), encode(f, mul(n, n))); U("square function", square(q), e);
  U("negate", -q, encode(f, neg(n, f.spec != S_NANINF))); U("neg function", neg(q), e);
  { Num a = n; a.neg = false; /* |inf| is inf */ U("abs", std::abs(q), encode(f, a)); }
  // as other types
  MC_OP(c, "to float"); { float x = (float)q, y = (float)p; MC_CK(c, "to float", fbits(x) == fbits(y) || (x != x && y != y), "pattern %lld: got %g, generic %g", V, x, y);
    if (n.c == REG) MC_CK(c, "float value", sameval(fromf(x), n), "pattern %lld: got %g", V, x); else if (n.c == ZERO) MC_CK(c, "float zero", x == 0, "got %g", x); else if (n.c == INF) MC_CK(c, "float infinity", x == (n.neg ? -INFINITY : INFINITY) || (f.spec == S_INF && x == -INFINITY), "pattern %lld: got %g", V, x); else MC_CK(c, "float nan", x != x, "got %g", x);
    U("through float", Q(x), v); }
  MC_OP(c, "to double"); { double x = (double)q; if (n.c == REG) MC_CK(c, "to double", sameval(fromd(x), n), "pattern %lld: got %g", V, x); else MC_CK(c, "to double special", n.c == ZERO ? x == 0 : n.c == INF ? x == (n.neg ? -INFINITY : INFINITY) || (f.spec == S_INF && x == -INFINITY) : x != x, "pattern %lld: got %g", V, x); U("through double", Q(x), v); }
  MC_OP(c, "to int"); { int64_t i = (int)q; e = toint(n, 32); MC_CK(c, "to int", i == e, "pattern %lld: got %lld expected %lld", V, (long long)i, (long long)e); }
  MC_OP(c, "to posit"); { P r = q; MC_CK(c, "to posit", r.v == v && q.as_posit().v == v && Q(p).v == v, "pattern %lld", V); }
  U("through unpacked", Q(q.unpack()), v); U("through decomposed", Q(q.unpack_low()), v);
  MC_OP(c, "unpack"); MC_CK(c, "unpack", sameval(unum(q.unpack(), f.spec == S_NANINF), n), "pattern %lld", V);
  MC_OP(c, "classify"); MC_CK(c, "classify", q.is_nan() == (n.c == NAN_) && q.is_infinity() == (n.c == INF) && (v == top(f) || q.is_negative() == n.neg), "pattern %lld: nan %d inf %d negative %d", V, q.is_nan(), q.is_infinity(), q.is_negative());
  { bool ng = false; if (free_negative(q, ng)) MC_CK(c, "is_negative", v == top(f) || ng == n.neg, "pattern %lld: %d", V, ng); }
  if (n.c == ZERO || (n.c == REG && !n.neg)) { MC_OP(c, "has_neg_exponent"); MC_CK(c, "has_neg_exponent", q.has_neg_exponent() == (v < (int64_t)1 << (f.N - 2)), "pattern %lld: %d", V, q.has_neg_exponent()); }
  MC_OP(c, "index"); MC_CK(c, "index", q.uu() == ((uint64_t)v & (((uint64_t)1 << f.N) - 1)), "pattern %lld: table index %u", V, q.uu());
  MC_OP(c, "print"); { std::ostringstream o; o << q; std::string w = "posit(" + std::to_string(q.uu()) + ")"; MC_CK(c, "print", o.str() == w, "pattern %lld: %s", V, o.str().c_str()); }
  // 2^x: within float range, truncated result of a function good to 2^-22 (exact for integers)
  if (n.c == ZERO || n.c == REG) {
    long double x = (long double)(double)p;
    if (x >= -120 && x <= 120) {
      long double y = exp2l(x), d = x == floorl(x) ? 0 : y * 2.4e-7L;
      int64_t lo = encode(f, fromd((double)(y - d))), hi = encode(f, fromd((double)(y + d)));
      MC_OP(c, "exp2"); g = q.exp2().v; MC_CK(c, "exp2", g >= lo && g <= hi && exp2(q).v == g, "pattern %lld: got %lld expected %lld..%lld", V, (long long)g, (long long)lo, (long long)hi);
    }
  } else { MC_OP(c, "exp2 exceptional"); g = q.exp2().v; e = n.c == INF && n.neg ? 0 : v; MC_CK(c, "exp2 exceptional", g == e || (f.spec == S_INF && g == 0) /* an unsigned infinity may count as either */, "pattern %lld: got %lld expected %lld", V, (long long)g, (long long)e); }
}
template <class Q> static void pairs(Ctx &c, const std::vector<int64_t> &A, const std::vector<int64_t> &B, int W) {
  const Fmt f = TF<Q>::f();
  for (int64_t a : c.S1(A)) {
    Q p = mkq<Q>(a); Num n = decode(f, a);
    for (int64_t b : c.S2(B)) {
      c.at(a, b); Q q = mkq<Q>(b); Num m = decode(f, b); int64_t g, e; const long long X = a, Y = b;
      MC_OP(c, "mul"); g = (p * q).v; e = encode(f, mul(n, m)); c.hit(g); MC_CK(c, "mul", g == e, "%lld * %lld: got %lld expected %lld", X, Y, (long long)g, (long long)e);
      { Q x = p; x *= q; MC_CK(c, "*=", x.v == g, "%lld *= %lld: got %lld", X, Y, (long long)x.v); }
      MC_OP(c, "div"); g = (p / q).v; e = encode(f, div(n, m)); c.hit(g); MC_CK(c, "div", g == e, "%lld / %lld: got %lld expected %lld", X, Y, (long long)g, (long long)e);
      MC_OP(c, "add"); g = (p + q).v; c.hit(g); MC_CK(c, "add", okadd(f, n, m, g, W), "%lld + %lld: got %lld exact truncates to %lld", X, Y, (long long)g, (long long)encode(f, add(n, m)));
      { Q x = p; x += q; MC_CK(c, "+=", x.v == g, "%lld += %lld: got %lld", X, Y, (long long)x.v); MC_CK(c, "add commutes", (q + p).v == g, "%lld + %lld", X, Y); }
      MC_OP(c, "sub"); Num mm = neg(m, f.spec != S_NANINF); g = (p - q).v; MC_CK(c, "sub", okadd(f, n, mm, g, W), "%lld - %lld: got %lld exact truncates to %lld", X, Y, (long long)g, (long long)encode(f, add(n, mm)));
      { // NaN (or the unsigned infinity) is compared as the posit standard does: equal to itself, below every number
        const bool u = a == top(f), w_ = b == top(f); int r = u || w_ ? (!w_ ? -1 : !u ? 1 : 0) : cmpval(n, m), o = (p == q) | (p != q) << 1 | (p < q) << 2 | (p <= q) << 3 | (p > q) << 4 | (p >= q) << 5, w = r == 0 ? (1 | 8 | 32) : r < 0 ? (2 | 4 | 8) : (2 | 16 | 32);
        MC_CK(c, "compare", o == w, "%lld ? %lld: ==,!=,<,<=,>,>= is %x expected %x", X, Y, o, w);
        MC_CK(c, "min max", std::min(p, q).v == (r <= 0 ? a : b) && std::max(p, q).v == (r >= 0 ? a : b), "%lld %lld", X, Y);
      }
    }
  }
}
template <class Q> static void frominputs(Ctx &c, int what) {
  const Fmt f = TF<Q>::f();
  if (what == 0) for (int64_t b : c.S1(floats(true))) { c.at(b); float x = bitsf(b); int64_t e = encode(f, fromf(x)); MC_OP(c, "from float"); int64_t g = Q(x).v; MC_CK(c, "from float", g == e, "float bits %llx (%g): got %lld expected %lld", (long long)b, x, (long long)g, (long long)e); }
  if (what == 1) for (int64_t b : c.S1(doubles(f, true))) { c.at(b); double x = bitsd(b); int64_t e = encode(f, fromd(x)); MC_OP(c, "from double"); int64_t g = Q(x).v; MC_CK(c, "from double", g == e, "double bits %llx (%g): got %lld expected %lld", (long long)b, x, (long long)g, (long long)e); }
  if (what == 2) c.range(-(1 << 18), 1 << 18, [&](int64_t i) { c.at(i); int64_t e = encode(f, fromi(i)); MC_OP(c, "from int"); int64_t g = Q((int)i).v; MC_CK(c, "from int", g == e, "%lld: got %lld expected %lld", (long long)i, (long long)g, (long long)e); });
  if (what == 3) { std::vector<int64_t> s; for (int k = 0; k < 32; k++) for (int64_t d = -3; d <= 3; d++) { int64_t x = ((int64_t)1 << k) + d; if (x <= INT32_MAX) s.push_back(x); if (-x >= INT32_MIN) s.push_back(-x); }
    for (int64_t i : c.S1(s)) { c.at(i); int64_t e = encode(f, fromi(i)); MC_OP(c, "from int"); int64_t g = Q((int)i).v; MC_CK(c, "from int", g == e, "%lld: got %lld expected %lld", (long long)i, (long long)g, (long long)e); } }
}
template <class Q> static void consts(Ctx &c) {
  const Fmt f = TF<Q>::f(); c.states++; c.at(0);
  typedef std::numeric_limits<Q> L;
#define K(NAME, EXPR, WANT) do { MC_OP(c, NAME); int64_t g_ = (EXPR).v, e_ = (WANT); MC_CK(c, NAME, g_ == e_, "got %lld expected %lld", (long long)g_, (long long)e_); } while (0)
#ifdef WANTMODE
  { const int w = f.N == 8 ? WANT8 : f.N == 10 ? WANT10 : WANT12; MC_CK(c, "chosen format", Q::vesbits == w && Q::PT::positspec == WANTMODE, "exponent size %d chosen, got %d", w, (int)Q::vesbits); }
#endif
  const int64_t o = (int64_t)1 << (f.N - 2);
  K("default", Q(), 0); K("one", Q::one(), o); K("afterone", Q::afterone(), o + 1); K("onehalf", Q::onehalf(), encode(f, mkv(false, 1, -1)));
  K("max", Q::max(), maxpos(f)); K("min", Q::min(), 1); K("nan", Q::nan(), enc_nan(f)); K("pinfinity", Q::pinfinity(), enc_inf(f, false)); K("ninfinity", Q::ninfinity(), enc_inf(f, true));
  K("limits max", L::max(), maxpos(f)); K("limits min", L::min(), 1); K("limits epsilon", L::epsilon(), encode(f, add(decode(f, o + 1), mkv(true, 1, 0))));
}
template <class Q> static void consts2(Ctx &c) { const Fmt f = TF<Q>::f(); c.states++; c.at(0); K("zero", Q::zero(), 0); K("two", Q::two(), encode(f, mkv(false, 1, 1))); }
template <class Q> static void reg(const std::string &n, int W) {
  const Fmt f = TF<Q>::f();
  add(n + " constants", 1, [](Ctx &c) { consts<Q>(c); });
  add(n + " unary", 1, [f](Ctx &c) { for (int64_t v : c.S1(fullset(f))) unary<Q>(c, v); });
  add(n + " pairs", 16, [f, W](Ctx &c) { if (f.N <= 10 || c.thorough) pairs<Q>(c, fullset(f), fullset(f), W); else pairs<Q>(c, fullset(f), alphabet(f, 1), W); });
  add(n + " floats", 1, [](Ctx &c) { frominputs<Q>(c, 0); });
  add(n + " doubles", 1, [](Ctx &c) { frominputs<Q>(c, 1); });
  add(n + " ints", 4, [](Ctx &c) { frominputs<Q>(c, 2); });
  add(n + " big ints", 1, [](Ctx &c) { frominputs<Q>(c, 3); });
}
namespace { struct R { R() {
  const std::string o = CFGNAME; reg<posit8>("posit8" + o, 23); reg<posit10>("posit10" + o, 23); reg<posit12>("posit12" + o, 14);
  add("posit8" + o + " zero two", 1, [](Ctx &c) { consts2<posit8>(c); }); add("posit10" + o + " zero two", 1, [](Ctx &c) { consts2<posit10>(c); });
} } r_; }
