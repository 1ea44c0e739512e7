// C14: emulated small floats, generic over the format
#pragma once
#include "anyfloat.hpp"
#include "flops.hpp"
#define LL long long
template <class A> static A mka(int64_t v) { return A(typename A::DeepInit(), (typename A::T)v); }
template <class A> static void unary(Ctx &c, const FFmt &F, int64_t v) {
  typedef typename A::FFT I;
  c.at(v); A a = mka<A>(v); Num n = decodef(F, (uint64_t)v); I x = Impl<I>::of(n);
  const uint64_t sg = (uint64_t)1 << (F.eb + F.fb), inf = (((uint64_t)1 << F.eb) - 1) << F.fb;
  const bool nan = ((uint64_t)v & (sg - 1)) > inf;
  MC_OP(c, "to float"); { float g = (float)(const A)a; MC_CK(c, "to float", okf(F32, n, fbits(g)), "bits %llx: got %g", (LL)v, g); }
  MC_OP(c, "to double"); { double g = (double)(const A)a; MC_CK(c, "to double", okf(F64, n, dbits(g)), "bits %llx: got %g", (LL)v, g);
    A b(g); if (!nan) { MC_CK(c, "through double", okf(F, n, b.v), "bits %llx: came back %llx", (LL)v, (LL)b.v); } else MC_CK(c, "nan through double", decodef(F, b.v).c == NAN_, "bits %llx: came back %llx", (LL)v, (LL)b.v); }
  { float g = (float)(const A)a; if (nan || n.c != REG || sameval(fromf(g), n)) { A b(g); MC_OP(c, "through float"); MC_CK(c, "through float", okf(F, n, b.v), "bits %llx: came back %llx", (LL)v, (LL)b.v); } }
  MC_OP(c, "to int"); { int64_t g = (int)(const A)a, e = toint(n, 32), g2 = (int)a; MC_CK(c, "to int", g == e && g2 == e, "bits %llx: got %lld expected %lld", (LL)v, (LL)g, (LL)e); }
  MC_OP(c, "unpack"); { auto u = a.unpack(); Num m = u.isZero() ? mk(ZERO) : u.isNaN() ? mk(NAN_) : u.isInfinity() ? mk(INF, u.negativeSign) : mkv(u.negativeSign, ((u128)1 << (sizeof(u.fraction) * 8)) | u.fraction, (long)u.exponent - (long)sizeof(u.fraction) * 8); MC_CK(c, "unpack", sameval(m, n), "bits %llx: %s is %s", (LL)v, str(m).c_str(), str(n).c_str());
    A b(u); MC_CK(c, "repack", okf(F, n, b.v), "bits %llx: came back %llx", (LL)v, (LL)b.v); }
  MC_OP(c, "neg"); { A b = -a, d = a.neg(); MC_CK(c, "neg", b.v == ((uint64_t)v ^ sg) && d.v == b.v, "bits %llx: %llx", (LL)v, (LL)b.v); }
  MC_OP(c, "abs"); { A b = a.abs(), d = A(std::abs(a)); MC_CK(c, "abs", b.v == ((uint64_t)v & ~sg) && (d.v == b.v || !F.denorm), "bits %llx: %llx", (LL)v, (LL)b.v); } // without denormals std::abs is that of the native type
  MC_CK(c, "isnegative", a.isnegative() == (((uint64_t)v & sg) != 0) && a.iszero() == (v == 0) && a.hasNaN(), "bits %llx", (LL)v);
  Num h = n; if (h.c == REG) h.e--; MC_OP(c, "half"); { A b = a.half(); MC_CK(c, "half", okf(F, h, b.v) || okf(F, narrow((I)(x / 2)), b.v), "bits %llx: %llx", (LL)v, (LL)b.v); }
  MC_OP(c, "twice"); { A b = a.twice(); MC_CK(c, "twice", okf(F, narrow((I)(2 * x)), b.v), "bits %llx: %llx", (LL)v, (LL)b.v); }
  MC_OP(c, "inv"); { A b = a.inv(); MC_CK(c, "inv", okf(F, narrow((I)(1 / x)), b.v), "bits %llx: %llx", (LL)v, (LL)b.v); }
}
template <class A> static void pairs(Ctx &c, const FFmt &F) {
  typedef typename A::FFT I;
  const std::vector<int64_t> s = fpatterns(F, true);
  for (int64_t v : c.S1(s)) {
    const A a = mka<A>(v); I x = Impl<I>::of(decodef(F, (uint64_t)v));
    for (int64_t w : c.S2(s)) {
      c.at(v, w); const A b = mka<A>(w); I y = Impl<I>::of(decodef(F, (uint64_t)w));
#define OP(NAME, EXPR, REF) MC_OP(c, NAME); { A r = EXPR; I e = REF; MC_CK(c, NAME, okf(F, narrow(e), r.v), "%llx, %llx: got %llx, exact %g", (LL)v, (LL)w, (LL)r.v, (double)e); }
      OP("mul", a * b, x * y) OP("div", a / b, x / y) OP("add", a + b, x + y) OP("sub", a - b, x - y)
      { A t = a; t *= b; OP("*=", t, x * y) } { A t = a; t += b; OP("+=", t, x + y) }
      { I p = x * y; volatile I q = p; volatile I z = x, s1 = q + z; I s2 = std::fma(x, y, x); MC_OP(c, "fma"); A r = fma(a, b, a); MC_CK(c, "fma", okf(F, narrow((I)s1), r.v) || okf(F, narrow(s2), r.v), "%llx, %llx: got %llx, exact %g", (LL)v, (LL)w, (LL)r.v, (double)s2); }
      int g = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5, e = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5;
      MC_CK(c, "compare", g == e, "%llx ? %llx: %x expected %x", (LL)v, (LL)w, g, e);
      if (x == x && y == y) { A m = std::min(a, b), M = std::max(a, b); MC_CK(c, "min max", m.v == (x <= y ? a.v : b.v) && M.v == (x >= y ? a.v : b.v), "%llx, %llx", (LL)v, (LL)w); }
    }
  }
}
template <class A> static void inputs(Ctx &c, const FFmt &F, int what) {
  Fmt big = {32, 5, 0};
  if (what == 0) for (int64_t b : c.S1(floats(true))) { c.at(b); float x = bitsf(b); MC_OP(c, "from float"); A g(x); MC_CK(c, "from float", okf(F, fromf(x), g.v), "float bits %llx (%g): got %llx expected %llx", (LL)b, x, (LL)g.v, (LL)encodef(F, fromf(x))); }
  if (what == 1) for (int64_t b : c.S1(doubles(big, c.thorough))) { c.at(b); double x = bitsd(b); MC_OP(c, "from double"); A g(x); MC_CK(c, "from double", okf(F, fromd(x), g.v), "double bits %llx (%g): got %llx expected %llx", (LL)b, x, (LL)g.v, (LL)encodef(F, fromd(x))); }
  if (what == 2) { std::set<int64_t> s; for (int k = 0; k < 32; k++) for (int64_t d = -40; d <= 40; d++) { int64_t x = ((int64_t)1 << k) + d; if (x <= INT32_MAX) s.insert(x); if (-x >= INT32_MIN) s.insert(-x); } for (int i = -70000; i < 70000; i += 1) s.insert(i);
    for (int64_t i : c.S1(std::vector<int64_t>(s.begin(), s.end()))) { c.at(i); MC_OP(c, "from int"); A g((int)i); MC_CK(c, "from int", okf(F, fromi(i), g.v), "%lld: got %llx expected %llx", (LL)i, (LL)g.v, (LL)encodef(F, fromi(i))); } }
}
template <class A> static void consts(Ctx &c, const FFmt &F) {
  c.at(0); c.states++;
  const uint64_t sg = (uint64_t)1 << (F.eb + F.fb), inf = (((uint64_t)1 << F.eb) - 1) << F.fb; const long bias = (1l << (F.eb - 1)) - 1;
#define K(NAME, EXPR, WANT) do { MC_OP(c, NAME); uint64_t g_ = (EXPR).v, e_ = (WANT); MC_CK(c, NAME, g_ == e_, "got %llx expected %llx", (LL)g_, (LL)e_); } while (0)
  K("default", A(), 0); K("zero", A::zero(), 0); K("one", A::one(), encodef(F, mkv(false, 1, 0))); K("two", A::two(), encodef(F, mkv(false, 1, 1)));
  K("max", A::max(), inf - 1); K("lowest", A::lowest(), (inf - 1) | sg); K("min", A::min(), encodef(F, mkv(false, 1, 1 - bias)));
  K("inf", A::inf(), inf); K("pinf", A::pinf(), inf); K("ninf", A::ninf(), inf | sg); K("infinity", A::infinity(), inf);
  MC_CK(c, "nan", decodef(F, A::nan().v).c == NAN_, "got %llx", (LL)A::nan().v);
}
template <class A> static void reg(const std::string &n, FFmt F, bool all = true) {
  add(n + " constants", 1, [F](Ctx &c) { consts<A>(c, F); });
  add(n + " unary", 4, [F](Ctx &c) { for (int64_t v : c.S1(fpatterns(F, false))) unary<A>(c, F, v); });
  add(n + " pairs", 8, [F](Ctx &c) { pairs<A>(c, F); });
  for (int k = 0; k < 3; k++) add(n + (k == 0 ? " floats" : k == 1 ? " doubles" : " ints"), 2, [F, k](Ctx &c) { inputs<A>(c, F, k); });
  if (all && F.eb + F.fb <= 15) add(n + " all floats", 64, [F](Ctx &c) { c.range(0, 0xffffffffll, [&](int64_t b) { c.at(b); float x = bitsf(b); MC_OP(c, "from float"); A g(x); MC_CK(c, "from float", okf(F, fromf(x), g.v), "float bits %llx (%g): got %llx", (LL)b, x, (LL)g.v); }); }, true);
}
