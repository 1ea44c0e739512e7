// C10: the named constants and numeric_limits are right in every configuration.
// Here the state space is the set of configurations: every (storage, N, es, flavour).
#include "cfg.hpp"
using namespace mc;
#ifndef FULL
#define FULL 0
#endif
template <class P> static void consts(Ctx &c, const Fmt &f) {
  c.at(0); c.states++;
  typedef std::numeric_limits<P> L;
  const Num one = mkv(false, 1, 0);
  const int64_t mx = maxpos(f);
#define K(NAME, EXPR, WANT) do { MC_OP(c, NAME); int64_t g_ = (int64_t)(EXPR).v, e_ = (WANT); MC_CK(c, NAME, g_ == e_, "got pattern %lld expected %lld", (long long)g_, (long long)e_); } while (0)
#define V(NAME, EXPR, WANT) do { MC_OP(c, NAME); long g_ = (long)(EXPR), e_ = (long)(WANT); MC_CK(c, NAME, g_ == e_, "got %ld expected %ld", g_, e_); } while (0)
  const int64_t big = f.spec == S_NANINF ? mx + 1 : top(f), nbig = f.spec == S_NANINF ? -(mx + 1) : top(f);
  K("default", P(), 0); K("zero", P::zero(), 0);
  K("one", P::one(), encode(f, one)); K("mone", P::mone(), encode(f, mkv(true, 1, 0)));
  K("two", P::two(), encode(f, mkv(false, 1, 1))); K("onehalf", P::onehalf(), encode(f, mkv(false, 1, -1)));
  K("max", P::max(), mx); K("min", P::min(), 1); K("lowest", P::lowest(), -mx);
  K("nan", P::nan(), top(f)); K("inf", P::inf(), big); K("pinf", P::pinf(), big); K("ninf", P::ninf(), nbig); K("infinity", P::infinity(), big);
  MC_OP(c, "classes");
  MC_CK(c, "classes", P::nan().isNaN() == (f.spec != S_INF) && P::inf().isinfinity() == (f.spec != S_NAN) && P::ninf().isinfinity() == (f.spec != S_NAN) && P::zero().iszero() && P::one().isone() && !P::mone().isone() && !P::one().isNaN() && !P::max().isNaN() && !P::max().isinfinity() && !P::lowest().isNaN() && !P::lowest().isinfinity() && P::lowest().isnegative() && !P::max().isnegative() && P::one().hasNaN() == (f.spec != S_INF), "classification of a constant");
  // limits
  K("limits min", L::min(), 1); K("limits max", L::max(), mx); K("limits lowest", L::lowest(), -mx);
  K("limits infinity", L::infinity(), big); K("limits quiet_NaN", L::quiet_NaN(), top(f)); K("limits denorm_min", L::denorm_min(), 1);
  { int64_t o = encode(f, one), n = o == mx ? o : o + 1; Num d = add(decode(f, n), mkv(true, 1, 0)); K("limits epsilon", L::epsilon(), encode(f, d)); }
  const long S = (long)1 << f.es;
  if (S * (f.N - 2) <= 2147483647l) { // the exponent limits are ints: nothing is claimed where the scale is not
  V("limits max_exponent", L::max_exponent, S * (f.spec == S_NANINF ? f.N - 3 : f.N - 2));
  V("limits min_exponent", L::min_exponent, -S * (f.N - 2));
  if (f.N > 4 || f.spec != S_NANINF) { // 2^max_exponent really is the largest number
    MC_CK(c, "max value", sameval(decode(f, P::max().v), mkv(false, 1, L::max_exponent)), "max is %s", str(decode(f, P::max().v)).c_str());
  }
  MC_CK(c, "min value", sameval(decode(f, P::min().v), mkv(false, 1, L::min_exponent)), "min is %s", str(decode(f, P::min().v)).c_str());
  }
  V("limits digits10", L::digits10, (f.N - 3) * 3 / 10);
  MC_CK(c, "limits flags", L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::radix == 2 && L::has_quiet_NaN == (f.spec != S_INF) && L::has_infinity == (f.spec != S_NAN) && !L::has_signaling_NaN && !L::has_denorm_loss && !L::is_iec559 && L::is_bounded && !L::is_modulo && !L::traps && !L::tinyness_before, "numeric_limits flags");
  V("total bits", P::vtotalbits, f.N); V("exponent bits", P::vesbits, f.es);
  // the constants as numbers
  MC_OP(c, "constants as int"); MC_CK(c, "constants as int", (int)P::one() == 1 && (int)P::mone() == -1 && (int)P::zero() == 0 && (P::two().v == mx || (int)P::two() == 2) && (int)P::onehalf() == 0, "ints %d %d %d %d", (int)P::one(), (int)P::mone(), (int)P::two(), (int)P::onehalf());
  MC_OP(c, "constants as double"); MC_CK(c, "constants as double", (double)P::one() == 1 && (double)P::mone() == -1 && (double)P::zero() == 0, "one %g mone %g", (double)P::one(), (double)P::mone());
}
namespace {
// enumerate (N, es) for a storage type by template recursion
template <class T, class FT, int N, int es, bool ok> struct One { static void go(const char *) {} };
template <class T, class FT, int N, int es> struct One<T, FT, N, es, true> {
  static void go(const char *t) {
    reg<Posit<T, N, es, FT, PositSpec::WithNan>>(t, "WithNan"); reg<Posit<T, N, es, FT, PositSpec::WithInf>>(t, "WithInf"); reg<Posit<T, N, es, FT, PositSpec::WithNanInf>>(t, "WithNanInf");
  }
  template <class P> static void reg(const char *t, const char *s) {
    const Fmt f = Tr<P>::f();
    add(fmt("Posit<%s,%d,%d,uint%d_t,%s>", t, N, es, (int)(sizeof(FT) * 8), s), 1, [f](Ctx &c) { consts<P>(c, f); });
  }
};
template <class T, class FT, int N, int es, bool end> struct EsLoop { static void go(const char *) {} };
template <class T, class FT, int N, int es> struct EsLoop<T, FT, N, es, true> {
  static void go(const char *t) { One<T, FT, N, es, (N + es) % NSHARD == SHARD>::go(t); EsLoop<T, FT, N, es + 1, (es + 1 <= N - 3 && es + 1 <= (sizeof(T) < 4 ? 9 : FULL ? 7 : 4))>::go(t); }
};
template <class T, class FT, int N, int last, bool end> struct NLoop { static void go(const char *) {} };
template <class T, class FT, int N, int last> struct NLoop<T, FT, N, last, true> {
  static void go(const char *t) { EsLoop<T, FT, N, 0, true>::go(t);
    const bool w = sizeof(T) >= 4 && (N > 16); // long exponents: half the word, one less than all of it, and around the width of an int
    One<T, FT, N, N / 2, w && (N + 1) % NSHARD == SHARD>::go(t); One<T, FT, N, N - 3, w && N - 3 <= 56 && (N + 2) % NSHARD == SHARD>::go(t);
    One<T, FT, N, 26, w && (N > 29) && N / 2 != 26 && (N + 3) % NSHARD == SHARD>::go(t); One<T, FT, N, 40, w && (N > 43) && (N + 4) % NSHARD == SHARD>::go(t);
    NLoop<T, FT, N + 1, last, (N + 1 <= last)>::go(t); }
};
struct R {
  R() {
    NLoop<int8_t, uint8_t, 4, 8, true>::go("int8_t");
    NLoop<int16_t, uint16_t, 4, 16, true>::go("int16_t");
    NLoop<int32_t, uint32_t, 4, 32, true>::go("int32_t");
    NLoop<int64_t, uint64_t, 4, 64, true>::go("int64_t");
  }
} r_;
}
