// C14: conversions between any two float formats at the bit level, and the constants of the formats
#include "c14emu.hpp"
template <int E, int F, class H, bool D> struct Any : any_floattrait<E, F, valuewrap<H>, H, D> { static FFmt f() { return FFmt{E, F, D}; } static const char *name() { static std::string s = "float<" + std::to_string(E) + "," + std::to_string(F) + (D ? ">" : ",no denormals>"); return s.c_str(); } };
#define NAMED(N, T, E, F, D) struct N : T { static FFmt f() { return FFmt{E, F, D}; } static const char *name() { return #T; } };
NAMED(Half, half_trait, 5, 10, true) NAMED(Single, single_trait, 8, 23, true) NAMED(Double, double_trait, 11, 52, true) NAMED(Micro, microfloat_trait, 5, 2, true) NAMED(Alt, half_traitalt, 8, 7, true) NAMED(Brain, bfloat16_trait, 8, 7, false)
typedef Any<4, 3, uint8_t, true> A43; typedef Any<3, 4, uint8_t, false> A34; typedef Any<2, 5, uint8_t, true> A25; typedef Any<6, 1, uint8_t, true> A61;
typedef Any<6, 9, uint16_t, true> A69; typedef Any<9, 6, uint16_t, false> A96; typedef Any<4, 11, uint16_t, true> A411;
typedef Any<9, 22, uint32_t, true> A922; typedef Any<5, 26, uint32_t, true> A526; typedef Any<11, 20, uint32_t, false> A1120; typedef Any<8, 55, uint64_t, true> A855; typedef Any<14, 49, uint64_t, true> A1449;
#define FORMATS(X) X(0, Half) X(1, Single) X(2, Double) X(3, Micro) X(4, Alt) X(5, Brain) X(6, A43) X(7, A34) X(8, A25) X(9, A61) X(10, A69) X(11, A96) X(12, A411) X(13, A922) X(14, A526) X(15, A1120) X(16, A855) X(17, A1449)
template <class S, class D> static void conv() {
  add(std::string("bits of ") + S::name() + " to " + D::name(), 1, [](Ctx &c) { const FFmt s = S::f(), d = D::f(); for (int64_t v : c.S1(fpatterns(s, false))) {
    c.at(v); const Num x = decodef(s, (uint64_t)v); MC_OP(c, "convert"); const uint64_t g = convertfloats<S, D, uint64_t>((typename S::holder_t)v); MC_CK(c, "convert", okf(d, x, g), "bits %llx: got %llx expected %llx", (LL)v, (LL)g, (LL)encodef(d, x));
    if (x.c == REG && sameval(decodef(d, g), x)) { MC_OP(c, "and back"); const uint64_t b = convertfloats<D, S, uint64_t>((typename D::holder_t)g); MC_CK(c, "and back", okf(s, x, b), "bits %llx to %llx came back %llx", (LL)v, (LL)g, (LL)b); } } });
}
template <class S> static void constants() {
  add(std::string("constants of ") + S::name(), 1, [](Ctx &c) {
    const FFmt f = S::f(); c.at(0); const int bias = (1 << (f.eb - 1)) - 1; const Num one = mkv(false, 1, 0);
    auto is = [&](uint64_t b, const Num &n) { return sameval(decodef(f, b), n); };
    MC_CK(c, "layout", S::data_bits == f.eb + f.fb + 1 && S::exponent_bits == f.eb && S::fraction_bits == f.fb && S::exponent_bias == bias && S::exponent_max == 2 * bias && S::exponent_mask == (1u << f.eb) - 1 && (bool)S::with_denorm == f.denorm && (uint64_t)S::signbit == (uint64_t)1 << (f.eb + f.fb), "field sizes");
    MC_CK(c, "one", is(S::one_h, one), "%llx", (LL)S::one_h); MC_CK(c, "two", is(S::two_h, mkv(false, 1, 1)), "%llx", (LL)S::two_h);
    MC_CK(c, "max", is(S::max_h, mkv(false, ((u128)2 << f.fb) - 1, bias - f.fb)), "%llx", (LL)S::max_h); MC_CK(c, "lowest", is(S::lowest_h, mkv(true, ((u128)2 << f.fb) - 1, bias - f.fb)), "%llx", (LL)S::lowest_h);
    MC_CK(c, "min", is(S::min_h, mkv(false, 1, 1 - bias)), "%llx", (LL)S::min_h);
    MC_CK(c, "infinities", is(S::pinfinity_h, mk(INF)) && is(S::ninfinity_h, mk(INF, true)), "%llx %llx", (LL)S::pinfinity_h, (LL)S::ninfinity_h); MC_CK(c, "nan", is(S::nan_h, mk(NAN_)), "%llx", (LL)S::nan_h);
  });
}
template <int E, int F, class H, bool D> static void after(const Any<E, F, H, D> *) {
  typedef Any<E, F, H, D> S; add(std::string("constant after one of ") + S::name(), 1, [](Ctx &c) { c.at(0); MC_CK(c, "after one", sameval(decodef(S::f(), S::afterone_h), mkv(false, ((u128)1 << F) + 1, -F)), "%llx", (LL)S::afterone_h); });
}
static void after(const void *) {}
template <class S> static void row() {
#define X(i, T) conv<S, T>();
  FORMATS(X)
#undef X
  constants<S>(); after((const S *)nullptr);
}
template <class S, class T> static void native(const std::string &n) {
  add("native constants of " + n, 1, [](Ctx &c) { c.at(0); typedef std::numeric_limits<T> L;
    MC_CK(c, "zero and infinities", S::zero == 0 && S::pinfinity == L::infinity() && S::ninfinity == -L::infinity(), "zero, infinities"); });
}
namespace {
template <bool own, class T> struct RowIf { static void go() {} };
template <class T> struct RowIf<true, T> { static void go() { row<T>(); } };
struct R { R() {
#define X(i, T) RowIf<(i % NSHARD == SHARD), T>::go();
  FORMATS(X)
#undef X
#if SHARD == 0
  native<single_trait, float>("float"); native<double_trait, double>("double");
  add("float constants", 1, [](Ctx &c) { c.at(0); MC_CK(c, "epsilon", bitsf(single_trait::epsilon_h) == std::numeric_limits<float>::epsilon() && bitsf(single_trait::denorm_min_h) == std::numeric_limits<float>::denorm_min(), "epsilon, smallest denormal"); });
#endif
} } r_; }
