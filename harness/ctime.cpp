// C20: one translation unit per (configuration, operation group). The same function is
// evaluated for every operand by the compiler (constexpr tables) and by the program.
// -DCFG='int8_t,6,1,uint8_t,PositSpec::WithNan' -DGROUP=n; -DEVAL= (empty) drops the
// compile-time half, to tell a header that does not build from one that is not constant.
#include "posit.h"
#include <cstdio>
#if GROUP == 5
#include <cmath>
#include "floatconst2bits.hpp"
#endif
#ifndef EVAL
#define EVAL constexpr
#endif
typedef Posit<CFG> P;
constexpr int N = P::vtotalbits;
constexpr bool FULL = N <= FULLBITS;
typedef long long L;
constexpr L TOP = -((L)1 << (N - 1));
constexpr int HALF = FULL ? (1 << (FULL ? N - 1 : 0)) : DENSE ? 3 * N - 2 : N + 1;
constexpr int COUNT = 2 * HALF;
constexpr L mag(int k) { // the k-th explored magnitude, 0 <= k < HALF
  return FULL ? k : DENSE ? (k % 3 == 0 ? ((L)1 << (k / 3)) - 1 : k % 3 == 1 ? ((L)1 << (k / 3)) : ((L)1 << (k / 3)) + (k / 3 > 1)) : k < N - 1 ? ((L)1 << k) : k == N - 1 ? -TOP - 1 : 0;
}
constexpr L pat(int i) { return FULL ? TOP + i : i < HALF ? mag(i) & ~TOP : i == HALF ? TOP : -(mag(i - HALF) & ~TOP); }
constexpr P mk(int i) { return P(P::DeepInit(), (typename P::value_t)pat(i)); }
constexpr L bits(const P &p) { return p.v; }
constexpr bool fin(const P &p) { return !p.isNaN() && !p.isinfinity(); }
#define OP1(k, name, e) template <> struct Op<k> { static const char *n() { return name; } static constexpr int arity = 1; static constexpr L f(int i, int) { return e; } };
#define OP2(k, name, e) template <> struct Op<k> { static const char *n() { return name; } static constexpr int arity = 2; static constexpr L f(int i, int j) { return e; } };
constexpr P dot2(P a, P b) { P x[3] = {a, b, a}, y[3] = {b, b, P::one()}; return P::dot(x, y, 3); }
constexpr P timeseq(P a, P b) { P r = a; r *= b; return r; }
constexpr L uf(const typename P::UnpackedT &u) { return u.type != P::UnpackedT::Regular ? -(L)u.type * 2 - (L)u.negativeSign : ((L)u.exponent * ((L)1 << 40)) ^ (L)(u.fraction) ^ ((L)u.negativeSign << 39); }
// a correct conversion to int exists only inside its range
constexpr L toint(const P &p) { return fin(p) && p.unpack().type == P::UnpackedT::Regular && p.unpack().exponent < 30 ? (L)(int)p : (L)p.iszero(); }
constexpr L cmp(const P &p, const P &q) { return (p == q) | (p != q) << 1 | (p < q) << 2 | (p <= q) << 3 | (p > q) << 4 | (p >= q) << 5; }
constexpr L preds(const P &p) { return p.isNaN() | p.isnegative() << 1 | p.isinfinity() << 2 | p.iszero() << 3 | p.isone() << 4 | p.isUnitRange() << 5; }
constexpr L consts(int k) { return k == 0 ? bits(P::one()) : k == 1 ? bits(P::two()) : k == 2 ? bits(P::mone()) : k == 3 ? bits(P::onehalf()) : k == 4 ? bits(P::max()) : k == 5 ? bits(P::min()) : k == 6 ? bits(P::lowest()) : k == 7 ? bits(P::zero()) : k == 8 && P::withnan ? bits(P::nan()) : bits(P()); }
template <int k> struct Op;
#if GROUP == 0
OP2(0, "+", bits(mk(i) + mk(j)))
OP2(1, "-", bits(mk(i) - mk(j)))
#elif GROUP == 1
OP2(0, "*", bits(mk(i) * mk(j)))
OP2(1, "*=", bits(timeseq(mk(i), mk(j))))
#elif GROUP == 2
OP2(0, "/", bits(mk(i) / mk(j)))
OP2(1, "compare", cmp(mk(i), mk(j)))
#elif GROUP == 3
OP2(0, "fma", bits(fma(mk(i), mk(j), mk(i))))
OP2(1, "dot", bits(dot2(mk(i), mk(j))))
#elif GROUP == 5
// every exponent of the single format, normal and subnormal, with the extreme significands
constexpr float pow2(int e) { float r = 1; for (int k = 0; k < (e < 0 ? -e : e); k++) r = e < 0 ? r * 0.5f : r * 2; return r; }
constexpr float sig(int k) { return k == 0 ? 1.0f : k == 1 ? 0x1.000002p0f : k == 2 ? 1.5f : k == 3 ? 0x1.fffffep0f : k == 4 ? 0x1.555556p0f : 0x1.aaaaaap0f; }
constexpr float fl(int i, int j) { return (j % 2 ? -1 : 1) * (i < 254 ? sig(i % 6) * pow2(i - 126) : i < 254 + 23 ? pow2(i - 254 - 149) * (1 + (i > 254) * 0.5f) : 0.0f); }
constexpr float fl2(int i, int j) { return i < 254 ? (j % 2 ? -1 : 1) * sig((j / 2) % 6) * pow2(i - 126) : fl(i, j); }
OP2(0, "float2bits", (L)float2bits(fl2(i * 5 + j / 12, j % 12)))
#define NOPS 1
#else
OP1(0, "unary", (bits(-mk(i)) * 8 + preds(mk(i))) * 64 + bits(mk(i).abs()))
OP1(1, "scale", bits(mk(i).half()) * 2 + (mk(i).half() == mk(i)) ^ (bits(mk(i).twice()) * 1048576))
OP1(2, "inv", bits(mk(i).inv()) ^ (bits(~mk(i)) * 8))
OP1(3, "neighbours", bits(mk(i).next()) ^ (bits(mk(i).prev()) * 8))
OP1(4, "unpack", uf(mk(i).unpack()))
OP1(5, "repack", bits(P(mk(i).unpack())))
OP1(6, "fields", bits(P(mk(i).unpack_low())))
OP1(7, "from int", bits(P((int)pat(i))) ^ (bits(P(i)) * 2))
OP1(8, "to int", toint(mk(i)))
OP1(9, "unit range", mk(i).isUnitRange() ? bits(mk(i).urOneMinus()) ^ (bits(mk(i).urDeltaPs()) * 2) : -1)
OP1(10, "sigmoid", mk(i) == mk(i) ? bits(mk(i).pseudosigmoid()) : -1)
OP1(11, "constants", consts(i % 10))
OP1(12, "numeric_limits", bits(std::numeric_limits<P>::max()) ^ (bits(std::numeric_limits<P>::min()) * 2) ^ (bits(std::numeric_limits<P>::lowest()) * 4) ^ (bits(std::numeric_limits<P>::epsilon()) * 8))
OP1(13, "float bits", mk(i) == mk(i) ? (L)mk(i).as_float_bin() : -1)
OP1(14, "from float bits", bits(P(typename P::single_tag(), (uint32_t)((uint64_t)pat(i) * 0x9E3779B1u))))
#define NOPS 15
#endif
#ifndef NOPS
#define NOPS 2
#endif
template <int k> struct Tab { L v[Op<k>::arity == 2 ? COUNT * COUNT : COUNT]; };
template <int k> constexpr Tab<k> make() {
  Tab<k> t{};
  int n = 0;
  for (int i = 0; i < COUNT; i++) for (int j = 0; j < (Op<k>::arity == 2 ? COUNT : 1); j++) t.v[n++] = Op<k>::f(i, j);
  return t;
}
template <int k> struct Ct { static Tab<k> get() { EVAL Tab<k> t = make<k>(); return t; } };
template <int k> struct Run {
  static int go() {
    int bad = Run<k - 1>::go();
    static Tab<k> t = Ct<k>::get();
    int n = 0;
    for (volatile int i = 0; i < COUNT; i = i + 1) for (volatile int j = 0; j < (Op<k>::arity == 2 ? COUNT : 1); j = j + 1) {
      L r = Op<k>::f(i, j);
      if (r != t.v[n] && !bad++) printf("DIFF\t%s\t%lld\t%lld\t%lld\t%lld\n", Op<k>::n(), pat(i), pat(j), t.v[n], r);
      n++;
    }
    printf("OP\t%s\t%d\n", Op<k>::n(), n);
    return bad;
  }
};
template <> struct Run<-1> { static int go() { return 0; } };
int main() { Run<NOPS - 1>::go(); return 0; }
