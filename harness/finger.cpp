// C17: executes the operations of the library over enumerated operands and
// prints one fingerprint per (configuration, operation); the same program is built
// with several compilers, language standards, optimization levels and instruction sets.
#include "cfg.hpp"
#ifndef FPGAHLS
#include "positf.h"
#include "anyfloat.hpp"
#include "float16native32.hpp"
#endif
#include <cmath>
#include <memory>
#include <sstream>
#include "flops.hpp"
using namespace mc;
namespace mc { Cur g_cur[MAXT]; }
static Cur &K = g_cur[0];
static void onsig(int s) { char b[300]; int n = snprintf(b, sizeof b, "CRASH\t%d\t%s\t%s\t%lld\t%lld\n", s, K.cfg, K.op, (long long)K.a[0], (long long)K.a[1]); if (write(1, b, n) < 0) {} _exit(3); }
static std::string dcfg, dop; static int64_t da = 0, db = 0; static bool dump = false, single = false;
static unsigned long long states = 0, transitions = 0, traces = 0;
struct H { uint64_t h = 1469598103934665603ull; unsigned long long n = 0; void put(uint64_t x) { for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ull; } n++; } };
static std::map<std::string, H> *cur;
static void rec(const char *op, uint64_t r) { (*cur)[op].put(r); transitions++; if (dump && dop == op) printf("%lld %lld %llx\n", (long long)K.a[0], (long long)K.a[1], (unsigned long long)r); }
static uint64_t fb_(float x) { return x != x ? 0x7fc00000u : fbits(x); }
static uint64_t db_(double x) { return x != x ? 0x7ff8000000000000ull : dbits(x); }
template <class U> static uint64_t uu(const U &u) { return (uint64_t)u.type * 1000003 + (u.isRegular() ? (uint64_t)(int64_t)u.exponent * 7919 + (uint64_t)u.fraction * 2654435761u : 0) + (u.isRegular() || u.isInfinity() ? u.negativeSign : 0); }
#ifdef FPGAHLS // the synthesis build: no conversions of native floats and no streams
#define OPF(NAME, EXPR)
#else
#define OPF(NAME, EXPR) OP(NAME, EXPR)
#endif
#define OP(NAME, EXPR) { K.op = NAME; rec(NAME, (uint64_t)(EXPR)); }
static bool begin(const std::string &cfg) { if ((dump || single) && dcfg != cfg) return false; K.cfg = strdup(cfg.c_str()); K.op = "start"; cur = new std::map<std::string, H>(); return true; }
static void end(const std::string &cfg) { if (!dump) for (auto &p : *cur) printf("FP\t%s\t%s\t%016llx\t%llu\n", cfg.c_str(), p.first.c_str(), (unsigned long long)p.second.h, p.second.n); delete cur; }
template <class P> static void unary(int64_t v) {
  K.a[0] = v; K.a[1] = 0; traces++; P p = mkp<P>(v);
  OP("neg", (int64_t)(-p).v) OP("abs", (int64_t)p.abs().v) OP("next", (int64_t)p.next().v) OP("prev", (int64_t)p.prev().v)
  OP("half", (int64_t)p.half().v) OP("twice", (int64_t)p.twice().v) OP("inv", (int64_t)p.inv().v)
  OPF("float", fb_((float)p)) OPF("double", db_((double)p)) OP("int", (int64_t)(int)p) OP("unpack", uu(p.unpack())) OP("repack", (int64_t)P(p.unpack()).v)
  { auto i = p.analyze(); OP("analyze", (uint64_t)i.nan | i.infinity << 1 | (i.nan || i.infinity || v == 0 ? 0 : (uint64_t)i.sign << 2 | (uint64_t)i.k << 8 | (uint64_t)i.exp << 16 | (uint64_t)i.rs << 40 | (uint64_t)i.fs << 48) ^ (i.nan || i.infinity || v == 0 ? 0 : (uint64_t)i.ifraction * 31 + (uint64_t)(int64_t)i.exponent * 17)) }
  OPF("from float", (int64_t)P((float)p).v) OPF("from double", (int64_t)P((double)p).v) OP("from int", (int64_t)P((int)v).v)
  OP("sigmoid", (int64_t)p.pseudosigmoid().v) OP("softplus", (int64_t)p.pseudosoftplus().v) OP("class", p.isNaN() | p.isinfinity() << 1 | p.iszero() << 2 | p.isnegative() << 3 | p.isone() << 4 | p.isUnitRange() << 5)
  typename P::UnpackedT u = p.unpack(); typedef fixedtrait<int32_t, 32, 16> X; OP("fixed", (int64_t)u.template pack_xfixed<X>()) OP("half float", u.template pack_xfloati<half_trait>())
  if (p.isUnitRange()) { OP("oneminus", (int64_t)p.urOneMinus().v) OP("deltaps", (int64_t)p.urDeltaPs().v) }
}
template <class P> static void text_(int64_t v) {
#ifdef FPGAHLS
  (void)v;
#else
  K.a[0] = v; K.a[1] = 0; P p = mkp<P>(v); std::ostringstream o; K.op = "text"; o << p << std::hex << p << std::oct << p; uint64_t h = 7; for (char x : o.str()) h = h * 131 + (unsigned char)x; OP("text", h)
#endif
}
template <class P> static void chains(const std::vector<int64_t> &t) {
  std::vector<P> x, y; for (size_t i = 0; i < t.size(); i++) { x.push_back(mkp<P>(t[i])); y.push_back(mkp<P>(t[(i * 7 + 3) % t.size()])); }
  for (size_t i = 0; i + 9 < t.size(); i += 3) for (int n = 0; n <= 9; n += 3) { K.a[0] = t[i]; K.a[1] = n; traces++; std::unique_ptr<P[]> xs(new P[n]), ys(new P[n]); for (int j = 0; j < n; j++) xs[j] = x[i + j], ys[j] = y[i + j]; // arrays of exactly the operands
      OP("dot", (int64_t)P::dot(xs.get(), ys.get(), n).v) OP("fma3", (int64_t)fma(x[i], y[i + 1], x[i + 2 + n % 3]).v) }
}
template <class P> static void pair(int64_t a, int64_t b) {
  K.a[0] = a; K.a[1] = b; traces++; P p = mkp<P>(a), q = mkp<P>(b), m = p * q; // a deferred product converts on initialization
  OP("mul", (int64_t)m.v) OP("div", (int64_t)(p / q).v) OP("add", (int64_t)(p + q).v) OP("sub", (int64_t)(p - q).v) OP("fma", (int64_t)fma(p, q, p).v)
  OP("compare", (p == q) | (p != q) << 1 | (p < q) << 2 | (p <= q) << 3 | (p > q) << 4 | (p >= q) << 5)
  typename P::UnpackedT x = p.unpack(), y = q.unpack(); OP("umul", uu(x * y)) OP("udiv", uu(x / y)) OP("uadd", uu(x + y)) OP("usub", uu(x - y))
  P t = p; t += q; OP("+=", (int64_t)t.v) t = p; t *= q; OP("*=", (int64_t)t.v)
}
template <class P> static void consts() {
  typedef std::numeric_limits<P> L; K.a[0] = K.a[1] = 0; traces++;
  int64_t r[] = {P::one().v, P::mone().v, P::two().v, P::onehalf().v, P::max().v, P::min().v, P::lowest().v, P::nan().v, P::inf().v, P::ninf().v, L::epsilon().v, L::max().v, L::lowest().v, L::min().v, L::max_exponent, L::min_exponent};
  for (int64_t x : r) OP("constants", x)
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  if (!begin(name)) return;
  const Fmt f = Tr<P>::f(); consts<P>();
  std::vector<int64_t> s = f.N <= 12 ? fullset(f) : alphabet(f, 1), t = f.N <= 7 ? fullset(f) : alphabet(f, -1);
  if (single) { if (db == INT64_MIN) unary<P>(da); else { unary<P>(da); pair<P>(da, db); } end(name); return; }
  states += s.size();
  for (int64_t v : s) unary<P>(v);
  for (int64_t v : f.N <= 10 ? s : alphabet(f, -1)) text_<P>(v);
  chains<P>(t);
  for (int64_t a : t) for (int64_t b : t) pair<P>(a, b);
  for (int64_t b : floats(false)) { K.a[0] = b; K.a[1] = 0; traces++; float x = bitsf(b); OPF("from any float", (int64_t)P(x).v) OPF("float to unpacked", uu(typename P::UnpackedT(x))) }
  for (int64_t b : doubles(f, false)) { K.a[0] = b; K.a[1] = 0; traces++; double x = bitsd(b); OPF("from any double", (int64_t)P(x).v) }
  for (int k = 0; k < 31; k++) for (int d = -3; d <= 3; d++) { K.a[0] = ((int64_t)1 << k) + d; traces++; OP("from any int", (int64_t)P((int)K.a[0]).v) OP("from any negative int", (int64_t)P((int)-K.a[0]).v) }
  end(name);
}
// posits over a native float, emulated small floats, unpacked arithmetic and bit primitives
#ifndef FPGAHLS
template <class P> static void nativeposits(const std::string &name, Fmt f) {
  if (!begin(name)) return;
  std::vector<int64_t> s = f.N <= 12 ? fullset(f) : alphabet(f, 1), t = f.N <= 7 ? fullset(f) : alphabet(f, -1); if (single) { s = std::vector<int64_t>(1, da); t.clear(); if (db != INT64_MIN) t.push_back(db); }
  states += s.size();
  for (int64_t v : s) { K.a[0] = v; K.a[1] = 0; traces++; P p = mkp<P>(v);
    OP("neg", (int64_t)(-p).v) OP("abs", (int64_t)p.abs().v) OP("next", (int64_t)p.next().v) OP("prev", (int64_t)p.prev().v) OP("half", (int64_t)p.half().v) OP("twice", (int64_t)p.twice().v) OP("inv", (int64_t)p.inv().v)
    OPF("float", fb_((float)p)) OPF("double", db_((double)p)) OP("int", (int64_t)(int)p) OP("unpack", uu(p.unpack())) OP("repack", (int64_t)P(p.unpack()).v) OPF("from double", (int64_t)P((double)p).v) }
  for (int64_t a : single ? s : t) for (int64_t b : t) { K.a[0] = a; K.a[1] = b; traces++; P p = mkp<P>(a), q = mkp<P>(b); OP("mul", (int64_t)P(p * q).v) OP("div", (int64_t)(p / q).v) OP("add", (int64_t)(p + q).v) OP("sub", (int64_t)(p - q).v) OP("compare", (p == q) | (p != q) << 1 | (p < q) << 2 | (p <= q) << 3 | (p > q) << 4 | (p >= q) << 5) }
  end(name);
}
template <class A> static void smallfloats(const std::string &name, FFmt F) {
  if (!begin(name)) return;
  const uint64_t sg = (uint64_t)1 << (F.eb + F.fb), inf = (((uint64_t)1 << F.eb) - 1) << F.fb;
  auto cn = [&](uint64_t v) -> uint64_t { return (v & (sg - 1)) > inf ? ~(uint64_t)0 : (v & (sg - 1)) == 0 ? 0 : v; }; // one NaN, one zero
  auto mk1 = [](int64_t v) { return A(typename A::DeepInit(), (typename A::T)v); };
  std::vector<int64_t> s = fpatterns(F, false), t = fpatterns(F, true); if (single) { s = std::vector<int64_t>(1, da); t.clear(); if (db != INT64_MIN) t.push_back(db); }
  states += s.size();
  for (int64_t v : s) { K.a[0] = v; K.a[1] = 0; traces++; A a = mk1(v);
    OP("float", fb_((float)(const A)a)) OP("double", db_((double)(const A)a)) OP("int", (int64_t)(int)a) OP("unpack", uu(a.unpack())) OP("repack", cn(A(a.unpack()).v)) OP("from double", cn(A((double)(const A)a).v)) OP("from float", cn(A((float)(const A)a).v)) OP("neg", cn((-a).v)) OP("abs", cn(a.abs().v)) OP("half", cn(a.half().v)) OP("twice", cn(a.twice().v)) OP("inv", cn(a.inv().v)) }
  for (int64_t v : single ? s : t) for (int64_t w : t) { K.a[0] = v; K.a[1] = w; traces++; A a = mk1(v), b = mk1(w); OP("mul", cn((a * b).v)) OP("div", cn((a / b).v)) OP("add", cn((a + b).v)) OP("sub", cn((a - b).v)) OP("compare", (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5) }
  if (!single) { for (int64_t b : floats(false)) { K.a[0] = b; K.a[1] = 0; float x = bitsf(b); OP("from any float", cn(A(x).v)) } Fmt big = {32, 5, 0}; for (int64_t b : doubles(big, false)) { K.a[0] = b; double x = bitsd(b); OP("from any double", cn(A(x).v)) } }
  end(name);
}
#endif
template <class FT, class ET> static void unpackeds(const std::string &name) {
  if (!begin(name)) return;
  typedef Unpacked<FT, ET> U; const int W = sizeof(FT) * 8;
  std::vector<U> u{U::zero(), U::nan(), U::pinfinity(), U::ninfinity(), U::one()}; std::set<FT> fr; const FT M = (FT)~(FT)0;
  for (FT x : {(FT)0, M, (FT)(M >> 1), (FT)(M / 3), (FT)(M / 5), (FT)(M / 7 * 5), (FT)1, (FT)3}) fr.insert(x); for (int k = 0; k < W; k += W > 16 ? 7 : 2) { fr.insert((FT)((FT)1 << k)); fr.insert((FT)(M << k)); }
  std::vector<long> ex{0, 1, -1, 2, -3, 7, -8, 15, 31, -33, 63, 64, -65, 100, -120}; if (sizeof(ET) > 1) for (long e : {127, -126, -127, 128, -149, -150, 200, -1022, 1023, 1024, -1074, -1075, 5000}) ex.push_back(e);
  for (long e : ex) for (FT x : fr) for (int g = 0; g < 2; g++) u.push_back(U((ET)e, x, g != 0));
  states += u.size(); const size_t n = u.size();
  for (size_t i = 0; i < n; i++) { if (single && (int64_t)i != da) continue; K.a[0] = (int64_t)i; K.a[1] = 0; traces++; const U a = u[i];
    OP("neg", uu(-a)) OP("inv", uu(a.inv())) OPF("float", fb_((float)a)) OPF("double", db_((double)a)) OP("int", (int64_t)(int)a) OPF("from float", uu(U((float)a))) OPF("from double", uu(U((double)a)))
    { typedef fixedtrait<int32_t, 32, 16> X; OP("fixed", (int64_t)a.template pack_xfixed<X>()) } { typedef fixedtrait<int64_t, 64, 40> X; OP("fixed64", (int64_t)a.template pack_xfixed<X>()) } { typedef fixedtrait<int8_t, 8, 3> X; OP("fixed8", (int64_t)a.template pack_xfixed<X>()) }
    OP("half float", a.template pack_xfloati<half_trait>())
#ifndef FPGAHLS
    { std::ostringstream o; K.op = "text"; o << a; uint64_t h = 7; for (char x : o.str()) h = h * 131 + (unsigned char)x; OP("text", h) }
#endif
  }
  const size_t st = n > 400 ? 3 : 1;
  for (size_t i = 0; i < n; i += st) for (size_t j = 0; j < n; j += st) { if (single && ((int64_t)i != da || (int64_t)j != db)) continue; K.a[0] = (int64_t)i; K.a[1] = (int64_t)j; traces++; const U a = u[i], b = u[j]; OP("mul", uu(a * b)) OP("div", uu(a / b)) OP("add", uu(a + b)) OP("sub", uu(a - b)) OP("equal", (a == b) | (a != b) << 1) }
  end(name);
}
template <class T> static void bitwise(const std::string &name) {
  if (!begin(name)) return;
  const int W = sizeof(T) * 8; std::set<T> w; for (int i = 0; i < W; i++) for (int d = -1; d <= 1; d++) w.insert((T)(((T)1 << i) + (T)d)); for (uint64_t x : {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x0123456789abcdefull, 0xfedcba9876543210ull}) w.insert((T)x);
  states += w.size();
  for (T x : w) { K.a[0] = (int64_t)x; K.a[1] = 0; traces++; if (single && (int64_t)x != da) continue;
    if (x) OP("scan", findbitleftmostC(x))
    for (int o = 0; o < W; o++) for (int k = 1; o + k <= W; k++) { K.a[1] = o * 100 + k; OP("get", (bitset_get<T>)(x, o, k)) OP("part", bitset_part(x, (T)0x5A5A5A5A5A5A5A5Aull, o, k)) }
    K.a[1] = 0; OP("abs", (uint64_t)((typename std::make_signed<T>::type)x == std::numeric_limits<typename std::make_signed<T>::type>::min() ? 0 : pcabs((typename std::make_signed<T>::type)x)))
    OP("cast 5", (cast_right_to_left<T, 5, uint32_t, 32>()(x))) OP("cast 7", (cast_right_to_left<T, 7, uint64_t, 3>()(x))) OP("cast msb", (cast_msb<T, 8, uint64_t, 64>()((T)(x & 255)))) }
  end(name);
}
template <class A, class B> static void twoway(const std::string &name, FFmt s) { // bit level conversion between float formats
  if (!begin(name)) return;
  for (int64_t v : fpatterns(s, false)) { if (single && v != da) continue; K.a[0] = v; K.a[1] = 0; traces++; states++; OP("convert", (convertfloats<A, B, uint64_t>((typename A::holder_t)v))) }
  end(name);
}
#define S1(k, T, N, es, FT, S) RegIf<(k) % NSHARD == SHARD>::template go<Posit<T, N, es, FT, PositSpec::S>>("Posit<" #T "," #N "," #es "," #FT "," #S ">", 0);
static void all() {
  S1(0, int8_t, 4, 0, uint8_t, WithNan) S1(1, int8_t, 5, 1, uint8_t, WithInf) S1(2, int8_t, 6, 2, uint16_t, WithNanInf) S1(3, int8_t, 8, 0, uint8_t, WithNan) S1(4, int8_t, 8, 0, uint8_t, WithNanInf) S1(5, int8_t, 8, 2, uint8_t, WithInf)
  S1(6, int16_t, 8, 1, uint16_t, WithNan) S1(7, int16_t, 10, 0, uint16_t, WithNan) S1(0, int16_t, 12, 2, uint16_t, WithInf) S1(1, int16_t, 16, 1, uint16_t, WithNan) S1(2, int16_t, 16, 2, uint32_t, WithNanInf) S1(3, int32_t, 16, 1, uint16_t, WithNan)
  S1(4, int32_t, 20, 3, uint32_t, WithInf) S1(5, int32_t, 32, 2, uint32_t, WithNan) S1(6, int32_t, 32, 4, uint64_t, WithNanInf) S1(7, int32_t, 31, 0, uint32_t, WithNan) S1(0, int64_t, 32, 2, uint32_t, WithNan) S1(1, int64_t, 48, 3, uint64_t, WithNan) S1(2, int64_t, 62, 1, uint64_t, WithInf) S1(3, int64_t, 63, 0, uint64_t, WithNan)
  S1(4, int64_t, 64, 2, uint64_t, WithNan) S1(5, int64_t, 64, 0, uint64_t, WithInf) S1(6, int64_t, 63, 8, uint64_t, WithNanInf) S1(7, int16_t, 16, 10, uint16_t, WithNan) S1(0, int32_t, 32, 20, uint32_t, WithInf) S1(1, int8_t, 8, 5, uint8_t, WithNan) S1(2, int64_t, 40, 1, uint64_t, WithNanInf) S1(3, int16_t, 9, 3, uint8_t, WithInf) S1(4, int8_t, 7, 2, uint32_t, WithNan) S1(5, int32_t, 24, 2, uint32_t, WithNanInf) S1(6, int16_t, 16, 0, uint16_t, WithNan) S1(7, int16_t, 13, 4, uint32_t, WithInf)
#if SHARD == 3 && !defined(FPGAHLS)
  nativeposits<PositF<int8_t, 8, 0, float, PositSpec::WithNan>>("PositF<int8_t,8,0,float,WithNan>", Fmt{8, 0, S_NAN}); nativeposits<PositF<int8_t, 6, 1, float, PositSpec::WithInf>>("PositF<int8_t,6,1,float,WithInf>", Fmt{6, 1, S_INF}); nativeposits<PositF<int16_t, 12, 1, float, PositSpec::WithNanInf>>("PositF<int16_t,12,1,float,WithNanInf>", Fmt{12, 1, S_NANINF}); nativeposits<PositF<int16_t, 16, 2, double, PositSpec::WithNan>>("PositF<int16_t,16,2,double,WithNan>", Fmt{16, 2, S_NAN});
#endif
#if SHARD == 5 && !defined(FPGAHLS)
  smallfloats<binary8_emu>("binary8_emu", FFmt{5, 2, true}); smallfloats<binary16_emu>("binary16_emu", FFmt{5, 10, true}); smallfloats<binary16alt_emu>("binary16alt_emu", FFmt{8, 7, true}); smallfloats<binary32_emu>("binary32_emu", F32);
#endif
#if SHARD == 6
  twoway<half_trait, single_trait>("half to single", FFmt{5, 10, true}); twoway<single_trait, half_trait>("single to half", F32); twoway<double_trait, single_trait>("double to single", F64); twoway<single_trait, double_trait>("single to double", F32);
  bitwise<uint8_t>("words of 8 bits"); bitwise<uint16_t>("words of 16 bits"); bitwise<uint32_t>("words of 32 bits"); bitwise<uint64_t>("words of 64 bits");
#endif
#if SHARD == 7
  unpackeds<uint8_t, int16_t>("Unpacked<uint8_t,int16_t>"); unpackeds<uint16_t, int>("Unpacked<uint16_t,int>"); unpackeds<uint32_t, int>("Unpacked<uint32_t,int>"); unpackeds<uint64_t, int>("Unpacked<uint64_t,int>"); unpackeds<uint32_t, int64_t>("Unpacked<uint32_t,int64_t>");
#endif
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s == "--dump") { dump = true; dcfg = argv[++i]; dop = argv[++i]; } if (s == "--single") { single = true; dcfg = argv[++i]; da = strtoll(argv[++i], 0, 10); db = strtoll(argv[++i], 0, 10); } }
  signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGILL, onsig); signal(SIGBUS, onsig); signal(SIGABRT, onsig); signal(SIGTRAP, onsig);
  all();
  if (!dump) printf("END\t%llu\t%llu\t%llu\n", states, transitions, traces);
  return 0;
}
