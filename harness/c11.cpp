// C11: integers and fixed point
#include "cfg.hpp"
using namespace mc;
// integers near the numbers of the format and near every power of two
static std::vector<int64_t> ints(const Fmt &f, bool rich) {
  std::set<int64_t> s;
  for (int k = 0; k <= 31; k++)
    for (int64_t d = -9; d <= 9; d++) { int64_t x = ((int64_t)1 << k) + d; s.insert(x); s.insert(-x); s.insert((((int64_t)1 << k) * 3 >> 1) + d); }
  for (int k = 0; k <= 31; k++) for (int j = 0; j < k; j++) { int64_t x = ((int64_t)1 << k) + ((int64_t)1 << j); s.insert(x); s.insert(-x); s.insert(x - 1); s.insert(-(((int64_t)1 << k) - ((int64_t)1 << j))); }
  for (int64_t v : f.N <= (rich ? 20 : 16) ? fullset(f) : alphabet(f, 0)) {
    Num n = decode(f, v); if (n.c != REG || scale(n) > 31) continue;
    int64_t i = toint(n, 40); for (int d = -1; d <= 1; d++) s.insert(i + d);
  }
  for (int64_t i = -4096; i <= 4096; i++) s.insert(i);
  std::vector<int64_t> v; for (int64_t i : s) if (i >= INT32_MIN && i <= INT32_MAX) v.push_back(i);
  std::sort(v.begin(), v.end(), [](int64_t a, int64_t b) { int64_t x = a < 0 ? -a : a, y = b < 0 ? -b : b; return x != y ? x < y : a > b; });
  return v;
}
template <class P> static void fromint(Ctx &c, const Fmt &f, int64_t i) {
  c.at(i);
  Num n = fromi(i); int64_t e = encode(f, n);
  MC_OP(c, "from int"); int64_t g = P((int)i).v; c.hit(g); MC_CK(c, "from int", g == e, "%lld: got %lld expected %lld", (long long)i, (long long)g, (long long)e);
}
template <class P> static void toInt(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v);
  P p = mkp<P>(v); Num n = decode(f, v);
  // the library keeps W fraction bits: exact for all of these formats
  MC_OP(c, "to int"); int64_t g = (int)p, e = toint(n, 32); MC_CK(c, "to int", g == e, "pattern %lld (%s): got %lld expected %lld", (long long)v, str(n).c_str(), (long long)g, (long long)e);
  typename P::UnpackedT u = p.unpack();
#define FX(T, F) { typedef fixedtrait<T, sizeof(T) * 8, F> X; MC_OP(c, "to fixed " #T " " #F); g = u.template pack_xfixed<X>(); e = toint(n, sizeof(T) * 8, F); \
    MC_CK(c, "to fixed " #T " " #F, g == e, "pattern %lld (%s): got %lld expected %lld", (long long)v, str(n).c_str(), (long long)g, (long long)e); }
  FX(int16_t, 0) FX(int16_t, 8) FX(int16_t, 15) FX(int32_t, 1) FX(int32_t, 16) FX(int32_t, 31) FX(int64_t, 0) FX(int64_t, 32)
}
template <class P> static void fromfixed(Ctx &c, const Fmt &f, int64_t i) {
  c.at(i);
  int64_t g, e;
#define XF(T, F) if (i >= std::numeric_limits<T>::min() && i <= std::numeric_limits<T>::max()) { typedef fixedtrait<T, sizeof(T) * 8, F> X; MC_OP(c, "from fixed " #T " " #F); typename P::UnpackedT u; u.template unpack_xfixed<X>((T)i); \
    Num n = fromi(i); n.e -= n.c == REG ? F : 0; g = P(u).v; e = encode(f, n); MC_CK(c, "from fixed " #T " " #F, g == e, "%lld/2^" #F ": got %lld expected %lld", (long long)i, (long long)g, (long long)e); }
  XF(int16_t, 0) XF(int16_t, 8) XF(int16_t, 15) XF(int32_t, 1) XF(int32_t, 16) XF(int32_t, 31) XF(int64_t, 0) XF(int64_t, 32)
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  const int W = Tr<P>::W; (void)W;
  add(name + " from", 2, [f](Ctx &c) { for (int64_t i : c.S1(ints(f, c.thorough))) fromint<P>(c, f, i); });
  if (f.spec == S_NAN) add(name + " from small", 4, [f](Ctx &c) { const int64_t m = c.thorough ? 1 << 22 : 1 << 17; c.range(-m, m, [&](int64_t i) { fromint<P>(c, f, i); }); });
  if (f.spec == S_NAN && ((f.N == 8 && f.es == 0 && Tr<P>::TB == 8) || (f.N == 16 && f.es == 1 && Tr<P>::TB == 16) || (f.N == 32 && f.es == 2 && Tr<P>::TB == 32)))
    add(name + " from all ints", 64, [f](Ctx &c) { c.range(INT32_MIN, INT32_MAX, [&](int64_t i) { fromint<P>(c, f, i); }); }, true);
  add(name + " fixed", 2, [f](Ctx &c) {
    std::set<int64_t> s; for (int64_t i : ints(f, c.thorough)) s.insert(i);
    for (int k = 32; k < 63; k++) for (int d = -2; d <= 2; d++) { int64_t x = ((int64_t)1 << k) + d; s.insert(x); s.insert(-x); }
    s.insert(INT64_MAX); s.insert(INT64_MIN); s.insert(INT64_MIN + 1);
    for (int64_t i : c.S1(std::vector<int64_t>(s.begin(), s.end()))) fromfixed<P>(c, f, i);
  });
  if (f.N <= 20) add(name + " to", group == 0 ? 1 : f.N > 16 ? 8 : 2, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { toInt<P>(c, f, v); }); });
  else {
    add(name + " to", 2, [f](Ctx &c) { for (int64_t v : c.S1(alphabet(f, 2))) toInt<P>(c, f, v); });
    if (f.N <= 24 || (f.N == 32 && f.spec == S_NAN && f.es == 2 && Tr<P>::TB == 32)) add(name + " to all", 64, [f](Ctx &c) { c.range(top(f), -top(f) - 1, [&](int64_t v) { toInt<P>(c, f, v); }); }, true);
  }
}
static RegisterAll r_;
