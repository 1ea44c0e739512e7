// C23: text output of posits, unpacked values and posits computed with native floats
#include "cfg.hpp"
#include "positf.h"
#include "text.hpp"
using namespace mc;
using namespace text;
#define LL long long
template <class P> static std::string put(const P &p, std::ios::fmtflags base, std::ios::fmtflags extra, int prec, bool *kept) {
  std::ostringstream o; o.setf(base, std::ios::basefield); o.setf(extra); if (prec) o.precision(prec);
  const std::ios::fmtflags before = o.flags(); const std::streamsize pr = o.precision();
  o << p; *kept = o.flags() == before && o.precision() == pr && o.good();
  return o.str();
}
template <class P> static void one(Ctx &c, const Fmt &f, int64_t v) {
  c.at(v); const P p = mkp<P>(v); const Num n = decode(f, v); bool kept;
  bool tiny = false; float x = 0; if (n.c == REG || n.c == INF) { uint32_t b = (uint32_t)encodef(F32, n, &tiny); x = bitsf(b); }
  static const std::ios::fmtflags X[] = {std::ios::fmtflags(0), std::ios::scientific | std::ios::showpos, std::ios::fixed | std::ios::uppercase, std::ios::showpoint};
  for (int k = 0; k < (f.N > 20 || f.N <= 12 ? 4 : 1); k++) {
    const int prec = k == 1 ? 9 : k == 3 ? 4 : 0;
    MC_OP(c, "decimal"); std::string s = put(p, std::ios::dec, X[k], prec, &kept);
    auto w = [&](float y) { std::ostringstream o; o.setf(X[k]); if (prec) o.precision(prec); o << y; return o.str(); };
    bool ok = n.c == NAN_ ? s == w(NAN) || s == w(-NAN) : n.c == INF && f.spec == S_INF ? s == w(x) || s == w(-x) : s == w(x) || (tiny && (s == w(0.0f) || s == w(-0.0f) || s == w(bitsf(n.neg ? 0x80000001u : 1))));
    MC_CK(c, "decimal", ok && kept, "pattern %lld prints '%s', its value as float prints '%s'%s", (LL)v, s.c_str(), w(x).c_str(), kept ? "" : ", stream state changed");
    if (k == 1 && n.c == REG && !tiny) { float y = strtof(s.c_str(), 0); MC_CK(c, "read back", sameval(fromf(y), fromf(x)), "pattern %lld prints '%s'", (LL)v, s.c_str()); if (sameval(fromf(x), n)) MC_CK(c, "posit read back", P(y).v == p.v, "pattern %lld prints '%s', read back as %lld", (LL)v, s.c_str(), (LL)P(y).v); }
  }
  { MC_OP(c, "raw"); std::string s = put(p, std::ios::hex, std::ios::fmtflags(0), 0, &kept); MC_CK(c, "raw", kept && s == std::to_string((LL)v), "pattern %lld prints '%s'%s", (LL)v, s.c_str(), kept ? "" : ", stream state changed"); }
  { MC_OP(c, "unpacked form"); std::string s = put(p, std::ios::oct, std::ios::fmtflags(0), 0, &kept); Up u = parse(s, Tr<P>::W); Num m = n; if (f.spec == S_INF && m.c == INF && u.n.c == INF) m.neg = u.n.neg;
    MC_CK(c, "unpacked form", kept && u.ok && u.rest.empty() && sameval(u.n, m), "pattern %lld is %s, prints '%s'%s", (LL)v, str(n).c_str(), s.c_str(), kept ? "" : ", stream state changed"); }
  { MC_OP(c, "several"); std::ostringstream o; o << std::hex << p << ' ' << 255 << ' ' << std::oct << p << ' ' << 8 << ' ' << std::dec << 8; std::string s = o.str(), a = std::to_string((LL)v) + " ff "; bool ok = s.compare(0, a.size(), a) == 0 && s.size() > 5 && s.compare(s.size() - 5, 5, " 10 8") == 0;
    MC_CK(c, "several", ok, "pattern %lld: '%s'", (LL)v, s.c_str()); }
  MC_CK(c, "unchanged", p.v == v, "pattern %lld became %lld", (LL)v, (LL)p.v);
}
template <class P> void Explorer<P>::reg(const std::string &name, int group) {
  const Fmt f = Tr<P>::f();
  if (f.N <= 12) add(name, 1, [f](Ctx &c) { for (int64_t v : c.S1(fullset(f))) one<P>(c, f, v); });
  else if (f.N <= 16) add(name, 2, [f](Ctx &c) { if (c.thorough || f.spec == S_NAN) for (int64_t v : c.S1(fullset(f))) one<P>(c, f, v); else for (int64_t v : c.S1(alphabet(f, 2))) one<P>(c, f, v); });
  else add(name, 1, [f](Ctx &c) { for (int64_t v : c.S1(alphabet(f, 1))) one<P>(c, f, v); });
}
static RegisterAll r_;
#if SHARD == 0 && !defined(GRID)
template <class U> static void up(Ctx &c, const U &u, const Num &n, int W) {
  MC_OP(c, "unpacked"); std::ostringstream o; o << u; Up q = parse(o.str(), W);
  MC_CK(c, "unpacked", o.good() && q.ok && q.rest.empty() && sameval(q.n, n), "%s prints '%s'", str(n).c_str(), o.str().c_str());
  for (std::ios::fmtflags b : {std::ios::hex, std::ios::oct}) { std::ostringstream h; h.setf(b, std::ios::basefield); h << u; MC_OP(c, "unpacked in another base"); MC_CK(c, "unpacked in another base", h.str() == o.str(), "'%s' and '%s'", h.str().c_str(), o.str().c_str()); }
}
template <class FT, class ET> static void ups(const std::string &n) {
  add("Unpacked " + n, 2, [](Ctx &c) {
    typedef Unpacked<FT, ET> U; const int W = sizeof(FT) * 8; std::vector<int64_t> fr; std::set<int64_t> s;
    if (W <= 8) for (int i = 0; i < 256; i++) fr.push_back(i);
    else { for (int i = 0; i < W; i++) for (int d = -1; d <= 1; d++) s.insert((int64_t)(FT)(((FT)1 << i) + (FT)d)); s.insert((int64_t)(FT)0xa5a5a5a5a5a5a5a5ull); s.insert((int64_t)(FT)~(FT)0); s.insert(0); for (int i = 0; i < 300; i++) s.insert((int64_t)(FT)(i * 0x9e3779b97f4a7c15ull)); fr.assign(s.begin(), s.end()); }
    std::vector<int64_t> ex{0, 1, -1, 2, -2, 7, -8, 9, 10, -10, 15, 16, 31, 63, 64, -64, 99, 100, 127, -128}; if (sizeof(ET) > 1) for (int64_t e : {128, 255, -256, 1000, -1023, 1024, 32767, -32768}) ex.push_back(e); if (sizeof(ET) > 2) { ex.push_back(1 << 20); ex.push_back(-(1 << 20)); }
    for (int64_t b : c.S1(fr)) for (int64_t e : c.S2(ex)) for (int sg = 0; sg < 2; sg++) { c.at(b, e); up(c, U((ET)e, (FT)b, sg != 0), mkv(sg, ((u128)1 << W) | (FT)b, e - W), W); }
    if (!c.replay || c.rn < 2) { c.at(0); up(c, U::nan(), mk(NAN_), W); up(c, U::zero(), mk(ZERO), W); up(c, U::pinfinity(), mk(INF), W); up(c, U::ninfinity(), mk(INF, true), W); }
  });
}
template <class P> static void pf(const std::string &name, Fmt f) {
  add(name, 1, [f](Ctx &c) { for (int64_t v : c.S1(f.N <= 16 ? fullset(f) : alphabet(f, 1))) { c.at(v); P p = P(typename P::DeepInit(), (typename P::value_t)v); Num n = decode(f, v); std::ostringstream o; MC_OP(c, "native float posit"); o << p; Up u = parse(o.str(), sizeof(p.unpack().fraction) * 8); if (f.spec == S_INF && n.c == INF && u.n.c == INF) n.neg = u.n.neg;
    MC_CK(c, "native float posit", u.ok && u.rest.empty() && sameval(u.n, n), "pattern %lld is %s, prints '%s'", (LL)v, str(n).c_str(), o.str().c_str()); } });
}
namespace { struct R { R() {
  ups<uint8_t, int16_t>("<uint8_t,int16_t>"); ups<uint16_t, int16_t>("<uint16_t,int16_t>"); ups<uint32_t, int>("<uint32_t,int>"); ups<uint64_t, int>("<uint64_t,int>"); ups<uint64_t, int64_t>("<uint64_t,int64_t>"); ups<uint16_t, int8_t>("<uint16_t,int8_t>");
  pf<PositF<int8_t, 8, 0, float, PositSpec::WithNan>>("PositF<int8_t,8,0,float,WithNan>", Fmt{8, 0, S_NAN}); pf<PositF<int8_t, 6, 1, float, PositSpec::WithInf>>("PositF<int8_t,6,1,float,WithInf>", Fmt{6, 1, S_INF}); pf<PositF<int16_t, 12, 1, float, PositSpec::WithNanInf>>("PositF<int16_t,12,1,float,WithNanInf>", Fmt{12, 1, S_NANINF}); pf<PositF<int16_t, 16, 2, double, PositSpec::WithNan>>("PositF<int16_t,16,2,double,WithNan>", Fmt{16, 2, S_NAN});
} } q_; }
#endif
