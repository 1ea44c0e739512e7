// C23: text output of the tabulated 8 bit float and of half precision storage
#include "binary8.hpp"
#include "float16native32.hpp"
#include "text.hpp"
using namespace mc;
namespace { struct R { R() {
  add("binary8tab", 1, [](Ctx &c) { c.range(0, 255, [&](int64_t v) { c.at(v); const binary8tab b(binary8tab::DeepInit(), (int8_t)v); std::ostringstream o; MC_OP(c, "binary8"); o << b << ' ' << 7; const std::string e = "binary8tab(" + std::to_string((int)v) + ") 7"; MC_CK(c, "binary8", o.str() == e, "bits %lld print '%s' expected '%s'", (long long)v, o.str().c_str(), e.c_str()); }); });
  static const FFmt H = {5, 10, true};
  add("half", 1, [](Ctx &c) { c.range(0, 65535, [&](int64_t v) { Num n = decodef(H, (uint64_t)v); if (n.c == NAN_) return; float x = bitsf((uint32_t)encodef(F32, n)); c.at(v); float16n32 h(x); std::ostringstream o, e; MC_OP(c, "half"); o.precision(9); o << h; e.precision(9); e << "f16(" << x << ")"; MC_CK(c, "half", o.str() == e.str() || (n.c == ZERO && o.str() == "f16(0)"), "half %llx prints '%s' expected '%s'", (long long)v, o.str().c_str(), e.str().c_str()); }); });
} } r_; }
