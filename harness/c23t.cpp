// C23: text output of the tabulated posits
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
#include "text.hpp"
using namespace mc;
template <class Q> static void reg(const std::string &n, int N) {
  add(n, 1, [N](Ctx &c) { c.range(-(1 << (N - 1)), (1 << (N - 1)) - 1, [&](int64_t v) {
    c.at(v); const Q q(typename Q::DeepInit(), (typename Q::value_t)v); std::ostringstream o; MC_OP(c, "tabulated"); o << q << ' ' << 7; const std::string e = "posit(" + std::to_string((unsigned)q.uu()) + ") 7";
    MC_CK(c, "tabulated", o.str() == e && ((int64_t)q.uu() & ((1 << N) - 1)) == (v & ((1 << N) - 1)) && q.v == v, "pattern %lld prints '%s' expected '%s'", (long long)v, o.str().c_str(), e.c_str()); }); });
}
namespace { struct R { R() { reg<posit8>("posit8", 8); reg<posit10>("posit10", 10); reg<posit12>("posit12", 12); } } r_; }
