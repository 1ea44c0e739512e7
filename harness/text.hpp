// C23: helpers to read back what was printed
#pragma once
#include "fl.hpp"
#include "mc.hpp"
#include <sstream>
#include <string>
#include <cmath>
namespace text {
struct Up { bool ok; Num n; std::string rest; };
// "up(+ exp (dec) = E fraction (hex) = H (bin) = B)" or up(nan), up(0), up(+infinity)
inline Up parse(const std::string &s, int W) {
  Up u; u.ok = false; u.n = mk(ZERO);
  if (s.compare(0, 3, "up(") != 0) return u;
  size_t e = s.rfind(')'); if (e == std::string::npos) return u;
  // the closing parenthesis of the whole text: for a number the one after the binary digits
  std::string b;
  size_t q = s.find("(bin) =");
  e = q == std::string::npos ? s.find(')') : s.find(')', q + 5);
  if (e == std::string::npos) return u;
  b = s.substr(3, e - 3); u.rest = s.substr(e + 1);
  if (b == "nan") { u.n = mk(NAN_); u.ok = true; return u; }
  if (b == "0") { u.ok = true; return u; }
  if (b == "+infinity" || b == "-infinity") { u.n = mk(INF, b[0] == '-'); u.ok = true; return u; }
  if (b.empty() || (b[0] != '+' && b[0] != '-')) return u;
  const bool neg = b[0] == '-';
  size_t x = b.find("exp (dec) ="), h = b.find("fraction (hex) ="), d = b.find("(bin) =");
  if (x == std::string::npos || h == std::string::npos || d == std::string::npos) return u;
  char *end; const char *p = b.c_str() + x + 11; long ex = strtol(p, &end, 10); if (end == p) return u;
  p = b.c_str() + h + 16; unsigned long long fr = strtoull(p, &end, 16); if (end == p) return u;
  p = b.c_str() + d + 7; while (*p == ' ') p++;
  unsigned long long bits = 0; int nb = 0; while (*p == '0' || *p == '1') { bits = bits * 2 + (*p - '0'); p++; nb++; }
  if (*p || nb != W || bits != fr) return u;
  u.n = mkv(neg, ((u128)1 << W) | fr, ex - W); u.ok = true; return u;
}
template <class F> inline std::string show(F x, std::ios::fmtflags add, std::ios::fmtflags mask, int prec) { std::ostringstream o; o.setf(add, mask); if (prec) o.precision(prec); o << x; return o.str(); }
}
