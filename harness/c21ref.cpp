// C21: the scalar posit8 (its header and the vector one cannot share a translation unit)
#include "posit8.hpp"
static posit8 P8(int v) { return posit8(posit8::DeepInit(), (int8_t)v); }
int scalar8(int op, int a, int b) {
  posit8 p = P8(a), q = P8(b);
  switch (op) {
    case 0: return (p + q).v;
    case 1: return (p - q).v;
    case 2: return (p * q).v;
    case 3: return (p / q).v;
    case 4: return (-p).v;
    case 5: return p.inv().v;
    case 6: return p.half().v;
    case 7: return p.twice().v;
    case 8: return p.square().v;
    case 9: return p.exp2().v;
    case 10: return p.is_negative() ? -1 : 0;
    case 11: return p.is_nan() ? -1 : 0;
    case 12: return p.is_infinity() ? -1 : 0;
    case 13: return p.has_neg_exponent() ? -1 : 0;
  }
  return 999;
}
float scalar8f(int a) { return (float)P8(a); }
int scalar8i(int a) { return posit8(a).v; }
int scalar8x(float a) { return posit8(a).v; }
