// C14: emulated floats of other sizes than the named ones, with and without denormals
#include "c14emu.hpp"
#define E(EB, FB, V, H, I, D) reg<anyfloat_emu<EB, FB, V, H, I, D>>("anyfloat_emu<" #EB "," #FB "," #H "," #I "," #D ">", FFmt{EB, FB, D}, false);
namespace { struct R { R() {
#if SHARD == 0
  E(4, 3, int8_t, uint8_t, float, true) E(3, 4, int8_t, uint8_t, float, true) E(4, 3, int8_t, uint8_t, float, false) E(5, 2, int8_t, uint8_t, double, false)
#elif SHARD == 1
  E(2, 5, int8_t, uint8_t, float, true) E(6, 1, int8_t, uint8_t, float, true) E(6, 9, int16_t, uint16_t, float, true) E(9, 6, int16_t, uint16_t, double, true)
#elif SHARD == 2
  E(8, 7, int16_t, uint16_t, float, false) E(5, 10, int16_t, uint16_t, double, false) E(9, 22, int32_t, uint32_t, double, true) E(4, 11, int16_t, uint16_t, float, true)
#else
  E(11, 20, int32_t, uint32_t, double, true) E(8, 23, int32_t, uint32_t, double, true) E(8, 23, int32_t, uint32_t, float, false) E(7, 24, int32_t, uint32_t, double, false)
#endif
} } r_; }
