// generated by tools/mkgrid.py: every total size from 4 to 64 bits
#pragma once
#define GRID1(X) \
  X(int8_t, 4, 0, uint32_t, WithInf) \
  X(int8_t, 5, 1, uint32_t, WithNanInf) \
  X(int16_t, 6, 3, uint8_t, WithNan) \
  X(int8_t, 7, 2, uint16_t, WithNanInf) \
  X(int16_t, 8, 1, uint16_t, WithNan) \
  X(int16_t, 9, 0, uint64_t, WithInf) \
  X(int16_t, 10, 0, uint64_t, WithNanInf) \
  X(int32_t, 11, 3, uint16_t, WithNan) \
  X(int16_t, 12, 6, uint16_t, WithInf) \
  X(int16_t, 13, 1, uint32_t, WithNanInf) \
  X(int16_t, 14, 4, uint64_t, WithInf) \
  X(int16_t, 15, 0, uint64_t, WithNanInf) \
  X(int32_t, 16, 3, uint16_t, WithNan) \
  X(int32_t, 17, 6, uint64_t, WithInf) \
  X(int32_t, 18, 1, uint32_t, WithNanInf) \
  X(int64_t, 19, 4, uint32_t, WithNan) \
  X(int32_t, 20, 0, uint64_t, WithInf) \
  X(int64_t, 21, 3, uint32_t, WithNan) \
  X(int32_t, 22, 6, uint32_t, WithInf) \
  X(int32_t, 23, 1, uint64_t, WithNanInf) \
  X(int64_t, 24, 4, uint64_t, WithNan) \
  X(int32_t, 25, 0, uint32_t, WithInf) \
  X(int32_t, 26, 3, uint32_t, WithNanInf) \
  X(int64_t, 27, 6, uint64_t, WithNan) \
  X(int32_t, 28, 1, uint32_t, WithNanInf) \
  X(int64_t, 29, 4, uint32_t, WithNan) \
  X(int32_t, 30, 0, uint64_t, WithInf) \
  X(int32_t, 31, 3, uint64_t, WithNanInf) \
  X(int64_t, 32, 6, uint32_t, WithNan) \
  X(int64_t, 33, 1, uint64_t, WithInf) \
  X(int64_t, 34, 4, uint64_t, WithNanInf) \
  X(int64_t, 35, 0, uint64_t, WithInf) \
  X(int64_t, 36, 3, uint64_t, WithNanInf) \
  X(int64_t, 37, 6, uint64_t, WithNan) \
  X(int64_t, 38, 1, uint64_t, WithInf) \
  X(int64_t, 39, 4, uint64_t, WithNanInf) \
  X(int64_t, 40, 0, uint64_t, WithNan) \
  X(int64_t, 41, 3, uint64_t, WithInf) \
  X(int64_t, 42, 6, uint64_t, WithNan) \
  X(int64_t, 43, 1, uint64_t, WithInf) \
  X(int64_t, 44, 4, uint64_t, WithNanInf) \
  X(int64_t, 45, 0, uint64_t, WithNan) \
  X(int64_t, 46, 3, uint64_t, WithInf) \
  X(int64_t, 47, 6, uint64_t, WithNanInf) \
  X(int64_t, 48, 1, uint64_t, WithNan) \
  X(int64_t, 49, 4, uint64_t, WithNanInf) \
  X(int64_t, 50, 0, uint64_t, WithNan) \
  X(int64_t, 51, 3, uint64_t, WithInf) \
  X(int64_t, 52, 6, uint64_t, WithNanInf) \
  X(int64_t, 53, 1, uint64_t, WithNan) \
  X(int64_t, 54, 4, uint64_t, WithInf) \
  X(int64_t, 55, 0, uint64_t, WithNanInf) \
  X(int64_t, 56, 3, uint64_t, WithInf) \
  X(int64_t, 57, 6, uint64_t, WithNanInf) \
  X(int64_t, 58, 1, uint64_t, WithNan) \
  X(int64_t, 59, 4, uint64_t, WithInf) \
  X(int64_t, 60, 0, uint64_t, WithNanInf) \
  X(int64_t, 61, 3, uint64_t, WithNan) \
  X(int64_t, 62, 6, uint64_t, WithInf) \
  X(int64_t, 63, 1, uint64_t, WithNan) \
  X(int64_t, 64, 4, uint64_t, WithInf)
#define GRID2(X) \
  X(int16_t, 4, 0, uint8_t, WithNan) \
  X(int8_t, 4, 1, uint8_t, WithInf) \
  X(int8_t, 5, 0, uint16_t, WithNanInf) \
  X(int16_t, 5, 1, uint16_t, WithNan) \
  X(int8_t, 5, 2, uint32_t, WithInf) \
  X(int8_t, 6, 0, uint32_t, WithNanInf) \
  X(int16_t, 6, 1, uint8_t, WithNan) \
  X(int8_t, 6, 2, uint8_t, WithInf) \
  X(int8_t, 6, 3, uint16_t, WithNanInf) \
  X(int16_t, 7, 0, uint16_t, WithNan) \
  X(int8_t, 7, 1, uint32_t, WithInf) \
  X(int8_t, 7, 2, uint32_t, WithNanInf) \
  X(int16_t, 7, 3, uint8_t, WithNan) \
  X(int8_t, 7, 4, uint8_t, WithInf) \
  X(int8_t, 8, 0, uint16_t, WithNanInf) \
  X(int16_t, 8, 1, uint16_t, WithNan) \
  X(int8_t, 8, 2, uint32_t, WithInf) \
  X(int8_t, 8, 3, uint32_t, WithNanInf) \
  X(int16_t, 8, 4, uint8_t, WithNan) \
  X(int8_t, 8, 5, uint8_t, WithInf) \
  X(int32_t, 9, 0, uint32_t, WithNan) \
  X(int16_t, 9, 1, uint64_t, WithInf) \
  X(int16_t, 9, 2, uint64_t, WithNanInf) \
  X(int32_t, 9, 3, uint16_t, WithNan) \
  X(int16_t, 9, 4, uint16_t, WithInf) \
  X(int16_t, 9, 5, uint32_t, WithNanInf) \
  X(int32_t, 9, 6, uint32_t, WithNan) \
  X(int16_t, 10, 0, uint64_t, WithInf) \
  X(int16_t, 10, 1, uint64_t, WithNanInf) \
  X(int32_t, 10, 2, uint16_t, WithNan) \
  X(int16_t, 10, 3, uint16_t, WithInf) \
  X(int16_t, 10, 4, uint32_t, WithNanInf) \
  X(int32_t, 10, 5, uint32_t, WithNan) \
  X(int16_t, 10, 6, uint64_t, WithInf) \
  X(int16_t, 10, 7, uint64_t, WithNanInf) \
  X(int32_t, 11, 0, uint16_t, WithNan) \
  X(int16_t, 11, 1, uint16_t, WithInf) \
  X(int16_t, 11, 2, uint32_t, WithNanInf) \
  X(int32_t, 11, 3, uint32_t, WithNan) \
  X(int16_t, 11, 4, uint64_t, WithInf) \
  X(int16_t, 11, 5, uint64_t, WithNanInf) \
  X(int32_t, 11, 6, uint16_t, WithNan) \
  X(int16_t, 11, 7, uint16_t, WithInf) \
  X(int16_t, 11, 8, uint32_t, WithNanInf) \
  X(int32_t, 12, 0, uint32_t, WithNan) \
  X(int16_t, 12, 1, uint64_t, WithInf) \
  X(int16_t, 12, 2, uint64_t, WithNanInf) \
  X(int32_t, 12, 3, uint16_t, WithNan) \
  X(int16_t, 12, 4, uint16_t, WithInf) \
  X(int16_t, 12, 5, uint32_t, WithNanInf) \
  X(int32_t, 12, 6, uint32_t, WithNan) \
  X(int16_t, 12, 7, uint64_t, WithInf) \
  X(int16_t, 12, 9, uint64_t, WithNanInf) \
  X(int32_t, 13, 0, uint16_t, WithNan) \
  X(int16_t, 13, 1, uint16_t, WithInf) \
  X(int16_t, 13, 2, uint32_t, WithNanInf) \
  X(int32_t, 13, 3, uint32_t, WithNan) \
  X(int16_t, 13, 4, uint64_t, WithInf) \
  X(int16_t, 13, 5, uint64_t, WithNanInf) \
  X(int32_t, 13, 6, uint16_t, WithNan) \
  X(int16_t, 13, 7, uint16_t, WithInf) \
  X(int16_t, 13, 10, uint32_t, WithNanInf) \
  X(int32_t, 14, 0, uint32_t, WithNan) \
  X(int16_t, 14, 1, uint64_t, WithInf) \
  X(int16_t, 14, 2, uint64_t, WithNanInf) \
  X(int32_t, 14, 3, uint16_t, WithNan) \
  X(int16_t, 14, 4, uint16_t, WithInf) \
  X(int16_t, 14, 5, uint32_t, WithNanInf) \
  X(int32_t, 14, 6, uint32_t, WithNan) \
  X(int16_t, 14, 7, uint64_t, WithInf) \
  X(int16_t, 14, 11, uint64_t, WithNanInf) \
  X(int32_t, 15, 0, uint16_t, WithNan) \
  X(int16_t, 15, 1, uint16_t, WithInf) \
  X(int16_t, 15, 2, uint32_t, WithNanInf) \
  X(int32_t, 15, 3, uint32_t, WithNan) \
  X(int16_t, 15, 4, uint64_t, WithInf) \
  X(int16_t, 15, 5, uint64_t, WithNanInf) \
  X(int32_t, 15, 6, uint16_t, WithNan) \
  X(int16_t, 15, 7, uint16_t, WithInf) \
  X(int16_t, 15, 12, uint32_t, WithNanInf) \
  X(int32_t, 16, 0, uint32_t, WithNan) \
  X(int16_t, 16, 1, uint64_t, WithInf) \
  X(int16_t, 16, 2, uint64_t, WithNanInf) \
  X(int32_t, 16, 3, uint16_t, WithNan) \
  X(int16_t, 16, 4, uint16_t, WithInf) \
  X(int16_t, 16, 5, uint32_t, WithNanInf) \
  X(int32_t, 16, 6, uint32_t, WithNan) \
  X(int16_t, 16, 7, uint64_t, WithInf) \
  X(int16_t, 16, 13, uint64_t, WithNanInf) \
  X(int64_t, 17, 0, uint64_t, WithNan) \
  X(int32_t, 17, 1, uint64_t, WithInf) \
  X(int32_t, 17, 2, uint32_t, WithNanInf) \
  X(int64_t, 17, 3, uint32_t, WithNan) \
  X(int32_t, 17, 4, uint64_t, WithInf) \
  X(int32_t, 17, 5, uint64_t, WithNanInf) \
  X(int64_t, 17, 6, uint32_t, WithNan) \
  X(int32_t, 17, 7, uint32_t, WithInf) \
  X(int32_t, 17, 14, uint64_t, WithNanInf) \
  X(int32_t, 18, 0, uint32_t, WithInf) \
  X(int32_t, 18, 1, uint32_t, WithNanInf) \
  X(int64_t, 18, 2, uint64_t, WithNan) \
  X(int32_t, 18, 3, uint64_t, WithInf) \
  X(int32_t, 18, 4, uint32_t, WithNanInf) \
  X(int64_t, 18, 5, uint32_t, WithNan) \
  X(int32_t, 18, 6, uint64_t, WithInf) \
  X(int32_t, 18, 7, uint64_t, WithNanInf) \
  X(int64_t, 18, 15, uint32_t, WithNan) \
  X(int32_t, 19, 0, uint32_t, WithInf) \
  X(int32_t, 19, 1, uint64_t, WithNanInf) \
  X(int64_t, 19, 2, uint64_t, WithNan) \
  X(int32_t, 19, 3, uint32_t, WithInf) \
  X(int32_t, 19, 4, uint32_t, WithNanInf) \
  X(int64_t, 19, 5, uint64_t, WithNan) \
  X(int32_t, 19, 6, uint64_t, WithInf) \
  X(int32_t, 19, 7, uint32_t, WithNanInf) \
  X(int64_t, 19, 16, uint32_t, WithNan) \
  X(int32_t, 20, 0, uint64_t, WithInf) \
  X(int32_t, 20, 1, uint64_t, WithNanInf) \
  X(int64_t, 20, 2, uint32_t, WithNan) \
  X(int32_t, 20, 3, uint32_t, WithInf) \
  X(int32_t, 20, 4, uint64_t, WithNanInf) \
  X(int64_t, 20, 5, uint64_t, WithNan) \
  X(int32_t, 20, 6, uint32_t, WithInf) \
  X(int32_t, 20, 7, uint32_t, WithNanInf) \
  X(int64_t, 20, 17, uint64_t, WithNan) \
  X(int32_t, 21, 0, uint64_t, WithInf) \
  X(int32_t, 21, 1, uint32_t, WithNanInf) \
  X(int64_t, 21, 2, uint32_t, WithNan) \
  X(int32_t, 21, 3, uint64_t, WithInf) \
  X(int32_t, 21, 4, uint64_t, WithNanInf) \
  X(int64_t, 21, 5, uint32_t, WithNan) \
  X(int32_t, 21, 6, uint32_t, WithInf) \
  X(int32_t, 21, 7, uint64_t, WithNanInf) \
  X(int64_t, 22, 0, uint64_t, WithNan) \
  X(int32_t, 22, 1, uint32_t, WithInf) \
  X(int32_t, 22, 2, uint32_t, WithNanInf) \
  X(int64_t, 22, 3, uint64_t, WithNan) \
  X(int32_t, 22, 4, uint64_t, WithInf) \
  X(int32_t, 22, 5, uint32_t, WithNanInf) \
  X(int64_t, 22, 6, uint32_t, WithNan) \
  X(int32_t, 22, 7, uint64_t, WithInf) \
  X(int32_t, 23, 0, uint64_t, WithNanInf) \
  X(int64_t, 23, 1, uint32_t, WithNan) \
  X(int32_t, 23, 2, uint32_t, WithInf) \
  X(int32_t, 23, 3, uint64_t, WithNanInf) \
  X(int64_t, 23, 4, uint64_t, WithNan) \
  X(int32_t, 23, 5, uint32_t, WithInf) \
  X(int32_t, 23, 6, uint32_t, WithNanInf) \
  X(int64_t, 23, 7, uint64_t, WithNan) \
  X(int32_t, 24, 0, uint64_t, WithInf) \
  X(int32_t, 24, 1, uint32_t, WithNanInf) \
  X(int64_t, 24, 2, uint32_t, WithNan) \
  X(int32_t, 24, 3, uint64_t, WithInf) \
  X(int32_t, 24, 4, uint64_t, WithNanInf) \
  X(int64_t, 24, 5, uint32_t, WithNan) \
  X(int32_t, 24, 6, uint32_t, WithInf) \
  X(int32_t, 24, 7, uint64_t, WithNanInf) \
  X(int64_t, 25, 0, uint64_t, WithNan) \
  X(int32_t, 25, 1, uint32_t, WithInf) \
  X(int32_t, 25, 2, uint32_t, WithNanInf) \
  X(int64_t, 25, 3, uint64_t, WithNan) \
  X(int32_t, 25, 4, uint64_t, WithInf) \
  X(int32_t, 25, 5, uint32_t, WithNanInf) \
  X(int64_t, 25, 6, uint32_t, WithNan) \
  X(int32_t, 25, 7, uint64_t, WithInf) \
  X(int32_t, 26, 0, uint64_t, WithNanInf) \
  X(int64_t, 26, 1, uint32_t, WithNan) \
  X(int32_t, 26, 2, uint32_t, WithInf) \
  X(int32_t, 26, 3, uint64_t, WithNanInf) \
  X(int64_t, 26, 4, uint64_t, WithNan) \
  X(int32_t, 26, 5, uint32_t, WithInf) \
  X(int32_t, 26, 6, uint32_t, WithNanInf) \
  X(int64_t, 26, 7, uint64_t, WithNan) \
  X(int32_t, 27, 0, uint32_t, WithNanInf) \
  X(int64_t, 27, 1, uint32_t, WithNan) \
  X(int32_t, 27, 2, uint64_t, WithInf) \
  X(int32_t, 27, 3, uint64_t, WithNanInf) \
  X(int64_t, 27, 4, uint32_t, WithNan) \
  X(int32_t, 27, 5, uint32_t, WithInf) \
  X(int32_t, 27, 6, uint64_t, WithNanInf) \
  X(int64_t, 27, 7, uint64_t, WithNan) \
  X(int32_t, 28, 0, uint32_t, WithInf) \
  X(int32_t, 28, 1, uint32_t, WithNanInf) \
  X(int64_t, 28, 2, uint64_t, WithNan) \
  X(int32_t, 28, 3, uint64_t, WithInf) \
  X(int32_t, 28, 4, uint32_t, WithNanInf) \
  X(int64_t, 28, 5, uint32_t, WithNan) \
  X(int32_t, 28, 6, uint64_t, WithInf) \
  X(int32_t, 28, 7, uint64_t, WithNanInf) \
  X(int64_t, 29, 0, uint32_t, WithNan) \
  X(int32_t, 29, 1, uint32_t, WithInf) \
  X(int32_t, 29, 2, uint64_t, WithNanInf) \
  X(int64_t, 29, 3, uint64_t, WithNan) \
  X(int32_t, 29, 4, uint32_t, WithInf) \
  X(int32_t, 29, 5, uint32_t, WithNanInf) \
  X(int64_t, 29, 6, uint64_t, WithNan) \
  X(int32_t, 29, 7, uint64_t, WithInf) \
  X(int32_t, 30, 0, uint32_t, WithNanInf) \
  X(int64_t, 30, 1, uint32_t, WithNan) \
  X(int32_t, 30, 2, uint64_t, WithInf) \
  X(int32_t, 30, 3, uint64_t, WithNanInf) \
  X(int64_t, 30, 4, uint32_t, WithNan) \
  X(int32_t, 30, 5, uint32_t, WithInf) \
  X(int32_t, 30, 6, uint64_t, WithNanInf) \
  X(int64_t, 30, 7, uint64_t, WithNan) \
  X(int32_t, 31, 0, uint32_t, WithInf) \
  X(int32_t, 31, 1, uint32_t, WithNanInf) \
  X(int64_t, 31, 2, uint64_t, WithNan) \
  X(int32_t, 31, 3, uint64_t, WithInf) \
  X(int32_t, 31, 4, uint32_t, WithNanInf) \
  X(int64_t, 31, 5, uint32_t, WithNan) \
  X(int32_t, 31, 6, uint64_t, WithInf) \
  X(int32_t, 31, 7, uint64_t, WithNanInf) \
  X(int64_t, 32, 0, uint32_t, WithNan) \
  X(int32_t, 32, 1, uint32_t, WithInf) \
  X(int32_t, 32, 2, uint64_t, WithNanInf) \
  X(int64_t, 32, 3, uint64_t, WithNan) \
  X(int32_t, 32, 4, uint32_t, WithInf) \
  X(int32_t, 32, 5, uint32_t, WithNanInf) \
  X(int64_t, 32, 6, uint64_t, WithNan) \
  X(int32_t, 32, 7, uint64_t, WithInf) \
  X(int64_t, 33, 0, uint64_t, WithNanInf) \
  X(int64_t, 33, 1, uint64_t, WithNan) \
  X(int64_t, 33, 2, uint64_t, WithInf) \
  X(int64_t, 33, 3, uint64_t, WithNanInf) \
  X(int64_t, 33, 4, uint64_t, WithNan) \
  X(int64_t, 33, 5, uint64_t, WithInf) \
  X(int64_t, 33, 6, uint64_t, WithNanInf) \
  X(int64_t, 33, 7, uint64_t, WithNan) \
  X(int64_t, 34, 0, uint64_t, WithInf) \
  X(int64_t, 34, 1, uint64_t, WithNanInf) \
  X(int64_t, 34, 2, uint64_t, WithNan) \
  X(int64_t, 34, 3, uint64_t, WithInf) \
  X(int64_t, 34, 4, uint64_t, WithNanInf) \
  X(int64_t, 34, 5, uint64_t, WithNan) \
  X(int64_t, 34, 6, uint64_t, WithInf) \
  X(int64_t, 34, 7, uint64_t, WithNanInf) \
  X(int64_t, 35, 0, uint64_t, WithNan) \
  X(int64_t, 35, 1, uint64_t, WithInf) \
  X(int64_t, 35, 2, uint64_t, WithNanInf) \
  X(int64_t, 35, 3, uint64_t, WithNan) \
  X(int64_t, 35, 4, uint64_t, WithInf) \
  X(int64_t, 35, 5, uint64_t, WithNanInf) \
  X(int64_t, 35, 6, uint64_t, WithNan) \
  X(int64_t, 35, 7, uint64_t, WithInf) \
  X(int64_t, 36, 0, uint64_t, WithNan) \
  X(int64_t, 36, 1, uint64_t, WithInf) \
  X(int64_t, 36, 2, uint64_t, WithNanInf) \
  X(int64_t, 36, 3, uint64_t, WithNan) \
  X(int64_t, 36, 4, uint64_t, WithInf) \
  X(int64_t, 36, 5, uint64_t, WithNanInf) \
  X(int64_t, 36, 6, uint64_t, WithNan) \
  X(int64_t, 36, 7, uint64_t, WithInf) \
  X(int64_t, 37, 0, uint64_t, WithNanInf) \
  X(int64_t, 37, 1, uint64_t, WithNan) \
  X(int64_t, 37, 2, uint64_t, WithInf) \
  X(int64_t, 37, 3, uint64_t, WithNanInf) \
  X(int64_t, 37, 4, uint64_t, WithNan) \
  X(int64_t, 37, 5, uint64_t, WithInf) \
  X(int64_t, 37, 6, uint64_t, WithNanInf) \
  X(int64_t, 37, 7, uint64_t, WithNan) \
  X(int64_t, 38, 0, uint64_t, WithInf) \
  X(int64_t, 38, 1, uint64_t, WithNanInf) \
  X(int64_t, 38, 2, uint64_t, WithNan) \
  X(int64_t, 38, 3, uint64_t, WithInf) \
  X(int64_t, 38, 4, uint64_t, WithNanInf) \
  X(int64_t, 38, 5, uint64_t, WithNan) \
  X(int64_t, 38, 6, uint64_t, WithInf) \
  X(int64_t, 38, 7, uint64_t, WithNanInf) \
  X(int64_t, 39, 0, uint64_t, WithNan) \
  X(int64_t, 39, 1, uint64_t, WithInf) \
  X(int64_t, 39, 2, uint64_t, WithNanInf) \
  X(int64_t, 39, 3, uint64_t, WithNan) \
  X(int64_t, 39, 4, uint64_t, WithInf) \
  X(int64_t, 39, 5, uint64_t, WithNanInf) \
  X(int64_t, 39, 6, uint64_t, WithNan) \
  X(int64_t, 39, 7, uint64_t, WithInf) \
  X(int64_t, 40, 0, uint64_t, WithNanInf) \
  X(int64_t, 40, 1, uint64_t, WithNan) \
  X(int64_t, 40, 2, uint64_t, WithInf) \
  X(int64_t, 40, 3, uint64_t, WithNanInf) \
  X(int64_t, 40, 4, uint64_t, WithNan) \
  X(int64_t, 40, 5, uint64_t, WithInf) \
  X(int64_t, 40, 6, uint64_t, WithNanInf) \
  X(int64_t, 40, 7, uint64_t, WithNan) \
  X(int64_t, 41, 0, uint64_t, WithInf) \
  X(int64_t, 41, 1, uint64_t, WithNanInf) \
  X(int64_t, 41, 2, uint64_t, WithNan) \
  X(int64_t, 41, 3, uint64_t, WithInf) \
  X(int64_t, 41, 4, uint64_t, WithNanInf) \
  X(int64_t, 41, 5, uint64_t, WithNan) \
  X(int64_t, 41, 6, uint64_t, WithInf) \
  X(int64_t, 41, 7, uint64_t, WithNanInf) \
  X(int64_t, 42, 0, uint64_t, WithNan) \
  X(int64_t, 42, 1, uint64_t, WithInf) \
  X(int64_t, 42, 2, uint64_t, WithNanInf) \
  X(int64_t, 42, 3, uint64_t, WithNan) \
  X(int64_t, 42, 4, uint64_t, WithInf) \
  X(int64_t, 42, 5, uint64_t, WithNanInf) \
  X(int64_t, 42, 6, uint64_t, WithNan) \
  X(int64_t, 42, 7, uint64_t, WithInf) \
  X(int64_t, 43, 0, uint64_t, WithNanInf) \
  X(int64_t, 43, 1, uint64_t, WithNan) \
  X(int64_t, 43, 2, uint64_t, WithInf) \
  X(int64_t, 43, 3, uint64_t, WithNanInf) \
  X(int64_t, 43, 4, uint64_t, WithNan) \
  X(int64_t, 43, 5, uint64_t, WithInf) \
  X(int64_t, 43, 6, uint64_t, WithNanInf) \
  X(int64_t, 43, 7, uint64_t, WithNan) \
  X(int64_t, 44, 0, uint64_t, WithInf) \
  X(int64_t, 44, 1, uint64_t, WithNanInf) \
  X(int64_t, 44, 2, uint64_t, WithNan) \
  X(int64_t, 44, 3, uint64_t, WithInf) \
  X(int64_t, 44, 4, uint64_t, WithNanInf) \
  X(int64_t, 44, 5, uint64_t, WithNan) \
  X(int64_t, 44, 6, uint64_t, WithInf) \
  X(int64_t, 44, 7, uint64_t, WithNanInf) \
  X(int64_t, 45, 0, uint64_t, WithInf) \
  X(int64_t, 45, 1, uint64_t, WithNanInf) \
  X(int64_t, 45, 2, uint64_t, WithNan) \
  X(int64_t, 45, 3, uint64_t, WithInf) \
  X(int64_t, 45, 4, uint64_t, WithNanInf) \
  X(int64_t, 45, 5, uint64_t, WithNan) \
  X(int64_t, 45, 6, uint64_t, WithInf) \
  X(int64_t, 45, 7, uint64_t, WithNanInf) \
  X(int64_t, 46, 0, uint64_t, WithNan) \
  X(int64_t, 46, 1, uint64_t, WithInf) \
  X(int64_t, 46, 2, uint64_t, WithNanInf) \
  X(int64_t, 46, 3, uint64_t, WithNan) \
  X(int64_t, 46, 4, uint64_t, WithInf) \
  X(int64_t, 46, 5, uint64_t, WithNanInf) \
  X(int64_t, 46, 6, uint64_t, WithNan) \
  X(int64_t, 46, 7, uint64_t, WithInf) \
  X(int64_t, 47, 0, uint64_t, WithNanInf) \
  X(int64_t, 47, 1, uint64_t, WithNan) \
  X(int64_t, 47, 2, uint64_t, WithInf) \
  X(int64_t, 47, 3, uint64_t, WithNanInf) \
  X(int64_t, 47, 4, uint64_t, WithNan) \
  X(int64_t, 47, 5, uint64_t, WithInf) \
  X(int64_t, 47, 6, uint64_t, WithNanInf) \
  X(int64_t, 47, 7, uint64_t, WithNan) \
  X(int64_t, 48, 0, uint64_t, WithInf) \
  X(int64_t, 48, 1, uint64_t, WithNanInf) \
  X(int64_t, 48, 2, uint64_t, WithNan) \
  X(int64_t, 48, 3, uint64_t, WithInf) \
  X(int64_t, 48, 4, uint64_t, WithNanInf) \
  X(int64_t, 48, 5, uint64_t, WithNan) \
  X(int64_t, 48, 6, uint64_t, WithInf) \
  X(int64_t, 48, 7, uint64_t, WithNanInf) \
  X(int64_t, 49, 0, uint64_t, WithNan) \
  X(int64_t, 49, 1, uint64_t, WithInf) \
  X(int64_t, 49, 2, uint64_t, WithNanInf) \
  X(int64_t, 49, 3, uint64_t, WithNan) \
  X(int64_t, 49, 4, uint64_t, WithInf) \
  X(int64_t, 49, 5, uint64_t, WithNanInf) \
  X(int64_t, 49, 6, uint64_t, WithNan) \
  X(int64_t, 49, 7, uint64_t, WithInf) \
  X(int64_t, 50, 0, uint64_t, WithNanInf) \
  X(int64_t, 50, 1, uint64_t, WithNan) \
  X(int64_t, 50, 2, uint64_t, WithInf) \
  X(int64_t, 50, 3, uint64_t, WithNanInf) \
  X(int64_t, 50, 4, uint64_t, WithNan) \
  X(int64_t, 50, 5, uint64_t, WithInf) \
  X(int64_t, 50, 6, uint64_t, WithNanInf) \
  X(int64_t, 50, 7, uint64_t, WithNan) \
  X(int64_t, 51, 0, uint64_t, WithInf) \
  X(int64_t, 51, 1, uint64_t, WithNanInf) \
  X(int64_t, 51, 2, uint64_t, WithNan) \
  X(int64_t, 51, 3, uint64_t, WithInf) \
  X(int64_t, 51, 4, uint64_t, WithNanInf) \
  X(int64_t, 51, 5, uint64_t, WithNan) \
  X(int64_t, 51, 6, uint64_t, WithInf) \
  X(int64_t, 51, 7, uint64_t, WithNanInf) \
  X(int64_t, 52, 0, uint64_t, WithNan) \
  X(int64_t, 52, 1, uint64_t, WithInf) \
  X(int64_t, 52, 2, uint64_t, WithNanInf) \
  X(int64_t, 52, 3, uint64_t, WithNan) \
  X(int64_t, 52, 4, uint64_t, WithInf) \
  X(int64_t, 52, 5, uint64_t, WithNanInf) \
  X(int64_t, 52, 6, uint64_t, WithNan) \
  X(int64_t, 52, 7, uint64_t, WithInf) \
  X(int64_t, 53, 0, uint64_t, WithNanInf) \
  X(int64_t, 53, 1, uint64_t, WithNan) \
  X(int64_t, 53, 2, uint64_t, WithInf) \
  X(int64_t, 53, 3, uint64_t, WithNanInf) \
  X(int64_t, 53, 4, uint64_t, WithNan) \
  X(int64_t, 53, 5, uint64_t, WithInf) \
  X(int64_t, 53, 6, uint64_t, WithNanInf) \
  X(int64_t, 53, 7, uint64_t, WithNan) \
  X(int64_t, 54, 0, uint64_t, WithNanInf) \
  X(int64_t, 54, 1, uint64_t, WithNan) \
  X(int64_t, 54, 2, uint64_t, WithInf) \
  X(int64_t, 54, 3, uint64_t, WithNanInf) \
  X(int64_t, 54, 4, uint64_t, WithNan) \
  X(int64_t, 54, 5, uint64_t, WithInf) \
  X(int64_t, 54, 6, uint64_t, WithNanInf) \
  X(int64_t, 54, 7, uint64_t, WithNan) \
  X(int64_t, 55, 0, uint64_t, WithInf) \
  X(int64_t, 55, 1, uint64_t, WithNanInf) \
  X(int64_t, 55, 2, uint64_t, WithNan) \
  X(int64_t, 55, 3, uint64_t, WithInf) \
  X(int64_t, 55, 4, uint64_t, WithNanInf) \
  X(int64_t, 55, 5, uint64_t, WithNan) \
  X(int64_t, 55, 6, uint64_t, WithInf) \
  X(int64_t, 55, 7, uint64_t, WithNanInf) \
  X(int64_t, 56, 0, uint64_t, WithNan) \
  X(int64_t, 56, 1, uint64_t, WithInf) \
  X(int64_t, 56, 2, uint64_t, WithNanInf) \
  X(int64_t, 56, 3, uint64_t, WithNan) \
  X(int64_t, 56, 4, uint64_t, WithInf) \
  X(int64_t, 56, 5, uint64_t, WithNanInf) \
  X(int64_t, 56, 6, uint64_t, WithNan) \
  X(int64_t, 56, 7, uint64_t, WithInf) \
  X(int64_t, 57, 0, uint64_t, WithNanInf) \
  X(int64_t, 57, 1, uint64_t, WithNan) \
  X(int64_t, 57, 2, uint64_t, WithInf) \
  X(int64_t, 57, 3, uint64_t, WithNanInf) \
  X(int64_t, 57, 4, uint64_t, WithNan) \
  X(int64_t, 57, 5, uint64_t, WithInf) \
  X(int64_t, 57, 6, uint64_t, WithNanInf) \
  X(int64_t, 57, 7, uint64_t, WithNan) \
  X(int64_t, 58, 0, uint64_t, WithInf) \
  X(int64_t, 58, 1, uint64_t, WithNanInf) \
  X(int64_t, 58, 2, uint64_t, WithNan) \
  X(int64_t, 58, 3, uint64_t, WithInf) \
  X(int64_t, 58, 4, uint64_t, WithNanInf) \
  X(int64_t, 58, 5, uint64_t, WithNan) \
  X(int64_t, 58, 6, uint64_t, WithInf) \
  X(int64_t, 58, 7, uint64_t, WithNanInf) \
  X(int64_t, 59, 0, uint64_t, WithNan) \
  X(int64_t, 59, 1, uint64_t, WithInf) \
  X(int64_t, 59, 2, uint64_t, WithNanInf) \
  X(int64_t, 59, 3, uint64_t, WithNan) \
  X(int64_t, 59, 4, uint64_t, WithInf) \
  X(int64_t, 59, 5, uint64_t, WithNanInf) \
  X(int64_t, 59, 6, uint64_t, WithNan) \
  X(int64_t, 59, 7, uint64_t, WithInf) \
  X(int64_t, 60, 0, uint64_t, WithNanInf) \
  X(int64_t, 60, 1, uint64_t, WithNan) \
  X(int64_t, 60, 2, uint64_t, WithInf) \
  X(int64_t, 60, 3, uint64_t, WithNanInf) \
  X(int64_t, 60, 4, uint64_t, WithNan) \
  X(int64_t, 60, 5, uint64_t, WithInf) \
  X(int64_t, 60, 6, uint64_t, WithNanInf) \
  X(int64_t, 60, 7, uint64_t, WithNan) \
  X(int64_t, 61, 0, uint64_t, WithInf) \
  X(int64_t, 61, 1, uint64_t, WithNanInf) \
  X(int64_t, 61, 2, uint64_t, WithNan) \
  X(int64_t, 61, 3, uint64_t, WithInf) \
  X(int64_t, 61, 4, uint64_t, WithNanInf) \
  X(int64_t, 61, 5, uint64_t, WithNan) \
  X(int64_t, 61, 6, uint64_t, WithInf) \
  X(int64_t, 61, 7, uint64_t, WithNanInf) \
  X(int64_t, 62, 0, uint64_t, WithNan) \
  X(int64_t, 62, 1, uint64_t, WithInf) \
  X(int64_t, 62, 2, uint64_t, WithNanInf) \
  X(int64_t, 62, 3, uint64_t, WithNan) \
  X(int64_t, 62, 4, uint64_t, WithInf) \
  X(int64_t, 62, 5, uint64_t, WithNanInf) \
  X(int64_t, 62, 6, uint64_t, WithNan) \
  X(int64_t, 62, 7, uint64_t, WithInf) \
  X(int64_t, 63, 0, uint64_t, WithNan) \
  X(int64_t, 63, 1, uint64_t, WithInf) \
  X(int64_t, 63, 2, uint64_t, WithNanInf) \
  X(int64_t, 63, 3, uint64_t, WithNan) \
  X(int64_t, 63, 4, uint64_t, WithInf) \
  X(int64_t, 63, 5, uint64_t, WithNanInf) \
  X(int64_t, 63, 6, uint64_t, WithNan) \
  X(int64_t, 63, 7, uint64_t, WithInf) \
  X(int64_t, 64, 0, uint64_t, WithNanInf) \
  X(int64_t, 64, 1, uint64_t, WithNan) \
  X(int64_t, 64, 2, uint64_t, WithInf) \
  X(int64_t, 64, 3, uint64_t, WithNanInf) \
  X(int64_t, 64, 4, uint64_t, WithNan) \
  X(int64_t, 64, 5, uint64_t, WithInf) \
  X(int64_t, 64, 6, uint64_t, WithNanInf) \
  X(int64_t, 64, 7, uint64_t, WithNan)
