// The bit packing helpers (bitpack.h) as functions that can be called.
#include <stdint.h>
#include <stddef.h>
#include "rle.h"
#include "simd_platform.h"
#include "bitpack.h"
#define E(f) extern __typeof__(f) f;
E(bitpack_encode1_sse2_aligned) E(bitpack_encode1_sse2_unaligned) E(bitpack_decode1_sse2_aligned) E(bitpack_decode1_sse2_unaligned)
E(bitpack_encode2_sse2_aligned) E(bitpack_encode2_sse2_unaligned) E(bitpack_decode2_sse2_aligned) E(bitpack_decode2_sse2_unaligned)
E(bitpack_encode2_sse2_unaligned_m128i) E(bitpack_decode2_sse2_unaligned_m128i)
E(bitpack_encode3_3_sse2_aligned) E(bitpack_encode3_3_sse2_unaligned) E(bitpack_decode3_3_sse2_aligned) E(bitpack_decode3_3_sse2_unaligned)
E(bitpack_encode3_6_sse2_aligned) E(bitpack_encode3_6_sse2_unaligned) E(bitpack_decode3_6_sse2_aligned) E(bitpack_decode3_6_sse2_unaligned)
E(bitpack_encode3_sse2_unaligned_m128i) E(bitpack_decode3_sse2_unaligned_m128i)
E(bitpack_encode4_sse2_aligned) E(bitpack_encode4_sse2_unaligned) E(bitpack_decode4_sse2_aligned) E(bitpack_decode4_sse2_unaligned)
E(bitpack_encode4_sse2_unaligned_m128i) E(bitpack_decode4_sse2_unaligned_m128i)

// A call returns how far the pointer moved, or -1 if the function does not say.
typedef struct { const char *name; int bits, unit, aligned, group; int64_t (*enc)(const uint8_t *, uint8_t *, size_t), (*dec)(const uint8_t *, uint8_t *, size_t); } hs_bitpack;

#define PLAIN(tag, e, d, N) \
  static int64_t e_##tag(const uint8_t *pIn, uint8_t *pOut, size_t n) { e(pIn, pOut, n); return -1; } \
  static int64_t d_##tag(const uint8_t *pIn, uint8_t *pOut, size_t n) { d(pIn, pOut, n * N / 8); return -1; }
#define RET(tag, e, d, T) \
  static int64_t e_##tag(const uint8_t *pIn, uint8_t *pOut, size_t n) { return e((const T *)pIn, pOut, n) - pOut; } \
  static int64_t d_##tag(const uint8_t *pIn, uint8_t *pOut, size_t n) { return d(pIn, (T *)pOut, n) - pIn; }
PLAIN(1a, bitpack_encode1_sse2_aligned, bitpack_decode1_sse2_aligned, 1)
PLAIN(1u, bitpack_encode1_sse2_unaligned, bitpack_decode1_sse2_unaligned, 1)
PLAIN(2a, bitpack_encode2_sse2_aligned, bitpack_decode2_sse2_aligned, 2)
PLAIN(2u, bitpack_encode2_sse2_unaligned, bitpack_decode2_sse2_unaligned, 2)
RET(2m, bitpack_encode2_sse2_unaligned_m128i, bitpack_decode2_sse2_unaligned_m128i, __m128i)
PLAIN(33a, bitpack_encode3_3_sse2_aligned, bitpack_decode3_3_sse2_aligned, 3)
PLAIN(33u, bitpack_encode3_3_sse2_unaligned, bitpack_decode3_3_sse2_unaligned, 3)
PLAIN(36a, bitpack_encode3_6_sse2_aligned, bitpack_decode3_6_sse2_aligned, 3)
PLAIN(36u, bitpack_encode3_6_sse2_unaligned, bitpack_decode3_6_sse2_unaligned, 3)
RET(3m, bitpack_encode3_sse2_unaligned_m128i, bitpack_decode3_sse2_unaligned_m128i, __m128i)
RET(4a, bitpack_encode4_sse2_aligned, bitpack_decode4_sse2_aligned, uint8_t)
RET(4u, bitpack_encode4_sse2_unaligned, bitpack_decode4_sse2_unaligned, uint8_t)
RET(4m, bitpack_encode4_sse2_unaligned_m128i, bitpack_decode4_sse2_unaligned_m128i, __m128i)

const hs_bitpack hs_bitpacks[] = {
  { "1 bit, aligned", 1, 16, 1, 0, e_1a, d_1a }, { "1 bit", 1, 16, 0, 0, e_1u, d_1u },
  { "2 bits, aligned", 2, 64, 1, 1, e_2a, d_2a }, { "2 bits", 2, 64, 0, 1, e_2u, d_2u }, { "2 bits, any number of vectors", 2, 16, 0, 2, e_2m, d_2m },
  { "3 bits, 3 vectors, aligned", 3, 48, 1, 3, e_33a, d_33a }, { "3 bits, 3 vectors", 3, 48, 0, 3, e_33u, d_33u },
  { "3 bits, 6 vectors, aligned", 3, 96, 1, 4, e_36a, d_36a }, { "3 bits, 6 vectors", 3, 96, 0, 4, e_36u, d_36u }, { "3 bits, any number of vectors", 3, 16, 0, 5, e_3m, d_3m },
  { "4 bits, aligned", 4, 1, 1, 6, e_4a, d_4a }, { "4 bits", 4, 1, 0, 6, e_4u, d_4u }, { "4 bits, any number of vectors", 4, 16, 0, 7, e_4m, d_4m },
};
const int hs_bitpackCount = (int)(sizeof(hs_bitpacks) / sizeof(hs_bitpacks[0]));
