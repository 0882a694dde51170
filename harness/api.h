// Thin C view of the code under test: one record per codec of the public API (rle.h), plus a switch for the SIMD level.
#ifndef hs_api_h
#define hs_api_h
#include <stdint.h>
#include <stddef.h>

enum { K_RLE, K_SH, K_RLEMMTF, K_LE, K_LES, K_MMTF, K_BITMMTF };
enum { F_BASE, F_PACKED, F_LUT, F_SHORT };
// SIMD levels, lowest to highest, as `--max-simd` has them.
enum { L_NONE, L_SSE2, L_SSE3, L_SSSE3, L_SSE41, L_SSE42, L_AVX, L_AVX2, L_AVX512, L_COUNT };

typedef uint32_t (*hs_fn)(const uint8_t *pIn, const uint32_t inSize, uint8_t *pOut, const uint32_t outSize);

typedef struct
{
  const char *name;
  hs_fn comp, dec;
  int kind, width, gran, single, lut, fam, greedy;
  uint32_t (*bound)(const uint32_t);
} hs_codec;

typedef struct
{
  uint32_t (*rle_compress_bounds)(const uint32_t);
  uint32_t (*rle_decompress_additional_size)();
} hs_misc;

#ifdef __cplusplus
extern "C" {
#endif
const hs_codec *hs_codecs(int *pCount);
int hs_max_level();       // highest level this machine offers.
void hs_set_exactly(int l);
void hs_set_level(int l); // behave as a machine which offers nothing above `l`.
#ifdef __cplusplus
}
#endif
#endif
