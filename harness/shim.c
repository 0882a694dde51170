#include "rle.h"
#include "simd_platform.h"
#include "api.h"

#define B(kind) bound_##kind
static uint32_t bound_K_RLE(const uint32_t n) { return rle_compress_bounds(n); }
static uint32_t bound_K_SH(const uint32_t n) { return rle8_sh_bounds(n); }
static uint32_t bound_K_RLEMMTF(const uint32_t n) { return rle8_mmtf128_compress_bounds(n); }
static uint32_t bound_K_LE(const uint32_t n) { return rle8_low_entropy_compress_bounds(n); }
static uint32_t bound_K_LES(const uint32_t n) { return rle8_low_entropy_short_compress_bounds(n); }
static uint32_t bound_K_MMTF(const uint32_t n) { return mmtf_bounds(n); }
static uint32_t bound_K_BITMMTF(const uint32_t n) { return bitmmtf_bounds(n); }

static const hs_codec table[] = {
#define X(key, c, d, kind, w, gran, single, lut, fam, greedy) { #key, c, d, kind, w, gran, single, lut, fam, greedy, B(kind) },
#include "codecs.def"
#undef X
};

const hs_codec *hs_codecs(int *pCount)
{
  *pCount = (int)(sizeof(table) / sizeof(table[0]));
  return table;
}

static bool have[L_COUNT], haveMore[15];
static bool *const more[15] = { &avx512PFSupported, &avx512ERSupported, &avx512CDSupported, &avx512BWSupported, &avx512DQSupported, &avx512VLSupported, &avx512IFMASupported, &avx512VBMISupported, &avx512VNNISupported, &avx512VBMI2Supported, &avx512POPCNTDQSupported, &avx512BITALGSupported, &avx5124VNNIWSupported, &avx5124FMAPSSupported, &fma3Supported };
static bool snapped = false;

static void snap()
{
  if (snapped)
    return;

  _DetectCPUFeatures();
  have[L_NONE] = true;
  have[L_SSE2] = sse2Supported;
  have[L_SSE3] = sse3Supported;
  have[L_SSSE3] = ssse3Supported;
  have[L_SSE41] = sse41Supported;
  have[L_SSE42] = sse42Supported;
  have[L_AVX] = avxSupported;
  have[L_AVX2] = avx2Supported;
  have[L_AVX512] = avx512FSupported;
  for (int i = 0; i < 15; i++) haveMore[i] = *more[i];
  snapped = true;
}

int hs_max_level()
{
  snap();
  int m = 0;
  while (m + 1 < L_COUNT && have[m + 1])
    m++;
  return m;
}

void hs_set_level(int l)
{
  snap();
  sse2Supported = have[L_SSE2] && l >= L_SSE2;
  sse3Supported = have[L_SSE3] && l >= L_SSE3;
  ssse3Supported = have[L_SSSE3] && l >= L_SSSE3;
  sse41Supported = have[L_SSE41] && l >= L_SSE41;
  sse42Supported = have[L_SSE42] && l >= L_SSE42;
  avxSupported = have[L_AVX] && l >= L_AVX;
  avx2Supported = have[L_AVX2] && l >= L_AVX2;
  avx512FSupported = have[L_AVX512] && l >= L_AVX512;
  for (int i = 0; i < 14; i++) *more[i] = haveMore[i] && l >= L_AVX512;
  fma3Supported = haveMore[14] && l >= L_AVX2;
}

void hs_set_exactly(int l) // and none of the extensions that are no level.
{
  hs_set_level(l);
  for (int i = 0; i < 15; i++) *more[i] = false;
  aesNiSupported = false;
}
