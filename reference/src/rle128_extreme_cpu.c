#include "rle.h"
#include "rleX_extreme_common.h"

// Reads the symbol at `index` without ever touching memory beyond `inSize`. Bytes that aren't part of the input are zero.
static inline __m128i rle128_read_symbol(const uint8_t *pIn, const size_t index, const size_t inSize)
{
  __m128i value = _mm_setzero_si128();

  if (index + sizeof(value) <= inSize)
    return _mm_loadu_si128((const __m128i *)&pIn[index]);

  if (index < inSize)
    memcpy(&value, pIn + index, inSize - index);

  return value;
}

#ifndef _MSC_VER
	#define popcnt16 __builtin_popcount
	#define popcnt32 __builtin_popcountl
	#define popcnt64 __builtin_popcountll
#else
	#define popcnt16 __popcnt16
	#define popcnt32 __popcnt
	#define popcnt64 __popcnt64
#endif

#include "rle128_extreme_cpu.h"

#define UNBOUND

#include "rle128_extreme_cpu.h"

#define PACKED

#ifndef PREFER_7_BIT_OR_4_BYTE_COPY
  #define PREFER_7_BIT_OR_4_BYTE_COPY
#endif

#include "rle128_extreme_cpu.h"

#undef UNBOUND

#ifdef PREFER_7_BIT_OR_4_BYTE_COPY
  #undef PREFER_7_BIT_OR_4_BYTE_COPY
#endif

#include "rle128_extreme_cpu.h"
