From 3a8ceffa612c45f463a33003be4a461d42723238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:13 +0000
Subject: [PATCH 01/25] fix: don't read past the end of the input in the multi
 byte encoders

The encoders for 16, 24, 32, 48, 64 and 128 bit symbols loaded whole
symbols at the end of the input, reading up to a symbol beyond it (and
beyond inputs shorter than a symbol), and extended runs into whatever
bytes follow the input in memory.
---
 src/rle128_extreme_cpu.c               | 14 ++++++++++++
 src/rle128_extreme_cpu.h               |  6 +++---
 src/rle24_extreme_cpu_encode.h         | 10 ++++-----
 src/rle48_extreme_cpu_encode.h         | 10 ++++-----
 src/rleX_Xsl_multibyte_encoder.h       | 24 ++++++---------------
 src/rleX_Xsl_short.h                   | 30 ++++++--------------------
 src/rleX_Xsl_short_multibyte_encoder.h | 20 ++++-------------
 src/rleX_extreme_common.h              | 18 ++++++++++++++++
 src/rleX_extreme_cpu_encode.h          |  6 +++---
 9 files changed, 65 insertions(+), 73 deletions(-)

diff --git a/src/rle128_extreme_cpu.c b/src/rle128_extreme_cpu.c
index c120286..1a42492 100644
--- a/src/rle128_extreme_cpu.c
+++ b/src/rle128_extreme_cpu.c
@@ -1,6 +1,20 @@
 #include "rle.h"
 #include "rleX_extreme_common.h"
 
+// Reads the symbol at `index` without ever touching memory beyond `inSize`. Bytes that aren't part of the input are zero.
+static inline __m128i rle128_read_symbol(const uint8_t *pIn, const size_t index, const size_t inSize)
+{
+  __m128i value = _mm_setzero_si128();
+
+  if (index + sizeof(value) <= inSize)
+    return _mm_loadu_si128((const __m128i *)&pIn[index]);
+
+  if (index < inSize)
+    memcpy(&value, pIn + index, inSize - index);
+
+  return value;
+}
+
 #ifndef _MSC_VER
 	#define popcnt16 __builtin_popcount
 	#define popcnt32 __builtin_popcountl
diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 006952d..ada89bf 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -47,7 +47,7 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 	const size_t symbolSize = sizeof(symbol_t);
 
 	int64_t count = 0;
-	symbol_t symbol = _mm_xor_si128(_mm_setzero_si128(), _mm_loadu_si128((const symbol_t *)pIn));
+	symbol_t symbol = _mm_xor_si128(_mm_setzero_si128(), rle128_read_symbol(pIn, 0, inSize));
 
 #ifdef PACKED
 	symbol_t lastSymbol = _mm_setzero_si128();
@@ -265,9 +265,9 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 				}
 			}
 
-			symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
+			symbol = rle128_read_symbol(pIn, i, inSize);
 
-			if (i + symbolSize <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
+			if (i + symbolSize * 2 <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
 			{
 				count = symbolSize * 2;
 				i += symbolSize * 2;
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 5fac1a6..3e4e821 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -34,7 +34,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 3;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = (~(symbol_t)rle_read_symbol(pIn, 0, inSize, symbolSize)) & symbolMask;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -131,7 +131,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        const symbol_t next = (symbol_t)rle_read_symbol(pIn, i, inSize, symbolSize);
 
         if (next == symbol)
         {
@@ -142,7 +142,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -352,9 +352,9 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
+      symbol = (symbol_t)rle_read_symbol(pIn, i, inSize, symbolSize);
 
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && (symbol_t)rle_read_symbol(pIn, i + symbolSize, inSize, symbolSize) == symbol)
       {
         count = symbolSize * 2;
         i += symbolSize * 2;
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 82321b6..4924b17 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -34,7 +34,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 6;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = (~(symbol_t)rle_read_symbol(pIn, 0, inSize, symbolSize)) & symbolMask;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -129,7 +129,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        const symbol_t next = (symbol_t)rle_read_symbol(pIn, i, inSize, symbolSize);
 
         if (next == symbol)
         {
@@ -140,7 +140,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -351,9 +351,9 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
+      symbol = (symbol_t)rle_read_symbol(pIn, i, inSize, symbolSize);
 
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && (symbol_t)rle_read_symbol(pIn, i + symbolSize, inSize, symbolSize) == symbol)
       {
         count = symbolSize * 2;
         i += symbolSize * 2;
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 2792827..180fd60 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -38,7 +38,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
   state.lastSymbols[6] = 0xFE * VALUE_BROADCAST;
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = (symbol_t)~rle_read_symbol(pIn, 0, inSize, TYPE_SIZE / 8);
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -177,11 +177,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        const symbol_t next = (symbol_t)rle_read_symbol(pIn, i, inSize, TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -202,7 +198,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -214,7 +210,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -315,17 +311,9 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
+      state.symbol = (symbol_t)rle_read_symbol(pIn, i, inSize, TYPE_SIZE / 8);
 
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && (symbol_t)rle_read_symbol(pIn, i + (TYPE_SIZE / 8), inSize, TYPE_SIZE / 8) == state.symbol)
       {
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 1553dc0..225e2f4 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -772,7 +772,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = (symbol_t)~rle_read_symbol(pIn, 0, inSize, TYPE_SIZE / 8);
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -786,11 +786,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        const symbol_t next = (symbol_t)rle_read_symbol(pIn, i, inSize, TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -811,7 +807,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -823,7 +819,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -858,19 +854,11 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       CONCAT3(_rle, TYPE_SIZE, CONCAT3(_, CODEC, process_symbol))(pIn, pOut, i, &state);
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
+      state.symbol = (symbol_t)rle_read_symbol(pIn, i, inSize, TYPE_SIZE / 8);
 
       const bool symbolWouldFit = i + (TYPE_SIZE / 8) <= inSize;
 
-#ifndef SYMBOL_MASK
-      if (symbolWouldFit && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (symbolWouldFit && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && (symbol_t)rle_read_symbol(pIn, i + (TYPE_SIZE / 8), inSize, TYPE_SIZE / 8) == state.symbol)
       {
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
@@ -879,11 +867,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
       {
         if (symbolWouldFit)
         {
-#ifndef SYMBOL_MASK
-          const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-          const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+          const symbol_t next = (symbol_t)rle_read_symbol(pIn, i, inSize, TYPE_SIZE / 8);
 
           size_t possibleCount = 0;
 
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index e971f8f..9a38ebf 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -44,7 +44,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = (symbol_t)~rle_read_symbol(pIn, 0, inSize, TYPE_SIZE / 8);
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -183,11 +183,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        const symbol_t next = (symbol_t)rle_read_symbol(pIn, i, inSize, TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -321,17 +317,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
+      state.symbol = (symbol_t)rle_read_symbol(pIn, i, inSize, TYPE_SIZE / 8);
 
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && (symbol_t)rle_read_symbol(pIn, i + (TYPE_SIZE / 8), inSize, TYPE_SIZE / 8) == state.symbol)
       {
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
diff --git a/src/rleX_extreme_common.h b/src/rleX_extreme_common.h
index 0e57878..29e7f34 100644
--- a/src/rleX_extreme_common.h
+++ b/src/rleX_extreme_common.h
@@ -3,6 +3,24 @@
 
 #include "simd_platform.h"
 
+#include <stddef.h>
+#include <string.h>
+
+//////////////////////////////////////////////////////////////////////////
+
+// Reads the symbol at `index` from `pIn` without ever touching memory beyond `inSize`. Bytes that aren't part of the input are zero.
+static inline uint64_t rle_read_symbol(const uint8_t *pIn, const size_t index, const size_t inSize, const size_t symbolSize)
+{
+  uint64_t value = 0;
+
+  if (index + symbolSize <= inSize)
+    memcpy(&value, pIn + index, symbolSize);
+  else if (index < inSize)
+    memcpy(&value, pIn + index, inSize - index);
+
+  return value;
+}
+
 //////////////////////////////////////////////////////////////////////////
 
 #define _CONCAT_LITERALS3(a, b, c) a ## b ## c
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index bab39a5..2a7e77a 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -29,7 +29,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
   typedef CONCAT3(uint, TYPE_SIZE, _t) symbol_t;
 
   int64_t count = 0;
-  symbol_t symbol = ~(*((symbol_t *)(pIn)));
+  symbol_t symbol = (symbol_t)~rle_read_symbol(pIn, 0, inSize, sizeof(symbol_t));
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, TYPE_SIZE)(symbol);
@@ -366,9 +366,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
       }
 #endif
 
-      symbol = *(symbol_t *)(&pIn[i]);
+      symbol = (symbol_t)rle_read_symbol(pIn, i, inSize, sizeof(symbol_t));
 
-      if (i + sizeof(symbol_t) <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
+      if (i + sizeof(symbol_t) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
       {
         count = sizeof(symbol_t) * 2;
         i += sizeof(symbol_t) * 2;
-- 
2.43.0


From badc5738f75403bf2ce7dc3445fdb3bfb4224774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:20 +0000
Subject: [PATCH 02/25] fix: low entropy decoders mistook 256 run length
 encoded symbols for none

The count of run length encoded symbols wrapped around to zero, so that
streams in which every byte value is run length encoded were copied
verbatim.
---
 src/rle8_low_entropy_cpu.c       | 2 +-
 src/rle8_low_entropy_short_cpu.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index d5ee063..49f4eaa 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -937,7 +937,7 @@ uint32_t rle8_low_entropy_decompress_with_info(IN const uint8_t *pIn, IN const u
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index d02033c..8ee44bf 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -447,7 +447,7 @@ uint32_t rle8_low_entropy_short_decompress_with_info(IN const uint8_t *pIn, IN c
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
-- 
2.43.0


From fe4d3a4515149211389c65933774001714fec255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:33 +0000
Subject: [PATCH 03/25] fix: low entropy streams could exceed the advertised
 compress bounds

The last byte of a run at the end of the input was always stored as a
run of its own, and a long run at the end of the input was counted as a
single block when deciding which symbols are worth run length encoding.
---
 src/rle8_low_entropy_cpu.c       | 6 +++---
 src/rle8_low_entropy_short_cpu.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 49f4eaa..60cda40 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -293,7 +293,7 @@ bool rle8_low_entropy_get_compress_info(IN const uint8_t *pIn, const uint32_t in
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -380,7 +380,7 @@ bool rle8_low_entropy_get_compress_info_only_max_frequency(IN const uint8_t * pI
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
@@ -521,7 +521,7 @@ uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32
 
     if (pCompressInfo->rle[b])
     {
-      const uint8_t range = (uint8_t)min(inSize - i - 1, 255);
+      const uint8_t range = (uint8_t)min(inSize - i, 255);
 
       uint8_t count = 0;
       size_t j = 1;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 8ee44bf..b17f17b 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -175,7 +175,7 @@ uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const
 
     if (pCompressInfo->rle[b])
     {
-      const uint8_t range = (uint8_t)min(inSize - i - 1, ULTRA_MAX_BLOCK_LENGTH);
+      const uint8_t range = (uint8_t)min(inSize - i, ULTRA_MAX_BLOCK_LENGTH);
 
       uint8_t count = 0;
       size_t j = 1;
@@ -575,7 +575,7 @@ bool rle8_low_entropy_short_get_compress_info(IN const uint8_t *pIn, const uint3
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -662,7 +662,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
-- 
2.43.0


From d9d83cbdf38bf4dce2a438fef3edb14988aecc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:45 +0000
Subject: [PATCH 04/25] fix: rle8m could fail or exceed its advertised compress
 bounds

Splitting a run at a section border takes up to two more bytes, and a
section that expands (at the expense of another one) was refused.
---
 src/rle8_low_entropy_cpu.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 60cda40..39a181b 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -125,7 +125,7 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
+  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1) + 2 * subSections; // each section border can split a run into two.
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -163,7 +163,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
   for (uint32_t i = 0; i < subSections - 1; i++)
   {
-    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * i, subSectionSize, &compressInfo, pOut + index, (uint32_t)(outSize - index));
+    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * i, subSectionSize, &compressInfo, pOut + index, subSectionSize); // the bounds check above covers all sections in total, single sections can exceed their share.
 
     if (size == 0)
       return 0;
@@ -177,7 +177,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
   // Compress last block.
   {
-    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * (subSections - 1), (uint32_t)remainingSize, &compressInfo, pOut + index, (uint32_t)(outSize - index));
+    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * (subSections - 1), (uint32_t)remainingSize, &compressInfo, pOut + index, (uint32_t)remainingSize);
 
     if (size == 0)
       return 0;
-- 
2.43.0


From f3a0b24e80a674dbe83557937195cca07a96a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:45 +0000
Subject: [PATCH 05/25] fix: rle8m_decompress ran past the end of the stream in
 larger buffers

The last section was decoded up to the end of the buffer rather than up
to the stored size of the stream, writing past the end of the output.
---
 src/rle8_low_entropy_cpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 39a181b..06fa4ab 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -238,7 +238,7 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
   // Decode last section.
   {
-    const uint8_t *pEnd = pIn + inSize;
+    const uint8_t *pEnd = pIn + expectedInSize;
 
     const uint32_t size = rle8_low_entropy_decompress_with_info(pCIn, pEnd, &decompressInfo, pOut, (uint32_t)remainingSize);
 
-- 
2.43.0


From f69716418251862608e314cd11a0e9243217a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:12 +0000
Subject: [PATCH 06/25] fix: rle8_mmtf128_compress used an uninitialized bit
 mask

The bits in use of the first copied blocks were accumulated on top of an
undefined value, so that the stream depended on stale register contents.
---
 src/rle8_mmtf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index c5cb7ca..466a55f 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -179,7 +179,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
     const __m128i hi5BitMask = _mm_set1_epi8((uint8_t)0b11111000);
     const __m128i hi6BitMask = _mm_set1_epi8((uint8_t)0b11111100);
 
-    __m128i currentBitMask = _mm_undefined_si128();
+    __m128i currentBitMask = _mm_setzero_si128();
     //__m128i lastOut = _mm_xor_si128(_mm_set1_epi8((int8_t)-1), _mm_loadu_si128((const __m128i *)pIn));
 
     uint8_t *pLastHeader = pOut;
-- 
2.43.0


From 191b6507a440e8bdd30bf48d4ace62ac6b8c8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:12 +0000
Subject: [PATCH 07/25] fix: rle8_mmtf128_compress_bounds was too small

The two stored sizes, the largest copy header and the empty run at the
end of incompressible inputs take up 13 bytes.
---
 src/rle8_mmtf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index 466a55f..fd44c0b 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -28,7 +28,7 @@ uint32_t rle8_mmtf128_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
+  return inSize + sizeof(uint32_t) * 2 + sizeof(uint32_t) + 1; // sizes, largest copy header, empty run.
 }
 
 uint32_t rle8_mmtf256_compress_bounds(const uint32_t inSize)
-- 
2.43.0


From 3d5d1e983b4a44c19cc3ac4487827b062a2144bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:19 +0000
Subject: [PATCH 08/25] fix: rle8_sh_bounds was too small and not what
 rle8_sh_compress checked

Incompressible inputs take up to 20 bytes more than their size, and block
headers add up over the length of the input. With too little space the
payload and the header (written from the back) overwrote each other.
---
 src/rle_sh.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rle_sh.c b/src/rle_sh.c
index f113437..010dd12 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -92,7 +92,10 @@ inline void rle8_sh_consume_bits(rle8_sh_read_header *pHeader, const int8_t bits
 
 uint32_t rle8_sh_bounds(const uint32_t size)
 {
-  return size + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t);
+  // - every copied block can cost up to 39 bits more than its contents, at least 33 of which are regained by the run that follows it.
+  // - every `SH_ENCODED_COPY_BLOCK` (of at least `SH_MIN_ENCODED_COPY_BLOCK_BYTES`) can cost up to 15 bits more than its contents.
+  // - file header, the last block, the end marker & the last (partial) header bytes.
+  return size + size / 128 + 32;
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -268,7 +271,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From 465268d2ac99ebc5e7da07f14b49e7a2fffcccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:03 +0000
Subject: [PATCH 09/25] fix: rle8_multi could exceed the advertised compress
 bounds

Runs of six bytes after more than 254 other bytes take seven bytes, which
added up over the length of the input without limit.
---
 src/rle8_extreme_cpu.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 097b5f2..d322686 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -117,7 +117,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
     else
     {
 #ifndef PACKED
-      if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT)
+      if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG || (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT && i - lastRLE - count + 1 <= 255))
 #else
       if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG)
 #endif
@@ -204,7 +204,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
     const int64_t range = i - lastRLE - count + 1;
 
 #ifndef PACKED
-    if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT)
+    if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG || (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT && i - lastRLE - count + 1 <= 255))
 #else
     if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG)
 #endif
@@ -803,7 +803,7 @@ static int64_t CONCAT3(rle8, CODEC, compress_multi_sse2)(IN const uint8_t *pIn,
         i += _zero;
 
 #ifndef PACKED
-        if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT)
+        if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG || (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT && i - lastRLE - count + 1 <= 255))
 #else
         const int64_t range = i - lastRLE - count + 1;
 
@@ -971,7 +971,7 @@ static int64_t CONCAT3(rle8, CODEC, compress_multi_avx2)(IN const uint8_t *pIn,
         i += _zero;
 
 #ifndef PACKED
-        if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT)
+        if (count >= RLE8_EXTREME_MULTI_MIN_RANGE_LONG || (count >= RLE8_EXTREME_MULTI_MIN_RANGE_SHORT && i - lastRLE - count + 1 <= 255))
 #else
         const int64_t range = i - lastRLE - count + 1;
 
-- 
2.43.0


From bb2138c5213e1eed8ef012f34fd59385854e87b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:03 +0000
Subject: [PATCH 10/25] fix: symlut codecs could exceed the advertised compress
 bounds

The estimated cost of storing a run didn't account for the whole symbol
if it isn't part of the lookup table and took ranges and counts above
0xFFFF (which are stored as four bytes) for two bytes up to 0xFFFFF, so
that runs were stored at a loss, which added up without limit.
---
 src/rleX_Xsl.h       | 2 +-
 src/rleX_Xsl_short.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index 217936e..ba9b558 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -127,7 +127,7 @@ bool CONCAT3(CONCAT3(_rle, TYPE_SIZE, _), CODEC, process_symbol)(IN const uint8_
   const int64_t storedCount = (pState->count / (TYPE_SIZE / 8)) - (RLE8_XSYMLUT_MIN_RANGE_SHORT / (TYPE_SIZE / 8)) + RLE8_XSYMLUT_COUNT_VALUE_OFFSET;
 #endif
 
-  const int64_t penalty = (range <= 0xFFFFF ? (range <= RLE8_XSYMLUT_MAX_TINY_RANGE ? 0 : 2) : 4) + (storedCount <= 0xFFFFF ? (storedCount <= (RLE8_XSYMLUT_MAX_TINY_COUNT) ? 0 : 2) : 4) + (int64_t)(symbolMatchIndex == SYMBOL_COUNT) /* * (TYPE_SIZE / 8) */;
+  const int64_t penalty = (range <= 0xFFFF ? (range <= RLE8_XSYMLUT_MAX_TINY_RANGE ? 0 : 2) : 4) + (storedCount <= 0xFFFF ? (storedCount <= (RLE8_XSYMLUT_MAX_TINY_COUNT) ? 0 : 2) : 4) + (int64_t)(symbolMatchIndex == SYMBOL_COUNT) * (TYPE_SIZE > 16 ? (TYPE_SIZE / 8) - 1 : 1); // the remaining byte is covered by `RLE8_XSYMLUT_MIN_RANGE_SHORT`.
 
   if (pState->count >= RLE8_XSYMLUT_MIN_RANGE_LONG || (pState->count >= RLE8_XSYMLUT_MIN_RANGE_SHORT + penalty))
   {
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 225e2f4..00f1855 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -194,7 +194,7 @@ bool CONCAT3(_rle, TYPE_SIZE, CONCAT3(_, CODEC, process_symbol))(IN const uint8_
     penalty += 2;
 
     if (!is19BitRangeCount)
-      penalty += (range <= 0xFFFFF ? (range <= RLE8_XSYMLUT_SHORT_MAX_TINY_RANGE ? 0 : 2) : 4) + (storedCount <= 0xFFFFF ? (storedCount <= (RLE8_XSYMLUT_SHORT_MAX_TINY_COUNT) ? 0 : 2) : 4);
+      penalty += (range <= 0xFFFF ? (range <= RLE8_XSYMLUT_SHORT_MAX_TINY_RANGE ? 0 : 2) : 4) + (storedCount <= 0xFFFF ? (storedCount <= (RLE8_XSYMLUT_SHORT_MAX_TINY_COUNT) ? 0 : 2) : 4);
   }
 
   if (pState->count >= RLE8_XSYMLUT_SHORT_MIN_RANGE_LONG || (pState->count >= RLE8_XSYMLUT_SHORT_MIN_RANGE_SHORT + penalty))
-- 
2.43.0


From 9bf0d3bfebc16e7bf5b553a9817d309a06836bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:54 +0000
Subject: [PATCH 11/25] fix: rle8_packed_single could exceed the advertised
 compress bounds

Going back to a run that was skipped costs a long header; with the short
minimum run length of the packed variant two more runs did not make up for it,
so the expansion could accumulate beyond the bounds.
---
 src/rle8_extreme_cpu.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index d322686..83ebe7d 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -1108,6 +1108,7 @@ static int64_t CONCAT3(rle8, CODEC, compress_single_sse2)(IN const uint8_t *pIn,
   int64_t lastRLE = 0;
   size_t wastedChances = 0;
   size_t firstWastedChanceIndex = 0;
+  int64_t wastedSymbols = 0;
 
   const __m128i symbol128 = _mm_set1_epi8(maxFreqSymbol);
   const int64_t endInSize128 = inSize - sizeof(symbol128);
@@ -1245,13 +1246,15 @@ static int64_t CONCAT3(rle8, CODEC, compress_single_sse2)(IN const uint8_t *pIn,
           else
           {
             wastedChances++;
+            wastedSymbols += count;
 
             if (wastedChances == 1 || i - firstWastedChanceIndex > 255)
             {
               firstWastedChanceIndex = i - count;
               wastedChances = 1;
+              wastedSymbols = count;
             }
-            else if (wastedChances > 2)
+            else if (wastedChances > 2 && wastedSymbols >= (int64_t)(1 + 1 + 4 + (wastedChances - 1) * RLE8_EXTREME_SINGLE_SIZE_OF_SYMBOL_HEADER)) // only if the runs are worth their headers.
             {
               i = firstWastedChanceIndex;
               wastedChances = 0;
-- 
2.43.0


From ee16d8cf9635db88e073685603b2e41612a3d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:39 +0000
Subject: [PATCH 12/25] fix: --test overlooked wrong decompressed sizes and
 bytes that were never written

The decompressed buffer was cleared over `decompressedSize` (still 0) bytes, so
it kept the previous codec's output, and the size that was returned was only
compared to 0.
---
 src/main.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 89de070..879094d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -944,7 +944,7 @@ int main(int argc, char **pArgv)
         for (size_t i = compressedSize; i < compressedBufferSize; i++)
           pCompressedData[i] = ~pCompressedData[i];
 
-        memset(pDecompressedData, 0, decompressedSize);
+        memset(pDecompressedData, 0, fileSize);
       }
 
       if (noDelays)
@@ -1068,6 +1068,16 @@ int main(int argc, char **pArgv)
 
       puts("");
 
+      if (decompressedSize != fileSize32)
+      {
+        printf("Validation Failed. (Decompressed to %" PRIu32 " instead of %" PRIu32 " bytes)\n", decompressedSize, fileSize32);
+
+        if (isTestRun)
+          return -1;
+
+        continue;
+      }
+
       if (!Validate(pUncompressedData, pDecompressedData, fileSize))
       {
         if (isTestRun)
-- 
2.43.0


From 8118a4ba6b8d226c3fdc28a887a3055537215fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:39 +0000
Subject: [PATCH 13/25] fix: the tool reported success when the input file
 could not be read

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 879094d..5cf49f7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -690,6 +690,7 @@ int main(int argc, char **pArgv)
     }
   }
 
+  int exitCode = 1;
   size_t fileSize = 0;
   uint32_t compressedBufferSize = 0;
   uint8_t *pUncompressedData = NULL;
@@ -1088,6 +1089,7 @@ int main(int argc, char **pArgv)
 
   //////////////////////////////////////////////////////////////////////////
 
+  exitCode = 0;
   goto epilogue;
 
 epilogue:
@@ -1098,7 +1100,7 @@ epilogue:
   ALIGNED_FREE(pDecompressedData);
   ALIGNED_FREE(pCompressedData);
 
-  return 0;
+  return exitCode;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4d4a15372ba6e8ea143394a2f9c1085ffda79289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:39 +0000
Subject: [PATCH 14/25] fix: --analyze counted lengths 32 bits too high and
 read behind the file's data

__builtin_clz takes an unsigned int; the symbols at the end of the data were
compared to what happened to lie behind it; the aligned length differences were
given relative to the unaligned number of repetitions.
---
 src/main.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/main.c b/src/main.c
index 5cf49f7..ea3147a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1304,7 +1304,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       if (i < j)
         continue;
 
-      const bool match = memcmp(pData + i, pData + i - j, j) == 0;
+      const bool match = i + j <= size && memcmp(pData + i, pData + i - j, j) == 0;
 
       rle_data_t *pRLE = &byRLE[j - 1];
 
@@ -1338,7 +1338,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
             pRLE->emptyLengthByBits[index]++;
@@ -1368,7 +1368,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
           unsigned long index;
           _BitScanReverse64(&index, pRLE->currentLength);
 #else
-          const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+          const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
           pRLE->rleLengthByBits[index]++;
@@ -1381,9 +1381,9 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
 #ifdef _MSC_VER
           unsigned long lastNonLengthBits;
-          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength);
+          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength | 1);
 #else
-          const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->lastNonLength);
+          const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->lastNonLength | 1);
 #endif
 
           pRLE->copyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1429,7 +1429,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
               unsigned long index;
               _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-              const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+              const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
               pRLE->alignedEmptyLengthByBits[index]++;
@@ -1459,7 +1459,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
             pRLE->alignedRleLengthByBits[index]++;
@@ -1472,9 +1472,9 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
 #ifdef _MSC_VER
             unsigned long lastNonLengthBits;
-            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength);
+            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength | 1);
 #else
-            const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->alignedLastNonLength);
+            const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->alignedLastNonLength | 1);
 #endif
 
             pRLE->alignedCopyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1513,7 +1513,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
       pRLE->emptyLengthByBits[index]++;
@@ -1529,7 +1529,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
       pRLE->rleLengthByBits[index]++;
@@ -1547,7 +1547,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
       pRLE->alignedEmptyLengthByBits[index]++;
@@ -1563,7 +1563,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
       pRLE->alignedRleLengthByBits[index]++;
@@ -1655,7 +1655,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
         printf("%3" PRIi8 " | ", (int8_t)j - 15);
 
       for (size_t k = 0; k < 32; k++)
-        printf("%4.1f ", pRLE->alignedCopyDiffVsCountDiff[j * 32 + k] / (double)pRLE->totalRleCount * 100.0);
+        printf("%4.1f ", pRLE->alignedCopyDiffVsCountDiff[j * 32 + k] / (double)pRLE->alignedTotalRleCount * 100.0);
 
       puts("");
     }
-- 
2.43.0


From dadf0f1368f8b12b63cfb425ad70611d7499b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:39 +0000
Subject: [PATCH 15/25] fix: the fuzzer only noticed differences in the highest
 bit of most bytes

_mm256_movemask_epi8 of the xored bytes only looks at their highest bits.
---
 src/rle_fuzz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index d786f95..3a80a01 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -481,7 +481,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_load_si256((__m256i *)(pBufferA + offset)), _mm256_load_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
     else
@@ -507,7 +507,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_loadu_si256((__m256i *)(pBufferA + offset)), _mm256_loadu_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
   }
-- 
2.43.0


From a01d2098b3a464ba190fcf153d828f48906f3e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:39 +0000
Subject: [PATCH 16/25] fix: --fuzz-random used the bare clock as random data

The generator was seeded again on every call.
---
 src/rle_fuzz.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index 3a80a01..60eba63 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -102,6 +102,7 @@ void fuzz_read_rand(__m128i *pOut)
   {
     last[0] = _mm_set_epi64x(GetCurrentTimeTicks(), __rdtsc());
     last[1] = _mm_set_epi64x(~__rdtsc(), ~GetCurrentTimeTicks());
+    initialized = true;
   }
 
   const __m128i r = _mm_aesdec_si128(last[0], last[1]);
-- 
2.43.0


From 6cd04b9ee245cf922cc34a0fe761fbf30170ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:19 +0000
Subject: [PATCH 17/25] fix: sizes beyond what rle_compress_bounds supports
 were compressed without looking at the output size

rle_compress_bounds returns 0 for inputs of more than 1 GiB, so any output size
passed the check of the compressors.
---
 src/rle128_extreme_cpu.h               | 2 +-
 src/rle24_extreme_cpu.h                | 2 +-
 src/rle24_extreme_cpu_encode.h         | 2 +-
 src/rle48_extreme_cpu.h                | 2 +-
 src/rle48_extreme_cpu_encode.h         | 2 +-
 src/rle8_extreme_cpu.h                 | 4 ++--
 src/rle8_mmtf.c                        | 2 +-
 src/rleX_Xsl.h                         | 4 ++--
 src/rleX_Xsl_multibyte_encoder.h       | 2 +-
 src/rleX_Xsl_short.h                   | 6 +++---
 src/rleX_Xsl_short_multibyte_encoder.h | 2 +-
 src/rleX_extreme_cpu.h                 | 2 +-
 src/rleX_extreme_cpu_encode.h          | 2 +-
 13 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index ada89bf..eb907d5 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -31,7 +31,7 @@
 
 uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+	if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
 		return 0;
 
 	size_t index = 0;
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index a453a1b..3d31547 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 3e4e821..f24f613 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   size_t index = 0;
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 17d79a2..319757e 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 4924b17..c899e92 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   size_t index = 0;
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 83ebe7d..df038dc 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -85,7 +85,7 @@ static void CONCAT3(rle8, CODEC, decompress_single_avx512f)(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   rle_extreme_t header;
@@ -345,7 +345,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
 
 uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   rle_extreme_t header;
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index fd44c0b..7819868 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -152,7 +152,7 @@ inline static uint8_t *bitpack_encode3_simple_sse2_unaligned_m128i(const __m128i
 
 uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize) || rle8_mmtf128_compress_bounds(inSize) == 0)
     return 0;
 
   uint32_t *pHeader = (uint32_t *)pOut;
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index ba9b558..31331c5 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -268,7 +268,7 @@ bool CONCAT3(CONCAT3(_rle, TYPE_SIZE, _), CODEC, process_symbol)(IN const uint8_
 #if TYPE_SIZE == 8
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -507,7 +507,7 @@ static int64_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress_avx2)(IN cons
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 180fd60..92842b5 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 00f1855..9713b8e 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -380,7 +380,7 @@ uint8_t rle8_single_compress_get_approx_optimal_symbol_avx2(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8_, CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -684,7 +684,7 @@ static int64_t CONCAT3(rle8_, CODEC, compress_avx2)(IN const uint8_t *pIn, const
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   _DetectCPUFeatures();
@@ -745,7 +745,7 @@ size_t CONCAT3(rleX_Xsl_short_get_match_length, CODEC, TYPE_SIZE)(const uintXX_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index 9a38ebf..1c603f2 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index 49b5125..418d350 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -46,7 +46,7 @@
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index 2a7e77a..d031947 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -13,7 +13,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize) || rle_compress_bounds(inSize) == 0)
     return 0;
 
   size_t index = 0;
-- 
2.43.0


From 53757682cc9d0fe1547e689b8159bfc77bdb8df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:23 +0000
Subject: [PATCH 18/25] fix: low entropy and sh compressors wrote outside the
 output for sizes close to 4 GiB

Their bounds wrapped around, so that almost any output size passed the check.
---
 src/rle8_low_entropy_cpu.c       | 8 +++++---
 src/rle8_low_entropy_short_cpu.c | 8 +++++---
 src/rle_sh.c                     | 6 ++++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 06fa4ab..8101747 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,12 +5,14 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize) || rle8_low_entropy_compress_bounds(inSize) == 0)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -51,7 +53,7 @@ uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize,
 
 uint32_t rle8_low_entropy_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize) || rle8_low_entropy_compress_bounds(inSize) == 0)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index b17f17b..fe7de4a 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -15,12 +15,14 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
 
 uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize) || rle8_low_entropy_compress_bounds(inSize) == 0)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -61,7 +63,7 @@ uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t i
 
 uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize) || rle8_low_entropy_compress_bounds(inSize) == 0)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
diff --git a/src/rle_sh.c b/src/rle_sh.c
index 010dd12..8b78171 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -95,7 +95,9 @@ uint32_t rle8_sh_bounds(const uint32_t size)
   // - every copied block can cost up to 39 bits more than its contents, at least 33 of which are regained by the run that follows it.
   // - every `SH_ENCODED_COPY_BLOCK` (of at least `SH_MIN_ENCODED_COPY_BLOCK_BYTES`) can cost up to 15 bits more than its contents.
   // - file header, the last block, the end marker & the last (partial) header bytes.
-  return size + size / 128 + 32;
+  const uint64_t bounds = (uint64_t)size + size / 128 + 32;
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -271,7 +273,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize) || rle8_sh_bounds(inSize) == 0)
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From 3ca9633e8fa8264cbf710d7421760e90765d085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 19/25] fix: AVX2, FMA and AVX-512 were used on systems that
 did not enable their registers

---
 src/simd_platform.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/simd_platform.c b/src/simd_platform.c
index eef735e..fd39517 100644
--- a/src/simd_platform.c
+++ b/src/simd_platform.c
@@ -60,6 +60,7 @@ void _DetectCPUFeatures()
   int32_t info[4];
   cpuid(info, 0);
   int32_t idCount = info[0];
+  bool osSupportsAVX512 = false;
 
   if (idCount >= 0x1)
   {
@@ -72,7 +73,8 @@ void _DetectCPUFeatures()
     if (osUsesXSAVE_XRSTORE && cpuAVXSuport)
     {
       uint64_t xcrFeatureMask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
-      avxSupported = (xcrFeatureMask & 0x6) != 0;
+      avxSupported = (xcrFeatureMask & 0x6) == 0x6; // XMM & YMM state.
+      osSupportsAVX512 = (xcrFeatureMask & 0xE6) == 0xE6; // ... & opmask, upper halves of ZMM0-15, ZMM16-31.
     }
 
     sseSupported = (cpuInfo[3] & (1 << 25)) != 0;
@@ -81,7 +83,7 @@ void _DetectCPUFeatures()
     ssse3Supported = (cpuInfo[2] & (1 << 9)) != 0;
     sse41Supported = (cpuInfo[2] & (1 << 19)) != 0;
     sse42Supported = (cpuInfo[2] & (1 << 20)) != 0;
-    fma3Supported = (cpuInfo[2] & (1 << 12)) != 0;
+    fma3Supported = avxSupported && (cpuInfo[2] & (1 << 12)) != 0;
     aesNiSupported = (cpuInfo[2] & (1 << 25)) != 0;
   }
 
@@ -90,22 +92,22 @@ void _DetectCPUFeatures()
     int32_t cpuInfo[4];
     cpuid(cpuInfo, 7);
 
-    avx2Supported = (cpuInfo[1] & (1 << 5)) != 0;
-    avx512FSupported = (cpuInfo[1] & 1 << 16) != 0;
-    avx512PFSupported = (cpuInfo[1] & 1 << 26) != 0;
-    avx512ERSupported = (cpuInfo[1] & 1 << 27) != 0;
-    avx512CDSupported = (cpuInfo[1] & 1 << 28) != 0;
-    avx512BWSupported = (cpuInfo[1] & 1 << 30) != 0;
-    avx512DQSupported = (cpuInfo[1] & 1 << 17) != 0;
-    avx512VLSupported = (cpuInfo[1] & 1 << 31) != 0;
-    avx512IFMASupported = (cpuInfo[1] & 1 << 21) != 0;
-    avx512VBMISupported = (cpuInfo[2] & 1 << 1) != 0;
-    avx512VNNISupported = (cpuInfo[2] & 1 << 11) != 0;
-    avx512VBMI2Supported = (cpuInfo[2] & 1 << 6) != 0;
-    avx512POPCNTDQSupported = (cpuInfo[2] & 1 << 14) != 0;
-    avx512BITALGSupported = (cpuInfo[2] & 1 << 12) != 0;
-    avx5124VNNIWSupported = (cpuInfo[3] & 1 << 2) != 0;
-    avx5124FMAPSSupported = (cpuInfo[3] & 1 << 3) != 0;
+    avx2Supported = avxSupported && (cpuInfo[1] & (1 << 5)) != 0;
+    avx512FSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 16) != 0;
+    avx512PFSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 26) != 0;
+    avx512ERSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 27) != 0;
+    avx512CDSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 28) != 0;
+    avx512BWSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 30) != 0;
+    avx512DQSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 17) != 0;
+    avx512VLSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 31) != 0;
+    avx512IFMASupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 21) != 0;
+    avx512VBMISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 1) != 0;
+    avx512VNNISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 11) != 0;
+    avx512VBMI2Supported = osSupportsAVX512 && (cpuInfo[2] & 1 << 6) != 0;
+    avx512POPCNTDQSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 14) != 0;
+    avx512BITALGSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 12) != 0;
+    avx5124VNNIWSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 2) != 0;
+    avx5124FMAPSSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 3) != 0;
   }
 
   _CpuFeaturesDetected = true;
-- 
2.43.0


From bb3c79b91758c499e8b9a67c91e37395b5f82305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:42 +0000
Subject: [PATCH 20/25] fix: bitpack_encode3_sse2_unaligned_m128i packed the
 vectors after a group of three from the wrong place

---
 src/bitpack.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bitpack.h b/src/bitpack.h
index 7f7e5cd..97feb35 100644
--- a/src/bitpack.h
+++ b/src/bitpack.h
@@ -425,6 +425,8 @@ inline uint8_t * bitpack_encode3_sse2_unaligned_m128i(const __m128i *pIn, uint8_
     const __m128i p1 = _mm_loadu_si128(pIn + 1);
     const __m128i p2 = _mm_loadu_si128(pIn + 2);
 
+    pIn += 3;
+
     const __m128i p01p = _mm_or_si128(p0, _mm_slli_epi16(p1, 3));
     const __m128i p2p = _mm_slli_epi16(_mm_and_si128(p2, patternLow2), 6);
 
-- 
2.43.0


From 9e04179e7d13a16ce27be7d3d67e905326f9d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:42 +0000
Subject: [PATCH 21/25] fix: rle8m_compress wrote outside the output for
 numbers of sections whose bound exceeds 32 bits

---
 src/rle8_low_entropy_cpu.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 8101747..34bc7cb 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -127,12 +127,14 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1) + 2 * subSections; // each section border can split a run into two.
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + (uint64_t)subSections - 1 + 1) + 2 * (uint64_t)subSections; // each section border can split a run into two.
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || rle8m_compress_bounds(subSections, inSize) == 0 || subSections == 0)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
-- 
2.43.0


From 088f6c1206130317a7876d541c45096b114d7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:17 +0000
Subject: [PATCH 22/25] fix: rle8m_opencl_decompress wrote the section offsets
 before making room for them

Without a preceding rle8m_opencl_init the offsets were written to NULL, with more sections
than it was initialized for behind the end of the allocation (which was then replaced by a
new, uninitialized one).
---
 src/rle8_ocl.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 0ae3045..59ddc25 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -290,6 +290,10 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
 
   const uint32_t subSectionSize = (uint32_t)(expectedOutSize / subSections);
 
+  // This (re-)allocates `pSubSectionOffsets` if there's not enough space for all sub sections.
+  if (!rle8m_opencl_init(expectedInSize - index, expectedOutSize, subSections))
+    return 0;
+
   pSubSectionOffsets[0] = 0;
 
   for (size_t i = 1; i < subSections; i++)
@@ -321,12 +325,7 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
   clock_t time;
 #endif
   
-  bool success = rle8m_opencl_init(expectedInSize - index, expectedOutSize, subSections);
-
-  if (!success)
-    goto epilogue;
-
-  success = false;
+  bool success = false;
 
 #ifdef ENABLE_LOGGING
   time = clock();
-- 
2.43.0


From 5fa38c47d4ef7a4854bc657c0d9d51fd864e9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:17 +0000
Subject: [PATCH 23/25] fix: rle8m_opencl_init freed the list of platforms
 twice if it failed early after an earlier success

---
 src/rle8_ocl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 59ddc25..cfc1145 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -178,6 +178,7 @@ epilogue:
     rle8m_opencl_destroy();
 
   free(pPlatforms);
+  pPlatforms = NULL;
 
   return success;
 }
-- 
2.43.0


From b4131043c8e2ad424d23ed02fc7d9e567f992f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:17 +0000
Subject: [PATCH 24/25] fix: rle8m_opencl_init used an uninitialized platform
 if the platforms could not be retrieved

---
 src/rle8_ocl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index cfc1145..8e9fa44 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -82,7 +82,11 @@ bool rle8m_opencl_init(const size_t inputDataSize, const size_t outputDataSize,
     goto epilogue;
 
   ret = clGetPlatformIDs(platformCount, pPlatforms, NULL);
-  ret |= clGetDeviceIDs(pPlatforms[0], CL_DEVICE_TYPE_GPU, 1, &deviceID, &platformCount);
+
+  if (ret != CL_SUCCESS)
+    goto epilogue;
+
+  ret = clGetDeviceIDs(pPlatforms[0], CL_DEVICE_TYPE_GPU, 1, &deviceID, &platformCount);
 
   if (ret != CL_SUCCESS)
     goto epilogue;
-- 
2.43.0


From 36dca8b2f3525404284b5b3ee3fd571682222f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:00 +0000
Subject: [PATCH 25/25] fix: --sd left the first counted run out of the
 standard deviation, and divided by zero for two runs

---
 src/main.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index ea3147a..d55af5a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -853,7 +853,7 @@ int main(int argc, char **pArgv)
         if (runTime < fastestCompresionTime)
           fastestCompresionTime = runTime;
 
-        if (showStdDev && compressionRuns > 0)
+        if (showStdDev && compressionRuns >= 0)
         {
           if (individualRunsCapacity <= individualRunsCount)
           {
@@ -898,7 +898,7 @@ int main(int argc, char **pArgv)
           stdDevNs += diff * diff;
         }
 
-        stdDevNs = sqrt(stdDevNs / (double)(individualRunsCount - 1));
+        stdDevNs = sqrt(stdDevNs / (double)(max(individualRunsCount, 2) - 1));
 
         encodePlusStdDevMiBs = (fileSize / (double)(1024 * 1024)) / ((meanNs + stdDevNs) / 1e9);
         encodeMinusStdDevMiBs = (fileSize / (double)(1024 * 1024)) / ((meanNs - stdDevNs) / 1e9);
@@ -988,7 +988,7 @@ int main(int argc, char **pArgv)
         if (runTime < fastestDecompresionTime)
           fastestDecompresionTime = runTime;
 
-        if (showStdDev && decompressionRuns > 0)
+        if (showStdDev && decompressionRuns >= 0)
         {
           if (individualRunsCapacity <= individualRunsCount)
           {
@@ -1056,7 +1056,7 @@ int main(int argc, char **pArgv)
           stdDevNs += diff * diff;
         }
 
-        stdDevNs = sqrt(stdDevNs / (double)(individualRunsCount - 1));
+        stdDevNs = sqrt(stdDevNs / (double)(max(individualRunsCount, 2) - 1));
 
         decodePlusStdDevMiBs = (fileSize / (double)(1024 * 1024)) / ((meanNs + stdDevNs) / 1e9);
         decodeMinusStdDevMiBs = (fileSize / (double)(1024 * 1024)) / ((meanNs - stdDevNs) / 1e9);
-- 
2.43.0

