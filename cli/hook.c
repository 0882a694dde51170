// Sits between the command line tool and the codecs: records every call, and makes a chosen call misbehave.
//  HS_LOG   file (already sized) that receives one record per top-level codec call
//  HS_FAULT "<by> <which> <kind> <a> <b>"   by: 0 nothing, 1 the n-th call, 2 every call of function number n, 3 call number n / 1000 of function number n % 1000
//  HS_STOP  leave the process (exit 78) when this many calls have been made
//  HS_DUMP  file that receives the input of the call with the fault
//  HS_OFFER what the machine offers: nothing above this level (0 none, 1 sse2, 2 sse3, 3 ssse3, 4 sse4.1, 5 sse4.2, 6 avx, 7 avx2, 8 avx512f)
//  HS_CLOCK "<seed> <from> <to>"   time is simulated: it passes only in codec calls (each takes from..to ns, chosen by seed and call) and while sleeping
#define _GNU_SOURCE
#include "simd_platform.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
typedef uint32_t (*fn)(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
typedef struct { uint32_t magic, func, inSize, outSize, ret, fault, flagsBefore, flagsAfter; uint64_t inHash, outHash; double info; uint64_t start, took; } record;
enum { F_NONE, F_ZERO, F_SIZE, F_FLIP, F_UNWRITTEN, F_BEHIND };
static struct { int init; record *log; size_t cap, count; long by, which, kind; unsigned long a, b; long stop; const char *dump; long nth; int depth, faulted; const uint8_t *orig; uint32_t origSize; int behindArmed; uint32_t behindSize; uint8_t behind[4]; int clock; unsigned long seed, from, to; uint64_t now; unsigned reads; int limited, offer, offered; } S;
static uint64_t hash(const uint8_t *p, size_t n) { uint64_t h = 0x9E3779B97F4A7C15ull ^ n; for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001B3ull, h ^= h >> 29; return h; }
static double info(const uint8_t *p, size_t n) // entropy of the bytes, relative to that of as many equally frequent symbols
{
  size_t h[256] = { 0 }, k = 0; double r = 0;
  for (size_t i = 0; i < n; i++) h[p[i]]++;
  for (size_t i = 0; i < 256; i++) if (h[i]) { k++; r += h[i] * (log2((double)n) - log2((double)h[i])) / n; }
  return k > 1 ? r / log2((double)k) : -1;
}
static bool *const flag[] = { &sseSupported, &sse2Supported, &sse3Supported, &ssse3Supported, &sse41Supported, &sse42Supported, &avxSupported, &avx2Supported, &fma3Supported, &avx512FSupported, &avx512PFSupported, &avx512ERSupported, &avx512CDSupported, &avx512BWSupported, &avx512DQSupported, &avx512VLSupported, &avx512IFMASupported, &avx512VBMISupported, &avx512VNNISupported, &avx512VBMI2Supported, &avx512POPCNTDQSupported, &avx512BITALGSupported, &avx5124VNNIWSupported, &avx5124FMAPSSupported };
#define FLAGS (sizeof(flag) / sizeof(*flag))
static uint32_t flags() { uint32_t r = 0; for (size_t i = 0; i < FLAGS; i++) r |= (uint32_t)!!*flag[i] << i; return r; }
static void init()
{
  S.init = 1;
  const char *s = getenv("HS_LOG");
  if (s) { int fd = open(s, O_RDWR); struct stat st; if (fd >= 0 && !fstat(fd, &st)) { S.cap = st.st_size / sizeof(record); S.log = (record *)mmap(NULL, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (S.log == MAP_FAILED) S.log = NULL; close(fd); } }
  if ((s = getenv("HS_FAULT"))) sscanf(s, "%ld %ld %ld %lu %lu", &S.by, &S.which, &S.kind, &S.a, &S.b);
  if ((s = getenv("HS_STOP"))) S.stop = atol(s);
  S.dump = getenv("HS_DUMP");
  if ((s = getenv("HS_OFFER"))) { S.limited = 1; S.offer = atoi(s); }
  if ((s = getenv("HS_CLOCK"))) { sscanf(s, "%lu %lu %lu", &S.seed, &S.from, &S.to); S.clock = 1; S.now = 1700000000ull * 1000000000ull + S.seed % 1000000007ull; }
}
static uint32_t hook(uint32_t func, int isDec, fn real, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize)
{
  if (!S.init) init();
  if (S.depth) return real(pIn, inSize, pOut, outSize);
  if (S.stop && (long)S.count >= S.stop) _exit(78);
  record r; memset(&r, 0, sizeof(r));
  r.magic = 0x4C4C4143; r.func = func; r.inSize = inSize; r.outSize = outSize; r.inHash = pIn ? hash(pIn, inSize) : 0; r.flagsBefore = flags();
  if (!isDec) { S.orig = pIn; S.origSize = inSize; S.behindArmed = 0; }
  const int pick = S.by == 1 ? S.which == (long)S.count : S.by == 2 ? S.which == (long)func : S.by == 3 ? S.which % 1000 == (long)func && S.nth++ == S.which / 1000 : 0;
  uint8_t *pOld = NULL;
  if (pick && S.kind == F_UNWRITTEN && isDec && S.origSize) { pOld = (uint8_t *)malloc(S.origSize); memcpy(pOld, pOut, S.origSize); }
  const size_t me = S.count++;
  r.start = S.now;
  if (S.clock) { uint64_t x = (S.seed + 1) * 0x9E3779B97F4A7C15ull + me * 0xD1B54A32D192ED03ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; r.took = S.from + x % (S.to - S.from + 1); S.now += r.took; S.reads = 0; }
  if (S.log && me < S.cap) S.log[me] = r;
  S.depth++;
  uint32_t ret = real(pIn, inSize, pOut, outSize);
  S.depth--;
  const uint32_t n = isDec && ret < S.origSize ? ret : S.origSize; // decompressed bytes that matter
  if (pick && ret)
    switch (S.kind)
    {
    case F_ZERO: ret = 0; r.fault = 1; break;
    case F_SIZE: if (isDec) { uint32_t v = (uint32_t)(S.a % ((uint64_t)2 * S.origSize + 1)); if (v == S.origSize) v = S.origSize + 1; ret = v; r.fault = 1; } break;
    case F_FLIP: if (isDec && n) { uint8_t m = (uint8_t)(S.b % 255 + 1); pOut[S.a % n] ^= m; r.fault = 1; } break;
    case F_UNWRITTEN:
      if (isDec && n)
      {
        size_t o = S.a % n, l = S.b % (n - o) + 1, d = 0;
        if (S.a >= 1ul << 40) { size_t e = n; if (S.b & 1) while (e > 2 && S.orig[e - 1] == S.orig[e - 2]) e--; l = S.b % (e < 200 ? e : 200) + 1; if (S.b & 1) l = e < 2 ? e : 2; o = e - l; } // the end of it
        for (size_t i = 1; i < l; i++) d |= S.orig[o + i] != S.orig[o];
        memcpy(pOut + o, pOld + o, l); r.fault = d ? 1 : 2; // a run of one value may equal what the buffer was cleared to
      }
      break;
    case F_BEHIND:
      if (!isDec) { S.behindArmed = 0; if (ret + 4 <= outSize && ret + 4 <= inSize + 64) { S.behindArmed = 1; S.behindSize = ret; memcpy(S.behind, pOut + ret, 4); } }
      break;
    }
  if (S.kind == F_BEHIND && isDec && S.behindArmed && (S.by == 1 || S.by == 2) && inSize == S.behindSize) // a decoder whose output depends on one or all of the four bytes behind the stream
  {
    r.fault = n ? 1 : 0;
    const uint32_t at = S.b % 8 < 4 ? S.b % 4 : 0, len = S.b % 8 < 4 ? 1 : 4;
    if (memcmp(pIn + inSize + at, S.behind + at, len) != 0 && n) pOut[S.a % n] ^= 1;
  }
  free(pOld);
  if (r.fault == 1 && S.dump && !S.faulted) { int fd = open(S.dump, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { if (write(fd, S.orig, S.origSize) < 0) {} close(fd); } }
  if (r.fault == 1) S.faulted = 1;
  r.info = !isDec && ret && ret <= outSize ? info(pOut, ret) : -1;
  r.ret = ret; r.outHash = ret && ret <= outSize && !(isDec && ret > S.origSize) ? hash(pOut, ret) : 0; r.flagsAfter = flags(); r.magic = 0x454E4F44;
  if (S.log && me < S.cap) S.log[me] = r;
  return ret;
}
// the clock. (Where nothing but the clock is looked at for long, as while copying for comparison, it ticks.)
static uint64_t tick() { if (++S.reads > 60) S.now += 500000000; return S.now; }
static int simulated() { if (!S.init) init(); return S.clock; }
static void nap(uint64_t ns) { S.now += ns; if (S.log && S.count < S.cap) { record *r = &S.log[S.count++]; memset(r, 0, sizeof(*r)); r->magic = 0x454E4F44; r->func = 0xFFFF; r->start = S.now - ns; r->took = ns; } }
#define W(ret, name, args, call, sim) ret __real_##name args; ret __wrap_##name args { if (!simulated()) return __real_##name call; sim; }
W(int, clock_gettime, (clockid_t id, struct timespec *t), (id, t), { uint64_t n = tick(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; })
W(int, timespec_get, (struct timespec *t, int b), (t, b), { uint64_t n = tick(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return b; })
W(int, gettimeofday, (struct timeval *t, void *z), (t, z), { uint64_t n = tick(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; })
W(int, usleep, (useconds_t us), (us), { nap(us * 1000ull); return 0; })
W(unsigned, sleep, (unsigned s), (s), { nap(s * 1000000000ull); return 0; })
W(int, nanosleep, (const struct timespec *t, struct timespec *rem), (t, rem), { nap(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; })
W(int, clock_nanosleep, (clockid_t id, int fl, const struct timespec *t, struct timespec *rem), (id, fl, t, rem), { uint64_t n = t->tv_sec * 1000000000ull + t->tv_nsec; nap(!(fl & TIMER_ABSTIME) ? n : n > S.now ? n - S.now : 0); return 0; })
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = NULL; return posix_memalign(&p, a, n) ? NULL : p; } // (any size, also under AddressSanitizer)
void __real__DetectCPUFeatures();
void __wrap__DetectCPUFeatures()
{
  __real__DetectCPUFeatures();
  if (!S.init) init();
  if (S.limited && !S.offered) { S.offered = 1; for (size_t i = 0; i < FLAGS; i++) if ((i > 8 ? 8 : i == 8 ? 7 : (int)i) > S.offer) *flag[i] = false; }
}
#include "hook_gen.h"
