// Core of the search engine: RNG, generated cases, guarded memory, input generators.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include "api.h"

typedef std::vector<uint8_t> Bytes;
typedef std::shared_ptr<const Bytes> BytesP;

// ---------------------------------------------------------------- RNG: every choice of a case comes from one of these.
struct Rng
{
  uint64_t s[2];
  static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  explicit Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) { s[0] = mix(a ^ mix(b + 0x1234567)); s[1] = mix(s[0] ^ mix(c + 0x7654321)) | 1; for (int i = 0; i < 4; i++) next(); }
  uint64_t next() { uint64_t x = s[0], y = s[1]; s[0] = y; x ^= x << 23; s[1] = x ^ y ^ (x >> 17) ^ (y >> 26); return s[1] + y; }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return b <= a ? a : a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return below(100) < (uint64_t)pct; }
  uint8_t byte() { return (uint8_t)(next() >> 24); }
};

inline uint64_t hashBytes(const uint8_t *p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, p + i, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
  for (; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
  return Rng::mix(h ^ n);
}

// ---------------------------------------------------------------- Cases.
struct Op
{
  int codec = 0;        // index into the codec table.
  int lc = 0, ld = 0;   // SIMD level of compression / decompression.
  int sIn = 0, sComp = 0, sOut = 0; // distance of the end of each buffer from an inaccessible page.
  int64_t a[6] = { 0, 0, 0, 0, 0, 0 }; // meaning depends on the property.
  BytesP in;
  const Bytes &data() const { return *in; }
};

struct Case
{
  std::string prop;
  std::vector<Op> ops;
};

struct Fail { std::string msg; };
[[noreturn]] inline void failf(const char *fmt, ...) { char b[700]; va_list v; va_start(v, fmt); vsnprintf(b, sizeof b, fmt, v); va_end(v); throw Fail { b }; }

// ---------------------------------------------------------------- Guarded memory.
struct Region
{
  uint8_t *base = nullptr; size_t cap = 0; // usable [base, base + cap), inaccessible on both sides.
  void init(size_t c);
  uint8_t *end() const { return base + cap; }
};

enum { CANARY = 256 };

struct Buf // a buffer of `n` bytes inside a region with canaries around it.
{
  uint8_t *p = nullptr; size_t n = 0; size_t slack = 0; uint8_t pat = 0; const char *what = ""; bool follow = false; // follow: the bytes behind are not the pattern.
  void checkCanary() const;
};

extern Region regIn, regComp, regOut, regAux;
Buf place(Region &r, size_t n, size_t slack, uint8_t pat, const char *what);

extern bool (*g_faultHook)(uintptr_t addr, void *pContext); // called first on an access violation; true: repaired, go on.
extern bool (*g_stepHook)(void *pContext); // called on single steps; true: go on.
extern int g_persist;                       // how much longer checks that depend on timing try (raised when a failure is confirmed).

// ---------------------------------------------------------------- Codec table.
extern const hs_codec *g_codecs;
extern int g_codecCount;
extern std::vector<int> g_levels; // levels with distinct code paths that this machine offers.
extern int g_maxLevel;
int codecByName(const std::string &n);

// ---------------------------------------------------------------- Generators.
struct GenOpts { size_t maxSize = 160000; int bigPct = 4; };
Bytes genInput(Rng &r, int w, const GenOpts &o, int *pStyle = nullptr);
Bytes genWorst(Rng &r, int w, size_t maxSize);       // small expansions, repeated.
Bytes genLanes(Rng &r, size_t maxSize);              // 16/32-byte lane structure.
struct Unit { size_t lit = 0, run = 0; int sym = -1, litStyle = 1; }; // some literals, then a run (symbol -1: a new one each time).
Unit genUnit(Rng &r, int w);
Bytes genUnits(const std::vector<Unit> &us, int w, size_t size, uint64_t seed); // the units repeated up to the size.
Bytes genHuge(Rng &r, int w);                        // lengths and offsets around 2^24.
size_t genLen(Rng &r, int w);                        // boundary-rich length.
bool nontrivialInput(const Bytes &b, int w);
extern const char *styleNames[];
enum { STYLE_COUNT = 13 };
