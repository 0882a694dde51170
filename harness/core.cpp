#include "core.h"
#include <sys/mman.h>

Region regIn, regComp, regOut, regAux;
bool (*g_faultHook)(uintptr_t, void *) = nullptr; bool (*g_stepHook)(void *) = nullptr; int g_persist = 1;
const hs_codec *g_codecs; int g_codecCount; std::vector<int> g_levels; int g_maxLevel;

void Region::init(size_t c)
{
  c = (c + 65535) & ~(size_t)65535;
  uint8_t *m = (uint8_t *)mmap(nullptr, c + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(3); }
  if (mprotect(m + 65536, c, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
  base = m + 65536; cap = c;
}

Buf place(Region &r, size_t n, size_t slack, uint8_t pat, const char *what)
{
  if (n + slack + CANARY > r.cap) failf("harness: buffer of %zu bytes does not fit", n);
  Buf b; b.n = n; b.slack = slack; b.p = r.end() - slack - n; b.pat = pat; b.what = what;
  memset(b.p - CANARY, pat, CANARY);
  memset(b.p + n, pat, slack);
  return b;
}

void Buf::checkCanary() const
{
  for (size_t i = 1; i <= CANARY; i++) if (p[-(ptrdiff_t)i] != pat) failf("wrote %zu byte(s) before the start of the %s buffer (size %zu)", i, what, n);
  if (!follow) for (size_t i = 0; i < slack; i++) if (p[n + i] != pat) failf("wrote at offset %zu past the end of the %s buffer (size %zu)", i, what, n);
}

int codecByName(const std::string &n) { for (int i = 0; i < g_codecCount; i++) if (n == g_codecs[i].name) return i; return -1; }

// ---------------------------------------------------------------- Generators.
const char *styleNames[] = { "segments", "three-part", "small-alphabet", "markov", "random", "all-symbols", "lanes", "periodic", "mutated", "tiny", "long-boundary", "lut-churn", "one-run" };

static const int boundaries[] = { 7, 8, 14, 15, 16, 31, 32, 33, 47, 48, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 258, 259, 262, 263, 510, 511, 512, 513, 1022, 1023, 1024, 2046, 2047, 2048 };
static const int bigBoundaries[] = { 4095, 8191, 16383, 32767, 65535 };

size_t genLen(Rng &r, int w)
{
  int k = (int)r.below(100);
  size_t l;
  if (k < 38) l = r.below(13);
  else if (k < 64) l = r.below(42);
  else if (k < 84) { l = boundaries[r.below(sizeof(boundaries) / sizeof(int))]; l = (size_t)std::max<int64_t>(0, (int64_t)l + r.range(-4, 5)); if (r.chance(35)) l *= w; }
  else if (k < 96) l = r.below(300);
  else l = r.below(2200);
  return l;
}

static size_t genBigLen(Rng &r, int w)
{
  size_t l = bigBoundaries[r.below(sizeof(bigBoundaries) / sizeof(int))];
  if (r.chance(45)) l = 65535;
  l = (size_t)((int64_t)l + r.range(-12, 24));
  if (r.chance(30)) l *= w;
  return l;
}

static void symPool(Rng &r, int w, int count, std::vector<Bytes> &pool)
{
  static const uint8_t lutInit[] = { 0x00, 0x7F, 0xFF, 0x01, 0x7E, 0x80, 0xFE };
  int style = (int)r.below(6);
  Bytes first(w); for (auto &b : first) b = r.byte();
  for (int i = 0; i < count; i++)
  {
    Bytes s(w);
    switch (style)
    {
    case 0: for (auto &b : s) b = r.byte(); break;
    case 1: memset(s.data(), lutInit[r.below(7)], w); break;                       // same byte throughout: also a run for narrower widths.
    case 2: s = first; s[r.below(w)] = r.byte(); break;                            // near duplicates.
    case 3: s = first; std::rotate(s.begin(), s.begin() + r.below(w), s.end()); break; // rotations.
    case 4: for (auto &b : s) b = (uint8_t)r.below(2) * 0xFF; break;
    default: if (r.chance(50)) memset(s.data(), lutInit[r.below(7)], w); else for (auto &b : s) b = (uint8_t)r.below(4); break;
    }
    pool.push_back(s);
  }
}

static void addLiteral(Rng &r, Bytes &out, size_t n, int style)
{
  size_t at = out.size(); out.resize(at + n); uint8_t *p = out.data() + at;
  switch (style)
  {
  case 0: { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = r.byte(); break; }
  case 1: { uint8_t c = r.byte(); uint8_t st = (uint8_t)(r.byte() | 1); for (size_t i = 0; i < n; i++) { p[i] = c; c = (uint8_t)(c + st); } break; } // never two equal neighbours.
  case 2: { int k = (int)r.range(2, 5); for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(r.below(k) * 0x55); break; }
  default: { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)r.below(17); break; }
  }
}

static void addRun(Rng &r, Bytes &out, const Bytes &s, size_t n)
{
  size_t w = s.size(), ph = r.chance(25) ? r.below(w) : 0, at = out.size();
  out.resize(at + n); uint8_t *p = out.data() + at;
  if (w == 1) { memset(p, s[0], n); return; }
  for (size_t i = 0; i < n; i++) p[i] = s[(i + ph) % w];
}

Bytes genLanes(Rng &r, size_t maxSize)
{
  size_t block = r.chance(60) ? 16 : 32, blocks = r.range(1, r.chance(80) ? 24 : 300);
  if (blocks * block > maxSize) blocks = maxSize / block;
  Bytes out; Bytes cur(block); for (auto &b : cur) b = r.byte();
  int mode = (int)r.below(4);
  int alpha = (int)r.range(1, 9);
  for (size_t k = 0; k < blocks; k++)
  {
    switch (mode)
    {
    case 0: if (r.chance(40)) { int m = (int)r.range(0, 4); for (int j = 0; j < m; j++) cur[r.below(block)] = r.byte(); } break;
    case 1: for (auto &b : cur) b = (uint8_t)(r.below(alpha) * 37); break;
    case 2: if (r.chance(30)) for (auto &b : cur) b = r.byte(); break;
    default: { uint8_t v = (uint8_t)r.below(alpha); for (size_t j = 0; j < block; j++) if (r.chance(50)) cur[j] = v; break; }
    }
    out.insert(out.end(), cur.begin(), cur.end());
    if (mode == 2 && r.chance(15)) { size_t reps = r.range(1, 40); for (size_t q = 0; q < reps && out.size() + block <= maxSize; q++) out.insert(out.end(), cur.begin(), cur.end()); }
  }
  size_t tail = r.below(block + 1); for (size_t i = 0; i < tail; i++) out.push_back(r.byte());
  if (out.empty()) out.push_back(r.byte());
  return out;
}

Bytes genWorst(Rng &r, int w, size_t maxSize)
{
  // A short pattern (literal, run just around the profitable length, literal ...) repeated: any per-token expansion accumulates.
  Bytes pat; std::vector<Bytes> pool; symPool(r, w, (int)r.range(1, 9), pool);
  int parts = (int)r.range(1, 5); bool fresh = r.chance(50);
  struct Part { size_t lit, run; }; std::vector<Part> ps;
  for (int i = 0; i < parts; i++)
  {
    size_t lit = r.chance(60) ? r.below(12) : r.chance(70) ? genLen(r, w) : 120 + r.below(150);
    size_t run = r.chance(70) ? (size_t)r.range(0, 12 + 3 * w) : genLen(r, w);
    ps.push_back({ lit, run });
  }
  int litStyle = r.chance(70) ? 1 : 0; size_t target = (size_t)r.range(64, (int64_t)maxSize); Bytes out; size_t k = 0;
  while (out.size() < target)
  {
    const Part &p = ps[k % ps.size()];
    if (p.lit) addLiteral(r, out, p.lit, litStyle);
    if (fresh) { Bytes s(w); for (auto &b : s) b = r.byte(); addRun(r, out, s, p.run); }
    else addRun(r, out, pool[k % pool.size()], p.run);
    k++;
    if (p.lit + p.run == 0) out.push_back(r.byte());
  }
  if (out.size() > maxSize) out.resize(maxSize);
  return out;
}

Bytes genUnits(const std::vector<Unit> &us, int w, size_t size, uint64_t seed)
{
  Rng r(seed, 77); Bytes out; std::vector<Bytes> pool; symPool(r, w, 9, pool);
  for (size_t k = 0; out.size() < size; k++)
  {
    const Unit &u = us[k % us.size()];
    if (u.lit) addLiteral(r, out, u.lit, u.litStyle);
    if (u.run) { if (u.sym >= 0) addRun(r, out, pool[(size_t)u.sym % pool.size()], u.run); else { Bytes s(w); for (auto &b : s) b = r.byte(); addRun(r, out, s, u.run); } }
    if (u.lit + u.run == 0) out.push_back(r.byte());
  }
  out.resize(size);
  return out;
}

Unit genUnit(Rng &r, int w)
{
  Unit u; u.lit = r.chance(70) ? r.below(12) : r.chance(70) ? genLen(r, w) % 600 : 120 + r.below(150);
  u.run = r.chance(75) ? (size_t)r.range(0, 12 + 3 * w) : genLen(r, w) % 600;
  u.sym = r.chance(40) ? -1 : (int)r.below(9); u.litStyle = r.chance(80) ? 1 : (int)r.below(4);
  return u;
}

Bytes genHuge(Rng &r, int w)
{
  Bytes out; std::vector<Bytes> pool; symPool(r, w, 3, pool); int kind = (int)r.below(10);
  size_t base = ((size_t)1 << (r.chance(80) ? 24 : 25)); size_t len = (size_t)((int64_t)base + r.range(-40, 2000) + (r.chance(50) ? r.range(0, 700000) : 0));
  if (r.chance(60)) addLiteral(r, out, genLen(r, w), 0);
  if (kind < 6) { addRun(r, out, pool[0], len); if (r.chance(60)) { addLiteral(r, out, 1 + r.below(40), 0); addRun(r, out, pool[1], genLen(r, w) + 3 * w); } }     // one run longer than 2^24.
  else if (kind < 8) { addLiteral(r, out, len, (int)r.below(2)); addRun(r, out, pool[0], genLen(r, w) + 3 * w); }                                                     // one literal longer than 2^24.
  else // runs behind offset 2^24.
  {
    size_t lit = (size_t)r.range(20000, 400000), run = (size_t)r.range(20000, 400000);
    while (out.size() < len) { addLiteral(r, out, r.chance(30) ? lit : genLen(r, w), 0); addRun(r, out, pool[r.below(3)], r.chance(50) ? run : genLen(r, w)); }
  }
  if (r.chance(50)) addLiteral(r, out, r.below(40), 0);
  return out;
}

Bytes genInput(Rng &r, int w, const GenOpts &o, int *pStyle)
{
  static const int weights[STYLE_COUNT] = { 30, 14, 5, 6, 3, 5, 5, 5, 8, 6, 0, 8, 5 };
  int style = 0; { int k = (int)r.below(100); while (style < STYLE_COUNT - 1 && k >= weights[style]) k -= weights[style++]; }
  if (r.chance(o.bigPct) && o.maxSize > 70000) style = 10;
  if (pStyle) *pStyle = style;
  Bytes out; std::vector<Bytes> pool;

  size_t cap; { int k = (int)r.below(100); cap = k < 25 ? r.range(1, 64) : k < 60 ? r.range(65, 420) : k < 88 ? r.range(300, 3000) : r.range(2000, 20000); }
  if (cap > o.maxSize) cap = o.maxSize;

  switch (style)
  {
  case 0: case 8: case 11:
  {
    static const int counts[] = { 1, 2, 3, 4, 5, 7, 8, 9, 16 };
    symPool(r, w, style == 11 ? (int)r.range(2, 12) : counts[r.below(9)], pool);
    int litStyle = (int)r.below(4); bool alt = r.chance(50); bool wide = r.chance(20);
    while (out.size() < cap)
    {
      if (style == 11) // many profitable runs of a few symbols, small gaps: look-up table churn.
      {
        size_t gap = r.chance(50) ? 0 : r.below(r.chance(80) ? 6 : 40); if (gap) addLiteral(r, out, gap, litStyle);
        addRun(r, out, pool[r.chance(60) ? r.below(std::min<size_t>(pool.size(), 4)) : r.below(pool.size())], w * r.range(1, 6) + (r.chance(60) ? r.below(30) : 0) + 2);
        continue;
      }
      if (!alt || r.chance(90)) { size_t l = genLen(r, w); addLiteral(r, out, l, r.chance(80) ? litStyle : (int)r.below(4)); }
      const Bytes &s = pool[r.below(pool.size())];
      size_t l = genLen(r, w); if (r.chance(40)) l = (l % 24) * w + (r.chance(40) ? r.below(w) : 0);
      if (wide && r.chance(30)) { Bytes narrow(s.begin(), s.begin() + 1 + r.below(s.size())); addRun(r, out, narrow, l); }
      else addRun(r, out, s, l);
    }
    if (style == 8)
    {
      int m = (int)r.range(1, 6);
      for (int i = 0; i < m && !out.empty(); i++)
      {
        size_t at = r.below(out.size());
        switch (r.below(5))
        {
        case 0: out[at] ^= (uint8_t)(1u << r.below(8)); break;
        case 1: out.insert(out.begin() + at, r.byte()); break;
        case 2: out.erase(out.begin() + at); break;
        case 3: { size_t l = std::min<size_t>(out.size() - at, r.below(200)); Bytes cp(out.begin() + at, out.begin() + at + l); size_t to = r.below(out.size() + 1); out.insert(out.begin() + to, cp.begin(), cp.end()); break; }
        default: { size_t l = std::min<size_t>(out.size() - at, r.below(70)); for (size_t j = 1; j < l; j++) out[at + j] = out[at]; break; }
        }
      }
    }
    break;
  }
  case 1: // literal, run, literal: every length boundary-rich.
  {
    symPool(r, w, 1, pool);
    size_t a = genLen(r, w), b = genLen(r, w), c = genLen(r, w); int ls = (int)r.below(3);
    if (r.chance(40)) b = b / w * w;
    addLiteral(r, out, a, ls); addRun(r, out, pool[0], b); addLiteral(r, out, c, ls);
    if (r.chance(40)) { addRun(r, out, pool[0], genLen(r, w)); if (r.chance(50)) addLiteral(r, out, r.below(20), ls); }
    break;
  }
  case 2: { int k = (int)r.range(1, 4); uint8_t base = r.byte(); out.resize(cap); for (auto &b : out) b = (uint8_t)(base + r.below(k) * 85); break; }
  case 3:
  {
    int q = (int)r.range(30, 97); Bytes s(w); for (auto &b : s) b = r.byte();
    while (out.size() < cap) { if (!r.chance(q)) { if (r.chance(50)) s[r.below(w)] = r.byte(); else for (auto &b : s) b = (uint8_t)r.below(r.chance(50) ? 256 : 3); } out.insert(out.end(), s.begin(), s.end()); }
    break;
  }
  case 4: addLiteral(r, out, cap, 0); break;
  case 5: // many byte values, each with runs around a chosen average length.
  {
    int symCount = (int)(r.chance(30) ? 256 : r.range(2, 256)); int avg = (int)r.range(1, 5); int rounds = (int)r.range(1, 4); bool shuffle = r.chance(50); bool exact = r.chance(50); uint8_t base = r.byte();
    for (int q = 0; q < rounds; q++) for (int i = 0; i < symCount; i++)
    {
      uint8_t v = (uint8_t)(base + (shuffle ? r.below(symCount) : i));
      size_t l = exact ? avg : r.range(1, 2 * avg); if (r.chance(2)) l = genLen(r, 1);
      out.insert(out.end(), l, v);
    }
    break;
  }
  case 6: out = genLanes(r, cap < 64 ? 64 : cap); break;
  case 7: { size_t period = r.range(1, r.chance(70) ? 20 : 70); Bytes p; addLiteral(r, p, period, (int)r.below(4)); for (size_t i = 0; i < cap; i++) out.push_back(p[i % period]); int m = (int)r.below(4); for (int i = 0; i < m; i++) out[r.below(out.size())] = r.byte(); break; }
  case 9: { size_t n = r.range(1, 48); int k = (int)r.range(1, 3); for (size_t i = 0; i < n; i++) out.push_back((uint8_t)(r.below(k) * 0x7F)); if (r.chance(50)) { Bytes s(w); for (auto &b : s) b = r.byte(); for (size_t i = 0; i < n; i++) out[i] = r.chance(85) ? s[i % w] : r.byte(); } break; }
  case 10: // lengths around 16 bit limits.
  {
    symPool(r, w, 3, pool); int parts = (int)r.range(1, 3); int ls = (int)r.below(2);
    for (int i = 0; i < parts && out.size() < o.maxSize; i++)
    {
      addLiteral(r, out, r.chance(50) ? genBigLen(r, r.chance(20) ? w : 1) : genLen(r, w), ls);
      size_t run = r.chance(50) ? genBigLen(r, w) : genLen(r, w) + 3 * w; if (run > 1100000) run = 1100000;
      addRun(r, out, pool[r.below(3)], run);
    }
    addLiteral(r, out, genLen(r, w), ls);
    break;
  }
  default: { symPool(r, w, 1, pool); addRun(r, out, pool[0], genLen(r, w) * (r.chance(30) ? w : 1) + 1); if (r.chance(30)) out.back() ^= 1; break; }
  }
  if (r.chance(30) && out.size() > 2) out.resize(out.size() - r.below(std::min<size_t>(out.size() - 1, 40)));
  size_t lim = style == 10 ? std::max<size_t>(o.maxSize, 1200000) : o.maxSize;
  if (out.size() > lim) out.resize(lim);
  if (out.empty()) out.push_back(r.byte());
  return out;
}

bool nontrivialInput(const Bytes &b, int w)
{
  // at least two consecutive equal symbols of the codec's width and at least one place where they differ.
  bool eq = false, ne = false; size_t n = b.size();
  if (n < (size_t)(2 * w + 1)) return false;
  size_t streak = 0;
  for (size_t i = w; i < n && !(eq && ne); i++) { if (b[i] == b[i - w]) { if (++streak >= (size_t)w) eq = true; } else { streak = 0; ne = true; } }
  return eq && ne;
}
