// The properties: for each a generator of cases and an oracle.
#include "core.h"
#include "engine.h"
#include <thread>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ucontext.h>
#include <link.h>
extern "C" {
#include "rle.h"
}
#undef min
#undef max

static const hs_codec &C(const Op &o) { return g_codecs[o.codec]; }
static const char *lvlName(int l) { static const char *n[] = { "none", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f" }; return n[l]; }
static const uint32_t EXTRA = 128; // what the documentation asks callers to leave behind the output: rle_decompress_additional_size().

static bool needsSse2(const hs_codec &c) { return c.kind == K_MMTF || c.kind == K_RLEMMTF; } // documented: fails without SSE2.
static bool isTransform(const hs_codec &c) { return c.kind == K_MMTF || c.kind == K_BITMMTF; }

static int pickLevel(Rng &r, const hs_codec &c) { int l = g_levels[r.below(g_levels.size())]; if (needsSse2(c) && l < L_SSE2) l = L_SSE2; return l; }
static int pickWidth(Rng &r) { static const int w[] = { 1, 1, 1, 2, 3, 4, 6, 8, 16 }; return w[r.below(9)]; }
static int pickSlack(Rng &r) { return r.chance(40) ? 0 : r.chance(50) ? (int)r.below(64) : (int)(r.below(8) * 16); }

// Codecs worth running on an input made for width `w`: all of that width, a few others.
static std::vector<int> codecsFor(Rng &r, int w, int extra)
{
  std::vector<int> v;
  for (int i = 0; i < g_codecCount; i++)
  {
    const hs_codec &c = g_codecs[i];
    if (c.kind == K_RLE ? c.width == w : w == 1) v.push_back(i);
  }
  for (int i = 0; i < extra; i++) v.push_back((int)r.below(g_codecCount));
  return v;
}

static uint32_t generousBound(size_t n) // what the bundled tools use: the largest of all bounds.
{
  uint32_t b = rle_compress_bounds((uint32_t)n);
  b = std::max(b, mmtf_bounds((uint32_t)n)); b = std::max(b, bitmmtf_bounds((uint32_t)n)); b = std::max(b, rle8_sh_bounds((uint32_t)n));
  b = std::max(b, rle8_mmtf128_compress_bounds((uint32_t)n)); b = std::max(b, rle8_low_entropy_compress_bounds((uint32_t)n)); b = std::max(b, rle8_low_entropy_short_compress_bounds((uint32_t)n));
  return b;
}

static size_t firstDiff(const uint8_t *a, const uint8_t *b, size_t n) { size_t i = 0; while (i < n && a[i] == b[i]) i++; return i; }

static Buf putInput(const Op &o)
{
  Buf b = place(regIn, o.data().size(), o.sIn, 0xA7, "input");
  memcpy(b.p, o.data().data(), b.n);
  if (o.sIn > 0 && o.sIn % 3) // what follows in memory is none of the codec's business, even if it continues the last run.
  {
    size_t w = (size_t)C(o).width; if (w > b.n || o.sIn % 3 == 1) w = 1;
    b.follow = true; for (size_t i = 0; i < b.slack; i++) b.p[b.n + i] = b.p[b.n + i - w];
  }
  return b;
}

static void inputIntact(const Buf &b, const Op &o) { b.checkCanary(); if (memcmp(b.p, o.data().data(), b.n)) failf("%s: input was modified at offset %zu", C(o).name, firstDiff(b.p, o.data().data(), b.n)); }

static Buf putOutput(const Op &o, size_t payload, size_t extra) // pre-filled with bytes that all differ from the expected ones.
{
  Buf b = place(regOut, payload + extra, o.sOut, 0x5C, "decompressed");
  const Bytes &d = o.data(); size_t m = std::min(payload, d.size());
  for (size_t i = 0; i < m; i++) b.p[i] = (uint8_t)~d[i];
  memset(b.p + m, 0xE9, payload + extra - m);
  return b;
}

static void (*g_setLevel)(int) = hs_set_level; // of the library in use (see P08).
static uint32_t doCompress(const Op &o, const Buf &in, Buf &comp, uint32_t outSize, int level)
{
  g_setLevel(level);
  return C(o).comp(in.p, (uint32_t)in.n, comp.p, outSize);
}

static void expectDecoded(const Op &o, uint32_t ret, const uint8_t *out, const char *how)
{
  const Bytes &d = o.data();
  if (ret != d.size()) failf("%s: %s returned %u, expected %zu", C(o).name, how, ret, d.size());
  if (memcmp(out, d.data(), d.size())) { size_t i = firstDiff(out, d.data(), d.size()); failf("%s: %s produced other bytes than were compressed, first at offset %zu of %zu (got 0x%02X, expected 0x%02X)", C(o).name, how, i, d.size(), out[i], d[i]); }
}

static Op baseOp(Rng &r, int codec, const BytesP &in)
{
  Op o; o.codec = codec; o.in = in; o.lc = pickLevel(r, g_codecs[codec]); o.ld = o.lc;
  o.sIn = pickSlack(r); o.sComp = pickSlack(r); o.sOut = pickSlack(r);
  return o;
}

static BytesP mk(Bytes &&b) { return std::make_shared<const Bytes>(std::move(b)); }

// Inputs: mostly structured, some with accumulating expansion, sometimes lanes.
static BytesP genFor(Rng &r, int w, const Gen &g)
{
  int style = -1; Bytes b;
  int k = (int)r.below(100);
  GenOpts o; o.bigPct = g.bigPct; o.maxSize = 160000;
  if (k < 8) { b = genWorst(r, w, r.chance(90) ? 4000 : 30000); g.label("expansion"); }
  else if (k < 12) { b = genLanes(r, 6000); g.label("lanes"); }
  else { b = genInput(r, w, o, &style); g.label(styleNames[style]); }
  return mk(std::move(b));
}

static void emitSimple(Rng &r, const Gen &g, const char *prop, int extra, std::function<void(Rng &, Op &)> tweak = nullptr, std::function<bool(const hs_codec &)> filter = nullptr)
{
  int w = pickWidth(r); bool huge = g.batch % 2000 == 999;
  BytesP in = huge ? mk(genHuge(r, w)) : genFor(r, w, g); if (huge) g.label("huge");
  std::vector<int> cs = codecsFor(r, w, extra);
  if (huge) { std::vector<int> keep; for (int i = 0; i < 6; i++) keep.push_back(cs[r.below(cs.size())]); cs = keep; }
  else if (in->size() > 20000) { std::vector<int> keep; for (int c : cs) if (r.chance(40)) keep.push_back(c); cs = keep; }
  for (int c : cs)
  {
    if (filter && !filter(g_codecs[c])) continue;
    Case k; k.prop = prop; k.ops.push_back(baseOp(r, c, in));
    if (tweak) tweak(r, k.ops[0]);
    g.emit(k);
  }
}

// ================================================================ P01 round trip.
// Inputs of up to 4 GiB take little memory: a part of 12 MiB (a multiple of every symbol's size) is mapped over and over between a beginning and an end, and so is the output.
struct Vast
{
  static constexpr size_t A = 4u << 20, B = 12u << 20; uint8_t *p, *mid, *last; size_t total, tail;
  Vast(size_t n)
  {
    size_t reps = n > A ? (n - A) / B : 0; total = A + reps * B + B + 4096;
    p = (uint8_t *)mmap(nullptr, total + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    int fd = memfd_create("vast", 0); if (fd < 0 || ftruncate(fd, B)) { perror("memfd"); exit(3); }
    auto m = [&](uint8_t *at, size_t k, int f, int d) { if (mmap(at, k, PROT_READ | PROT_WRITE, f | MAP_FIXED, d, 0) == MAP_FAILED) { perror("mmap"); exit(3); } };
    m(p, A, MAP_PRIVATE | MAP_ANONYMOUS, -1); for (size_t i = 0; i < reps; i++) m(p + A + i * B, B, MAP_SHARED, fd); close(fd);
    mid = p + A; last = p + A + reps * B; m(last, B + 4096, MAP_PRIVATE | MAP_ANONYMOUS, -1); tail = n - (size_t)(last - p);
  }
  ~Vast() { munmap(p, total + 4096); }
};
static void checkVast(const Op &o)
{
  const hs_codec &cd = C(o); size_t n = (size_t)o.a[1]; int w = cd.width; Vast in(n), out(n); const Bytes &d = o.data();
  Rng r(hashBytes(d.data(), d.size())); uint8_t s[16]; for (int i = 0; i < w; i++) s[i] = d[(size_t)i % d.size()];
  auto fill = [&](uint8_t *p, size_t k)
  {
    if (o.a[0] == 1) for (size_t i = 0, j = (size_t)(p - in.p) % w; i < k; i++) { p[i] = s[j]; if (++j == (size_t)w) j = 0; }
    else if (o.a[0] == 2) for (size_t i = 0; i < k; i++) p[i] = (uint8_t)(r.next() >> 20);
    else for (size_t i = 0; i < k;)
    {
      for (size_t l = r.below(r.chance(90) ? 40 : 4000); l > 0 && i < k; l--) p[i++] = r.byte();
      uint8_t t[16]; for (auto &x : t) x = r.byte(); for (size_t q = 4 * w + r.below(r.chance(80) ? 400 : 90000); q > 0 && i < k; q--, i++) p[i] = t[i % w];
    }
  };
  fill(in.p, in.A); if (in.last != in.mid) fill(in.mid, in.B); fill(in.last, in.tail);
  if (o.a[0] == 1) { memcpy(in.p, d.data(), d.size()); if (in.tail > d.size()) memcpy(in.last + in.tail - d.size(), d.data(), d.size()); }
  uint32_t cap = cd.bound((uint32_t)n); if (!cap) failf("%s: no bound for %zu bytes", cd.name, n);
  size_t mapped = (((size_t)cap + 4095) & ~(size_t)4095) + 4096; uint8_t *cm = (uint8_t *)mmap(nullptr, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (cm == MAP_FAILED) { perror("mmap"); exit(3); }
  struct Free { uint8_t *p; size_t n; ~Free() { munmap(p, n); } } fr { cm, mapped }; mprotect(cm + mapped - 4096, 4096, PROT_NONE); uint8_t *comp = cm + (mapped - 4096 - cap);
  g_setLevel(o.lc); uint32_t cs = cd.comp(in.p, (uint32_t)n, comp, cap);
  if (cs == 0 || cs > cap) failf("%s: compression of %zu bytes gives %u with %u bytes of room (level %s)", cd.name, n, cs, cap, lvlName(o.lc));
  hs_set_level(o.ld); uint32_t ret = cd.dec(comp, cs, out.p, (uint32_t)n);
  if (ret != n) failf("%s: decompression of %zu bytes returns %u", cd.name, n, ret);
  if (memcmp(in.p, out.p, in.A) || (in.last != in.mid && memcmp(in.mid, out.mid, in.B)) || memcmp(in.last, out.last, in.tail)) failf("%s: %zu bytes are not restored (level %s)", cd.name, n, lvlName(o.lc));
}
static void checkP01(const Case &c)
{
  const Op &o = c.ops[0]; size_t n = o.data().size(); if (o.a[0]) { checkVast(o); return; }
  Buf in = putInput(o);
  uint32_t cap = generousBound(n);
  Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed");
  memset(comp.p, 0xCC, std::min<size_t>(cap, 4096));
  uint32_t cs = doCompress(o, in, comp, cap, o.lc);
  if (cs == 0) failf("%s: compression of %zu bytes failed (level %s)", C(o).name, n, lvlName(o.lc));
  if (cs > cap) failf("%s: compressed size %u above the capacity %u", C(o).name, cs, cap);
  inputIntact(in, o); comp.checkCanary();
  Buf out = putOutput(o, n, EXTRA);
  hs_set_level(o.ld);
  uint32_t ret = C(o).dec(comp.p, cs, out.p, (uint32_t)n);
  out.checkCanary();
  char how[64]; snprintf(how, sizeof how, "round trip at level %s", lvlName(o.lc));
  expectDecoded(o, ret, out.p, how);
}
static void genP01(Rng &r, const Gen &g)
{
  if (g.batch % 2500 != 1249) { emitSimple(r, g, "P01", 5); return; }
  int w = pickWidth(r); Bytes b((size_t)r.range(16, 400)); for (auto &x : b) x = r.byte(); g.label("vast input"); std::vector<int> cs = codecsFor(r, w, 3);
  Op o = baseOp(r, cs[r.below(cs.size())], mk(std::move(b))); const hs_codec &cd = C(o); o.a[0] = isTransform(cd) || cd.kind == K_RLEMMTF || cd.greedy || o.lc < L_SSE2 ? (r.chance(60) ? 3 : 1) : r.range(1, 3);
  uint64_t most = cd.bound(0xF0000000u) && o.a[0] == 1 ? 0xF0000000u : 1u << 30; uint64_t base = 1ull << r.range(26, 32); o.a[1] = (int64_t)std::min<uint64_t>(r.chance(50) ? most - r.below(5000) : r.chance(50) ? (uint64_t)r.range(1 << 26, 1 << 30) : base + (uint64_t)r.range(-30, 3000), most);
  Case k; k.prop = "P01"; k.ops.push_back(o); g.emit(k);
}

// ================================================================ P02 any level compresses, any level decompresses.
static void checkP02(const Case &c)
{
  const Op &o = c.ops[0]; size_t n = o.data().size();
  Buf in = putInput(o);
  uint32_t cap = generousBound(n);
  Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed");
  uint32_t cs = doCompress(o, in, comp, cap, o.lc);
  if (cs == 0) failf("%s: compression of %zu bytes failed (level %s)", C(o).name, n, lvlName(o.lc));
  for (size_t i = 0; i < g_levels.size(); i++)
  {
    int l = g_levels[i];
    if (needsSse2(C(o)) && l < L_SSE2) continue;
    Buf out = putOutput(o, n, EXTRA);
    hs_set_level(l);
    uint32_t ret = C(o).dec(comp.p, cs, out.p, (uint32_t)n);
    out.checkCanary();
    char how[96]; snprintf(how, sizeof how, "stream compressed at level %s, decompression at level %s", lvlName(o.lc), lvlName(l));
    expectDecoded(o, ret, out.p, how);
  }
}
static void genP02(Rng &r, const Gen &g) { emitSimple(r, g, "P02", 5); }

// ================================================================ P03 the documented bound suffices.
static void checkP03(const Case &c)
{
  const Op &o = c.ops[0]; size_t n = o.data().size();
  Buf in = putInput(o);
  uint32_t cap = C(o).bound((uint32_t)n);
  if (cap < n) failf("%s: bound %u for %zu bytes", C(o).name, cap, n);
  Buf comp = place(regComp, cap, 0, 0x3D, "compressed");
  uint32_t cs = doCompress(o, in, comp, cap, o.lc);
  if (cs == 0) failf("%s: compression of %zu bytes into a buffer of exactly the advertised bound (%u) failed (level %s)", C(o).name, n, cap, lvlName(o.lc));
  if (cs > cap) failf("%s: compressed size %u above the advertised bound %u for %zu bytes (level %s)", C(o).name, cs, cap, n, lvlName(o.lc));
  comp.checkCanary();
  if (o.a[0]) // the stream in that buffer is a whole one.
  {
    Buf out = putOutput(o, n, EXTRA); hs_set_level(o.lc);
    expectDecoded(o, C(o).dec(comp.p, cs, out.p, (uint32_t)n), out.p, "stream in a buffer of the advertised bound");
  }
}
static void climbP03(Rng &r, const Gen &g) // look for the unit that expands the most, then repeat it.
{
  bool wide = r.chance(25); // long literals: what is lost per unit is little compared to its length, so that only many megabytes of it exceed the bound.
  g.label(wide ? "climb, long literals" : "climb"); int w = pickWidth(r); std::vector<int> cs = codecsFor(r, w, 6); int cidx = cs[r.below(cs.size())]; w = g_codecs[cidx].width > 0 && r.chance(80) ? g_codecs[cidx].width : w;
  Bytes one(1, 0); Op base = baseOp(r, cidx, mk(std::move(one))); base.sIn = 0; base.a[0] = 0; size_t fixed = (size_t)r.range(500, 3000); uint64_t seed = r.next();
  auto length = [](const std::vector<Unit> &us) { size_t l = 0; for (const Unit &u : us) l += u.lit + u.run + (u.lit + u.run == 0); return l; };
  auto evaluate = [&](const std::vector<Unit> &us, size_t size) -> int64_t
  {
    Case kc; kc.prop = "P03"; Op o = base; o.in = mk(genUnits(us, w, size, seed)); kc.ops.push_back(o); g.emit(kc); // (the check comes first: what follows has been seen to work.)
    Buf in = putInput(o); uint32_t cap = generousBound(size); Buf comp = place(regComp, cap, 0, 0x3D, "compressed");
    return (int64_t)doCompress(o, in, comp, cap, o.lc) - (int64_t)size;
  };
  auto sizeOf = [&](const std::vector<Unit> &us) { return wide ? 3 * length(us) : fixed; };
  std::vector<Unit> best; for (int i = (int)r.range(1, wide ? 2 : 4); i > 0; i--) best.push_back(genUnit(r, w));
  if (wide) { static const int lim[] = { 4095, 16383, 32767, 65535, 65535, 65535 }; Unit &u = best[r.below(best.size())]; u.lit = (size_t)(lim[r.below(6)] + r.range(-12, 40)); u.litStyle = 1; u.run = r.chance(70) ? (size_t)r.range(0, 12 + 3 * w) : (size_t)(65535 + r.range(-12, 40)); }
  int64_t top = evaluate(best, sizeOf(best));
  for (int step = 0; step < (wide ? 40 : 90); step++)
  {
    std::vector<Unit> t = best; Unit &u = t[r.below(t.size())];
    switch (r.below(wide ? 3 : step < 30 ? 8 : 6))
    {
    case 0: u.lit = (size_t)std::max<int64_t>(0, (int64_t)u.lit + r.range(-2, 2)); break;
    case 1: if (wide && r.chance(30)) u.run = (size_t)r.range(0, 12 + 3 * w); else u.run = (size_t)std::max<int64_t>(0, (int64_t)u.run + r.range(-2, 2)); break;
    case 2: u.sym = r.chance(40) ? -1 : (int)r.below(9); break;
    case 3: if (t.size() < 12) t.insert(t.begin() + r.below(t.size() + 1), r.chance(50) ? t[r.below(t.size())] : genUnit(r, w)); break;
    case 4: if (t.size() > 1) t.erase(t.begin() + r.below(t.size())); break;
    case 5: u.run = (u.run / w + r.range(0, 2)) * w; break;
    default: u = genUnit(r, w); break;
    }
    int64_t v = evaluate(t, sizeOf(t)); if (v >= top) { top = v; best = t; }
  }
  // What does a repetition lose? As many as it takes to exceed the bound, if that is possible at all.
  size_t len = length(best), some = wide ? 4 : 1 + 4000 / len; int64_t lost = evaluate(best, 2 * some * len) - evaluate(best, some * len);
  if (lost > 0)
  {
    size_t per = some * len; double n = 0; for (double k = 1; k * per < 70e6; k *= 1.3) { n = k * per; if (top + lost * k > (double)C(base).bound((uint32_t)n) - n) break; n = 0; }
    if (n > 150000) { g.label("extrapolated"); Case kc; kc.prop = "P03"; Op o = base; o.in = mk(genUnits(best, w, (size_t)(n + 2 * per), seed)); kc.ops.push_back(o); g.emit(kc); }
  }
  for (int rep = 0; rep < 2; rep++) { Case kc; kc.prop = "P03"; Op o = base; o.a[0] = 1; if (rep) o.lc = g_levels[r.below(g_levels.size())]; if (needsSse2(C(o)) && o.lc < L_SSE2) o.lc = L_SSE2; o.in = mk(genUnits(best, w, (size_t)r.range(20000, 150000), seed)); kc.ops.push_back(o); g.emit(kc); }
}
static void genP03(Rng &r, const Gen &g)
{
  if (g.batch % 30 == 11) return climbP03(r, g);
  int w = pickWidth(r); BytesP in; int k = (int)r.below(100);
  if (k < 45) { in = mk(genWorst(r, w, r.chance(75) ? 4000 : r.chance(80) ? 30000 : 150000)); g.label("expansion"); }
  else if (k < 60) { Bytes b((size_t)r.range(1, 3000)); for (auto &x : b) x = r.byte(); in = mk(std::move(b)); g.label("random"); }
  else in = genFor(r, w, g);
  std::vector<int> cs = codecsFor(r, w, 6);
  if (g.batch % 2000 == 999) { in = mk(genHuge(r, w)); g.label("huge"); std::vector<int> keep; for (int i = 0; i < 6; i++) keep.push_back(cs[r.below(cs.size())]); cs = keep; }
  for (int cidx : cs) { Case kc; kc.prop = "P03"; Op o = baseOp(r, cidx, in); o.a[0] = r.chance(25); if (isTransform(C(o))) o.sIn = 0; kc.ops.push_back(o); g.emit(kc); }
}

// ================================================================ P04 too small an output buffer.
static const uint8_t *nothings() // a lot of zeros that take no memory.
{
  static const uint8_t *p = nullptr;
  if (!p) { p = (const uint8_t *)mmap(nullptr, (size_t)1 << 32, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } }
  return p;
}
static void checkP04(const Case &c)
{
  const Op &o = c.ops[0]; size_t n = o.data().size();
  if (o.a[0] == 2) // a size for which no bound is advertised: there is no output buffer that would be large enough.
  {
    uint32_t size = (uint32_t)o.a[1], cap = (uint32_t)o.a[2]; if (C(o).bound(size) >= size) return;
    Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed"); memset(comp.p, 0x21, cap);
    hs_set_level(o.lc); uint32_t cs = C(o).comp(nothings(), size, comp.p, cap);
    comp.checkCanary();
    if (cs != 0) failf("%s: compression of %u bytes, for which no bound is advertised, into %u returned %u", C(o).name, size, cap, cs);
    for (uint32_t i = 0; i < cap; i++) if (comp.p[i] != 0x21) failf("%s: refused compression wrote to the output (offset %u)", C(o).name, i);
    return;
  }
  Buf in = putInput(o);
  uint32_t full = C(o).bound((uint32_t)n);
  if (o.a[0] == 0) // compression into less than the bound.
  {
    uint32_t size = (uint32_t)std::min<int64_t>(o.a[1], full ? full - 1 : 0);
    Buf comp = place(regComp, size, o.sComp, 0x3D, "compressed");
    uint32_t cs = doCompress(o, in, comp, size, o.lc);
    comp.checkCanary(); inputIntact(in, o);
    if (cs > size) failf("%s: compression into %u bytes claims %u bytes", C(o).name, size, cs);
    if (cs != 0)
    {
      Buf big = place(regAux, generousBound(n), 0, 0x11, "copy"); memcpy(big.p, comp.p, cs);
      Buf out = putOutput(o, n, EXTRA); hs_set_level(o.lc);
      expectDecoded(o, C(o).dec(big.p, cs, out.p, (uint32_t)n), out.p, "stream from a small output buffer");
    }
  }
  else // decompression into less than the original size.
  {
    Buf comp = place(regComp, generousBound(n), o.sComp, 0x3D, "compressed");
    uint32_t cs = doCompress(o, in, comp, (uint32_t)comp.n, o.lc);
    if (cs == 0) failf("%s: compression of %zu bytes failed", C(o).name, n);
    uint32_t size = (uint32_t)(o.a[1] % (int64_t)n);
    Buf out = place(regOut, size, o.sOut, 0x5C, "decompressed"); memset(out.p, 0x77, size);
    hs_set_level(o.ld);
    uint32_t ret = C(o).dec(comp.p, cs, out.p, size);
    if (ret != 0) failf("%s: decompression of %zu bytes into a buffer of %u returned %u instead of failing", C(o).name, n, size, ret);
    out.checkCanary();
    for (uint32_t i = 0; i < size; i++) if (out.p[i] != 0x77) failf("%s: refused decompression into a too small buffer wrote to it (offset %u)", C(o).name, i);
  }
}
static void genP04(Rng &r, const Gen &g)
{
  int w = pickWidth(r); GenOpts go; go.bigPct = 0; go.maxSize = 6000; int st; BytesP in = mk(genInput(r, w, go, &st)); g.label(styleNames[st]);
  std::vector<int> cs = codecsFor(r, w, 6);
  if (g.batch % 50 == 7)
  {
    g.label("beyond the limit");
    for (int i = 0; i < 6; i++)
    {
      Case k; k.prop = "P04"; Op o = baseOp(r, (int)r.below(g_codecCount), in); o.a[0] = 2; o.a[1] = r.chance(50) ? (1ll << 30) + r.range(1, 40) : r.chance(50) ? r.range((1ll << 30) + 1, 0xFFFFFFFFll) : 0xFFFFFFFFll - r.range(0, 300);
      o.a[2] = r.chance(30) ? 0 : r.chance(50) ? r.range(1, 40) : r.range(41, 4000); k.ops.push_back(o); g.emit(k);
    }
  }
  for (int cidx : cs) for (int rep = 0; rep < 3; rep++)
  {
    Case k; k.prop = "P04"; Op o = baseOp(r, cidx, in); o.a[0] = rep != 0; if (r.chance(50)) o.a[0] = !o.a[0];
    size_t n = in->size(); uint32_t full = C(o).bound((uint32_t)n);
    if (o.a[0] == 0) o.a[1] = r.chance(25) ? full - 1 : r.chance(30) ? r.below(full) : r.chance(30) ? (int64_t)full - 1 - (int64_t)r.below(std::min<uint32_t>(full, 40)) : r.chance(50) ? (int64_t)r.below(40) : (int64_t)n;
    else { int64_t v = r.chance(40) ? (int64_t)n - 1 : r.chance(30) ? (int64_t)n - (int64_t)r.range(1, 20) : (int64_t)r.below(n); o.a[1] = v < 0 ? 0 : v; }
    if (o.sOut == 0 && r.chance(50)) o.sOut = 128;
    k.ops.push_back(o); g.emit(k);
  }
}

// ================================================================ P05 missing arguments and truncated streams.
static void checkP05(const Case &c)
{
  const Op &o = c.ops[0]; const hs_codec &cd = C(o); size_t n = o.data().size();
  Buf in = putInput(o); uint32_t cap = generousBound(n);
  Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed"); memset(comp.p, 0x21, cap);
  hs_set_level(o.lc);
  auto untouched = [&](const Buf &b, uint8_t v, const char *what) { b.checkCanary(); for (size_t i = 0; i < b.n; i++) if (b.p[i] != v) failf("%s: %s wrote to the output (offset %zu)", cd.name, what, i); };
  switch (o.a[0])
  {
  case 0: if (uint32_t v = cd.comp(nullptr, (uint32_t)n, comp.p, cap)) failf("%s: compressing from NULL returned %u", cd.name, v); untouched(comp, 0x21, "compressing from NULL"); return;
  case 1: if (uint32_t v = cd.comp(in.p, (uint32_t)n, nullptr, cap)) failf("%s: compressing to NULL returned %u", cd.name, v); inputIntact(in, o); return;
  case 2: if (uint32_t v = cd.comp(in.p, 0, comp.p, cap)) failf("%s: compressing nothing returned %u", cd.name, v); untouched(comp, 0x21, "compressing nothing"); return;
  default: break;
  }
  uint32_t cs = cd.comp(in.p, (uint32_t)n, comp.p, cap);
  if (cs == 0) failf("%s: compression of %zu bytes failed", cd.name, n);
  Buf out = place(regOut, n + EXTRA, o.sOut, 0x5C, "decompressed"); memset(out.p, 0x42, out.n);
  hs_set_level(o.ld);
  switch (o.a[0])
  {
  case 3: if (uint32_t v = cd.dec(nullptr, cs, out.p, (uint32_t)n)) failf("%s: decompressing from NULL returned %u", cd.name, v); untouched(out, 0x42, "decompressing from NULL"); return;
  case 4: if (uint32_t v = cd.dec(comp.p, cs, nullptr, (uint32_t)n)) failf("%s: decompressing to NULL returned %u", cd.name, v); return;
  case 5: if (uint32_t v = cd.dec(comp.p, 0, out.p, (uint32_t)n)) failf("%s: decompressing an empty stream returned %u", cd.name, v); untouched(out, 0x42, "decompressing an empty stream"); return;
  case 6: if (uint32_t v = cd.dec(comp.p, cs, out.p, 0)) failf("%s: decompressing into an empty buffer returned %u", cd.name, v); untouched(out, 0x42, "decompressing into an empty buffer"); return;
  default:
  {
    uint32_t part = o.a[1] < 0 ? cs - 1 : (uint32_t)(o.a[1] % (int64_t)cs);
    if (uint32_t v = cd.dec(comp.p, part, out.p, (uint32_t)n)) failf("%s: decompressing the first %u of %u bytes of a stream returned %u", cd.name, part, cs, v);
    untouched(out, 0x42, "decompressing a truncated stream"); return;
  }
  }
}
static void genP05(Rng &r, const Gen &g)
{
  int w = pickWidth(r); GenOpts go; go.bigPct = 0; go.maxSize = 6000; int st; BytesP in = mk(genInput(r, w, go, &st)); g.label(styleNames[st]);
  for (int cidx : codecsFor(r, w, 8)) for (int rep = 0; rep < 3; rep++)
  {
    Case k; k.prop = "P05"; Op o = baseOp(r, cidx, in); const hs_codec &cd = C(o);
    o.a[0] = r.chance(55) ? 7 : (int64_t)r.below(7);
    o.a[1] = r.chance(40) ? -1 : (int64_t)r.below(1u << 30);
    if (cd.kind == K_MMTF && o.a[0] != 2 && o.a[0] != 5 && o.a[0] != 6) o.a[0] = 2; // the transforms have no header, and do not document NULL.
    if (cd.kind == K_BITMMTF && o.a[0] == 7) o.a[0] = (int64_t)r.below(7);
    k.ops.push_back(o); g.emit(k);
  }
}

// ================================================================ P06 the stream is self-contained.
static void checkP06(const Case &c)
{
  const Op &o = c.ops[0]; size_t n = o.data().size();
  Buf in = putInput(o); uint32_t cap = C(o).bound((uint32_t)n), big = generousBound(n);
  Buf comp = place(regAux, big, 64, 0x3D, "compressed"); memset(comp.p, 0xCC, big);
  uint32_t cs = doCompress(o, in, comp, big, o.lc);
  if (cs == 0 || cs > big) failf("%s: compression of %zu bytes returned %u", C(o).name, n, cs);
  // Move exactly those bytes elsewhere; what lies behind them must not matter, as long as it can be read (a buffer of the bound's size).
  size_t room = std::max<size_t>(cap, cs) + (C(o).kind == K_RLE ? 0 : EXTRA);
  for (int rep = 0; rep < 2; rep++)
  {
    Buf mv = place(regComp, room, rep ? (size_t)o.a[1] : 0, 0x99, "stream"); memcpy(mv.p, comp.p, cs);
    Rng fill((uint64_t)o.a[0], (uint64_t)rep);
    int fs = (int)fill.below(4); uint8_t fb = fs == 0 ? 0x00 : fs == 1 ? 0xFF : n ? o.data()[fill.below(n)] : 0;
    for (size_t i = cs; i < room; i++) mv.p[i] = fs == 3 ? fill.byte() : fb;
    uint32_t inSize = isTransform(C(o)) ? cs : rep ? (uint32_t)(cs + fill.below(room - cs + 1)) : cs;
    Buf out = putOutput(o, n, EXTRA); hs_set_level(o.ld);
    uint32_t ret = C(o).dec(mv.p, inSize, out.p, (uint32_t)n);
    out.checkCanary();
    if (memcmp(mv.p, comp.p, cs)) failf("%s: decompression modified the stream", C(o).name);
    char how[128]; snprintf(how, sizeof how, "stream of %u bytes moved elsewhere, other bytes behind it, announced as %u bytes,", cs, inSize);
    expectDecoded(o, ret, out.p, how);
  }
}
static void genP06(Rng &r, const Gen &g) { emitSimple(r, g, "P06", 5, [](Rng &r, Op &o) { o.a[0] = (int64_t)(r.next() >> 8); o.a[1] = r.below(128); o.ld = pickLevel(r, C(o)); }); }

// ================================================================ P07 memory containment.
static void checkP07(const Case &c)
{
  const Op &o = c.ops[0]; size_t n = o.data().size();
  Buf in = putInput(o); // ends right before an inaccessible page.
  uint32_t cap = generousBound(n);
  Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed");
  uint32_t cs = doCompress(o, in, comp, cap, o.lc);
  if (cs == 0) failf("%s: compression of %zu bytes failed", C(o).name, n);
  inputIntact(in, o); comp.checkCanary();
  Bytes snap(comp.p, comp.p + comp.n);
  Buf out = putOutput(o, n, isTransform(C(o)) ? 0 : EXTRA); hs_set_level(o.ld);
  uint32_t ret = C(o).dec(comp.p, cs, out.p, (uint32_t)n);
  out.checkCanary(); comp.checkCanary();
  if (memcmp(snap.data(), comp.p, comp.n)) failf("%s: decompression modified its input (offset %zu)", C(o).name, firstDiff(snap.data(), comp.p, comp.n));
  if (ret > n) failf("%s: decompression claims %u bytes for %zu", C(o).name, ret, n);
}
static void genP07(Rng &r, const Gen &g) { emitSimple(r, g, "P07", 5, [](Rng &r, Op &o) { o.sIn = 0; o.sComp = r.chance(60) ? 0 : 128; o.sOut = r.chance(70) ? 0 : 128; o.ld = pickLevel(r, C(o)); }); }

// the code under test once more, as a shared library: its static storage is known and can be put back to what it was before the first call (P08, P09), or be made inaccessible (P09).
static struct Cut { const hs_codec *codecs = nullptr; void (*level)(int) = nullptr, (*exactly)(int) = nullptr; uint8_t *from = nullptr, *to = nullptr; Bytes pristine; decltype(&rle8m_compress) mc = nullptr; decltype(&rle8m_decompress) md = nullptr; decltype(&rle8_low_entropy_get_compress_info) info = nullptr; decltype(&rle8_low_entropy_compress_with_info) withInfo = nullptr; } g_cut;
static void loadCut()
{
  if (g_cut.codecs) return;
  const char *path = getenv("HS_CUT"); if (!path) { fprintf(stderr, "HS_CUT not set\n"); _exit(3); }
  void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
  int count; auto f = (const hs_codec *(*)(int *))dlsym(h, "hs_codecs"); g_cut.level = (void (*)(int))dlsym(h, "hs_set_level"); g_cut.exactly = (void (*)(int))dlsym(h, "hs_set_exactly");
  g_cut.mc = (decltype(g_cut.mc))dlsym(h, "rle8m_compress"); g_cut.md = (decltype(g_cut.md))dlsym(h, "rle8m_decompress"); g_cut.info = (decltype(g_cut.info))dlsym(h, "rle8_low_entropy_get_compress_info"); g_cut.withInfo = (decltype(g_cut.withInfo))dlsym(h, "rle8_low_entropy_compress_with_info");
  struct Arg { uintptr_t addr; uint8_t *from, *to; } arg { (uintptr_t)f, nullptr, nullptr };
  dl_iterate_phdr([](dl_phdr_info *i, size_t, void *v) -> int
  {
    Arg &a = *(Arg *)v; bool mine = false;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &ph = i->dlpi_phdr[k]; if (ph.p_type == PT_LOAD && a.addr >= i->dlpi_addr + ph.p_vaddr && a.addr < i->dlpi_addr + ph.p_vaddr + ph.p_memsz) mine = true; }
    if (!mine) return 0;
    uintptr_t from = 0, to = 0, relro = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &ph = i->dlpi_phdr[k]; uintptr_t s = i->dlpi_addr + ph.p_vaddr, e = s + ph.p_memsz; if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) { from = s; to = e; } if (ph.p_type == PT_GNU_RELRO) relro = e; }
    if (relro > from) from = relro;
    a.from = (uint8_t *)((from + 4095) & ~(uintptr_t)4095); a.to = (uint8_t *)((to + 4095) & ~(uintptr_t)4095); return 1;
  }, &arg);
  if (!arg.from) { fprintf(stderr, "no writable segment in the library\n"); _exit(3); }
  g_cut.from = arg.from; g_cut.to = arg.to; g_cut.pristine.assign(arg.from, arg.to); g_cut.codecs = f(&count);
}
// ================================================================ P08 results depend on the arguments only.
static Bytes compressOnce(const Op &o, int sIn, int sComp, uint8_t prefill, uint32_t cap)
{
  Op t = o; t.sIn = sIn; Buf in = putInput(t);
  Buf comp = place(regComp, cap, sComp, 0x3D, "compressed"); memset(comp.p, prefill, cap);
  uint32_t cs = doCompress(o, in, comp, cap, o.lc);
  if (cs == 0 || cs > cap) failf("%s: compression of %zu bytes returned %u", C(o).name, o.data().size(), cs);
  return Bytes(comp.p, comp.p + cs);
}
static void scrubStack() { volatile uint8_t junk[32768]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = (uint8_t)(0xA5 + i * 7); }
// other things that may have been called before: refused calls, the sectioned and the information interface, the same thing on another thread or many times.
static void otherCalls(const Op &o)
{
  const Bytes &d = o.data(); uint32_t n = (uint32_t)d.size(), cap = generousBound(n); int64_t how = o.a[3]; bool own = g_setLevel == hs_set_level;
  if (how == 0) return;
  Bytes in(d), comp(cap + 1024), out(n + EXTRA + 256); g_setLevel(o.lc);
  uint8_t claims[300]; memset(claims, 0xFF, sizeof claims);
  switch (how)
  {
  case 1: C(o).comp(in.data(), n, comp.data(), C(o).bound(n) - 1 - (uint32_t)(o.a[4] % std::min<uint32_t>(C(o).bound(n), 400))); break;
  case 2: if (isTransform(C(o))) C(o).dec(in.data(), n, out.data(), n - 1); else C(o).dec(claims, (uint32_t)(1 + o.a[4] % 299), out.data(), n); break;
  case 3: if (isTransform(C(o))) break; C(o).comp(nullptr, n, comp.data(), cap); C(o).comp(in.data(), n, nullptr, cap); C(o).dec(nullptr, n, out.data(), n); C(o).dec(in.data(), n, nullptr, n); C(o).comp(in.data(), 0, comp.data(), cap); break;
  case 4: { uint32_t sub = (uint32_t)(1 + o.a[4] % std::min<uint32_t>(n, 9)), b = rle8m_compress_bounds(sub, n); Bytes c2(b + 256); if (uint32_t cs = (own ? rle8m_compress : g_cut.mc)(sub, in.data(), n, c2.data(), b)) (own ? rle8m_decompress : g_cut.md)(c2.data(), cs, out.data(), n); break; }
  case 5: { rle8_low_entropy_compress_info_t ci; memset(&ci, 0, sizeof ci); if ((own ? rle8_low_entropy_get_compress_info : g_cut.info)(in.data(), n, &ci)) (own ? rle8_low_entropy_compress_with_info : g_cut.withInfo)(in.data(), n, &ci, comp.data(), cap); break; }
  case 6: { std::thread t([&]() { uint32_t cs = C(o).comp(in.data(), n, comp.data(), cap); if (cs) C(o).dec(comp.data(), cs, out.data(), n); }); t.join(); break; }
  default: { uint32_t few = std::min<uint32_t>(n, 40); uint32_t cs = 0; Bytes was; for (int64_t k = 0; k < o.a[4]; k++) { uint32_t c2 = C(o).comp(in.data(), few, comp.data(), cap); if (k && c2 != cs) failf("%s: compressing the same %u bytes for the %lld. time gives %u instead of %u bytes", C(o).name, few, (long long)k + 1, c2, cs); cs = c2; if (k == 0) was.assign(comp.begin(), comp.begin() + cs); else if (memcmp(was.data(), comp.data(), cs)) failf("%s: compressing the same %u bytes for the %lld. time gives another stream", C(o).name, few, (long long)k + 1); out[(size_t)k % few] ^= 0xFF; uint32_t ret = C(o).dec(comp.data(), cs, out.data(), few); if (ret != few || memcmp(out.data(), in.data(), few)) failf("%s: decompressing %u bytes for the %lld. time gives other bytes", C(o).name, few, (long long)k + 1); } break; }
  }
}
static void checkP08(const Case &c)
{
  std::vector<Bytes> first; int64_t alone = c.ops[0].a[5];
  struct Back { const hs_codec *t; ~Back() { g_codecs = t; g_setLevel = hs_set_level; } } back { g_codecs };
  if (alone) { loadCut(); g_codecs = g_cut.codecs; g_setLevel = g_cut.level; }
  for (size_t i = 0; i < c.ops.size(); i++)
  {
    const Op &o = c.ops[i];
    if (alone) // as the very first call: static storage as it was loaded, and perhaps on a thread which has never called anything either.
    {
      memcpy(g_cut.from, g_cut.pristine.data(), g_cut.pristine.size()); std::string err;
      auto one = [&]() { try { first.push_back(compressOnce(o, o.sIn, o.sComp, 0x00, generousBound(o.data().size()))); } catch (const Fail &f) { err = f.msg; } };
      if (alone == 2) { std::thread t(one); t.join(); } else one();
      if (!err.empty()) throw Fail { err };
      continue;
    }
    otherCalls(o);
    first.push_back(compressOnce(o, o.sIn, o.sComp, 0x00, generousBound(o.data().size())));
  }
  for (size_t j = c.ops.size(); j-- > 0;) // again, in the opposite order, at other addresses, on top of other garbage.
  {
    const Op &o = c.ops[j];
    scrubStack(); if (o.a[3] < 7) otherCalls(o);
    Bytes again = compressOnce(o, (o.sIn + 7 + (int)o.a[0]) % 200, (o.sComp + 13 + (int)o.a[1]) % 200, (uint8_t)(0xFF - o.a[2]), generousBound(o.data().size()));
    if (again != first[j]) failf("%s: compressing the same %zu bytes twice (other calls in between, other addresses, other previous buffer contents) gave different streams%s: %zu vs %zu bytes, first difference at %zu", C(o).name, o.data().size(), alone ? ", the first of them from the first call ever" : "", first[j].size(), again.size(), firstDiff(first[j].data(), again.data(), std::min(first[j].size(), again.size())));
    Buf comp = place(regComp, generousBound(o.data().size()), o.sOut, 0x3D, "compressed"); memcpy(comp.p, again.data(), again.size());
    Buf out = putOutput(o, o.data().size(), EXTRA); g_setLevel(o.ld);
    uint32_t ret = C(o).dec(comp.p, (uint32_t)again.size(), out.p, (uint32_t)o.data().size());
    expectDecoded(o, ret, out.p, "decompression after other calls");
  }
}
#if defined(__SANITIZE_ADDRESS__)
static const bool sanitized = true;
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
static const bool sanitized = true;
#else
static const bool sanitized = false;
#endif
#else
static const bool sanitized = false;
#endif
static void genP08(Rng &r, const Gen &g)
{
  Case k; k.prop = "P08"; int ops = (int)r.range(2, 10); bool sticky = r.chance(40), many = false; // sticky: the same buffers, filled with something else each time.
  BytesP shared; int w = 1, codec = -1;
  for (int i = 0; i < ops; i++)
  {
    bool fresh = !shared || r.chance(sticky ? 10 : 60);
    if (!sticky || fresh) w = pickWidth(r);
    if (fresh) { GenOpts go; go.bigPct = 1; go.maxSize = 80000; int st; shared = r.chance(15) ? mk(genLanes(r, 3000)) : mk(genInput(r, w, go, &st)); }
    else if (sticky)
    {
      Bytes b = *shared; size_t n = b.size();
      switch (r.below(4))
      {
      case 0: for (int q = (int)r.range(1, 4); q > 0; q--) b[r.below(n)] ^= (uint8_t)(1 + r.below(255)); break;
      case 1: { uint8_t x = r.byte(); for (auto &v : b) v ^= x; break; }
      case 2: std::rotate(b.begin(), b.begin() + r.below(n), b.end()); break;
      default: { Bytes o; GenOpts go; go.bigPct = 0; go.maxSize = 80000; while (o.size() < n) { int st; Bytes q = genInput(r, w, go, &st); o.insert(o.end(), q.begin(), q.end()); } o.resize(n); b = o; break; }
      }
      shared = mk(std::move(b));
    }
    std::vector<int> cs = codecsFor(r, w, 12); if (codec < 0 || !sticky || fresh || r.chance(25)) codec = cs[r.below(cs.size())];
    Op o = baseOp(r, codec, shared);
    o.a[0] = r.below(128); o.a[1] = r.below(128); o.a[2] = r.below(256); o.ld = pickLevel(r, C(o));
    if (r.chance(30)) { o.a[3] = r.chance(92) ? r.range(1, 5) : 6; o.a[4] = (int64_t)r.below(1 << 16); } if (i == 0 && r.below(60) == 0) { o.a[3] = 7; o.a[4] = r.chance(60) ? 66000 : r.range(100, 6000); many = true; g.label("many calls"); }
    if (sticky && i > 0) { const Op &f = k.ops[0]; o.sIn = f.sIn; o.sComp = f.sComp; o.sOut = f.sOut; if (r.chance(60)) { o.lc = k.ops.back().lc; o.ld = k.ops.back().ld; if (needsSse2(C(o))) { o.lc = std::max<int>(o.lc, L_SSE2); o.ld = std::max<int>(o.ld, L_SSE2); } } }
    k.ops.push_back(o);
  }
  if (!sanitized && !many && r.chance(40)) { k.ops[0].a[5] = r.chance(75) ? 1 : 2; g.label("against a first call"); }
  g.label(sticky ? "reused buffers" : ops < 5 ? "2-4 calls" : "5-10 calls"); g.emit(k);
}

// ================================================================ P09 concurrent calls.
struct Job { const Op *o; Bytes ref; std::string err; };
static Bytes compressAlone(const Op &o)
{
  uint32_t cap = generousBound(o.data().size()); Bytes comp(cap + 256);
  uint32_t cs = C(o).comp(o.data().data(), (uint32_t)o.data().size(), comp.data(), cap);
  if (cs == 0) failf("%s: compression failed", C(o).name);
  comp.resize(cs); return comp;
}
static std::string bothWays(const Op &o, const Bytes *ref, Bytes &comp, Bytes &out, uint32_t cap)
{
  size_t n = o.data().size(); memset(comp.data(), 0x55, std::min<size_t>(cap, 512)); for (size_t i = 0; i < n; i++) out[i] = (uint8_t)~o.data()[i];
  uint32_t cs = C(o).comp(o.data().data(), (uint32_t)n, comp.data(), cap);
  if (cs == 0 || (ref && (cs != ref->size() || memcmp(comp.data(), ref->data(), cs)))) return std::string(C(o).name) + (cs == 0 ? ": compression alongside other threads failed" : ": stream compressed alongside other threads differs from the one compressed alone");
  uint32_t ret = C(o).dec(comp.data(), cs, out.data(), (uint32_t)n);
  if (ret != n || memcmp(out.data(), o.data().data(), n)) return std::string(C(o).name) + ": decompression alongside other threads gave a wrong result";
  return "";
}
// (a) threads running freely.
static void freeThreads(const Case &c)
{
  std::vector<Job> jobs;
  hs_set_level(c.ops[0].lc);
  for (const Op &o : c.ops) { Job j; j.o = &o; j.ref = compressAlone(o); jobs.push_back(j); }
  int reps = (int)c.ops[0].a[0] * g_persist; std::atomic<int> go { 0 }; std::vector<std::thread> th; std::atomic<bool> bad { false };
  for (Job &j : jobs) th.emplace_back([&j, &go, &bad, reps, total = (int)jobs.size()]()
  {
    const Op &o = *j.o; size_t n = o.data().size(); uint32_t cap = generousBound(n); Bytes comp(cap + 256), out(n + EXTRA + 256);
    go++; while (go < total) ;
    for (int k = 0; k < reps && !bad; k++) { j.err = bothWays(o, &j.ref, comp, out, cap); if (!j.err.empty()) bad = true; }
  });
  for (auto &t : th) t.join();
  for (Job &j : jobs) if (!j.err.empty()) throw Fail { j.err };
}
// (b) a chosen schedule: one call is stopped where it first touches a chosen page of one of its buffers, the other thread's calls run from start to end, then it goes on.
// or the given number of instructions after that (the processor's single step flag), or that number of instructions after its start.
static std::atomic<int> g_turn; static uintptr_t g_trapFrom, g_trapTo; static bool g_trapped, g_stepping; static int64_t g_stepsLeft;
static void otherThreadRuns() { g_trapped = true; g_turn = 1; while (g_turn != 2) sched_yield(); }
static bool trapHook(uintptr_t a, void *ctx)
{
  if (a < g_trapFrom || a >= g_trapTo) return false;
  mprotect((void *)g_trapFrom, g_trapTo - g_trapFrom, PROT_READ | PROT_WRITE);
  if (!g_trapped && !g_stepping) { if (g_stepsLeft > 0) { g_stepping = true; ((ucontext_t *)ctx)->uc_mcontext.gregs[REG_EFL] |= 0x100; } else otherThreadRuns(); }
  return true;
}
static bool stepHook(void *ctx)
{
  if (!g_stepping) { ((ucontext_t *)ctx)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return true; }
  if (--g_stepsLeft > 0) return true;
  g_stepping = false; ((ucontext_t *)ctx)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; otherThreadRuns();
  return true;
}
static __attribute__((noinline)) void setStep(bool on) { if (on) asm volatile("pushfq\n orq $0x100, (%%rsp)\n popfq" ::: "memory", "cc"); else asm volatile("pushfq\n andq $~0x100, (%%rsp)\n popfq" ::: "memory", "cc"); }
static Buf placeSplit(Region &r, size_t n, size_t cut, const char *what) // page boundary at offset `cut`.
{
  Buf b; b.n = n; b.what = what; b.slack = 0; size_t first = (cut + CANARY + 4095) & ~(size_t)4095; b.p = r.base + first - cut; g_trapFrom = (uintptr_t)b.p + cut; g_trapTo = g_trapFrom + ((n - cut + 4095) & ~(size_t)4095) + 4096;
  if (g_trapTo > (uintptr_t)r.end()) failf("harness: split buffer does not fit");
  return b;
}
// (b') every access to static storage is a scheduling point: the code under test, as a shared library whose writable segment can be made inaccessible.
static bool g_staticMode, g_staticRearm; static int64_t g_staticCount, g_staticStop;
static void guardStatics(bool on) { if (g_cut.to > g_cut.from) mprotect(g_cut.from, (size_t)(g_cut.to - g_cut.from), on ? PROT_NONE : PROT_READ | PROT_WRITE); }
static bool staticHook(uintptr_t a, void *ctx) // an access to static storage: let this one instruction through, then count it.
{
  if (a < (uintptr_t)g_cut.from || a >= (uintptr_t)g_cut.to || !g_staticMode) return false;
  guardStatics(false); g_staticRearm = true; ((ucontext_t *)ctx)->uc_mcontext.gregs[REG_EFL] |= 0x100; return true;
}
static bool staticStep(void *ctx)
{
  auto &fl = ((ucontext_t *)ctx)->uc_mcontext.gregs[REG_EFL];
  if (g_staticRearm)
  {
    g_staticRearm = false; fl &= ~0x100ll; g_staticCount++;
    if (g_staticCount == g_staticStop) { g_staticMode = false; if (g_stepsLeft > 0) { g_stepping = true; fl |= 0x100; } else otherThreadRuns(); }
    else if (g_staticStop == 0 && g_staticCount >= 4000) g_staticMode = false;
    else guardStatics(true);
    return true;
  }
  return stepHook(ctx);
}
static bool scheduled(const Case &c)
{
  int mode = (int)c.ops[0].a[1]; bool statics = mode >= 3;
  const Op &A = c.ops[0], &B = c.ops[1]; size_t n = A.data().size(); uint32_t cap = generousBound(n);
  const hs_codec *table = g_codecs; void (*level)(int) = hs_set_level; struct Back { const hs_codec *t; ~Back() { g_codecs = t; g_stepHook = nullptr; g_faultHook = nullptr; } } back { table };
  if (statics) { loadCut(); g_codecs = g_cut.codecs; level = g_cut.level; memcpy(g_cut.from, g_cut.pristine.data(), g_cut.pristine.size()); }
  if (mode != 4) level(A.lc);
  Bytes refA = compressAlone(A), refB = compressAlone(B); Job jb; jb.o = &B; jb.ref = refB;
  bool dec = A.a[2] >= 2, onOut = A.a[2] & 1; size_t inN = dec ? refA.size() : n, outN = dec ? n + EXTRA : cap, part = onOut ? (dec ? n : refA.size()) : inN;
  if (part < 2) return false;
  size_t cut = 1 + (size_t)A.a[3] % (part - 1);
  Buf in = onOut || statics ? place(regIn, inN + 256, 64, 0, "input") : placeSplit(regIn, inN, cut, "input"); Buf out = onOut && !statics ? placeSplit(regOut, outN, cut, "output") : place(regOut, outN, 64, 0, "output");
  memcpy(in.p, dec ? refA.data() : A.data().data(), inN); memset(out.p, 0x55, outN);
  hs_fn fn = dec ? C(A).dec : C(A).comp; Bytes before; int64_t total = 0;
  g_trapped = g_stepping = g_staticMode = g_staticRearm = false; g_stepsLeft = 0;
  if (statics)
  {
    if (mode == 4) before = g_cut.pristine; else { Bytes o2(B.data().size() + EXTRA + 256), c2(generousBound(B.data().size()) + 256); bothWays(B, nullptr, c2, o2, generousBound(B.data().size())); before.assign(g_cut.from, g_cut.to); }
    memcpy(g_cut.from, before.data(), before.size());
    g_staticCount = 0; g_staticStop = 0; g_staticMode = true; g_faultHook = staticHook; g_stepHook = staticStep; guardStatics(true);
    fn(in.p, (uint32_t)inN, out.p, dec ? (uint32_t)n : cap); // how many accesses are there?
    g_staticMode = false; guardStatics(false); g_faultHook = nullptr; g_stepHook = nullptr; total = g_staticCount;
    memcpy(g_cut.from, before.data(), before.size()); memset(out.p, 0x55, outN);
    if (total == 0) return false;
  }
  g_turn = 0; g_stepsLeft = A.a[4]; bool fromStart = !statics && A.a[5] && A.a[4] > 0;
  std::thread t([&]() { Bytes comp(generousBound(B.data().size()) + 256), o2(B.data().size() + EXTRA + 256); while (g_turn == 0) std::this_thread::yield(); if (g_turn == 1) { jb.err = bothWays(B, &jb.ref, comp, o2, generousBound(B.data().size())); g_turn = 2; } });
  if (statics) { g_staticCount = 0; g_staticStop = 1 + A.a[3] % total; g_staticMode = true; g_faultHook = staticHook; g_stepHook = staticStep; guardStatics(true); }
  else { g_stepHook = stepHook; if (fromStart) { g_stepping = true; setStep(true); } else { mprotect((void *)g_trapFrom, g_trapTo - g_trapFrom, PROT_NONE); g_faultHook = trapHook; } }
  uint32_t ret = fn(in.p, (uint32_t)inN, out.p, dec ? (uint32_t)n : cap);
  g_stepping = false; setStep(false);
  g_stepHook = nullptr; g_faultHook = nullptr; g_staticMode = false;
  if (statics) guardStatics(false); else mprotect((void *)g_trapFrom, g_trapTo - g_trapFrom, PROT_READ | PROT_WRITE);
  if (!g_trapped) g_turn = 3;
  t.join();
  const Bytes &want = dec ? A.data() : refA; const char *nm = C(A).name;
  if (ret != want.size() || memcmp(out.p, want.data(), want.size()))
  {
    if (statics) failf("%s: %s%s, stopped %lld instructions after its %lld. access to static storage while another thread ran %s from start to end, gave another result than alone", nm, mode == 4 ? "the first call in a process, " : "", dec ? "decompression" : "compression", (long long)A.a[4], (long long)g_staticStop, C(B).name);
    failf("%s: %s, stopped %lld instructions after %s offset %zu while another thread ran %s from start to end, gave another result than alone", nm, dec ? "decompression" : "compression", (long long)A.a[4], fromStart ? "its start, not" : onOut ? "output" : "input", cut, C(B).name);
  }
  if (!jb.err.empty()) throw Fail { (mode == 4 ? "among the first calls in a process: " : "") + jb.err };
  return g_trapped;
}
// (c) the very first calls of a process, made by several threads at once.
int firstUse(const Case &c)
{
  std::atomic<int> go { 0 }; std::vector<std::string> err(c.ops.size()); std::vector<std::thread> th; int total = (int)c.ops.size();
  std::vector<Bytes> cb, ob; for (const Op &o : c.ops) { cb.emplace_back(o.data().size() * 2 + 4096); ob.emplace_back(o.data().size() + EXTRA + 256); }
  for (int i = 0; i < total; i++) th.emplace_back([&, i]() { const Op &o = c.ops[i]; go++; while (go < total) ; for (volatile int64_t k = 0; k < o.a[4]; k++) ; err[i] = bothWays(o, nullptr, cb[i], ob[i], (uint32_t)(o.data().size() * 2 + 2048)); });
  for (auto &t : th) t.join();
  for (int i = 0; i < total; i++) if (!err[i].empty()) return 10 + i;
  return 0;
}
static void freshProcess(const Case &c)
{
  static int fd = -1; if (fd < 0) fd = memfd_create("case", 0);
  if (ftruncate(fd, 0)) failf("harness: memfd");
  lseek(fd, 0, SEEK_SET); FILE *f = fdopen(dup(fd), "w"); writeCase(f, c); fclose(f);
  char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
  for (int k = 0; k < (int)c.ops[0].a[0] * g_persist; k++)
  {
    pid_t pid = vfork(); if (pid == 0) { execl("/proc/self/exe", "engine", "firstuse", path, (char *)nullptr); _exit(4); }
    int st; while (waitpid(pid, &st, 0) < 0) ;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)) failf("harness: fresh process");
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 10) failf("%s: failed when the first calls of a process came from %zu threads at once", C(c.ops[(WEXITSTATUS(st) - 10) % c.ops.size()]).name, c.ops.size());
    if (!WIFEXITED(st) || WEXITSTATUS(st)) failf("first calls of a process from %zu threads at once ended the process", c.ops.size());
  }
}
static void checkP09(const Case &c)
{
  if (c.ops[0].a[1] != 0 && c.ops[0].a[1] != 2) { if (c.ops.size() == 2) scheduled(c); } else if (c.ops[0].a[1] == 2) freshProcess(c); else freeThreads(c);
}
static void genP09(Rng &r, const Gen &g)
{
  Case k; k.prop = "P09"; int kind = (int)r.below(100); int mode = kind < 30 ? 1 : kind < 65 ? 3 : kind < 92 ? 4 : kind < 99 ? 0 : 2; bool sched = mode == 1 || mode >= 3;
  int threads = sched ? 2 : (int)r.range(2, 5); int l = g_levels[r.below(g_levels.size())]; if (l < L_SSE2) l = L_SSE2;
  int rel = (int)r.below(100); bool same = rel < 60; // the same codec throughout, one of the same kind, or any.
  int fixed = (int)r.below(g_codecCount), w = g_codecs[fixed].kind == K_RLE ? g_codecs[fixed].width : 1; std::vector<int> cs;
  if (rel < 80) { for (int i = 0; i < g_codecCount; i++) if (g_codecs[i].kind == g_codecs[fixed].kind && (g_codecs[i].kind != K_RLE || g_codecs[i].width == w)) cs.push_back(i); } else cs = codecsFor(r, w, 6);
  for (int i = 0; i < threads; i++)
  {
    GenOpts go; go.bigPct = 0; go.maxSize = 3000; int st; Bytes b = r.chance(20) ? genLanes(r, 3000) : genInput(r, w, go, &st);
    if (b.size() < 300 && !sched) { Bytes c = b; while (b.size() < 300) b.insert(b.end(), c.begin(), c.end()); }
    Op o = baseOp(r, same || i == 0 ? fixed : cs[r.below(cs.size())], mk(std::move(b)));
    if (mode == 2 && r.chance(60)) { int q; do q = (int)r.below(g_codecCount); while (g_codecs[q].kind != K_MMTF && g_codecs[q].kind != K_RLEMMTF); o.codec = q; }
    o.a[5] = r.chance(35);
    o.lc = o.ld = l; o.a[0] = mode == 2 ? 8 : 30; o.a[1] = mode; o.a[2] = r.below(4); o.a[3] = (int64_t)r.below(1u << 20); o.a[4] = r.chance(40) ? 0 : (int64_t)r.below(r.chance(50) ? 3000 : 60000); if (mode >= 3) o.a[4] = r.chance(60) ? 0 : 1 + (int64_t)r.below((uint64_t)1 << r.range(2, 12)); else if (mode == 1) o.a[4] = r.chance(o.a[5] ? 0 : 35) ? 0 : 1 + (int64_t)r.below((uint64_t)1 << r.range(2, 14)); k.ops.push_back(o);
  }
  g.label(mode >= 3 ? (mode == 3 ? "schedule at static access" : "first use, at static access") : mode == 1 ? "chosen schedule" : mode == 0 ? "free threads" : "first use"); g.emit(k);
}

// ================================================================ P10 streams are interchangeable with the recorded release.
static const hs_codec *g_ref = nullptr; static int g_refCount = 0; static void (*g_refLevel)(int) = nullptr;
static uint32_t (*g_refM)(const uint32_t, const uint8_t *, const uint32_t, uint8_t *, const uint32_t); static uint32_t (*g_refMd)(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
static void loadRef()
{
  if (g_ref) return;
  const char *path = getenv("HS_REFERENCE"); if (!path) { fprintf(stderr, "HS_REFERENCE not set\n"); _exit(3); }
  void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
  auto f = (const hs_codec *(*)(int *))dlsym(h, "hs_codecs"); g_refLevel = (void (*)(int))dlsym(h, "hs_set_level");
  g_refM = (decltype(g_refM))dlsym(h, "rle8m_compress"); g_refMd = (decltype(g_refMd))dlsym(h, "rle8m_decompress");
  g_ref = f(&g_refCount); if (g_refCount != g_codecCount || (const void *)g_ref == (const void *)g_codecs) { fprintf(stderr, "reference mismatch\n"); _exit(3); }
}
static void checkP10(const Case &c)
{
  loadRef();
  const Op &o = c.ops[0]; size_t n = o.data().size(); const hs_codec &rf = g_ref[o.codec];
  Buf in = putInput(o); uint32_t cap = generousBound(n) + 512;
  Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed");
  if (o.a[0]) // the sectioned streams.
  {
    uint32_t sub = (uint32_t)std::min<int64_t>(o.a[0], (int64_t)n); cap = rle8m_compress_bounds(sub, (uint32_t)n) + 512; comp = place(regComp, cap, o.sComp, 0x3D, "compressed");
    g_refLevel(o.lc); uint32_t cs = g_refM(sub, in.p, (uint32_t)n, comp.p, cap);
    if (cs) { Buf out = putOutput(o, n, EXTRA); hs_set_level(o.ld); expectDecoded(o, rle8m_decompress(comp.p, cs, out.p, (uint32_t)n), out.p, "decompression of a sectioned stream written by the recorded release"); }
    hs_set_level(o.lc); uint32_t cs2 = rle8m_compress(sub, in.p, (uint32_t)n, comp.p, cap); if (cs2 == 0) failf("sectioned compression failed");
    Buf out = putOutput(o, n, EXTRA + 512); g_refLevel(o.ld);
    expectDecoded(o, g_refMd(comp.p, cs2, out.p, (uint32_t)n), out.p, "decompression by the recorded release of a sectioned stream written by this tree");
    return;
  }
  // release -> this tree
  g_refLevel(o.lc);
  uint32_t cs = rf.comp(in.p, (uint32_t)n, comp.p, cap);
  if (cs != 0)
  {
    Buf out = putOutput(o, n, EXTRA); hs_set_level(o.ld);
    expectDecoded(o, C(o).dec(comp.p, cs, out.p, (uint32_t)n), out.p, "decompression of a stream written by the recorded release");
  }
  // this tree -> release
  uint32_t cs2 = doCompress(o, in, comp, cap, o.lc);
  if (cs2 == 0) failf("%s: compression failed", C(o).name);
  Buf out = putOutput(o, n, EXTRA + 512); g_refLevel(o.ld);
  expectDecoded(o, rf.dec(comp.p, cs2, out.p, (uint32_t)n), out.p, "decompression by the recorded release of a stream written by this tree");
}
static void genP10(Rng &r, const Gen &g) { emitSimple(r, g, "P10", 5, [](Rng &r, Op &o) { o.ld = pickLevel(r, C(o)); if (C(o).kind == K_LE && r.chance(50)) o.a[0] = r.range(1, 9); }); }

// ================================================================ P26 compression is as effective as the recorded release's.
static Bytes genUnits(Rng &r, int w) // a few kinds of (other bytes, repetitions) over and over: what is missed of one kind adds up.
{
  struct Kind { int lit, rep; }; std::vector<Kind> ks; bool aligned = r.chance(50); int kinds = (int)r.range(1, 3);
  for (int i = 0; i < kinds; i++)
  {
    int l = (int)(r.chance(75) ? r.below(14) : r.chance(80) ? r.below(60) : r.range(120, 300)), q = (int)(r.chance(70) ? r.range(2, 6 + 24 / w) * w : r.chance(80) ? r.range(2, 70) : r.range(120, 300));
    if (aligned) { l = l / w * w; q = std::max(q / w, 2) * w; } ks.push_back({ l, q });
  }
  int syms = r.chance(25) ? 0 : (int)r.range(1, 10); std::vector<Bytes> set; auto fresh = [&]() { Bytes b(w); for (auto &x : b) x = r.byte(); return b; };
  for (int i = 0; i < syms; i++) set.push_back(fresh());
  size_t target = (size_t)r.range(1500, 9000); Bytes o; size_t at = 0; bool cycle = r.chance(50);
  if (r.chance(30)) for (int i = (int)r.below(w * 2 + 1); i > 0; i--) o.push_back(r.byte());
  while (o.size() < target)
  {
    const Kind &k = ks[r.below(ks.size())];
    for (int i = 0; i < k.lit; i++) o.push_back(r.byte());
    const Bytes s = syms ? set[cycle ? at++ % syms : r.below(syms)] : fresh();
    for (int i = 0; i < k.rep; i++) o.push_back(s[i % w]);
  }
  return o;
}
static Bytes genShortRuns(Rng &r, int w) // a few symbols, each with its own frequency and tendency to stay.
{
  int k = (int)r.range(2, 12); struct Sym { Bytes b; int weight, stay; }; std::vector<Sym> ss(k); int total = 0; int other = r.chance(50) ? 0 : (int)r.range(5, 60);
  for (auto &s : ss) { s.b.resize(w); for (auto &x : s.b) x = r.byte(); s.weight = (int)r.range(1, 20); s.stay = r.chance(30) ? 0 : (int)r.range(5, r.chance(70) ? 60 : 92); total += s.weight; }
  size_t target = (size_t)r.range(1500, 9000); Bytes o;
  while (o.size() < target)
  {
    if ((int)r.below(100) < other) { for (int i = 0; i < w; i++) o.push_back(r.byte()); continue; }
    int x = (int)r.below(total); size_t j = 0; while (x >= ss[j].weight) x -= ss[j++].weight;
    do for (uint8_t v : ss[j].b) o.push_back(v); while ((int)r.below(100) < ss[j].stay && o.size() < target);
  }
  return o;
}
static void checkP26(const Case &c)
{
  loadRef(); const Op &o = c.ops[0]; size_t n = o.data().size(); if (isTransform(C(o))) return;
  Buf in = putInput(o); uint32_t cap = generousBound(n) + 512; Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed"); uint32_t was, is;
  if (o.a[0]) { uint32_t sub = (uint32_t)std::min<int64_t>(o.a[0], (int64_t)n); cap = rle8m_compress_bounds(sub, (uint32_t)n) + 512; comp = place(regComp, cap, o.sComp, 0x3D, "compressed"); g_refLevel(o.lc); was = g_refM(sub, in.p, (uint32_t)n, comp.p, cap); hs_set_level(o.lc); is = rle8m_compress(sub, in.p, (uint32_t)n, comp.p, cap); }
  else { g_refLevel(o.lc); was = g_ref[o.codec].comp(in.p, (uint32_t)n, comp.p, cap); is = doCompress(o, in, comp, cap, o.lc); }
  if (was && (is == 0 || is > was + was / 50 + 24)) failf("%s%s: %zu bytes are compressed to %u bytes, by the recorded release to %u", C(o).name, o.a[0] ? ", in sections" : "", n, is, was);
}
static void genP26(Rng &r, const Gen &g)
{
  if (g.batch % 4 == 3) { emitSimple(r, g, "P26", 5, [](Rng &r, Op &o) { if (C(o).kind == K_LE && r.chance(50)) o.a[0] = r.range(1, 9); }, [](const hs_codec &c) { return !isTransform(c); }); return; }
  int w = pickWidth(r); bool s = g.batch % 4 == 2; BytesP in = mk(s ? genShortRuns(r, w) : genUnits(r, w)); g.label(s ? "short runs" : "repeated units");
  for (int q : codecsFor(r, w, 5)) { if (isTransform(g_codecs[q])) continue; Case k; k.prop = "P26"; k.ops.push_back(baseOp(r, q, in)); g.emit(k); }
}

// ================================================================ P11 multi-lane move-to-front: naive model.
static Bytes modelMtf(const Bytes &d, size_t lanes, bool encode)
{
  std::vector<Bytes> h(lanes, Bytes(256)); for (auto &l : h) for (int i = 0; i < 256; i++) l[i] = (uint8_t)i;
  Bytes out(d.size());
  for (size_t i = 0; i < d.size(); i++)
  {
    Bytes &l = h[i % lanes]; size_t at;
    if (encode) { at = std::find(l.begin(), l.end(), d[i]) - l.begin(); out[i] = (uint8_t)at; } else { at = d[i]; out[i] = l[at]; }
    uint8_t v = l[at]; l.erase(l.begin() + at); l.insert(l.begin(), v);
  }
  return out;
}
static Bytes modelXor(const Bytes &d, size_t w, bool encode)
{
  Bytes out(d.size()); size_t whole = d.size() / w * w;
  for (size_t i = 0; i < whole; i++) { uint8_t prev = i < w ? 0 : encode ? d[i - w] : out[i - w]; out[i] = (uint8_t)(d[i] ^ prev); }
  for (size_t i = whole; i < d.size(); i++) out[i] = d[i];
  return out;
}
static void checkTransform(const Case &c)
{
  const Op &o = c.ops[0]; const hs_codec &cd = C(o); size_t n = o.data().size(); bool enc = o.a[0] == 0;
  Bytes want = cd.kind == K_MMTF ? modelMtf(o.data(), cd.width, enc) : modelXor(o.data(), cd.width, enc);
  Buf in = putInput(o); Buf out = place(regOut, n + (size_t)o.a[1], o.sOut, 0x5C, "output");
  for (size_t i = 0; i < n; i++) out.p[i] = (uint8_t)~want[i];
  memset(out.p + n, 0x5C, (size_t)o.a[1]);
  hs_set_level(o.lc);
  uint32_t ret = (enc ? cd.comp : cd.dec)(in.p, (uint32_t)n, out.p, (uint32_t)(n + o.a[1]));
  inputIntact(in, o); out.checkCanary();
  for (int64_t i = 0; i < o.a[1]; i++) if (out.p[n + i] != 0x5C) failf("%s: %s wrote past the %zu bytes of the result", cd.name, enc ? "encoding" : "decoding", n);
  if (ret != n) failf("%s: %s %zu bytes returned %u (level %s)", cd.name, enc ? "encoding" : "decoding", n, ret, lvlName(o.lc));
  if (memcmp(out.p, want.data(), n)) { size_t i = firstDiff(out.p, want.data(), n); failf("%s: %s %zu bytes at level %s: byte %zu is 0x%02X, the plain definition gives 0x%02X", cd.name, enc ? "encoding" : "decoding", n, lvlName(o.lc), i, out.p[i], want[i]); }
}
static void genTransform(Rng &r, const Gen &g, const char *prop, int kind)
{
  BytesP in; int k = (int)r.below(100);
  if (k < 45) { in = mk(genLanes(r, 5000)); g.label("lanes"); }
  else if (k < 60) { Bytes b((size_t)r.range(1, 700)); int al = (int)(r.chance(50) ? 256 : r.range(1, 12)); for (auto &x : b) x = (uint8_t)(r.below(al) + (al < 256 ? 250 : 0)); in = mk(std::move(b)); g.label("small-alphabet"); }
  else { GenOpts go; go.bigPct = 0; go.maxSize = 5000; int st; in = mk(genInput(r, pickWidth(r), go, &st)); g.label(styleNames[st]); }
  for (int i = 0; i < g_codecCount; i++) if (g_codecs[i].kind == kind) for (int rep = 0; rep < 3; rep++)
  {
    Case c; c.prop = prop; Op o = baseOp(r, i, in); o.a[0] = r.below(2); o.a[1] = r.chance(60) ? 0 : r.below(100);
    // reach the aligned code paths: both buffers on 32-byte boundaries.
    if (r.chance(55)) { o.sIn = (int)((64 - in->size() % 64) % 64) + (r.chance(30) ? 16 : 0); o.sOut = (int)((64 - (in->size() + o.a[1]) % 64) % 64) + (r.chance(15) ? 16 : 0); }
    c.ops.push_back(o); g.emit(c);
  }
}
static void genP11(Rng &r, const Gen &g) { genTransform(r, g, "P11", K_MMTF); }
static void genP12(Rng &r, const Gen &g) { genTransform(r, g, "P12", K_BITMMTF); }

// ================================================================ P13 low entropy codecs: the separate information API.
static void checkP13(const Case &c)
{
  const Op &o = c.ops[0]; const Bytes &d = o.data(); uint32_t n = (uint32_t)d.size(); bool shrt = o.a[0] & 1, single = o.a[0] & 2;
  const char *nm = shrt ? "low entropy short" : "low entropy";
  hs_set_level(o.lc);
  Buf in = putInput(o);
  rle8_low_entropy_compress_info_t ci; memset(&ci, (int)o.a[1], sizeof ci);
  bool ok = single ? rle8_low_entropy_get_compress_info_only_max_frequency(in.p, n, &ci) : rle8_low_entropy_get_compress_info(in.p, n, &ci);
  if (!ok) failf("%s: no information for %u bytes", nm, n);
  inputIntact(in, o);
  bool present[256] = { false }; for (uint8_t b : d) present[b] = true;
  int rleCount = 0; for (int i = 0; i < 256; i++) if (ci.rle[i]) { rleCount++; if (!present[i]) failf("%s: symbol %d is marked for run length encoding but does not occur", nm, i); }
  if (single && rleCount > 1) failf("%s: %d symbols marked in the single symbol mode", nm, rleCount);
  bool seen[256] = { false }; for (int i = 0; i < 256; i++) { if (seen[ci.symbolsByProb[i]]) failf("%s: the symbol order is no permutation (symbol %d twice)", nm, ci.symbolsByProb[i]); seen[ci.symbolsByProb[i]] = true; }
  uint8_t info[1024]; memset(info, 0xCD, sizeof info);
  uint32_t is = rle8_low_entropy_write_compress_info(&ci, info, 512);
  if (is == 0 || is > 289) failf("%s: written information takes %u bytes", nm, is);
  for (size_t i = is; i < sizeof info; i++) if (info[i] != 0xCD) failf("%s: information writes past its size", nm);
  rle8_low_entropy_decompress_info_t di; memset(&di, (int)o.a[2], sizeof di);
  uint32_t rd = rle8_low_entropy_read_decompress_info(info, is, &di);
  if (rd != is) failf("%s: read %u bytes of information, %u were written", nm, rd, is);
  for (int i = 0; i < 256; i++)
  {
    if (!!di.rle[i] != !!ci.rle[i]) failf("%s: symbol %d: mark lost between writing and reading the information", nm, i);
    if (di.symbolToCount[ci.symbolsByProb[i]] != i) failf("%s: count %d is written as symbol %d, which reads back as %d", nm, i, ci.symbolsByProb[i], di.symbolToCount[ci.symbolsByProb[i]]);
  }
  uint32_t cap = generousBound(n) + 64; Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed"); memset(comp.p, 0xEE, cap);
  uint32_t cs = (shrt ? rle8_low_entropy_short_compress_with_info : rle8_low_entropy_compress_with_info)(in.p, n, &ci, comp.p, cap);
  if (cs == 0 || cs > cap) failf("%s: compression with given information returned %u", nm, cs);
  comp.checkCanary(); inputIntact(in, o);
  Buf out = putOutput(o, n, EXTRA); hs_set_level(o.ld);
  uint32_t ret = (shrt ? rle8_low_entropy_short_decompress_with_info : rle8_low_entropy_decompress_with_info)(comp.p, comp.p + cs, &di, out.p, n);
  out.checkCanary();
  if (ret != n) failf("%s: decompression with given information returned %u, expected %u", nm, ret, n);
  if (memcmp(out.p, d.data(), n)) { size_t i = firstDiff(out.p, d.data(), n); failf("%s: decompression with given information at level %s: wrong byte at %zu of %u", nm, lvlName(o.ld), i, n); }
  // the whole-stream call agrees, and reports the size.
  hs_set_level(o.lc);
  auto whole = shrt ? (single ? rle8_low_entropy_short_compress_only_max_frequency : rle8_low_entropy_short_compress) : (single ? rle8_low_entropy_compress_only_max_frequency : rle8_low_entropy_compress);
  uint32_t ws = whole(in.p, n, comp.p, cap);
  if (ws == 0) failf("%s: compression of %u bytes failed", nm, n);
  uint32_t rep = rle8_low_entropy_decompressed_size(comp.p, ws);
  if (rep != n) failf("%s: the reported decompressed size is %u, expected %u", nm, rep, n);
  for (uint32_t k = 0; k < 8; k++) if (uint32_t v = rle8_low_entropy_decompressed_size(comp.p, k)) failf("%s: %u bytes of a stream report a decompressed size of %u", nm, k, v);
}
static void genP13(Rng &r, const Gen &g)
{
  BytesP in = genFor(r, 1, g);
  if (r.chance(35)) { GenOpts go; go.bigPct = 0; Bytes b; int al = (int)r.range(1, 6); int q = (int)r.range(20, 95); uint8_t v = 0; size_t n = (size_t)r.range(1, 3000); uint8_t base = r.byte(); for (size_t i = 0; i < n; i++) { if (!r.chance(q)) v = (uint8_t)(base + r.below(al)); b.push_back(v); } in = mk(std::move(b)); g.label("few-symbol runs"); }
  for (int m = 0; m < 4; m++) { Case k; k.prop = "P13"; Op o = baseOp(r, codecByName(m & 1 ? "rle8_low_entropy_short" : "rle8_low_entropy"), in); o.ld = pickLevel(r, C(o)); o.a[0] = m; o.a[1] = r.byte(); o.a[2] = r.byte(); k.ops.push_back(o); g.emit(k); }
}

// ================================================================ P14 sub-sections.
static void checkP14(const Case &c)
{
  const Op &o = c.ops[0]; uint32_t n = (uint32_t)o.data().size(), sub = (uint32_t)o.a[0];
  if (sub == 0) return;
  Buf in = putInput(o); uint32_t cap = rle8m_compress_bounds(sub, n);
  if (sub > n || o.a[3]) // more sections than bytes, sizes beyond 32 bit: refused, whatever the bound says.
  {
    const uint32_t vast = o.a[3] ? (uint32_t)o.a[3] : n; // the claimed input size.
    cap = rle8m_compress_bounds(sub, vast);
    const uint64_t least = (uint64_t)vast + 4 * ((uint64_t)sub + 2);
    if (cap && cap < least) failf("the bound for %u bytes in %u sections is %u, less than the sizes alone", vast, sub, cap);
    if (o.a[3] && least <= UINT32_MAX) return;
    uint32_t room = std::min(cap, (uint32_t)1 << 20); if (room == 0) room = 1 << 10;
    Buf comp = place(regComp, room, o.sComp, 0x3D, "compressed"); hs_set_level(o.lc);
    if (uint32_t v = rle8m_compress(sub, in.p, vast, comp.p, room)) failf("compression of %u bytes in %u sections into %u bytes returned %u", vast, sub, room, v);
    inputIntact(in, o); comp.checkCanary();
    return;
  }
  Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed");
  hs_set_level(o.lc);
  uint32_t cs = rle8m_compress(sub, in.p, n, comp.p, cap);
  inputIntact(in, o); comp.checkCanary();
  if (cs == 0) failf("compression of %u bytes in %u sections into a buffer of the advertised bound failed", n, sub);
  if (cs > cap) failf("%u bytes in %u sections take %u bytes, above the advertised bound %u", n, sub, cs, cap);
  if (rle8_low_entropy_decompressed_size(comp.p, cs) != n) failf("sectioned stream reports %u bytes, expected %u", rle8_low_entropy_decompressed_size(comp.p, cs), n);
  Buf mv = place(regAux, cs + EXTRA, o.sIn, 0x99, "stream"); memcpy(mv.p, comp.p, cs); memset(mv.p + cs, (int)o.a[1], EXTRA);
  Buf out = putOutput(o, n, EXTRA); hs_set_level(o.ld);
  uint32_t ret = rle8m_decompress(mv.p, cs, out.p, n);
  out.checkCanary();
  if (ret != n) failf("decompression of %u bytes in %u sections returned %u", n, sub, ret);
  if (memcmp(out.p, o.data().data(), n)) failf("decompression of %u bytes in %u sections at level %s: wrong byte at %zu", n, sub, lvlName(o.ld), firstDiff(out.p, o.data().data(), n));
  if (o.a[2])
  {
    uint32_t part = (uint32_t)(o.a[2] % cs); if (part) if (uint32_t v = rle8m_decompress(mv.p, part, out.p, n)) failf("decompressing the first %u of %u bytes of a sectioned stream returned %u", part, cs, v);
    uint32_t small = (uint32_t)(o.a[2] % n); if (small) if (uint32_t v = rle8m_decompress(mv.p, cs, out.p, small)) failf("decompressing %u bytes in sections into %u returned %u", n, small, v);
    if (uint32_t v = rle8m_compress(sub, in.p, n, comp.p, cap - 1 - (uint32_t)(o.a[2] % 40))) failf("sectioned compression into less than the advertised bound returned %u", v);
    if (uint32_t v = rle8m_compress(0, in.p, n, comp.p, cap)) failf("compression in 0 sections returned %u", v);
  }
}
static void genP14(Rng &r, const Gen &g)
{
  BytesP in = genFor(r, 1, g);
  for (int rep = 0; rep < 4; rep++)
  {
    Case k; k.prop = "P14"; Op o = baseOp(r, codecByName("rle8_low_entropy"), in); o.ld = pickLevel(r, C(o));
    size_t n = in->size(); o.a[0] = r.chance(70) ? r.range(1, std::min<int64_t>((int64_t)n, 9)) : r.range(1, std::min<int64_t>((int64_t)n, 200)); if (r.chance(4)) o.a[0] = std::min<int64_t>((int64_t)n, 2000);
    if (r.chance(6)) // the sums exceed 32 bit.
    {
      static const uint32_t W[] = { 4, 6, 8, 5, 3, 2 }; uint64_t w = W[r.below(6)], v = ((uint64_t)1 << 32) * (uint64_t)r.range(1, (int64_t)w) / w; o.a[0] = (int64_t)(uint32_t)(v + (uint64_t)r.range(-400, 400)); if (r.chance(30)) o.a[0] = (int64_t)r.range((int64_t)n + 1, r.chance(50) ? (int64_t)n + 300 : (int64_t)UINT32_MAX);
      if (o.a[0] == 0) o.a[0] = 1;
      g.label("vast number of sections");
    }
    else if (r.chance(3)) { o.a[0] = r.range(1, 1000); o.a[3] = (int64_t)UINT32_MAX - r.range(0, r.chance(50) ? 400 : 7000); g.label("vast size"); }
    o.a[1] = r.byte(); o.a[2] = r.chance(30) ? (int64_t)r.below(1u << 30) + 1 : 0; k.ops.push_back(o); g.emit(k);
  }
}

// ================================================================ P15 runs are actually compressed.
// The oracle reads the long runs off the data: a limit on the compressed size follows from their number and from the bytes outside of them.
static bool limitP15(const hs_codec &cd, const Bytes &d, int64_t &limit, int64_t &runs, int64_t &rest)
{
  size_t n = d.size(), w = (size_t)cd.width; if (cd.kind != K_RLE) w = 1;
  runs = 0; rest = 0; int64_t inRuns = 0; std::map<Bytes, int> syms; size_t i = 0;
  while (i < n)
  {
    size_t j = i + w; while (j < n && d[j] == d[j - w]) j++;
    if (j > n) j = n;
    bool lng = j - i >= 64 * w;
    if (lng && cd.kind == K_SH && j == n) lng = false; // the last run of a stream may be stored as it is.
    if (lng) { runs++; inRuns += (int64_t)(j - i); if (cd.single) syms[Bytes(d.begin() + i, d.begin() + i + w)]++; i = j; }
    else { rest++; i++; }
  }
  if (runs == 0 || (cd.single && syms.size() != 1)) return false;
  if (cd.single) // the one symbol is chosen by what its runs save on average: its short ones and those of others have to be few.
  {
    uint8_t sym = syms.begin()->first[0]; int64_t same = 0, other = 0;
    for (size_t a = 0, e; a < n; a = e) { for (e = a + 1; e < n && d[e] == d[a]; e++); if (d[a] == sym) same += e - a < 64; else if (e - a > 1) other += (int64_t)(e - a); }
    if (same > runs || other * 4 > inRuns) return false;
  }
  switch (cd.kind)
  {
  case K_RLE: limit = 9 + rest + runs * (int64_t)(3 * w + 14) + 32; break;
  case K_SH: limit = 40 + rest + rest / 100 + runs * 14; break;
  case K_RLEMMTF: limit = 32 + rest + rest / 8 + runs * 64; break;
  default: limit = 300 + 2 * rest + runs * 6 + inRuns / 12; break;
  }
  return true;
}
static void checkP15(const Case &c)
{
  const Op &o = c.ops[0]; const hs_codec &cd = C(o); size_t n = o.data().size(); int64_t limit, runs, rest;
  if (!limitP15(cd, o.data(), limit, runs, rest)) return;
  Buf in = putInput(o); uint32_t cap = generousBound(n);
  Buf comp = place(regComp, cap, 64, 0x3D, "compressed");
  uint32_t cs = doCompress(o, in, comp, cap, o.lc);
  if (cs == 0) failf("%s: compression of %zu bytes failed", cd.name, n);
  if ((int64_t)cs > limit) failf("%s: %zu bytes consisting of %lld long run(s) and %lld other byte(s) take %u bytes at level %s, more than %lld", cd.name, n, (long long)runs, (long long)rest, cs, lvlName(o.lc), (long long)limit);
}
static void genP15(Rng &r, const Gen &g)
{
  int w = pickWidth(r); int runs = (int)r.range(1, r.chance(80) ? 12 : 60); int symCount = (int)r.range(1, 9); bool onlyOne = r.chance(35); if (onlyOne) symCount = 1;
  std::vector<Bytes> pool; for (int i = 0; i < symCount; i++) { Bytes s(w); bool again; do { again = false; for (auto &b : s) b = r.byte(); for (auto &q : pool) if (q == s) again = true; } while (again); pool.push_back(s); }
  Bytes b; int last = -1; bool gapped = r.chance(60), far = r.chance(4), vast = r.chance(1); int ls = r.chance(50) ? 1 : (int)r.below(4);
  for (int i = 0; i < runs; i++)
  {
    size_t gp = (gapped || (last >= 0 && symCount == 1)) ? (size_t)r.range(1, r.chance(85) ? 12 : 400) : 0; if (i == 0 && r.chance(50)) gp = 0;
    if (far && i == (int)(r.below(runs))) { gp = ((size_t)1 << r.range(14, r.chance(15) ? 24 : 20)) + r.below(3000); far = false; g.label("far apart"); }
    for (size_t at = b.size(), k = 0; k < gp; k++) b.push_back(ls == 1 ? (uint8_t)((at + k) * 37 + i) : ls == 2 ? (uint8_t)r.below(5) : r.byte());
    int s; do s = (int)r.below(symCount); while (symCount > 1 && s == last); last = s;
    size_t l = (size_t)(r.chance(60) ? r.range(64, 300) : r.chance(70) ? r.range(200, 3000) : r.range(30000, 70000)); if (b.size() > 200000) l = 64 + r.below(100);
    if (vast && b.size() < 2000000) { l = (((size_t)1 << r.range(17, r.chance(30) ? 24 : 20)) + r.below(3000)) / w; vast = false; g.label("vast run"); }
    for (size_t k = 0; k < l; k++) b.insert(b.end(), pool[s].begin(), pool[s].end());
    for (size_t k = r.chance(25) ? r.below(w) : 0; k > 0; k--) b.push_back(b[b.size() - w]);
  }
  for (size_t k = r.chance(50) ? r.below(30) : 0; k > 0; k--) b.push_back((uint8_t)(b.back() + 1 + r.below(90)));
  BytesP in = mk(std::move(b)); g.label(onlyOne ? "one symbol" : "several symbols");
  for (int cidx : codecsFor(r, w, 0))
  {
    const hs_codec &cd = g_codecs[cidx]; if (isTransform(cd)) continue; int64_t x, y, z; if (!limitP15(cd, *in, x, y, z)) continue;
    Case k; k.prop = "P15"; k.ops.push_back(baseOp(r, cidx, in)); g.emit(k);
  }
}

// ================================================================ P16 more room than needed changes nothing.
static uint8_t *vast() // 4 GiB that can be written, of which only the touched pages take memory.
{
  static uint8_t *p = nullptr; const size_t size = ((size_t)1 << 32) + (1 << 20);
  if (!p) { p = (uint8_t *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } }
  else madvise(p, size, MADV_DONTNEED);
  return p;
}
static void checkP16(const Case &c)
{
  const Op &o = c.ops[0]; size_t n = o.data().size();
  Buf in = putInput(o); uint32_t cap = C(o).bound((uint32_t)n), more = cap + (uint32_t)o.a[0];
  Buf comp = place(regComp, cap, o.sComp, 0x3D, "compressed");
  uint32_t cs = doCompress(o, in, comp, cap, o.lc);
  if (cs == 0) failf("%s: compression of %zu bytes failed", C(o).name, n);
  Bytes first(comp.p, comp.p + cs);
  if (o.a[2])
  {
    uint8_t *p = vast(); more = (uint32_t)o.a[2]; hs_set_level(o.lc); uint32_t cs2 = C(o).comp(in.p, (uint32_t)n, p, more);
    if (cs2 != cs || memcmp(first.data(), p, cs)) failf("%s: %u bytes of room give a stream of %u bytes, %u bytes of room another one of %u", C(o).name, cap, cs, more, cs2);
    p = vast(); hs_set_level(o.ld); uint32_t ret = C(o).dec(comp.p, cs, p, more);
    expectDecoded(o, ret, p, "decompression into a vast buffer"); vast();
    return;
  }
  comp = place(regComp, more, o.sComp, 0x3D, "compressed");
  uint32_t cs2 = doCompress(o, in, comp, more, o.lc);
  comp.checkCanary();
  if (cs2 != cs || memcmp(first.data(), comp.p, cs)) failf("%s: %u bytes of room give a stream of %u bytes, %u bytes of room another one of %u", C(o).name, cap, cs, more, cs2);
  Buf out = putOutput(o, n + (size_t)o.a[1], isTransform(C(o)) ? 0 : EXTRA); memset(out.p, 0x66, out.n); hs_set_level(o.ld);
  uint32_t ret = C(o).dec(comp.p, cs, out.p, (uint32_t)(n + o.a[1]));
  out.checkCanary();
  if (!isTransform(C(o))) for (size_t i = n + EXTRA; i < out.n; i++) if (out.p[i] != 0x66) failf("%s: decompression of %zu bytes into a larger buffer wrote at offset %zu", C(o).name, n, i);
  char how[80]; snprintf(how, sizeof how, "decompression into a buffer %lld bytes larger than needed", (long long)o.a[1]);
  expectDecoded(o, ret, out.p, how);
}
static void genP16(Rng &r, const Gen &g) { emitSimple(r, g, "P16", 5, [](Rng &r, Op &o) { o.a[0] = r.chance(50) ? r.range(1, 300) : r.range(1, 5000); o.a[1] = r.chance(50) ? r.range(1, 300) : r.range(1, 5000); if (r.chance(4)) o.a[0] = o.a[1] = 70000; if (r.chance(2)) o.a[2] = r.chance(30) ? 0xFFFFFFFFll - r.range(0, 40) : r.chance(50) ? (1ll << 31) + r.range(-3, 3000) : r.range(1ll << 25, 0xFFFFFFFFll); o.ld = pickLevel(r, C(o)); }); }

// ================================================================ P21 executed instructions, P22 detection.
#include "isa.h"

// ================================================================ P23 bit packing.
#include "bitpacks.h"

// ================================================================ P24 OpenCL.
#include "ocl.h"

// ================================================================ registry.
const PropDef g_props[] = {
  { "P01", genP01, checkP01 }, { "P02", genP02, checkP02 }, { "P03", genP03, checkP03 }, { "P04", genP04, checkP04 },
  { "P26", genP26, checkP26 }, { "P05", genP05, checkP05 }, { "P06", genP06, checkP06 }, { "P07", genP07, checkP07 }, { "P08", genP08, checkP08 },
  { "P09", genP09, checkP09 }, { "P10", genP10, checkP10 }, { "P11", genP11, checkTransform }, { "P12", genP12, checkTransform },
  { "P13", genP13, checkP13 }, { "P14", genP14, checkP14 }, { "P15", genP15, checkP15 }, { "P16", genP16, checkP16 },
  { "P21", genP21, checkP21 }, { "P22", genP22, checkP22 }, { "P23", genP23, checkP23 }, { "P24", genP24, checkP24 },
};
const int g_propCount = (int)(sizeof(g_props) / sizeof(g_props[0]));
