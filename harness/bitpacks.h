// P23: the bit packing helpers.
struct BitPack { const char *name; int bits, unit, aligned, group; int64_t (*enc)(const uint8_t *, uint8_t *, size_t), (*dec)(const uint8_t *, uint8_t *, size_t); };
static const BitPack *g_packs; static int g_packCount;
static void loadPacks()
{
  if (g_packs) return;
  const char *path = getenv("HS_PACK"); void *h = path ? dlopen(path, RTLD_NOW | RTLD_LOCAL) : nullptr; if (!h) { fprintf(stderr, "HS_PACK: %s\n", path ? dlerror() : "not set"); _exit(3); }
  g_packs = (const BitPack *)dlsym(h, "hs_bitpacks"); g_packCount = *(const int *)dlsym(h, "hs_bitpackCount");
}
static void checkP23(const Case &c)
{
  loadPacks(); const Op &o = c.ops[0]; const BitPack &p = g_packs[(uint64_t)o.a[0] % g_packCount];
  size_t n = o.data().size() / p.unit * p.unit; if (n == 0) return;
  size_t en = (n * p.bits + 7) / 8; Bytes want(o.data().begin(), o.data().begin() + n); for (auto &b : want) b &= (1 << p.bits) - 1;
  auto put = [&](Region &r, size_t size, int slack, uint8_t pat, const char *what, bool aligned) { size_t s = (size_t)slack; if (aligned) s = (s & ~(size_t)15) + ((16 - size % 16) & 15); return place(r, size, s, pat, what); };
  Bytes packed;
  auto encode = [&](const BitPack &q, bool again) 
  {
    Buf in = put(regIn, n, again ? 0 : o.sIn, 0x5C, "input", q.aligned), e = put(regComp, en, again ? 0 : o.sComp, 0xA7, "packed", q.aligned); memcpy(in.p, want.data(), n); memset(e.p, again ? 0x00 : 0xFF, en);
    int64_t w = q.enc(in.p, e.p, n); in.checkCanary(); e.checkCanary();
    if (memcmp(in.p, want.data(), n)) failf("%s: packing %zu values changed them", q.name, n);
    if (w >= 0 && (size_t)w != en) failf("%s: packing %zu values returned %lld bytes, %zu are needed", q.name, n, (long long)w, en);
    return Bytes(e.p, e.p + en);
  };
  auto decode = [&](const BitPack &q, const char *how)
  {
    Buf e = put(regComp, en, o.sComp, 0xA7, "packed", q.aligned), out = put(regOut, n, o.sOut, 0x3B, "output", q.aligned); memcpy(e.p, packed.data(), en); memset(out.p, 0xEE, n);
    int64_t rd = q.dec(e.p, out.p, n); e.checkCanary(); out.checkCanary();
    if (rd >= 0 && (size_t)rd != en) failf("%s: unpacking %zu values returned %lld bytes, %zu were packed", q.name, n, (long long)rd, en);
    if (memcmp(e.p, packed.data(), en)) failf("%s: unpacking changed the packed data", q.name);
    for (size_t i = 0; i < n; i++) if (out.p[i] != want[i]) failf("%s: value %zu of %zu is %u instead of %u%s", q.name, i, n, out.p[i], want[i], how);
  };
  packed = encode(p, false);
  if (encode(p, true) != packed) failf("%s: packing %zu values twice gives different bytes", p.name, n);
  decode(p, "");
  for (int i = 0; i < g_packCount; i++) // the same with other requirements.
  {
    const BitPack &q = g_packs[i]; if (&q == &p || q.group != p.group) continue;
    if (encode(q, false) != packed) failf("%s: %zu values are packed differently from '%s'", q.name, n, p.name);
    char how[120]; snprintf(how, sizeof how, ", packed by '%s'", p.name); decode(q, how);
  }
}
static void genP23(Rng &r, const Gen &g)
{
  loadPacks();
  for (int k = 0; k < 16; k++)
  {
    int which = (int)r.below(g_packCount); const BitPack &p = g_packs[which];
    size_t units = r.chance(70) ? r.range(1, 14) : r.chance(80) ? r.range(1, 80) : r.range(1, 700); size_t n = units * p.unit; if (p.unit == 1) n = r.chance(70) ? r.range(1, 130) : r.range(1, 5000);
    Bytes b(n); int st = (int)r.below(5); uint8_t v = r.byte();
    for (auto &x : b) x = st == 0 ? v : st == 1 ? (r.chance(95) ? 0 : r.byte()) : st == 2 ? (r.chance(95) ? 0xFF : r.byte()) : r.byte();
    Case kc; kc.prop = "P23"; Op o = baseOp(r, 0, mk(std::move(b))); o.a[0] = which; kc.ops.push_back(o); g.emit(kc);
  }
}
