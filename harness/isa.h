// P21 / P22: which instructions are executed, and what the detection of the instruction sets makes of a machine.
// Both run the code under test as a shared library.
// (part of props.cpp)

// ---------------------------------------------------------------- the lowest level an instruction needs.
enum { I_BASE = 1, I_SSE3, I_SSSE3, I_SSE41, I_SSE42, I_AVX, I_AVX2, I_FMA, I_AVX512, I_OTHER };
static const char *iname[] = { "", "x86-64", "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "AVX", "AVX2", "FMA", "AVX-512F", "another extension" };
static bool oneOf(uint8_t v, std::initializer_list<int> l) { for (int x : l) if (v == x) return true; return false; }
static bool within(uint8_t v, int a, int b) { return v >= a && v <= b; }
static uint8_t classify(const uint8_t *p)
{
  bool p66 = false, pF2 = false, pF3 = false; int guard = 0;
  for (; guard++ < 14; p++) { uint8_t b = *p; if (b == 0x66) p66 = true; else if (b == 0xF2) pF2 = true; else if (b == 0xF3) pF3 = true; else if (!oneOf(b, { 0x2E, 0x36, 0x3E, 0x26, 0x64, 0x65, 0x67, 0xF0 })) break; }
  if (*p == 0xC5 || *p == 0xC4)
  {
    int map, L, pp, W = 0; uint8_t op, modrm;
    if (*p == 0xC5) { map = 1; L = (p[1] >> 2) & 1; pp = p[1] & 3; op = p[2]; modrm = p[3]; } else { map = p[1] & 31; W = p[2] >> 7; L = (p[2] >> 2) & 1; pp = p[2] & 3; op = p[3]; modrm = p[4]; }
    if (map == 1)
    {
      if (oneOf(op, { 0x41, 0x42, 0x44, 0x45, 0x46, 0x47, 0x4A, 0x4B, 0x90, 0x91, 0x92, 0x93, 0x98, 0x99 })) return !W && pp == 0 && op != 0x99 && op != 0x4A ? I_AVX512 : I_OTHER;
      bool integer = within(op, 0x60, 0x6D) || within(op, 0x70, 0x76) || within(op, 0xD1, 0xD5) || op == 0xD7 || within(op, 0xD8, 0xE5) || within(op, 0xE8, 0xEF) || within(op, 0xF1, 0xF6) || within(op, 0xF8, 0xFE);
      return L && integer && (pp == 1 || op == 0x70) ? I_AVX2 : I_AVX;
    }
    if (map == 2)
    {
      if (oneOf(op, { 0xF2, 0xF3, 0xF5, 0xF6, 0xF7, 0x13 }) || within(op, 0xDB, 0xDF) || within(op, 0x50, 0x53) || op == 0xCF) return I_OTHER;
      if (within(op, 0x96, 0x9F) || within(op, 0xA6, 0xAF) || within(op, 0xB6, 0xBF)) return I_FMA;
      if (oneOf(op, { 0x16, 0x36, 0x45, 0x46, 0x47, 0x58, 0x59, 0x5A, 0x78, 0x79, 0x8C, 0x8E, 0x90, 0x91, 0x92, 0x93 })) return I_AVX2;
      if (oneOf(op, { 0x18, 0x19 })) return (modrm >> 6) == 3 ? I_AVX2 : I_AVX;
      if (L && (within(op, 0x00, 0x0B) || within(op, 0x1C, 0x1E) || within(op, 0x20, 0x25) || within(op, 0x28, 0x2B) || within(op, 0x30, 0x35) || within(op, 0x37, 0x40))) return I_AVX2;
      return I_AVX;
    }
    if (map == 3)
    {
      if (oneOf(op, { 0xF0, 0x1D, 0x44, 0xDF, 0xCE, 0xCF })) return I_OTHER;
      if (oneOf(op, { 0x00, 0x01, 0x02, 0x38, 0x39, 0x46 })) return I_AVX2;
      if (within(op, 0x30, 0x33)) return I_OTHER;
      if (L && oneOf(op, { 0x0E, 0x0F, 0x42, 0x4C })) return I_AVX2;
      return I_AVX;
    }
    return I_OTHER;
  }
  if (*p == 0x62)
  {
    int map = p[1] & 7, pp = p[2] & 3, LL = (p[3] >> 5) & 3; bool bc = p[3] & 0x10; uint8_t op = p[4], modrm = p[5];
    bool scalar = map == 1 && (pp >= 2 || oneOf(op, { 0x6E, 0x7E, 0xD6, 0x2E, 0x2F, 0x12, 0x13, 0x16, 0x17 })); if (map == 3 && oneOf(op, { 0x17, 0x21, 0x0A, 0x0B })) scalar = true;
    if (map > 3) return I_OTHER;
    if (LL < 2 && !scalar && !(bc && (modrm >> 6) == 3)) return I_OTHER; // VL
    if (map == 1 && pp == 1 && oneOf(op, { 0x60, 0x61, 0x63, 0x64, 0x65, 0x67, 0x68, 0x69, 0x71, 0x74, 0x75, 0xD1, 0xD5, 0xD8, 0xD9, 0xDA, 0xDC, 0xDD, 0xDE, 0xE0, 0xE1, 0xE3, 0xE4, 0xE5, 0xE8, 0xE9, 0xEA, 0xEC, 0xED, 0xEE, 0xF1, 0xF5, 0xF6, 0xF8, 0xF9, 0xFC, 0xFD })) return I_OTHER; // BW
    if (map == 2 && pp == 1 && oneOf(op, { 0x00, 0x04, 0x0B, 0x1C, 0x1D, 0x66, 0x78, 0x79, 0x7A, 0x7B, 0x75, 0x8D, 0x38, 0x3A, 0x3C, 0x3E })) return I_OTHER;
    if (map == 3 && pp == 1 && oneOf(op, { 0x0F, 0x3E, 0x3F, 0x42, 0x14, 0x15, 0x20 })) return I_OTHER;
    return I_AVX512;
  }
  if (*p == 0x8F) return (p[1] & 31) >= 8 ? I_OTHER : I_BASE;
  if ((*p & 0xF0) == 0x40) p++;
  if (*p != 0x0F) return I_BASE;
  uint8_t op = p[1], sub = p[2];
  if (op == 0x38)
  {
    if (within(sub, 0x00, 0x0B) || within(sub, 0x1C, 0x1E)) return I_SSSE3;
    if (oneOf(sub, { 0x10, 0x14, 0x15, 0x17, 0x41 }) || within(sub, 0x20, 0x25) || within(sub, 0x28, 0x2B) || within(sub, 0x30, 0x35) || within(sub, 0x38, 0x40)) return I_SSE41;
    if (sub == 0x37 || (pF2 && (sub == 0xF0 || sub == 0xF1))) return I_SSE42;
    return I_OTHER;
  }
  if (op == 0x3A)
  {
    if (sub == 0x0F) return I_SSSE3;
    if (within(sub, 0x08, 0x0E) || within(sub, 0x14, 0x17) || within(sub, 0x20, 0x22) || within(sub, 0x40, 0x42)) return I_SSE41;
    if (within(sub, 0x60, 0x63)) return I_SSE42;
    return I_OTHER;
  }
  if ((p66 || pF2) && oneOf(op, { 0x7C, 0x7D, 0xD0 })) return I_SSE3;
  if (pF2 && (op == 0xF0 || op == 0x12)) return I_SSE3;
  if (pF3 && (op == 0x12 || op == 0x16)) return I_SSE3;
  if (pF3 && op == 0xB8) return I_SSE42; // popcnt comes with it.
  if (pF3 && op == 0xBD) return I_OTHER; // lzcnt: something else on a machine without it. (tzcnt is emitted as bsf.)
  if (oneOf(op, { 0x0E, 0x0F })) return I_OTHER; // 3DNow!
  return I_BASE;
}
static int needs(uint8_t cls) { static const int l[] = { 0, 0, L_SSE3, L_SSSE3, L_SSE41, L_SSE42, L_AVX, L_AVX2, 90, L_AVX512, 90 }; return l[cls]; }

// ---------------------------------------------------------------- breakpoints on everything that is above the level.
// <library>.insn lists where the library's instructions start (made when it is built).
struct Insn { uint8_t *at, orig, cls; };
static std::vector<Insn> g_insns; static int g_level = 99; static uint8_t *g_badAt; static bool g_on;
static void armed(int level) // every instruction that needs more than `level` is replaced by a breakpoint.
{
  for (Insn &i : g_insns) { bool was = needs(i.cls) > g_level, is = needs(i.cls) > level; if (was != is) *i.at = is ? 0xCC : i.orig; }
  g_level = level;
}
static void loadInsns()
{
  if (!g_insns.empty()) return;
  loadCut(); Dl_info di; dladdr((void *)g_cut.level, &di); std::string path = std::string(di.dli_fname) + ".insn"; FILE *f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); _exit(3); }
  unsigned long long off; uint8_t *base = (uint8_t *)di.dli_fbase, *lo = nullptr, *hi = nullptr; size_t total = 0;
  while (fscanf(f, "%llx", &off) == 1) { uint8_t *p = base + off; total++; uint8_t c = classify(p); if (c > I_BASE) { g_insns.push_back({ p, *p, c }); if (!lo || p < lo) lo = p; if (p > hi) hi = p; } }
  fclose(f); if (total < 1000) { fprintf(stderr, "%s: only %zu instructions\n", path.c_str(), total); _exit(3); }
  if (g_insns.empty()) g_insns.push_back({ base, 0, I_BASE });
  else { uintptr_t a = (uintptr_t)lo & ~(uintptr_t)4095, e = ((uintptr_t)hi + 4096) & ~(uintptr_t)4095; if (mprotect((void *)a, e - a, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); _exit(3); } }
}
static bool breakHook(void *ctx)
{
  auto &r = ((ucontext_t *)ctx)->uc_mcontext.gregs; uint8_t *ip = (uint8_t *)r[REG_RIP] - 1;
  for (Insn &i : g_insns) if (i.at == ip) { if (!g_badAt) g_badAt = ip; armed(99); r[REG_RIP] = (greg_t)ip; return true; } // (noted; the rest of the call runs unwatched.)
  return false;
}
struct Library { const hs_codec *t = g_codecs; Library() { loadCut(); g_codecs = g_cut.codecs; } ~Library() { g_codecs = t; } };
static void checkP21(const Case &c)
{
  const Op &o = c.ops[0]; size_t n = o.data().size(); Library lib; loadInsns(); const hs_codec &cd = g_codecs[o.codec]; uint32_t cap = generousBound(n), cs, ret;
  struct Off { ~Off() { armed(99); g_stepHook = nullptr; } } off; g_stepHook = breakHook; armed(99); g_badAt = nullptr;
  Buf inb = place(regIn, n + EXTRA, 0, 0, "input"); memcpy(inb.p, o.data().data(), n); Buf comp = place(regComp, cap, o.sComp, 0, "compressed"), out = place(regOut, n + EXTRA, o.sOut, 0, "decompressed");
  auto verdict = [&](const char *what, int level) { armed(99); if (!g_badAt) return; char b[64]; int at = 0; for (int i = 0; i < 8; i++) at += snprintf(b + at, sizeof b - at, "%02x ", g_badAt[i]); failf("%s: %s of %zu bytes on a machine with nothing above %s executed an instruction of %s (%s...)", cd.name, what, n, lvlName(level), iname[classify(g_badAt)], b); };
  g_cut.exactly(o.lc); armed(o.lc); cs = cd.comp(inb.p, (uint32_t)n, comp.p, cap); verdict("compression", o.lc);
  if (cs == 0) failf("%s: compression of %zu bytes failed", cd.name, n);
  g_cut.exactly(o.ld); armed(o.ld); ret = cd.dec(comp.p, cs, out.p, (uint32_t)n); verdict("decompression", o.ld);
  expectDecoded(o, ret, out.p, "(instructions watched)");
}
static void genP21(Rng &r, const Gen &g)
{
  int w = pickWidth(r); GenOpts go; go.bigPct = 0; go.maxSize = r.chance(85) ? 3000 : 20000; int st; BytesP in = mk(r.chance(15) ? genLanes(r, go.maxSize) : genInput(r, w, go, &st));
  std::vector<int> cs = codecsFor(r, w, 6);
  for (int c : cs) { Case kc; kc.prop = "P21"; Op o = baseOp(r, c, in); o.sIn = 0; auto lev = [&]() { int l = (int)r.range(needsSse2(C(o)) ? L_SSE2 : L_NONE, g_maxLevel); return l; }; o.lc = lev(); o.ld = lev(); kc.ops.push_back(o); g.emit(kc); }
}

// ---------------------------------------------------------------- P22: a generated machine.
struct Machine { uint32_t maxLeaf, c1, d1, b7, c7, d7, xcr0, off; };
static const char *const g_flags[] = { "sseSupported", "sse2Supported", "sse3Supported", "ssse3Supported", "sse41Supported", "sse42Supported", "avxSupported", "avx2Supported", "fma3Supported", "avx512FSupported", "avx512PFSupported", "avx512ERSupported", "avx512CDSupported", "avx512BWSupported", "avx512DQSupported", "avx512VLSupported", "avx512IFMASupported", "avx512VBMISupported", "avx512VNNISupported", "avx512VBMI2Supported", "avx512POPCNTDQSupported", "avx512BITALGSupported", "avx5124VNNIWSupported", "avx5124FMAPSSupported", "aesNiSupported" };
enum { FLAGS = sizeof(g_flags) / sizeof(g_flags[0]) };
static void setStep(bool on); struct Stepping { Stepping(bool (*h)(void *)) { g_stepHook = h; g_on = true; } ~Stepping() { g_on = false; setStep(false); g_stepHook = nullptr; } };
static Machine g_machine; static bool g_xgetbvFault, g_asked;
static Machine machineOf(const Bytes &d)
{
  Machine m {}; memcpy(&m, d.data(), std::min(d.size(), sizeof m)); m.maxLeaf &= 31; m.xcr0 |= 1;
  // what does not exist: extensions without the ones that they extend, states that cannot be enabled like that.
  if (!(m.c1 >> 26 & 1)) m.c1 &= ~(1u << 27); // OSXSAVE without XSAVE.
  if (!(m.c1 >> 26 & 1)) m.c1 &= ~(1u << 28);
  if (!(m.c1 >> 28 & 1)) { m.c1 &= ~(1u << 12); m.b7 &= ~(1u << 5); }
  if (!(m.b7 >> 5 & 1)) m.b7 &= ~(1u << 16);
  if (!(m.b7 >> 16 & 1)) { m.b7 &= ~((1u << 17) | (1u << 21) | (1u << 26) | (1u << 27) | (1u << 28) | (1u << 30) | (1u << 31)); m.c7 &= ~((1u << 1) | (1u << 6) | (1u << 11) | (1u << 12) | (1u << 14)); m.d7 &= ~((1u << 2) | (1u << 3)); }
  if (!(m.xcr0 & 2)) m.xcr0 &= ~4u;
  if ((m.xcr0 & 6) != 6) m.xcr0 &= ~0xE0u;
  if ((m.xcr0 & 0xE0) != 0xE0) m.xcr0 &= ~0xE0u;
  return m;
}
static bool emulate(void *ctx)
{
  auto &r = ((ucontext_t *)ctx)->uc_mcontext.gregs; if (!g_on) { r[REG_EFL] &= ~0x100ll; return true; }
  for (;;)
  {
    const uint8_t *ip = (const uint8_t *)r[REG_RIP]; const Machine &m = g_machine;
    if (ip[0] == 0x0F && ip[1] == 0xA2)
    {
      uint32_t leaf = (uint32_t)r[REG_RAX], sub = (uint32_t)r[REG_RCX], a = 0, b = 0, c = 0, d = 0; g_asked = true;
      if (leaf >= 0x80000000u) { a = leaf == 0x80000000u ? 0x80000000u : 0; }
      else if (leaf > m.maxLeaf) { a = b = c = d = 0xFFFFFFFFu; } // (Intel: the contents of the highest one. Nothing to rely on.)
      else if (leaf == 0) { a = m.maxLeaf; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; }
      else if (leaf == 1) { a = 0x306C3; b = 0; c = m.c1; d = m.d1; }
      else if (leaf == 7) { if (sub == 0) { b = m.b7; c = m.c7; d = m.d7; } }
      r[REG_RAX] = a; r[REG_RBX] = b; r[REG_RCX] = c; r[REG_RDX] = d; r[REG_RIP] += 2; continue;
    }
    if (ip[0] == 0x0F && ip[1] == 0x01 && ip[2] == 0xD0)
    {
      if (!(m.maxLeaf >= 1 && (m.c1 >> 27 & 1)) || (uint32_t)r[REG_RCX] != 0) g_xgetbvFault = true;
      r[REG_RAX] = m.xcr0; r[REG_RDX] = 0; r[REG_RIP] += 3; continue;
    }
    return true;
  }
}
static void checkP22(const Case &c)
{
  const Op &o = c.ops[0]; Library lib; static bool *flag[FLAGS]; static void (*detect)() = nullptr; const Machine m = machineOf(o.data());
  if (!detect)
  {
    Dl_info di; dladdr((void *)g_cut.level, &di); void *h = dlopen(di.dli_fname, RTLD_NOW | RTLD_NOLOAD); detect = (void (*)())dlsym(h, "_DetectCPUFeatures"); if (!detect) { fprintf(stderr, "no _DetectCPUFeatures\n"); _exit(3); }
    for (int i = 0; i < FLAGS; i++) flag[i] = (bool *)dlsym(h, g_flags[i]);
  }
  memcpy(g_cut.from, g_cut.pristine.data(), g_cut.pristine.size()); struct Restore { ~Restore() { memcpy(g_cut.from, g_cut.pristine.data(), g_cut.pristine.size()); } } restore;
  g_machine = m; g_xgetbvFault = g_asked = false;
  { Stepping s(emulate); setStep(true); detect(); setStep(false); }
  if (!g_asked) { for (int i = 0; i < FLAGS; i++) if (flag[i] && *flag[i]) return; } // (found out in a way that cannot be emulated.)
  if (g_xgetbvFault) failf("detection executed xgetbv on a machine whose system has not enabled it (leaf 1: %08x)", m.c1);
  bool l1 = m.maxLeaf >= 1, l7 = m.maxLeaf >= 7, os = l1 && (m.c1 >> 27 & 1), avx = os && (m.c1 >> 28 & 1) && (m.xcr0 & 6) == 6, z = avx && (m.xcr0 & 0xE6) == 0xE6;
  auto C1 = [&](int b) { return l1 && (m.c1 >> b & 1); }; auto D1 = [&](int b) { return l1 && (m.d1 >> b & 1); }; auto B7 = [&](int b) { return l7 && (m.b7 >> b & 1); }; auto C7 = [&](int b) { return l7 && (m.c7 >> b & 1); }; auto D7 = [&](int b) { return l7 && (m.d7 >> b & 1); };
  const bool want[FLAGS] = { D1(25), D1(26), C1(0), C1(9), C1(19), C1(20), avx, avx && B7(5), avx && C1(12), z && B7(16), z && B7(26), z && B7(27), z && B7(28), z && B7(30), z && B7(17), z && B7(31), z && B7(21), z && C7(1), z && C7(11), z && C7(6), z && C7(14), z && C7(12), z && D7(2), z && D7(3), C1(25) };
  for (int i = 0; i < FLAGS; i++) if (flag[i] && *flag[i] != want[i]) failf("%s is %d on a machine with highest leaf %u, leaf 1 ecx %08x edx %08x, leaf 7 ebx %08x ecx %08x edx %08x, xcr0 %02x: it %s", g_flags[i], (int)*flag[i], m.maxLeaf, m.c1, m.d1, m.b7, m.c7, m.d7, m.xcr0, want[i] ? "can be used there" : "cannot be used there");
  // What is turned off afterwards stays off, and what is on stays on, whatever is called.
  bool now[FLAGS]; for (int i = 0; i < FLAGS; i++) { now[i] = want[i] && !(m.off >> i & 1); if (flag[i]) *flag[i] = now[i]; }
  { Stepping s(emulate); setStep(true); detect(); setStep(false); }
  for (int i = 0; i < FLAGS; i++) if (flag[i] && *flag[i] != now[i]) failf("%s was set to %d after the detection, and is %d after another one", g_flags[i], (int)now[i], (int)*flag[i]);
  for (int i = 0; i < FLAGS; i++) if (flag[i]) now[i] = *flag[i] = false;
  { Bytes b(300 + EXTRA, 7); const hs_codec &cd = g_codecs[o.codec]; Bytes k(generousBound(300)); cd.comp(b.data(), 300, k.data(), (uint32_t)k.size()); }
  for (int i = 0; i < FLAGS; i++) if (flag[i] && *flag[i]) failf("%s was turned off, and is on again after %s", g_flags[i], g_codecs[o.codec].name);
}
static void genP22(Rng &r, const Gen &g)
{
  Bytes seed(1, 0); BytesP none = mk(std::move(seed));
  for (int k = 0; k < 8; k++)
  {
    Machine m {}; auto dense = [&](int pct) { uint32_t v = 0; for (int i = 0; i < 32; i++) if (r.chance(pct)) v |= 1u << i; return v; };
    int pct = r.chance(50) ? 90 : r.chance(50) ? 50 : (int)r.below(101);
    m.maxLeaf = r.chance(60) ? (uint32_t)r.range(7, 31) : r.chance(40) ? (uint32_t)r.range(5, 8) : (uint32_t)r.below(8); m.c1 = dense(pct); m.d1 = dense(pct); m.b7 = dense(pct); m.c7 = dense(pct); m.d7 = dense(pct); m.off = dense(50);
    if (r.chance(70)) m.c1 |= (3u << 26) | (1u << 28); if (r.chance(60)) m.b7 |= (1u << 5) | (1u << 16);
    m.xcr0 = r.chance(30) ? 0xE7 : r.chance(40) ? 7 : r.chance(50) ? 3 : r.chance(50) ? 1 : (uint32_t)r.next() & 0x2E7;
    Bytes d(sizeof m); memcpy(d.data(), &m, sizeof m); Case kc; kc.prop = "P22"; Op o = baseOp(r, (int)r.below(g_codecCount), mk(std::move(d))); kc.ops.push_back(o); g.emit(kc);
  }
}
