// P24: the OpenCL decoder, on a stand-in for OpenCL (fakecl.c).
static struct { bool (*init)(size_t, size_t, size_t); void (*destroy)(); uint32_t (*dec)(const uint8_t *, uint32_t, uint8_t *, uint32_t); void (*reset)(uint64_t); void (*fail)(long); long (*calls)(); int (*fired)(); int (*live)(char *, size_t); const char *(*misuse)(); } g_ocl;
static void loadOcl()
{
  if (g_ocl.init) return;
  const char *path = getenv("HS_OCL"); void *h = path ? dlopen(path, RTLD_NOW | RTLD_LOCAL) : nullptr; if (!h) { fprintf(stderr, "HS_OCL: %s\n", path ? dlerror() : "not set"); _exit(3); }
  auto get = [&](auto &f, const char *n) { void *p = dlsym(h, n); if (!p) { fprintf(stderr, "%s is missing\n", n); _exit(3); } memcpy(&f, &p, sizeof p); };
  get(g_ocl.destroy, "rle8m_opencl_destroy"); get(g_ocl.dec, "rle8m_opencl_decompress"); get(g_ocl.reset, "hs_ocl_reset"); get(g_ocl.fail, "hs_ocl_fail"); get(g_ocl.calls, "hs_ocl_calls"); get(g_ocl.fired, "hs_ocl_fired"); get(g_ocl.live, "hs_ocl_live"); get(g_ocl.misuse, "hs_ocl_misuse"); get(g_ocl.init, "rle8m_opencl_init");
}
enum { OCL_DEC, OCL_INIT, OCL_DESTROY, OCL_REFUSED };
static void checkP24(const Case &c)
{
  loadOcl(); g_ocl.fail(0); g_ocl.destroy(); g_ocl.reset(c.ops.empty() ? 0 : (uint64_t)c.ops[0].a[5]); // as before the first use.
  char did[200] = "at first";
  auto sane = [&](const char *what) { if (const char *m = g_ocl.misuse()) failf("OpenCL: %s (%s, %s)", m, what, did); };
  for (size_t i = 0; i < c.ops.size(); i++)
  {
    const Op &o = c.ops[i]; const Bytes &d = o.data(); uint32_t n = (uint32_t)d.size(); bool faulty = o.a[2] > 0; g_ocl.fail(faulty ? o.a[2] : 0);
    if (o.a[0] == OCL_INIT)
    {
      bool ok = g_ocl.init((size_t)std::max<int64_t>(1, o.a[1]), (size_t)std::max<int64_t>(1, o.a[3]), (size_t)std::max<int64_t>(1, o.a[4])); sane("initialization");
      if (!ok && !g_ocl.fired()) failf("OpenCL: initialization for %lld bytes, %lld bytes and %lld sections failed (%s)", (long long)o.a[1], (long long)o.a[3], (long long)o.a[4], did);
      snprintf(did, sizeof did, "after an initialization for %lld sections%s", (long long)o.a[4], g_ocl.fired() ? " in which OpenCL failed" : ""); continue;
    }
    if (o.a[0] == OCL_DESTROY)
    {
      g_ocl.destroy(); sane("clean-up"); char w[100]; if (g_ocl.live(w, sizeof w)) failf("OpenCL: cleaning up did not give back everything: %s (%s)", w, did);
      snprintf(did, sizeof did, "after a clean-up"); continue;
    }
    uint32_t sub = (uint32_t)std::max<int64_t>(1, std::min<int64_t>(o.a[1], n)), bound = rle8m_compress_bounds(sub, n); Bytes s(bound + 256); hs_set_level(o.lc);
    uint32_t cs = rle8m_compress(sub, d.data(), n, s.data(), bound); if (!cs) continue; // (P14)
    bool roomy = o.a[0] == OCL_DEC && o.a[4] > 0; uint32_t announced = cs + (roomy ? (uint32_t)(o.a[4] % 300) : 0), room = n + (roomy ? (uint32_t)(o.a[3] % 300) : 0);
    Buf st = place(regComp, announced, o.sComp, 0x6B, "compressed"), out = place(regOut, room, o.sOut, 0xC4, "decompressed"); memcpy(st.p, s.data(), cs); memset(out.p, 0x99, room); for (uint32_t x = cs; x < announced; x++) st.p[x] = (uint8_t)(o.a[4] + x * 37);
    if (o.a[0] == OCL_REFUSED)
    {
      uint32_t r = 0; const char *how = "";
      switch (o.a[3] % 6) { case 5: memset(st.p + 8, 0, 4); r = g_ocl.dec(st.p, cs, out.p, n); how = "a stream of no sections"; break; case 0: r = g_ocl.dec(nullptr, cs, out.p, n); how = "no input"; break; case 1: r = g_ocl.dec(st.p, cs, nullptr, n); how = "no output"; break; case 2: r = g_ocl.dec(st.p, cs, out.p, (uint32_t)(o.a[4] % n)); how = "too little room"; break; case 3: r = g_ocl.dec(st.p, cs - 1, out.p, n); how = "one byte missing"; break; default: r = g_ocl.dec(st.p, 0, out.p, n); how = "an input of 0 bytes"; break; }
      sane("a call that has to be refused"); if (r) failf("OpenCL: decompression with %s returned %u (%s)", how, r, did);
      out.checkCanary(); snprintf(did, sizeof did, "after a refused call"); continue;
    }
    uint32_t r = g_ocl.dec(st.p, announced, out.p, room); bool fired = g_ocl.fired();
    st.checkCanary(); out.checkCanary(); sane("decompression");
    if (memcmp(st.p, s.data(), cs)) failf("OpenCL: decompression changed its input");
    if (r == 0 && !fired) failf("OpenCL: decompression of %u bytes in %u sections failed (%s)", n, sub, did);
    if (r != 0 && r != n) failf("OpenCL: decompression of %u bytes in %u sections returned %u (%s)%s", n, sub, r, did, fired ? ", a call of OpenCL failed" : "");
    if (r == n) for (uint32_t x = n; x < room; x++) if (out.p[x] != 0x99) failf("OpenCL: decompression of %u bytes into %u bytes of room wrote at offset %u", n, room, x);
    if (r == n && memcmp(out.p, d.data(), n)) { size_t at = 0; while (out.p[at] == d[at]) at++; failf("OpenCL: decompression of %u bytes in %u sections produced other bytes than were compressed, first at offset %zu (%s)%s", n, sub, at, did, fired ? ", although a call of OpenCL failed success was reported" : ""); }
    snprintf(did, sizeof did, "after a decompression of %u sections%s", sub, fired ? " in which OpenCL failed" : "");
  }
  g_ocl.fail(0); g_ocl.destroy(); sane("clean-up"); char w[100]; if (g_ocl.live(w, sizeof w)) failf("OpenCL: cleaning up did not give back everything: %s (%s)", w, did);
}
static void genP24(Rng &r, const Gen &g)
{
  for (int rep = 0; rep < 4; rep++)
  {
    Case k; k.prop = "P24"; int ops = (int)r.range(1, 6); uint64_t seed = r.below(1u << 30); int faults = 0; BytesP in;
    for (int i = 0; i < ops; i++)
    {
      if (!in || r.chance(60)) { in = genFor(r, 1, g); if (in->size() > 6000 && !r.chance(10)) in = mk(Bytes(in->begin(), in->begin() + r.range(1, 6000))); }
      Op o = baseOp(r, codecByName("rle8_low_entropy"), in); int64_t n = (int64_t)in->size(); o.a[5] = (int64_t)seed;
      int64_t kind = r.chance(60) || i + 1 == ops ? OCL_DEC : r.range(1, 3); o.a[0] = kind;
      o.a[1] = r.chance(70) ? r.range(1, std::min<int64_t>(n, 9)) : r.range(1, std::min<int64_t>(n, 300));
      if (kind == OCL_INIT) { o.in = mk(Bytes(1)); o.a[1] = r.range(1, r.chance(50) ? 50 : 20000); o.a[3] = r.range(1, r.chance(50) ? 50 : 20000); o.a[4] = r.range(1, r.chance(50) ? 6 : 300); }
      if (kind == OCL_DESTROY) o.in = mk(Bytes(1));
      if (kind == OCL_REFUSED) { o.a[3] = r.below(6); o.a[4] = r.below(1u << 30); }
      if (kind == OCL_DEC && r.chance(30)) { o.a[3] = r.range(0, 299); o.a[4] = r.range(1, 299); }
      if ((kind == OCL_DEC || kind == OCL_INIT) && r.chance(20)) { o.a[2] = r.range(1, r.chance(60) ? 18 : 32); faults++; }
      k.ops.push_back(o);
    }
    if (faults) g.label("a call of OpenCL fails"); else g.label("OpenCL works");
    g.emit(k);
  }
}
