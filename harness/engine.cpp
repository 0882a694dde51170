// Runner: generates cases, runs the oracle in worker processes, shrinks a failure and writes the replay file.
//   engine run <prop> <seed> <batches> <workers> <seconds> <stats.json> <replay-out> [bigPct]
//   engine replay <file>
#include "engine.h"
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>

static const PropDef *findProp(const std::string &id) { for (int i = 0; i < g_propCount; i++) if (id == g_props[i].id) return &g_props[i]; return nullptr; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- running one case, faults included.
static sigjmp_buf g_jmp; static volatile sig_atomic_t g_inCase = 0; static pthread_t g_main; static volatile sig_atomic_t g_ticks = 0; static int g_hangTicks = 40;
static volatile sig_atomic_t g_sig = 0; static volatile uintptr_t g_faultAddr = 0;

static void onFault(int sig, siginfo_t *si, void *ctx)
{
  if (sig == SIGTRAP && g_stepHook && pthread_equal(pthread_self(), g_main) && g_stepHook(ctx)) return;
  if (sig == SIGSEGV && g_faultHook && pthread_equal(pthread_self(), g_main) && g_faultHook((uintptr_t)si->si_addr, ctx)) return;
  if (!pthread_equal(pthread_self(), g_main)) { if (sig == SIGVTALRM) { if (g_inCase && ++g_ticks >= g_hangTicks) _exit(79); return; } _exit(77); }
  if (sig == SIGVTALRM) { if (!g_inCase || ++g_ticks < g_hangTicks) return; }
  if (!g_inCase) _exit(78);
  g_sig = sig; g_faultAddr = (uintptr_t)si->si_addr; g_inCase = 0;
  siglongjmp(g_jmp, 1);
}

static void installHandlers()
{
  g_main = pthread_self();
  static uint8_t alt[65536]; stack_t st {}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
  struct sigaction sa {}; sa.sa_sigaction = onFault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGVTALRM }) sigaction(s, &sa, nullptr);
  itimerval tv { { 0, 500000 }, { 0, 500000 } }; setitimer(ITIMER_VIRTUAL, &tv, nullptr); // CPU time of this process: 40 ticks = 20 s in one case.
}

// returns true if the case holds; otherwise `msg` says what went wrong.
static bool runCase(const PropDef &p, const Case &c, std::string &msg)
{
  g_ticks = 0;
  if (sigsetjmp(g_jmp, 1) == 0)
  {
    g_inCase = 1;
    try { p.check(c); g_inCase = 0; return true; }
    catch (const Fail &f) { g_inCase = 0; msg = f.msg; return false; }
  }
  const Op &o = c.ops[0]; char b[300]; const char *where = "";
  auto near = [&](const Region &r, const char *n) { uintptr_t a = g_faultAddr, e = (uintptr_t)r.end(), s = (uintptr_t)r.base; if (a >= e && a < e + 65536) where = n; else if (a < s && a + 65536 >= s) where = n; };
  near(regIn, " (next to the input buffer)"); near(regComp, " (outside the compressed buffer)"); near(regOut, " (outside the decompressed buffer)"); near(regAux, " (outside the compressed buffer)");
  if (g_sig == SIGVTALRM) snprintf(b, sizeof b, "%s: did not terminate within %d s of CPU time", g_codecs[o.codec].name, g_hangTicks / 2);
  else snprintf(b, sizeof b, "%s: invalid memory access or fault (signal %d)%s", g_codecs[o.codec].name, (int)g_sig, where);
  msg = b; return false;
}

// ---------------------------------------------------------------- replay files.
void writeCase(FILE *f, const Case &c)
{
  fprintf(f, "case %s\n", c.prop.c_str());
  for (const Op &o : c.ops)
  {
    fprintf(f, "op %s %d %d %d %d %d", g_codecs[o.codec].name, o.lc, o.ld, o.sIn, o.sComp, o.sOut);
    for (auto v : o.a) fprintf(f, " %lld", (long long)v);
    fprintf(f, "\ndata %zu ", o.data().size());
    // run-length text: <hex byte>[*count] separated by nothing, literals as plain hex.
    const Bytes &d = o.data(); size_t i = 0; bool lit = false;
    while (i < d.size())
    {
      size_t j = i; while (j < d.size() && d[j] == d[i]) j++;
      if (j - i >= 6) { fprintf(f, "%s%02x*%zu,", lit ? "," : "", d[i], j - i); lit = false; i = j; }
      else { for (; i < j; i++) fprintf(f, "%02x", d[i]); lit = true; }
    }
    fprintf(f, "%s.\n", lit ? "," : "");
  }
  fprintf(f, "end\n");
}

static uint64_t g_repeat = 1; static double g_repeatSeconds = 1e9; // (some failures need the same calls many times over.)
static bool readCases(const char *path, std::vector<Case> &cs)
{
  FILE *f = fopen(path, "r"); if (!f) return false; Case c;
  char *line = nullptr; size_t cap = 0; Op *cur = nullptr; bool ok = false;
  while (getline(&line, &cap, f) > 0)
  {
    if (line[0] == '#') continue;
    if (!strncmp(line, "repeat ", 7)) { g_repeat = strtoull(line + 7, nullptr, 10); continue; }
    if (!strncmp(line, "case ", 5)) { c = Case(); cur = nullptr; ok = false; char id[32]; sscanf(line + 5, "%31s", id); c.prop = id; }
    else if (!strncmp(line, "op ", 3))
    {
      char nm[128]; Op o; long long a[6]; if (sscanf(line + 3, "%127s %d %d %d %d %d %lld %lld %lld %lld %lld %lld", nm, &o.lc, &o.ld, &o.sIn, &o.sComp, &o.sOut, a, a + 1, a + 2, a + 3, a + 4, a + 5) != 12) break;
      for (int i = 0; i < 6; i++) o.a[i] = a[i];
      o.codec = codecByName(nm); if (o.codec < 0) { fprintf(stderr, "unknown codec %s\n", nm); break; }
      if (o.lc > g_maxLevel) o.lc = g_maxLevel;
      if (o.ld > g_maxLevel) o.ld = g_maxLevel;
      c.ops.push_back(o); cur = &c.ops.back();
    }
    else if (!strncmp(line, "data ", 5) && cur)
    {
      char *p = line + 5; size_t n = strtoull(p, &p, 10); Bytes d; d.reserve(n);
      while (*p == ' ') p++;
      while (*p && *p != '.')
      {
        if (*p == ',') { p++; continue; }
        unsigned v; if (sscanf(p, "%2x", &v) != 1) break;
        p += 2;
        if (*p == '*') { size_t k = strtoull(p + 1, &p, 10); d.insert(d.end(), k, (uint8_t)v); } else d.push_back((uint8_t)v);
      }
      if (d.size() != n) { fprintf(stderr, "bad data line\n"); break; }
      cur->in = std::make_shared<const Bytes>(std::move(d));
    }
    else if (!strncmp(line, "end", 3)) { ok = !c.ops.empty(); for (auto &o : c.ops) if (!o.in) ok = false; if (!ok) break; cs.push_back(c); }
  }
  free(line); fclose(f);
  return ok && !cs.empty();
}

// run the case in a child: true if it fails.
static bool failsForked(const PropDef &p, const std::vector<Case> &cs, std::string &msg);
static bool failsForked(const PropDef &p, const Case &c, std::string &msg) { return failsForked(p, std::vector<Case> { c }, msg); }
static bool failsForked(const PropDef &p, const std::vector<Case> &cs, std::string &msg) // one after another, in one process.
{
  const Case &c = cs.back();
  int fd[2]; if (pipe(fd)) exit(3);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    close(fd[0]); installHandlers(); g_persist = 40; std::string m; bool ok = true; double until = now() + g_repeatSeconds; for (uint64_t i = 0; i < g_repeat && ok && (i & 63 || now() < until); i++) for (const Case &k : cs) if (ok) ok = runCase(p, k, m);
    if (!ok) { ssize_t w = write(fd[1], m.data(), std::min<size_t>(m.size(), 2000)); (void)w; }
    _exit(ok ? 0 : 1);
  }
  close(fd[1]); msg.clear(); char b[512]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) msg.append(b, (size_t)k);
  close(fd[0]); int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (msg.empty()) { char t[160]; snprintf(t, sizeof t, "%s: the process was ended by %s %d", g_codecs[c.ops[0].codec].name, WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); msg = t; }
  return true;
}

static void shrink(const PropDef &p, Case &best, std::string &msg, double seconds)
{
  double until = now() + seconds; int tries = 0;
  auto attempt = [&](const Case &c) { if (now() > until || tries > 20000) return false; tries++; std::string m; for (auto &o : c.ops) if (o.data().empty()) return false; if (failsForked(p, c, m)) { best = c; msg = m; return true; } return false; };
  bool progress = true;
  while (progress && now() < until)
  {
    progress = false;
    for (size_t i = 0; i < best.ops.size() && best.ops.size() > 1;) { Case t = best; t.ops.erase(t.ops.begin() + i); if (attempt(t)) progress = true; else i++; }
    for (size_t k = 0; k < best.ops.size(); k++)
    {
      for (size_t chunk = best.ops[k].data().size() / 2; chunk >= 1 && now() < until; chunk /= 2)
        for (size_t at = 0; at < best.ops[k].data().size() && now() < until;)
        {
          Case t = best; Bytes d = t.ops[k].data(); size_t e = std::min(d.size(), at + chunk); d.erase(d.begin() + at, d.begin() + e); t.ops[k].in = std::make_shared<const Bytes>(std::move(d));
          if (attempt(t)) progress = true; else at += chunk;
        }
      for (size_t at = 0; at < best.ops[k].data().size() && best.ops[k].data().size() <= 600 && now() < until; at++)
        for (uint8_t v : { (uint8_t)0, (uint8_t)1 }) { Case t = best; Bytes d = t.ops[k].data(); if (d[at] <= v) continue; d[at] = v; t.ops[k].in = std::make_shared<const Bytes>(std::move(d)); if (attempt(t)) { progress = true; break; } }
      Op &bo = best.ops[k];
      for (int *f : { &bo.sIn, &bo.sComp, &bo.sOut }) if (*f) { Case t = best; Op &to = t.ops[k]; int *tf = f == &bo.sIn ? &to.sIn : f == &bo.sComp ? &to.sComp : &to.sOut; *tf = 0; attempt(t); }
    }
  }
}

// ---------------------------------------------------------------- search.
struct Shared
{
  std::atomic<uint64_t> next, evals, nontrivial, distinct, stop;
  struct Slot { std::atomic<uint64_t> batch, sub; std::atomic<int> failed; char msg[512]; } slot[64];
  std::atomic<uint64_t> codecEvals[256], levelEvals[L_COUNT];
  std::atomic<uint64_t> sizeClass[6], labels[64];
  char labelNames[64][40];
  std::atomic<uint64_t> inBytes;
};
static Shared *S; static std::atomic<uint64_t> *H; static const uint64_t HN = 1ull << 25;

static void addDistinct(uint64_t h) { if (!h) h = 1; uint64_t i = h & (HN - 1); for (int k = 0; k < 64; k++) { uint64_t v = H[i].load(std::memory_order_relaxed); if (v == h) return; if (v == 0) { uint64_t z = 0; if (H[i].compare_exchange_strong(z, h)) { S->distinct++; return; } if (z == h) return; } i = (i + 1) & (HN - 1); } }

static int labelIndex(const char *n) { for (int i = 0; i < 64; i++) { if (S->labelNames[i][0] == 0) { strncpy(S->labelNames[i], n, 39); return i; } if (!strncmp(S->labelNames[i], n, 39)) return i; } return 63; }

struct Stop {};

int main(int argc, char **argv)
{
  if (argc == 3 && !strcmp(argv[1], "firstuse")) { g_codecs = hs_codecs(&g_codecCount); g_maxLevel = L_AVX512; std::vector<Case> cs; if (!readCases(argv[2], cs)) return 3; return firstUse(cs[0]); }
  g_codecs = hs_codecs(&g_codecCount); g_maxLevel = hs_max_level();
  for (int l : { L_NONE, L_SSE2, L_SSSE3, L_SSE41, L_AVX, L_AVX2, L_AVX512 }) if (l <= g_maxLevel) g_levels.push_back(l);
  size_t cap = 80u << 20; regIn.init(cap); regComp.init(cap); regOut.init(cap); regAux.init(cap);
  if (const char *h = getenv("HS_HANG_TICKS")) g_hangTicks = atoi(h);

  if (argc == 3 && !strcmp(argv[1], "replay"))
  {
    std::vector<Case> cs; if (!readCases(argv[2], cs)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
    const PropDef *p = findProp(cs[0].prop); if (!p) return 3;
    std::string m; bool f = failsForked(*p, cs, m);
    printf("%s\n", f ? m.c_str() : "holds"); return f ? 1 : 0;
  }
  if (argc < 9 || strcmp(argv[1], "run")) { fprintf(stderr, "usage\n"); return 3; }
  const PropDef *p = findProp(argv[2]); if (!p) return 3;
  uint64_t seed = strtoull(argv[3], nullptr, 10), batches = strtoull(argv[4], nullptr, 10); int workers = atoi(argv[5]); double seconds = atof(argv[6]); const char *stats = argv[7], *replay = argv[8]; int bigPct = argc > 9 ? atoi(argv[9]) : 4;
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  H = (std::atomic<uint64_t> *)mmap(nullptr, HN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  { // label names are fixed before forking.
    for (int i = 0; i < STYLE_COUNT; i++) labelIndex(styleNames[i]);
    for (const char *n : { "expansion", "few-symbol runs", "2-4 calls", "5-10 calls", "chosen schedule", "free threads", "first use", "one symbol", "several symbols", "huge", "repeated units", "short runs", "vast input", "reused buffers", "against a first call", "schedule at static access", "first use, at static access", "beyond the limit", "climb", "many calls", "vast number of sections", "far apart", "vast run" }) labelIndex(n);
  }
  uint64_t pid0 = hashBytes((const uint8_t *)argv[2], strlen(argv[2]));
  auto batchRng = [&](uint64_t i) { return Rng(seed * 0x51ED27ull + 17, pid0, i); };
  const bool everyCase = !strcmp(p->id, "P22") || !strcmp(p->id, "P23") || !strcmp(p->id, "P24");
  double t0 = now(); std::vector<pid_t> kids(workers); fflush(nullptr);
  for (int wk = 0; wk < workers; wk++)
  {
    if ((kids[wk] = fork())) continue;
    installHandlers();
    Shared::Slot &sl = S->slot[wk];
    const Bytes *lastIn = nullptr; uint64_t lastHash = 0; signed char nt[64]; 
    for (;;)
    {
      if (S->stop) break;
      uint64_t b = S->next++; if (b >= batches) break;
      if (now() - t0 > seconds) break;
      sl.batch = b; sl.sub = 0; Rng r = batchRng(b); Gen g; g.bigPct = bigPct; g.batch = b; uint64_t sub = 0;
      g.label = [&](const char *n) { S->labels[labelIndex(n)]++; };
      BytesP hold; lastIn = nullptr;
      g.emit = [&](const Case &c)
      {
        sl.sub = sub++; std::string m;
        if (!runCase(*p, c, m)) { strncpy(sl.msg, m.c_str(), 511); sl.failed = 1; S->stop = 1; throw Stop {}; }
        S->evals++; uint64_t h = 0; bool nontriv = false;
        for (const Op &o : c.ops)
        {
          if (o.in.get() != lastIn) { lastIn = o.in.get(); hold = o.in; lastHash = hashBytes(lastIn->data(), lastIn->size()); memset(nt, -1, sizeof nt); S->inBytes += lastIn->size(); size_t n = lastIn->size(); S->sizeClass[n < 17 ? 0 : n < 65 ? 1 : n < 513 ? 2 : n < 4097 ? 3 : n < 65536 ? 4 : 5]++; }
          int w = g_codecs[o.codec].width; if (nt[w] < 0) nt[w] = nontrivialInput(*lastIn, w);
          if (nt[w] || everyCase) nontriv = true;
          uint64_t ah = 0; for (auto v : o.a) ah = ah * 31 + (uint64_t)v;
          h = Rng::mix(h ^ lastHash ^ ((uint64_t)o.codec << 48) ^ ((uint64_t)o.lc << 40) ^ ((uint64_t)o.ld << 32) ^ Rng::mix(ah));
          S->codecEvals[o.codec]++; S->levelEvals[o.lc]++;
        }
        if (nontriv) { S->nontrivial++; addDistinct(h); }
      };
      try { p->gen(r, g); } catch (const Stop &) { break; } catch (const Fail &f) { fprintf(stderr, "generator: %s\n", f.msg.c_str()); _exit(3); }
    }
    _exit(0);
  }
  int bad = -1; bool harnessError = false;
  for (int k = 0; k < workers; k++)
  {
    int st; pid_t pid = wait(&st); int wk = 0; for (int i = 0; i < workers; i++) if (kids[i] == pid) wk = i;
    bool died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) harnessError = true;
    if (died || S->slot[wk].failed) { S->stop = 1; if (bad < 0 || S->slot[wk].batch < S->slot[bad].batch) bad = wk; }
  }
  if (harnessError) return 3;
  int rc = 0; std::string msg;
  if (bad >= 0)
  {
    uint64_t b = S->slot[bad].batch, want = S->slot[bad].sub, sub = 0; Rng r = batchRng(b); Gen g; g.bigPct = bigPct; g.batch = b; Case found; bool got = false;
    g.label = [](const char *) {}; g.emit = [&](const Case &c) { if (sub++ == want) { found = c; got = true; throw Stop {}; } };
    try { p->gen(r, g); } catch (const Stop &) {}
    if (!got) { fprintf(stderr, "lost the failing case\n"); return 3; }
    int again = 0; std::string first; int need = 3; // a violation is reported only if the case fails three times over, each time in a fresh process.
    for (int i = 0; i < need; i++) { if (failsForked(*p, found, msg)) { again++; if (first.empty()) first = msg; } }
    if (again == need)
    {
      Case orig = found; shrink(*p, found, msg, getenv("HS_SHRINK_S") ? atof(getenv("HS_SHRINK_S")) : 40);
      again = 0; for (int i = 0; i < need; i++) { std::string m; if (failsForked(*p, found, m)) { again++; msg = m; } }
      if (again < need) { found = orig; msg = first; }
      FILE *f = fopen(replay, "w"); if (!f) { perror(replay); return 3; }
      fprintf(f, "# %s\n", msg.c_str()); writeCase(f, found); fclose(f); rc = 1;
    }
    else if (again == 0 && [&]() // not by itself: perhaps because of what was called before it.
    {
      std::vector<Case> hist; uint64_t at = 0; Rng r2 = batchRng(b); Gen g2; g2.bigPct = bigPct; g2.batch = b; g2.label = [](const char *) {};
      g2.emit = [&](const Case &c) { hist.push_back(c); if (at++ == want) throw Stop {}; };
      try { p->gen(r2, g2); } catch (const Stop &) {}
      for (int i = 0; i < need; i++) if (!failsForked(*p, hist, msg)) return false;
      double until = now() + 30; std::string m;
      for (size_t i = 0; i + 1 < hist.size() && now() < until;) { std::vector<Case> t = hist; t.erase(t.begin() + i); if (failsForked(*p, t, m)) hist = t; else i++; }
      for (int i = 0; i < need; i++) if (!failsForked(*p, hist, msg)) return false;
      msg += " (after other calls)";
      FILE *f = fopen(replay, "w"); if (!f) return false;
      fprintf(f, "# %s\n", msg.c_str()); for (auto &c : hist) writeCase(f, c); fclose(f); return true;
    }()) rc = 1;
    else if (again == 0 && [&]() // perhaps because of how many calls there were before it.
    {
      g_repeat = 400000; g_repeatSeconds = 25; bool all = true; for (int i = 0; i < need && all; i++) all = failsForked(*p, found, msg);
      if (all) { msg += " (after the same calls many times over)"; FILE *f = fopen(replay, "w"); all = f != nullptr; if (f) { fprintf(f, "# %s\nrepeat %llu\n", msg.c_str(), (unsigned long long)g_repeat); writeCase(f, found); fclose(f); } }
      g_repeat = 1; g_repeatSeconds = 1e9; return all;
    }()) rc = 1;
    else if (again > 0 || getenv("HS_KEEP_FLAKY"))
    {
      FILE *f = fopen(replay, "w"); if (f) { fprintf(f, "# fails only sometimes (%d of %d): %s\n", again, need, first.c_str()); writeCase(f, found); fclose(f); }
      msg = first; rc = 4;
    }
    else { fprintf(stderr, "note: batch %llu case %llu failed once and not again: %s\n", (unsigned long long)b, (unsigned long long)want, S->slot[bad].msg); rc = 4; }
  }
  FILE *f = fopen(stats, "w"); if (!f) { perror(stats); return 3; }
  fprintf(f, "{\"prop\":\"%s\",\"seed\":%llu,\"batches\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"wall_s\":%.2f,\"input_bytes\":%llu,\"rc\":%d,", p->id, (unsigned long long)seed, (unsigned long long)std::min<uint64_t>(S->next, batches), (unsigned long long)S->evals, (unsigned long long)S->nontrivial, (unsigned long long)S->distinct, now() - t0, (unsigned long long)S->inBytes, rc);
  { std::string e; for (char ch : msg) { if (ch == '"' || ch == '\\') e += '\\'; e += (ch == '\n' ? ' ' : ch); } fprintf(f, "\"message\":\"%s\",", e.c_str()); }
  fprintf(f, "\"sizes\":{\"<17\":%llu,\"17-64\":%llu,\"65-512\":%llu,\"513-4096\":%llu,\"4097-65535\":%llu,\">=65536\":%llu},\"labels\":{", (unsigned long long)S->sizeClass[0], (unsigned long long)S->sizeClass[1], (unsigned long long)S->sizeClass[2], (unsigned long long)S->sizeClass[3], (unsigned long long)S->sizeClass[4], (unsigned long long)S->sizeClass[5]);
  bool fst = true; for (int i = 0; i < 64; i++) if (S->labelNames[i][0] && S->labels[i]) { fprintf(f, "%s\"%s\":%llu", fst ? "" : ",", S->labelNames[i], (unsigned long long)S->labels[i]); fst = false; }
  fprintf(f, "},\"codecs\":{"); fst = true; for (int i = 0; i < g_codecCount; i++) if (S->codecEvals[i]) { fprintf(f, "%s\"%s\":%llu", fst ? "" : ",", g_codecs[i].name, (unsigned long long)S->codecEvals[i]); fst = false; }
  static const char *ln[] = { "none", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f" };
  fprintf(f, "},\"levels\":{"); fst = true; for (int i = 0; i < L_COUNT; i++) if (S->levelEvals[i]) { fprintf(f, "%s\"%s\":%llu", fst ? "" : ",", ln[i], (unsigned long long)S->levelEvals[i]); fst = false; }
  fprintf(f, "},\"samples\":[");
  { // a few of the generated cases.
    fst = true; int want = 6; for (uint64_t b = 0; b < 40 && b < batches && want; b++) { Rng r = batchRng(b * 7); Gen g; g.bigPct = bigPct; g.batch = b * 7; g.label = [](const char *) {}; Case c; bool got = false; g.emit = [&](const Case &k) { if (!got && k.ops[0].data().size() < 4000) { c = k; got = true; throw Stop {}; } }; try { p->gen(r, g); } catch (const Stop &) {}
      if (!got) continue; want--; const Op &o = c.ops[0]; fprintf(f, "%s\"%s calls=%zu level=%s/%s size=%zu data=", fst ? "" : ",", g_codecs[o.codec].name, c.ops.size(), ln[o.lc], ln[o.ld], o.data().size()); for (size_t i = 0; i < o.data().size() && i < 48; i++) fprintf(f, "%02x", o.data()[i]); fprintf(f, "%s\"", o.data().size() > 48 ? "..." : ""); fst = false; }
  }
  fprintf(f, "]}\n"); fclose(f);
  return rc;
}
