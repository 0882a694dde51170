"""Generated-input checks of the command line tool (P17, P18, P19, P20, P25). Used by check.py.

The tool is built from the current tree with every codec call going through hook.c, which records the calls and makes chosen ones misbehave.
A case is a JSON object; run_case(case) -> None (held) or a message."""
import json, os, random, re, shutil, struct, subprocess, sys, time, multiprocessing, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# ---- the codecs and what they are called -------------------------------------------------------------------------------------------------
class Codec: pass
def load_codecs():
    out, comp, dec = [], [], []
    for l in open(V + "/harness/codecs.def"):
        m = re.match(r"X\(([^)]*)\)", l)
        if not m: continue
        f = [x.strip() for x in m.group(1).split(",")]
        c = Codec(); c.key, c.comp, c.dec, c.kind = f[:4]; c.width, c.gran, c.single, c.lut = map(int, f[4:8]); c.fam = f[8]; c.greedy = int(f[9])
        if f[1] not in comp: comp.append(f[1])
        if f[2] not in dec: dec.append(f[2])
        out.append(c)
    for c in out:
        c.cf, c.df = comp.index(c.comp), len(comp) + dec.index(c.dec)
        # attributes as the arguments name them
        c.mode = {"K_RLE": "--extreme"}.get(c.kind)
        k = c.key
        if c.kind != "K_RLE":
            c.mode = "--sh" if "sh" in k.split("_") else "--rle-mmtf" if k == "rle8_mmtf128" else "--low-entropy" if "low_entropy" in k else "--mmtf"
        c.short = c.fam == "F_SHORT" or "low_entropy_short" in k
        c.packed = c.fam == "F_PACKED"
        c.single = bool(c.single) or ("low_entropy" in k and "only_max" in k)
        c.bits = {"rle8_mmtf128": 128, "mmtf128": 128, "mmtf256": 256}.get(k, 16 if k == "bitmmtf16" else 8 if c.kind != "K_RLE" else c.width * 8)
        c.align = None if c.kind != "K_RLE" or c.width == 1 else "byte" if c.gran == 1 else "symbol"
        c.nosingle = c.mode in ("--sh", "--rle-mmtf") or k in ("mmtf128", "mmtf256")
        c.lutn = 1 if c.packed else c.lut
        if k == "rle8_mmtf128" : c.lutn = 0
        # name of the row
        if c.kind == "K_RLE":
            n = f"{c.width * 8} Bit"
            if c.lut: n += f" {c.lut}LUT"
            if c.single: n += " Single"
            if c.packed: n += " Packed"
            if c.short: n += " Short"
            if c.greedy: n += " Grdy"
            if c.align: n += " (Byte)" if c.align == "byte" else " (Symbol)"
        else:
            n = {"rle8_sh": "8 Bit RLE + Huffman-esque", "rle8_mmtf128": "8 Bit MMTF 128", "mmtf128": "Multi MTF 128 Bit (Transform)", "mmtf256": "Multi MTF 256 Bit (Transform)", "bitmmtf8": "Bit MMTF 8 Bit (Transform)", "bitmmtf16": "Bit MMTF 16 Bit (Transform)"}.get(k)
            if n is None: n = "Low Entropy" + (" Short" if c.short else "") + (" Single" if c.single else "")
        c.name = n
    return out, comp + dec
CODECS, FUNCS = load_codecs()
BITS = ["sse", "sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2", "fma3"] + ["avx512"] * 15
LEVELS = ["avx512f", "avx2", "avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "none"]
RANK = {"sse": 0, "sse2": 1, "sse3": 2, "ssse3": 3, "sse41": 4, "sse42": 5, "avx": 6, "avx2": 7, "fma3": 7, "avx512": 8}
LRANK = {l: 8 - i for i, l in enumerate(LEVELS)}
REC = struct.Struct("<8I2Qd2Q")

# ---- running the tool --------------------------------------------------------------------------------------------------------------------
class Run: pass
class BadAccess(Exception): pass
def run_tool(exe, work, args, data, fault=None, stop=None, cap=600, timeout=60, name="input.bin", clock=None, offer=None):
    """args: list with '@' for the input file's name"""
    path = f"{work}/{name}"
    if data is not None:
        with open(path, "wb") as f: f.write(data)
    elif os.path.exists(path): os.remove(path)
    log, dump = f"{work}/log", f"{work}/dump"
    with open(log, "wb") as f: f.truncate(cap * REC.size)
    for x in (dump, f"{work}/fuzz-failure.bin"):
        if os.path.exists(x): os.remove(x)
    env = {"PATH": "/usr/bin:/bin", "HS_LOG": log, "HS_DUMP": dump, "ASAN_OPTIONS": "detect_leaks=0:exitcode=99"}
    if fault: env["HS_FAULT"] = " ".join(map(str, fault))
    if stop: env["HS_STOP"] = str(stop)
    if offer: env["HS_OFFER"] = str(LRANK[offer])
    if clock: env["HS_CLOCK"] = " ".join(map(str, clock))
    r = Run()
    try:
        p = subprocess.run([exe] + [path if a == "@" else a for a in args], cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        r.rc, r.out = p.returncode, p.stdout.decode("latin-1")
        if p.returncode == 99:  # only in the build with AddressSanitizer
            m = re.search(rb"ERROR: AddressSanitizer: ([\w-]+)[^\n]*\n(?:.*\n)*?\s*#0 \S+ in (\w+)", p.stderr)
            raise BadAccess(f"{m.group(1).decode()} in {m.group(2).decode()}" if m else "memory error")
    except subprocess.TimeoutExpired:
        r.rc, r.out = "timeout", ""
    r.calls, r.naps = [], []
    b = open(log, "rb").read()
    for i in range(0, len(b), REC.size):
        t = REC.unpack_from(b, i)
        if t[0] == 0: break
        c = Run(); c.done = t[0] == 0x454E4F44; c.func, c.insz, c.outsz, c.ret, c.fault, c.fb, c.fa, c.ih, c.oh, c.info, c.start, c.took = t[1:]
        (r.calls if c.func != 0xFFFF else r.naps).append(c)
    r.faulted = any(c.fault == 1 for c in r.calls); r.maybe = any(c.fault == 2 for c in r.calls)
    r.dump = open(dump, "rb").read() if os.path.exists(dump) else None
    r.bin = f"{work}/fuzz-failure.bin"
    return r
M64 = (1 << 64) - 1
def hash64(b):
    h = 0x9E3779B97F4A7C15 ^ len(b)
    for x in b:
        h = ((h ^ x) * 0x100000001B3) & M64; h ^= h >> 29
    return h

# ---- generators --------------------------------------------------------------------------------------------------------------------------
def gen_data(R, big=False):
    n = R.choice([1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257, R.randrange(1, 400), R.randrange(1, 3000)]) if not big else R.randrange(1, 60000)
    k = R.randrange(5)
    if k == 0: return R.randbytes(n)
    if k == 1: return bytes([R.randrange(256)]) * n
    out = bytearray()
    while len(out) < n:
        w = R.choice([1, 1, 2, 3, 4, 6, 8, 16]); s = R.randbytes(w) if k != 2 else bytes(R.choice(b"\0\1") for _ in range(w))
        out += s * R.choice([1, 1, 2, 3, 5, 9, 20, 70])
        out += R.randbytes(R.choice([0, 1, 3, 9, 30, 80])) if k != 2 else b""
    return bytes(out[:n])

SEL = {"mode": ["--extreme", "--rle-mmtf", "--mmtf", "--low-entropy", "--sh", "--low-entropy-short"], "packed": ["--packed", "--not-packed"], "align": ["--byte-aligned", "--symbol-aligned"], "greedy": ["--greedy", "--not-greedy"], "single": ["--multi", "--single"], "short": ["--short", "--not-short"], "lut": ["0", "1", "3", "7"], "bits": ["8", "16", "24", "32", "48", "64", "128", "256"]}
def gen_selection(R, p):
    sel = {}
    for k, v in SEL.items():
        if R.random() < p: sel[k] = R.choice(v)
    if "mode" in sel and R.random() < 0.06: sel["mode2"] = R.choice([m for m in SEL["mode"] if m != sel["mode"]])
    if "--low-entropy-short" in (sel.get("mode"), sel.get("mode2")): sel.pop("short", None)
    return sel
def sel_args(R, sel):
    a = [[v] if k not in ("lut", "bits") else [{"lut": "--lut-size", "bits": "--x-size"}[k], v] for k, v in sel.items()]
    return a

def selected(sel):
    """-> list of codec indices, or None if the combination has to be rejected"""
    bits = int(sel["bits"]) if "bits" in sel else None; modes = [sel[k] for k in ("mode", "mode2") if k in sel]
    if "--extreme" in modes and sel.get("single") == "--single" and bits not in (None, 8): return None
    if "--extreme" in modes and bits == 256: return None
    if ("--mmtf" in modes or "--rle-mmtf" in modes) and bits not in (None, 8, 16, 128, 256): return None
    out = []
    for i, c in enumerate(CODECS):
        ok = True
        for m in modes: ok &= c.mode == "--low-entropy" and c.short if m == "--low-entropy-short" else c.mode == m
        if "align" in sel: ok &= c.align == sel["align"][2:-8]
        if "single" in sel: ok &= not c.nosingle and c.single == (sel["single"] == "--single")
        if "packed" in sel: ok &= c.packed == (sel["packed"] == "--packed")
        if "short" in sel: ok &= c.short == (sel["short"] == "--short")
        if "greedy" in sel: ok &= bool(c.greedy) == (sel["greedy"] == "--greedy")
        if "lut" in sel: ok &= c.lutn == int(sel["lut"])
        if bits: ok &= c.bits == bits
        if ok: out.append(i)
    return out

def unsupported(c, level):
    return (c.key == "mmtf256" and LRANK[level] < LRANK["avx"]) or (c.key == "mmtf128" and LRANK[level] < LRANK["sse2"])
def machine_levels():
    f = set(open("/proc/cpuinfo").read().split("flags", 1)[1].split("\n")[0].split())
    need = {"avx512f": "avx512f", "avx2": "avx2", "avx": "avx", "sse4.2": "sse4_2", "sse4.1": "sse4_1", "ssse3": "ssse3", "sse3": "pni", "sse2": "sse2", "none": None}
    return [l for l in LEVELS if need[l] is None or need[l] in f]
MLEVELS = machine_levels()
def flat(groups): return [x for g in groups for x in g]

# ---- P17: the verdict of --test ----------------------------------------------------------------------------------------------------------
def gen17(R):
    sel = gen_selection(R, 0.12) if R.random() < 0.5 else {}
    while not selected(sel): sel = gen_selection(R, 0.12)
    lvl = R.choice(MLEVELS + [None])
    groups = [["--test"], ["--runs", str(R.choice([0, 0, 1, 2, 3]))], ["--min-time", "0"]] + sel_args(R, sel)
    if lvl: groups.append(["--max-simd", lvl])
    if R.random() < 0.15: groups.append(["--sd"])
    if len(selected(sel)) <= 4 and R.random() < 0.2: groups[1][1] = str(R.choice([40, 1024, 1025, 1026, R.randrange(1020, 1100), 2060]))  # many measurements
    R.shuffle(groups)
    case = {"p": "P17", "args": groups, "sel": sel, "level": lvl or MLEVELS[0], "data": gen_data(R, R.random() < 0.03).hex(), "fault": None, "file": 1}
    k = R.random()
    if k < 0.03: case["file"] = 0; return case      # no such file
    if k < 0.05: case["data"] = ""; return case     # empty file
    if k < 0.9:
        ch = [i for i in selected(sel) if not unsupported(CODECS[i], case["level"])]
        if not ch: return case
        c = CODECS[R.choice(ch)]; kind = R.choice([1, 1, 2, 3, 3, 4, 4, 5])
        onenc = kind == 5 or (kind == 1 and R.random() < 0.5)
        a = R.choice([R.randrange(1 << 30), 0, len(case["data"]) // 2 - 1, R.randrange(16)]); b = R.choice([R.randrange(1 << 30), 1 << R.randrange(8)])
        if kind == 4 and R.random() < 0.5: a, b = 0, len(case["data"]) // 2 - 1
        if kind == 4 and R.random() < 0.3: a += 1 << 40  # the end of it
        if kind == 5: b = R.choice([0, 1, 2, 3, 4])  # which byte behind, or all
        if kind == 3: b = (1 << R.randrange(8)) - 1 if R.random() < 0.7 else b
        case["fault"] = [2, c.cf if onenc else c.df, kind, a, b]; case["codec"] = c.key
        runs = int(next(g[1] for g in groups if g[0] == "--runs"))
        if kind == 1 and runs > 1: case["fault"][:2] = [3, R.randrange(runs) * 1000 + case["fault"][1]]  # in one of the runs only
        if kind in (2, 3) and runs > 1 and R.random() < 0.3: case["fault"][:2] = [3, (runs - 1) * 1000 + case["fault"][1]]  # in the last run
    return case
KINDS = {1: "reporting failure", 2: "returning another size", 3: "producing a wrong byte", 4: "leaving part of the output unwritten", 5: "depending on bytes behind the stream"}
def check17(case, exe, work):
    data = bytes.fromhex(case["data"]); args = ["@"] + flat(case["args"])
    r = run_tool(exe, work, args, data if case["file"] else None, fault=case["fault"], cap=max(120 * 2 * 4, 4 * 2 * 2100) + 40)
    if not case["file"] or not data:
        if isinstance(r.rc, int) and r.rc < 0: return f"crashed (signal {-r.rc}) because the input file " + ("is empty" if case["file"] else "does not exist")
        if r.rc == 0: return "--test succeeded although the input file " + ("is empty" if case["file"] else "does not exist")
        return None
    if r.rc == "timeout": return "--test did not end"
    if case["fault"] and r.faulted:
        if r.rc == 0: return f"--test succeeded although {FUNCS[case['fault'][1] % 1000]} was made to fail by {KINDS[case['fault'][2]]}"
    elif r.rc != 0 and not r.maybe: return f"--test failed ({r.rc}) although every codec did its work"
    return None
def nontrivial17(case, st): return bool(case["fault"]) or not case["file"]

# ---- P18: codec selection, instruction set limit, rows ------------------------------------------------------------------------------------
BAD = [["--x-size", "9"], ["--x-size", "17"], ["--x-size", "20"], ["--x-size", "x"], ["--x-size", ""], ["--lut-size", "2"], ["--lut-size", "8"], ["--lut-size", ""], ["--max-simd", "avx3"], ["--max-simd", "sse"], ["--max-simd", "avx5"], ["--max-simd", "AVX2"], ["--max-simd", "sse4"], ["--runs", "-1"], ["--min-time", "-3"], ["--pack"], ["--packed2"], ["--"], [""], ["--test1"], ["-test"], ["--lowentropy"], ["extreme"]]
LAST = [["--x-size"], ["--lut-size"], ["--max-simd"], ["--runs"], ["--min-time"]]
def gen18(R):
    sel = gen_selection(R, R.choice([0.1, 0.25, 0.4, 0.7]))
    if R.random() < 0.25: sel = dict(list(sel.items())[:1])
    lvl = R.choice(MLEVELS + [None]); runs = R.choice([0, 0, 1, 2, 3, 5])
    groups = [["--runs", str(runs)], ["--min-time", "0"]] + sel_args(R, sel)
    test = runs != 0 or R.random() < 0.3
    if test: groups.append(["--test"])
    if lvl: groups.append(["--max-simd", lvl])
    if R.random() < 0.2: groups.append(["--sd"])
    R.shuffle(groups)
    bad = None
    if R.random() < 0.15:
        k = R.randrange(3); dup = [g for g in groups if g[0] not in ("--runs", "--min-time", "--max-simd", "--test", "--sd") and g[0] not in SEL["mode"]]
        if k == 0 and dup:
            g = R.choice(dup); other = [["--" + x[0][2:]] for x in [g]]
            for v in SEL.values():
                if g[0] in v: other = [[x] for x in v]
            g = g if len(g) > 1 else R.choice(other); groups.insert(R.randrange(len(groups) + 1), g); bad = "given twice"
        elif k == 0: groups = []; sel = {}; lvl = None; runs = 0; bad = "nothing at all"
        elif k == 1: groups.insert(R.randrange(len(groups) + 1), R.choice(BAD)); bad = "not known"
        else: groups.append(R.choice(LAST)); bad = "without its value"
    return {"p": "P18", "args": groups, "sel": sel, "level": lvl, "runs": max(1, runs), "bad": bad, "data": gen_data(R).hex(), "offer": R.choice(MLEVELS) if R.random() < 0.3 else None}
_base = {}
def baseline(exe, work):
    """what the tool finds without a limit"""
    if exe not in _base: _base[exe] = run_tool(exe, work, ["@", "--runs", "0", "--min-time", "0"], b"abcabcabc" * 9, name="base.bin").calls[-1].fa
    return _base[exe]
ROW = re.compile(r"^(.*?)\s*\|\s*([0-9.]+) % \|.*\|\s*(\S+) %\s*$")
def check18(case, exe, work):
    data = bytes.fromhex(case["data"]); args = ["@"] + flat(case["args"]); want = None if case["bad"] else selected(case["sel"])
    shown = " ".join(flat(case["args"]))
    if case["bad"] == "nothing at all": args = []
    offer = case.get("offer"); bad = case["bad"]
    if offer and case["level"] and LRANK[case["level"]] > LRANK[offer]: want = None; bad = bad or "not offered by the machine"; shown += f"' on a machine with '{offer}"
    r = run_tool(exe, work, args, data, cap=120 * 2 * case["runs"] + 60, offer=offer)
    if r.rc == "timeout": return f"did not end with '{shown}'"
    if want is None:
        if isinstance(r.rc, int) and r.rc < 0: return f"crashed (signal {-r.rc}) on invalid arguments '{shown}' ({bad or 'combination'})"
        if r.rc == 0 or r.calls: return f"accepted invalid arguments '{shown}' ({bad or 'combination'}): result {r.rc}, {len(r.calls)} codec calls"
        return None
    if r.rc != 0: return f"failed ({r.rc}) with '{shown}'"
    lvl = case["level"]; low = min([lvl or MLEVELS[0], offer or MLEVELS[0]], key=LRANK.get); ih = hash64(data); runs = case["runs"]
    # the calls, codec by codec
    i, ran, rows = 0, [], []
    exp = list(want); calls = r.calls
    groups = []
    while i < len(calls):
        j = i
        while j < len(calls) and calls[j].func == calls[i].func: j += 1
        groups.append(calls[i:j]); i = j
    flags_seen = 0
    for c in calls:
        flags_seen |= c.fb | c.fa
        if not c.done: return f"a call of {FUNCS[c.func]} did not return with '{shown}'"
    if lvl:
        for b, n in enumerate(BITS):
            if flags_seen >> b & 1 and RANK[n] > LRANK[lvl]: return f"--max-simd {lvl} left {n} on"
        base = baseline(exe, work)
        for c in calls:
            for b, n in enumerate(BITS):
                if base >> b & 1 and RANK[n] <= LRANK[low] and not c.fb >> b & 1: return f"--max-simd {lvl} turned {n} off"
    g = 0; got = []
    while g < len(groups):
        f = groups[g][0].func
        cs = [c for c in range(len(CODECS)) if CODECS[c].cf == f]
        if not cs: return f"{FUNCS[f]} was called without its compressor with '{shown}'"
        nxt = groups[g + 1][0].func if g + 1 < len(groups) else None
        cc = next((c for c in cs if CODECS[c].df == nxt), None)
        failed = groups[g][-1].ret == 0
        if failed:
            c = CODECS[cs[0]]
            if not unsupported(c, low): return f"{FUNCS[f]} failed with '{shown}'"
            if len(groups[g]) > runs: return f"{FUNCS[f]} was run {len(groups[g])} times with '{shown}'"
            got.append((cs[0], 0, -1)); g += 1; continue
        if cc is None: return f"{FUNCS[f]} was followed by {FUNCS[nxt] if nxt is not None else 'nothing'} with '{shown}'"
        for grp, what in ((groups[g], "compressed"), (groups[g + 1], "decompressed")):
            if len(grp) != runs: return f"{CODECS[cc].key} {what} {len(grp)} times instead of {runs} with '{shown}'"
        for c in groups[g]:
            if c.ih != ih or c.insz != len(data): return f"{CODECS[cc].key} was not given the file's bytes with '{shown}'"
        for c in groups[g + 1]:
            if c.insz != groups[g][-1].ret or c.ih != groups[g][-1].oh: return f"{CODECS[cc].key}: decompressed something else than was compressed with '{shown}'"
        got.append((cc, groups[g][-1].ret, groups[g][-1].info)); g += 2
    ks = lambda l: sorted(CODECS[x].key for x in l)
    gi = [x[0] for x in got]
    if sorted(gi) != sorted(want):
        more, less = ks(set(gi) - set(want)), ks(set(want) - set(gi))
        return f"'{shown}' ran the wrong codecs: not run {less[:6]}, run without being asked for {more[:6]}" + ("" if more or less else " (some twice)")
    # the rows
    for line in r.out.split("\n"):
        last = line.split("\r")[-1]; m = ROW.match(last)
        if m: rows.append((m.group(1), m.group(2), m.group(3)))
    rows = [x for x in rows if x[0] != "memcpy"]
    exprows = sorted((CODECS[x].name, s / len(data) * 100.0, -1 if e < 0 else s / len(data) * e * 100.0) for x, s, e in got if s)
    rows = sorted((n, float(v), None if "nan" in e else float(e)) for n, v, e in rows)
    if [x[0] for x in rows] != [x[0] for x in exprows]: return f"'{shown}': the report does not match what was run: expected rows {[x[0] for x in exprows if x[0] not in [y[0] for y in rows]][:4]}, printed {[x[0] for x in rows if x[0] not in [y[0] for y in exprows]][:4]}"
    for a, b in zip(rows, exprows):
        if abs(a[1] - b[1]) > 0.011: return f"'{shown}': {a[0]} was reported with {a[1]} % instead of {b[1]:.3f} %"
        if a[2] is not None and b[2] >= 0 and abs(a[2] - b[2]) > 1e-5: return f"'{shown}': {a[0]} was reported with {a[2]} % of the information instead of {b[2]:.7f} %"
    return None

# ---- P19: the built-in fuzzer ------------------------------------------------------------------------------------------------------------
NC = len(CODECS)
def gen19(R):
    mode = R.choice(["--fuzz-iterative", "--fuzz-iterative", "--fuzz-random"])
    it = R.choice([R.randrange(0, 9), R.randrange(0, 9), R.randrange(0, 60), R.randrange(0, 380)]) if mode != "--fuzz-random" else R.randrange(0, 4)
    lvl = R.choice([l for l in MLEVELS if LRANK[l] >= LRANK["avx"]] + [None])
    case = {"p": "P19", "args": [[mode]] + ([["--max-simd", lvl]] if lvl else []), "fault": None, "stop": 2 * NC * (it + 1)}
    if mode == "--fuzz-iterative" and R.random() < 0.04: case["stop"] = 2 * NC * 380; return case  # all lengths of a section.
    if R.random() < 0.85:
        ci = R.randrange(NC); kind = R.choice([1, 1, 2, 3, 3, 3, 4, 5]); onenc = kind == 5 or (kind == 1 and R.random() < 0.5)
        case["fault"] = [1, 2 * (it * NC + ci) + (0 if onenc else 1), kind, R.choice([R.randrange(1 << 30), R.randrange(64)]), (1 << R.randrange(8)) - 1 if R.random() < 0.7 and kind == 3 else R.randrange(1 << 30)]
        if kind == 4 and R.random() < 0.6: case["fault"][3] += 1 << 40  # the end of it
        if kind == 5: case["fault"][4] = R.choice([0, 1, 2, 3, 4])  # which byte behind, or all
        case["stop"] = 2 * NC * (it + 2)
    return case
def columns(b, steps=24):
    for i in range(0, len(b) - 4 * steps, 7):
        c = b[i:i + 4 * steps:4]
        if c.count(c[0]) == len(c) and any(len(set(b[i + k:i + k + 4 * steps:4])) >= 12 for k in (1, 2, 3)): return i
    return None
def check19(case, exe, work):
    args = ["-"] + flat(case["args"]); mode = case["args"][0][0]
    r = run_tool(exe, work, args, b"", fault=case["fault"], stop=case["stop"], cap=case["stop"] + 20, timeout=120)
    if r.rc == "timeout": return f"{mode} did not proceed"
    # what was run
    calls = r.calls; per = 2 * NC; cur = None; seen = set(); prev = None; hashes = []
    for n, c in enumerate(calls):
        if n % per == 0: seen = set(); cur = (c.insz, c.ih)
        dec = n % 2 == 1; cand = [x for x in CODECS if (x.df if dec else x.cf) == c.func]
        if not cand: return f"{mode}: call {n} is {FUNCS[c.func]}, not a {'de' if dec else ''}compression"
        if not dec:
            if (c.insz, c.ih) != cur: return f"{mode}: {FUNCS[c.func]} was given another input than the codecs before it"
            if c.func in seen: return f"{mode}: {FUNCS[c.func]} ran twice for one input"
            seen.add(c.func); prev = c
        else:
            if not any(x.cf == prev.func for x in cand): return f"{mode}: {FUNCS[prev.func]} was followed by {FUNCS[c.func]}"
            if c.insz != prev.ret or c.ih != prev.oh: return f"{mode}: {FUNCS[c.func]} was given something else than the compressed data"
        if n % per == per - 1:
            if cur in hashes and mode == "--fuzz-iterative": return f"{mode}: the same input twice"
            hashes.append(cur)
    if mode == "--fuzz-random" and r.dump:
        w = columns(r.dump)
        if w is not None: return f"{mode}: the incompressible part of an input is not random: every fourth byte from offset {w} on is the same while its neighbours change"
    fi = next((n for n, c in enumerate(calls) if c.fault == 1), None)
    if r.maybe: return None
    if fi is not None:
        f = calls[fi]
        if len(calls) > fi + 1 or r.rc == 78: return f"{mode} went on although {FUNCS[f.func]} failed by {KINDS[case['fault'][2]]}"
        if r.rc == 0: return f"{mode} reported success although {FUNCS[f.func]} failed by {KINDS[case['fault'][2]]}"
        if case["fault"][2] in (3, 4, 5):
            b = open(r.bin, "rb").read() if os.path.exists(r.bin) else None
            if b != r.dump: return f"{mode}: fuzz-failure.bin does not hold the input that failed ({None if b is None else len(b)} bytes, expected {len(r.dump)})"
    elif case["stop"] >= 2 * NC * 380 and r.rc == 78 and mode == "--fuzz-iterative":
        sizes = {x[0] for x in hashes}; lo = min(sizes)
        for x in list(range(1, 281)) + list(range(65529, 65560)):
            if lo + x - 1 not in sizes: return f"{mode}: no section of {x} bytes within {len(hashes)} inputs (the shortest input has {lo} bytes)"
    elif r.rc != 78: return f"{mode} stopped ({r.rc}) although every codec did its work"
    return None

# ---- P20: --analyze ----------------------------------------------------------------------------------------------------------------------
def stats(data, j):
    """what the report says about repetitions of j byte symbols"""
    n = len(data); clamp = lambda v, hi: max(0, min(hi, v)); lg = lambda x: x.bit_length() - 1
    out = []
    for step in (1, j):
        T = {"bits": [0] * 64, "exact": [0] * 64, "ebits": [0] * 64, "eexact": [0] * 64, "rep": 0, "len": 0, "dist": 0, "refs": [0] * 16, "copybits": [0] * 256, "diff": [0] * 1024, "sym": [0] * 256}
        recent = [bytes(j)] * 16; cur = non = last = lastnon = diff = 0
        def endrun(final=False):
            nonlocal cur, last
            T["bits"][lg(cur)] += 1; T["rep"] += 1; T["len"] += cur
            if cur <= 64: T["exact"][cur - 1] += 1
            if not final:
                T["copybits"][clamp(lg(lastnon | 1) - 1, 15) * 16 + clamp(lg(cur) - 1, 15)] += 1
                T["diff"][clamp(diff + 15, 31) * 32 + clamp(cur - last + 15, 31)] += 1
            last, cur = cur, 0
        def endlit(final=False):
            nonlocal non, lastnon, diff
            T["ebits"][lg(non)] += 1; T["dist"] += non
            if non <= 64: T["eexact"][non - 1] += 1
            if not final: diff = non - last; lastnon = non
            non = 0
        for i in range(j, n):
            if i % step: continue
            if i + j <= n and data[i:i + j] == data[i - j:i]:
                if not cur:
                    s = data[i:i + j]
                    if s in recent:
                        k = recent.index(s); T["refs"][k] += 1; del recent[k]
                    else: recent.pop()
                    recent.insert(0, s)
                    if j == 1: T["sym"][s[0]] += 1
                    if non: endlit()
                    cur = j if step == 1 and len(out) == 0 else 1
                else: cur += 1
            else:
                if cur: endrun()
                non += 1
        if non: endlit(True)
        elif cur: endrun(True)
        out.append(T)
    return out
def gen20(R):
    k = R.randrange(4)
    if R.random() < 0.002: w = R.choice([1, 1, 2, 3]); d = R.randbytes(R.randrange(0, 300)) + R.randbytes(w) * (R.randrange(1000, 1 << R.choice([12, 15, 18])) // w) + R.randbytes(R.randrange(1, 100)); d = d[:140000 + len(d) % 7] + R.randbytes(R.randrange(0, 3)) # long lengths.
    elif k == 0: d = gen_data(R)[:700]
    elif k == 1: d = bytes(R.choice(b"\0\0\0\1") for _ in range(R.randrange(1, 300)))
    else:
        w = R.choice([1, 1, 2, 3, 4, 8, R.randrange(1, 17)]); d = bytearray(R.randbytes(R.choice([0, w, R.randrange(0, 20)]))); syms = [R.randbytes(w) for _ in range(R.choice([1, 2, 5, 12, 17, 20]))]; aligned = R.random() < 0.5
        if R.random() < 0.3: syms.append(bytes(w))
        target = R.choice([40, 300, 700, 2000]); target = R.randrange(target // 4, target); reps = [2, 3] if R.random() < 0.4 else [1, 2, 3, 4, 9, 40]
        while len(d) < target: d += R.choice(syms) * R.choice(reps) + R.randbytes(R.choice([0, 0, 1, 2, 7, 70]) // (w if aligned else 1) * (w if aligned else 1))
        d = bytes(d[:R.randrange(max(1, len(d) - 20), len(d) + 1)])
    d = d or b"\0"
    return {"p": "P20", "args": [["--analyze"], ["--runs", "0"], ["--min-time", "0"], ["--sh"]], "data": d.hex(), "label": "repetitions" if any(d[i] == d[i - 1] for i in range(1, len(d))) else "other"}
def nums(s): return re.findall(r"-?nan|inf|-?\d+\.?\d*", s)
def same(printed, count, total, digits=1):
    if printed in ("nan", "-nan", "inf"): return total == 0
    return abs(float(printed) - (count * 100.0 / total if total else 0)) < 0.51 * 10 ** -digits + 1e-9
def check20(case, exe, work):
    data = bytes.fromhex(case["data"]); n = len(data)
    r = run_tool(exe, work, ["@"] + flat(case["args"]), data)
    if r.rc != 0: return f"--analyze failed ({r.rc})"
    L = r.out.split("\n"); pos = 0
    def find(pat):
        nonlocal pos
        for k in range(pos, len(L)):
            m = re.search(pat, L[k])
            if m: pos = k + 1; return m
        return None
    m = find(r"Analysis Complete\. +(\d+) Bytes")
    if not m or int(m.group(1)) != n: return "the analysis does not state the file's size"
    for j in range(1, 17):
        A, B = stats(data, j)
        if not find(rf"^RLE Length +{j}$"): return f"no section for symbols of {j} bytes"
        for T, what in ((A, "Non-Aligned"), (B, "Aligned")):
            m = find(rf"^{what}: +Repeating: +(\d+) \( *(\d+) Bytes, +([\d.]+) %, +(\d+) Bytes")
            if not m or (int(m.group(1)), int(m.group(2)), int(m.group(4))) != (T["rep"], T["len"], T["dist"]): return f"{j} byte symbols, {what}: printed {m and m.groups()}, the file has {T['rep']} repetitions ({T['len']}), {T['dist']} distinct"
            if not same(m.group(3), T["len"], n, 2): return f"{j} byte symbols, {what}: printed {m.group(3)} % for {T['len']} of {n}"
        find("^-+$")
        for k in range(64):
            v = list(map(int, re.findall(r"\d+", L[pos]))); pos += 1
            e = [k + 1, A["bits"][k], A["ebits"][k], k + 1, A["exact"][k], A["eexact"][k], k + 1, B["bits"][k], B["ebits"][k], k + 1, B["exact"][k], B["eexact"][k]]
            if v != e: return f"{j} byte symbols, length row {k + 1}: printed {v}, the file has {e}"
        find("^-+$")
        for k in range(16):
            m = re.match(r" *(\d+) \| +(\d+) \( *(\S+) %\) \| +(\d+) \( *(\S+) %\)", L[pos]); pos += 1
            if not m or int(m.group(2)) != A["refs"][k] or int(m.group(4)) != B["refs"][k]: return f"{j} byte symbols, reference row {k + 1}: printed {m and m.groups()}, the file has {A['refs'][k]} / {B['refs'][k]}"
            if int(m.group(1)) != k + 1 or not same(m.group(3), A["refs"][k], A["rep"], 3) or not same(m.group(5), B["refs"][k], B["rep"], 3): return f"{j} byte symbols, reference row {k + 1}: printed {m.groups()}, of {A['rep']} / {B['rep']} repetitions"
        find("^-+$")
        for k in range(16):
            a = L[pos].split("|"); pos += 1
            if a[0].strip() != (str(k + 1) if k < 15 else ">"): return f"{j} byte symbols, copy length against run length: row {k + 1} is called '{a[0].strip()}'"
            for T, t in ((A, a[1]), (B, a[2])):
                v = nums(t)
                if len(v) != 16 or not all(same(v[x], T["copybits"][k * 16 + x], T["rep"]) for x in range(16)): return f"{j} byte symbols, copy length against run length, row {k + 1}: printed {v}, expected counts {T['copybits'][k * 16:k * 16 + 16]} of {T['rep']}"
        for T in (A, B):
            find("^-+$")
            for k in range(32):
                a, v = L[pos].split("|", 1)[0].strip(), nums(L[pos].split("|", 1)[1]); pos += 1
                if a != ("<" if k == 0 else ">" if k == 31 else str(k - 15)): return f"{j} byte symbols, length differences: row {k - 15} is called '{a}'"
                if len(v) != 32 or not all(same(v[x], T["diff"][k * 32 + x], T["rep"]) for x in range(32)): return f"{j} byte symbols, length differences, row {k - 15}: printed {v}, expected counts {T['diff'][k * 32:k * 32 + 32]} of {T['rep']}"
        if j == 1:
            find("^-+$")
            for k in range(16):
                v = nums(L[pos].split("|", 1)[1]); pos += 1
                if len(v) != 16 or not all(same(v[x], A["sym"][x * 16 + k], A["rep"], 2) for x in range(16)): return f"repeated symbol histogram, row {k:X}: printed {v}"
    find("^Histogram:"); find("^-+$"); h = [data.count(x) for x in range(256)]
    for k in range(16):
        v = nums(L[pos].split("|", 1)[1]); pos += 1
        if len(v) != 16 or not all(same(v[x], h[x * 16 + k], n, 2) for x in range(16)): return f"histogram, row {k:X}: printed {v}"
    return None

# ---- P25: what the benchmark reports -------------------------------------------------------------------------------------------------------
MIB = 1024.0 * 1024.0
def gen25(R):
    sel = gen_selection(R, R.choice([0.2, 0.3, 0.5]))
    while not selected(sel) or len(selected(sel)) > 12: sel = gen_selection(R, R.choice([0.3, 0.4, 0.5, 0.7]))
    lvl = R.choice(MLEVELS + [None] * 6); mint = R.choice([0, 0, 0, 0, 0, 1, 2, 2, 3, R.choice([4, 5, 7, 9, 13, 60, 300])]); runs = R.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, None] + ([20, 60] if len(selected(sel)) < 5 else []))
    groups = sel_args(R, sel) + [["--min-time", str(mint)]]
    if runs is not None: groups.append(["--runs", str(runs)])
    if mint == 2 and R.random() < 0.5: groups = [g for g in groups if g[0] != "--min-time"]  # as by default
    test = R.random() < 0.35
    if test: groups.append(["--test"])
    sd = R.random() < 0.5
    if sd: groups.append(["--sd"])
    if lvl: groups.append(["--max-simd", lvl])
    R.shuffle(groups)
    data = gen_data(R); times = 1
    if mint: times = max(1, R.choice([3000, 60000, 300000]) // len(data)); lo = int(R.choice([2e7, 1e8, 3e8, 9e8]) * R.uniform(0.5, 1.5) * max(1, mint / 3))
    else: lo = max(30, int(len(data) / MIB / R.choice([30.0, 200.0, 2000.0]) * R.uniform(0.5, 1.5) * 1e9))
    if sd and runs is not None and not mint and len(selected(sel)) <= 3 and R.random() < 0.08:
        runs = R.choice([1020, 1023, 1024, 1025, 1026, 1030, 2048, 2049]); groups = [g if g[0] != "--runs" else ["--runs", str(runs)] for g in groups]
    hi = int(lo * R.choice([1, 1.1, 1.5, 2, 2, 4, 9]))
    case = {"p": "P25", "args": groups, "sel": sel, "level": lvl, "runs": 8 if runs is None else max(1, runs), "dry": int(not test and runs != 0), "test": int(test), "min": mint, "sd": int(sd), "clock": [R.randrange(1 << 30), lo, hi], "data": data.hex(), "times": times, "fault": None}
    if not test and R.random() < 0.3:
        c = CODECS[R.choice(selected(sel))]; kind = R.choice([1, 1, 3, 3, 2])
        case["fault"] = [2, c.cf if kind == 1 and R.random() < 0.5 else c.df, kind, R.choice([R.randrange(1 << 30), 0, len(data) * times - 1]), (1 << R.randrange(8)) - 1 if R.random() < 0.5 else R.randrange(255)]
    return case
BROW = re.compile(r"^(.*?)\s*\|\s*([-0-9.a-z]+) % \|\s*([-0-9.a-z]+) MiB/s \(\s*([-0-9.a-z]+) MiB/s\) \|(?:\s*([-0-9.a-z]+) ~\s*([-0-9.a-z]+) MiB/s \|)?\s*([-0-9.a-z]+) MiB/s \(\s*([-0-9.a-z]+) MiB/s\) \|(?:\s*([-0-9.a-z]+) ~\s*([-0-9.a-z]+) MiB/s \|)?\s*(\S+) %\s*$")
def figures(calls, dry, size):
    """-> mean, fastest (counted runs), fastest (all), slow end, fast end (None: not defined)"""
    t = [c.took for c in calls[dry:]]; n = len(t); mean = sum(t) / n
    sd = (sum((x - mean) ** 2 for x in t) / (n - 1)) ** 0.5 if n > 1 else 0.0
    mb = size / MIB
    return mb / (mean / 1e9), mb / (min(t) / 1e9), mb / (min(c.took for c in calls) / 1e9), mb / ((mean + sd) / 1e9), mb / ((mean - sd) / 1e9) if sd < mean * 0.999 else None
def close(printed, want, unit):
    if want is None: return True
    try: v = float(printed)
    except (TypeError, ValueError): return False
    return v == v and abs(v - want) <= unit * 0.51 + abs(want) * 1e-4
def check25(case, exe, work):
    data = bytes.fromhex(case["data"]) * case["times"]; n = len(data); args = ["@"] + flat(case["args"]); shown = " ".join(flat(case["args"])); want = selected(case["sel"]); runs, dry, mint = case["runs"], case["dry"], case["min"] * 10 ** 9
    per = runs + dry + (mint // case["clock"][1] + 2 if mint else 0)
    r = run_tool(exe, work, args, data, cap=int(len(want) * (4 * per + 8) + 400), clock=case["clock"], fault=case["fault"], timeout=120)
    if r.rc == "timeout": return f"did not end with '{shown}'"
    if r.rc != 0: return f"failed ({r.rc}) with '{shown}'"
    ft = case["fault"]; ev = sorted(r.calls + r.naps, key=lambda c: c.start); groups = []
    for c in r.calls:
        if groups and groups[-1][-1].func == c.func: groups[-1].append(c)
        else: groups.append([c])
    def enough(g, after):  # was it run often and long enough, and not more than that?
        t0 = g[0].start; cnt = len(g) - dry; name = FUNCS[g[0].func]
        for k, c in enumerate(g):
            if k - dry >= runs and c.start - t0 >= mint: return f"{name} was run again after {k - dry} counted runs and {(c.start - t0) / 1e9:.3f} s with '{shown}'"
        if cnt < runs: return f"{name} was run {cnt} times instead of {runs} with '{shown}'"
        end = g[-1].start + g[-1].took
        if r.naps: end += sum(x.took for x in r.naps if x.start >= end and (after is None or x.start < after))
        if end - t0 < mint: return f"{name} was run for {(end - t0) / 1e9:.3f} s instead of {mint / 1e9:.0f} s with '{shown}'"
    lines = [l.split("\r")[-1] for l in r.out.split("\n")]; texts = r.out.split("\n"); exp = {}; failed = {}; i = 0
    while i < len(groups):
        f = groups[i][0].func; cs = [x for x in want if CODECS[x].cf == f]
        if not cs: return None  # not the codecs that were asked for: see P18
        c = CODECS[cs[0]]; g = groups[i]; nx = groups[i + 1] if i + 1 < len(groups) else None
        if g[-1].ret == 0: failed[c.name] = "COM"; i += 1; continue
        m = enough(g, nx[0].start if nx else None)
        if m: return m
        if not nx or nx[0].func not in [CODECS[x].df for x in cs]: return None
        c = next(CODECS[x] for x in cs if CODECS[x].df == nx[0].func); nn = groups[i + 2][0].start if i + 2 < len(groups) else None
        if nx[-1].ret == 0: failed[c.name] = "DECOM"; i += 2; continue
        m = enough(nx, nn)
        if m: return m
        exp[c.name] = (figures(g, dry, n), figures(nx, dry, n), c); i += 2
    rows = {}
    for k, l in enumerate(lines):
        m = BROW.match(l)
        if m: rows[m.group(1)] = (m, k)
    for name, (e, d, c) in exp.items():
        if name not in rows: return f"'{shown}': no row for {name}"
        m, k = rows[name]
        for F, a, what in ((e, 3, "encoder"), (d, 7, "decoder")):
            if not close(m.group(a), F[0], 0.1): return f"'{shown}': {name}: mean {what} throughput printed as {m.group(a)}, measured {F[0]:.2f} MiB/s"
            if not close(m.group(a + 1), F[1], 0.1) and not close(m.group(a + 1), F[2], 0.1): return f"'{shown}': {name}: maximum {what} throughput printed as {m.group(a + 1)}, measured {F[1]:.2f} MiB/s"
            if case["sd"]:
                if m.group(a + 2) is None: return f"'{shown}': {name}: no standard deviation"
                for j in (0, 1):
                    if not close(m.group(a + 2 + j), F[3 + j], 1): return f"'{shown}': {name}: {what} throughput one standard deviation {'above' if j else 'below'} the mean printed as {m.group(a + 2 + j)}, measured {F[3 + j]:.2f} MiB/s"
        if ft and ft[2] in (2, 3) and ft[1] == c.df:
            t = "\n".join(lines[k + 1:k + 3])
            if ft[2] == 2:
                v = r.calls[[x.func for x in r.calls].index(c.df)].ret; w = f"Decompressed to {v} instead of {n} bytes"
            else: o = ft[3] % n; w = f"First invalid char at {o} [0x{o:X}] (0x{data[o]:X} != 0x{data[o] ^ (ft[4] % 255 + 1):X})"
            if w not in t: return f"'{shown}': {name} was made to fail by {KINDS[ft[2]]}, but the report does not say '{w}'"
        elif k + 1 < len(lines) and "Validation Failed" in lines[k + 1]: return f"'{shown}': {name} is reported as failed although it did its work"
    for name, what in failed.items():
        if not any(l.startswith(name) and "FAILED TO " + what in l for l in lines for l in [l]) and not any(l.startswith(name) and "FAILED TO " + what in l for t in texts for l in t.split("\r")): return f"'{shown}': the failure of {name} is not reported"
        if name in rows: return f"'{shown}': {name} failed, and is reported with results"
    return None

PROPS = {"P25": (gen25, check25), "P20": (gen20, check20), "P17": (gen17, check17), "P18": (gen18, check18), "P19": (gen19, check19)}
def guarded(f):
    def g(case, exe, work):
        try: return f(case, exe, work)
        except BadAccess as e: return f"the tool accessed memory outside of what it allocated ({e}) with '{' '.join(flat(case['args']))}'"
    return g
PROPS = {k: (g, guarded(c)) for k, (g, c) in PROPS.items()}
def run_case(case, exe, work): return PROPS[case["p"]][1](case, exe, work)

# ---- shrinking ---------------------------------------------------------------------------------------------------------------------------
def shrink(case, exe, work, budget=40):
    end = time.time() + budget
    def bad(c):
        try: return run_case(c, exe, work)
        except Exception: return None
    best = case
    improved = True
    while improved and time.time() < end:
        improved = False
        cands = []
        for i, g in enumerate(best["args"]):
            if best["p"] in ("P20", "P25") or g[0] in ("--test", "--min-time", "--runs") or g[0].startswith("--fuzz"): continue
            c = json.loads(json.dumps(best)); c["args"].pop(i)
            if "sel" in c:
                for k, v in list(c["sel"].items()):
                    if v == g[-1]: c["sel"].pop(k)
                if g[0] == "--max-simd": c["level"] = MLEVELS[0] if c["p"] == "P17" else None
            cands.append(c)
        d = best.get("data")
        if d:
            n = len(d) // 2
            for cut in (n // 2, n // 4, n // 8, 1):
                if 0 < cut < n:
                    for nd in (d[:2 * (n - cut)], d[2 * cut:]): c = json.loads(json.dumps(best)); c["data"] = nd; cands.append(c)
        if best.get("fault"):
            for i in (3, 4):
                for v in (0, best["fault"][i] // 2):
                    if v < best["fault"][i]: c = json.loads(json.dumps(best)); c["fault"][i] = v; cands.append(c)
        for c in cands:
            if time.time() > end: break
            if bad(c) and bad(c): best = c; improved = True; break
    return best

# ---- the search --------------------------------------------------------------------------------------------------------------------------
def replay(case, exe):
    work = tempfile.mkdtemp(prefix="hscli-")
    try: return run_case(case, exe, work)
    finally: shutil.rmtree(work, ignore_errors=True)
def worker(a):
    prop, exe, seed, idx, n, deadline, parent = a
    import zlib
    R = random.Random(f"{prop} {seed} {idx}"); gen, chk = PROPS[prop]
    st = {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "keys": set(), "violation": None, "calls": 0}
    work = tempfile.mkdtemp(dir=parent)
    try:
        for _ in range(n):
            if time.time() > deadline: break
            case = gen(R); msg = chk(case, exe, work); st["evaluations"] += 1
            lab = label(case); st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if lab != "plain": st["nontrivial"] += 1; st["keys"].add(zlib.crc32(json.dumps(case, sort_keys=True).encode()))
            if len(st["samples"]) < 2 and lab != "plain": st["samples"].append((lab + ": " + json.dumps({k: v for k, v in case.items() if k != "p"}))[:300])
            if msg:
                again = [chk(case, exe, work) for _ in range(3)]
                if not all(again): st.setdefault("notes", []).append("unreproducible: " + msg); continue
                small = shrink(case, exe, work); m2 = chk(small, exe, work)
                st["violation"] = (small, m2) if m2 else (case, msg); break
    finally: shutil.rmtree(work, ignore_errors=True)
    return st
def label(case):
    p = case["p"]
    if p == "P17":
        if not case["file"]: return "no such file"
        if not case["data"]: return "empty file"
        return KINDS[case["fault"][2]] if case["fault"] else "plain"
    if p == "P18": return "invalid: " + case["bad"] if case["bad"] else "rejected combination" if selected(case["sel"]) is None else f"{len(case['sel'])} restrictions" + (" + level" if case["level"] else "") + (", lesser machine" if case.get("offer") else "") if case["sel"] or case["level"] else "plain"
    if p == "P19" and case["stop"] >= 2 * NC * 380 and not case["fault"]: return "all lengths"
    if p == "P19": return case["args"][0][0][2:] + (", " + KINDS[case["fault"][2]] if case["fault"] else ", no fault")
    if p == "P20": return case["label"]
    if p == "P25": return (KINDS[case["fault"][2]] if case["fault"] else "no fault") + (", minimum time" if case["min"] else "") + (", deviation" if case["sd"] else "") + (", dry run" if case["dry"] else "")
def search(prop, exe, seed, total, cpus, seconds):
    t0 = time.time(); per = max(1, total // (cpus * 4)) if total < 10**9 else total
    parent = tempfile.mkdtemp(prefix="hscli-")
    jobs = [(prop, exe, seed, i, per, t0 + seconds, parent) for i in range(cpus * 4 if total < 10**9 else cpus)]
    out = {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "violation": None, "notes": []}; keys = set()
    try:
        with multiprocessing.Pool(cpus) as pool:
            for st in pool.imap_unordered(worker, jobs):
                out["evaluations"] += st["evaluations"]; out["nontrivial"] += st["nontrivial"]; keys |= st["keys"]; out["notes"] += st.get("notes", [])
                for k, v in st["labels"].items(): out["labels"][k] = out["labels"].get(k, 0) + v
                if len(out["samples"]) < 8: out["samples"] += st["samples"]
                if st["violation"]: out["violation"] = st["violation"]; pool.terminate(); break
    finally: shutil.rmtree(parent, ignore_errors=True)
    out["distinct_nontrivial"] = len(keys); out["wall_s"] = round(time.time() - t0, 2)
    return out
if __name__ == "__main__":  # cli.py <exe> <prop> <seed> <cases>
    r = search(sys.argv[2], sys.argv[1], int(sys.argv[3]), int(sys.argv[4]), 8, 1e9); r["labels"] = dict(sorted(r["labels"].items())); print(json.dumps(r, indent=1))
