#!/usr/bin/env python3
"""mutate.py <seed> <count> <log> [file regex]: random source mutants against the checks (development tool; no check uses it).
   Each mutant: scratch copy of /repo's src, build, short searches of all properties, then the quick checks; survivors are logged with their diff."""
import json, os, random, re, shutil, subprocess, sys, time, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = f"/tmp/mut-{os.getpid()}"; OUT = W + "/out"
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
OPS = [
  (r"(?<![<>=!\-+])<=(?!=)", "<"), (r"(?<![<>=!\-+])>=(?!=)", ">"), (r"(?<![<\-])<(?![<=])(?=\s)", "<="), (r"(?<![>\-])>(?![>=])(?=\s)", ">="),
  (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"<<", ">>"), (r">>", "<<"),
  (r"(?<=[\s(])&(?=\s)", "|"), (r"(?<=[\s(])\|(?=\s)", "&"), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\bmax\b", "min"), (r"\bmin\b", "max"),
]
def mutate(R, line):
    c = []
    for a, b in OPS:
        for m in re.finditer(a, line): c.append(line[:m.start()] + b + line[m.end():])
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", line):
        v = int(m.group(1))
        for nv in (v + 1, v - 1): 
            if nv >= 0: c.append(line[:m.start()] + str(nv) + line[m.end():])
    for m in re.finditer(r"0x([0-9A-Fa-f]+)", line): c.append(line[:m.start()] + hex(int(m.group(1), 16) ^ (1 << R.randrange(8))) + line[m.end():])
    if re.match(r"^\s+[^#{}]*;\s*$", line) and not re.match(r"^\s*(const |return|uint|size_t|int|bool|__m|break|static)", line): c += [re.match(r"^\s*", line).group(0) + ";\n"] * 2
    if re.match(r"^\s*(break|continue);", line): c.append(";\n")
    return R.choice(c) if c else None
def main():
    R = random.Random(int(sys.argv[1])); count = int(sys.argv[2]); log = open(sys.argv[3], "a"); pat = sys.argv[4] if len(sys.argv) > 4 else r"."
    cli = len(sys.argv) > 5
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/repo"); shutil.copytree("/repo/src", W + "/repo/src"); shutil.copytree("/repo/3rdParty", W + "/repo/3rdParty")
    src = W + "/repo/src"
    files = [f for f in sorted(os.listdir(src)) if f.endswith((".c", ".h")) and (f in ("main.c", "rle_fuzz.c", "codec_funcs.h")) == cli and f not in ("rle.h", "simd_platform.h") and re.search(pat, f)]
    lines = []
    for f in files:
        ls = open(f"{src}/{f}", newline="").read().splitlines(True); ls = [l for l in enumerate(ls)]
        code = [i for i, l in ls if re.search(r"[;(]", l) and not re.match(r"\s*(//|#|\*|/\*)", l) and "puts(" not in l and "printf" not in l]
        w = len(code) ** 0.6
        lines.append((f, code, w))
    props = ["P01", "P02", "P05", "P10", "P26", "P03", "P04", "P06", "P07", "P08", "P11", "P12", "P13", "P14", "P16", "P15", "P23", "P24", "P09", "P21", "P22"] if not cli else ["P17", "P18", "P19", "P20", "P25"]
    def tree_ok(): return True
    def make(targets): return run(["make", "-s", "-k", "-j8", "-C", V + "/harness", f"REPO={W}/repo", f"OUT={OUT}"] + [f"{OUT}/{t}" for t in targets])
    T = ["engine", "libref.so", "libcut.so.insn", "libpack.so", "libocl.so", "libkernel.so"] if not cli else ["hsrlekit"]
    make(T)
    done = 0
    while done < count:
        f, code, _ = R.choices(lines, [x[2] for x in lines])[0]
        p = f"{src}/{f}"; orig = open(p, newline="").read(); ls = orig.splitlines(True); i = R.choice(code); n = mutate(R, ls[i])
        if n is None or n == ls[i]: continue
        new = ls[:]; new[i] = n; open(p, "w", newline="").write("".join(new)); done += 1
        t0 = time.time(); killed = None
        try:
            r = make(T)
            if r.returncode: killed = "build"
            else:
                env = dict(os.environ, HS_CUT=OUT + "/libcut.so", HS_PACK=OUT + "/libpack.so", HS_OCL=OUT + "/libocl.so", HS_OCLK=OUT + "/libkernel.so", HS_REFERENCE=OUT + "/libref.so")
                if not cli:
                    for q in props:
                        b = {"P15": 400, "P09": 300, "P12": 60000}.get(q, 14000)
                        r = run([OUT + "/engine", "run", q, "777", str(b), "8", "60", W + "/s.json", W + "/r.txt", "4"], env=env, timeout=400)
                        if r.returncode in (1, 4): killed = q + " short"; break
                if not killed and not os.environ.get('MUT_SHORT'):
                    for q in props:
                        r = run(["python3", V + "/check.py", q, "quick"], env=dict(os.environ, HS_REPO=W + "/repo", HS_BUILD=W + "/build", VERIF_SEED="1"), timeout=900)
                        if r.returncode: killed = f"{q} quick rc={r.returncode}"; break
        except subprocess.TimeoutExpired: killed = "timeout"
        d = f"{f}:{i + 1}\n  - {ls[i].strip()}\n  + {n.strip()}"
        log.write(f"{'SURVIVED' if not killed else 'killed by ' + killed} {time.time() - t0:.0f}s {d}\n"); log.flush()
        open(p, "w", newline="").write(orig)
    shutil.rmtree(W, ignore_errors=True); log.write("DONE\n")
main()
