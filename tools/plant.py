#!/usr/bin/env python3
"""plant.py <seeded id> [check ...] : confirm a planted bug in a scratch copy and run checks against it.
   Steps: copy /repo, build + demo on the unchanged copy, apply, build, tests, demo, checks (quick)."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def main():
    ident = sys.argv[1]; args = [a for a in sys.argv[2:] if not a.startswith("-")]; flags = [a for a in sys.argv[2:] if a.startswith("-")]
    d = f"{V}/seeded/{ident}"; meta = json.load(open(d + "/meta.json")); props = args or [meta["property"]]
    base = f"/tmp/sc/{ident}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    repo, vp, demo = base + "/repo", base + "/vp", base + "/demo"
    subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", repo])
    shutil.copytree("/opt/vp", vp); shutil.copytree(d, demo)
    for f in ("patch.diff", "meta.json"): os.remove(f"{demo}/{f}")
    for f in os.listdir(vp):
        if f.endswith((".sh", ".py", "Makefile")):
            s = open(f"{vp}/{f}").read(); s = re.sub(r"/repo\b", repo, s); s = s.replace("/opt/vp", vp); open(f"{vp}/{f}", "w").write(s)
    out = {}
    def build():
        r = run(["bash", vp + "/build.sh"], cwd=repo)
        if r.returncode: print(r.stdout[-3000:]); print("BUILD FAILED"); sys.exit(1)
    def rundemo(): 
        t = time.time(); r = run(["bash", demo + "/demo.sh"], cwd=repo, timeout=300); return r.returncode, r.stdout[-400:], round(time.time() - t, 1)
    if "--nodemo" not in flags:
        build(); rc, o, t = rundemo(); print("demo unchanged:", rc, t, "s", o.strip()); out["demo0"] = rc
    r = run(["git", "apply", d + "/patch.diff"], cwd=repo)
    if r.returncode: print(r.stdout, "DOES NOT APPLY"); sys.exit(1)
    if "--nodemo" not in flags:
        build(); rc, o, t = rundemo(); print("demo changed  :", rc, t, "s", o.strip()); out["demo1"] = rc
    if "--notest" not in flags:
        r = run(["bash", vp + "/test.sh", base + "/t.json"], cwd=repo)
        t = json.load(open(base + "/t.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        bl = next(v for v in b.values() if isinstance(v, list) and len(v) > 1000); miss = set(bl) - set(t["passed"])
        print("tests missing:", len(miss), sorted(miss)[:3]); out["missing"] = len(miss)
    env = dict(os.environ, HS_REPO=repo, HS_BUILD=base + "/build", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    for p in props:
        t = time.time(); r = run(["python3", V + "/check.py", p, "quick"], env=env, cwd=V)
        print(f"check {p}: rc={r.returncode} {time.time()-t:.0f}s", [l[:300] for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith(p + ": ")] if r.returncode == 1 else r.stdout[-300:] if r.returncode else "quiet")
        out[p] = r.returncode
    shutil.rmtree(base, ignore_errors=True)
    print("RESULT", ident, json.dumps(out))
main()
