#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree.
   check.py --replay <file>               run a replay file against /repo's working tree.
   check.py --setup                       build everything once.

Exit 0: held on everything explored. Exit 1 + "VIOLATION property=<id> replay=<path>": broken. Anything else: the check itself failed."""
import hashlib, json, os, shutil, subprocess, sys, time, glob, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HS_REPO", "/repo")
CPUS = min(8, os.cpu_count() or 1)
ASAN = "handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allow_user_segv_handler=1:detect_leaks=0:use_sigaltstack=0:exitcode=77"

# variant -> (batches in the quick tier, time cap in s); the thorough tier runs by time.
QUICK = {
    "P01": {"gcc": 285000, "clang": 180000},
    "P02": {"gcc": 120000, "clang": 75000},
    "P03": {"gcc": 210000, "clang": 105000},
    "P04": {"gcc": 300000, "clang": 120000, "asan": 60000},
    "P05": {"gcc": 180000, "clang": 90000, "asan": 45000},
    "P06": {"gcc": 210000, "clang": 120000},
    "P07": {"gcc": 210000, "clang": 90000, "asan": 135000},
    "P08": {"gcc": 260000, "clang": 150000},
    "P09": {"gcc": 36000, "clang": 18000},
    "P10": {"gcc": 165000, "clang": 90000},
    "P11": {"gcc": 330000, "clang": 180000},
    "P12": {"gcc": 1200000, "clang": 600000, "asan": 200000},
    "P13": {"gcc": 300000, "clang": 150000, "asan": 60000},
    "P14": {"gcc": 330000, "clang": 150000, "asan": 90000},
    "P15": {"gcc": 6000, "clang": 3000},
    "P16": {"gcc": 180000, "clang": 90000},
    "P21": {"gcc": 90000, "clang": 45000},
    "P22": {"gcc": 8000, "clang": 4000},
    "P23": {"gcc": 300000, "clang": 200000},
    "P24": {"gcc": 110000, "clang": 60000},
    "P26": {"gcc": 300000, "clang": 150000},
}
# the command line tool: cases in the quick tier per build.
CLIQUICK = {"P17": {"gcc": 24000, "clang": 9000, "asan": 6000}, "P18": {"gcc": 30000, "clang": 11000, "asan": 6000}, "P19": {"gcc": 2400, "clang": 700, "asan": 500}, "P20": {"gcc": 3200, "clang": 1000, "asan": 1000}, "P25": {"gcc": 4500, "clang": 1500, "asan": 1200}}
CLIRULES = {
    "P17": "A case is a file, arguments with --test (restrictions, instruction set level, runs) and a codec that is made to misbehave (interposed between tool and codec), or none. Non-trivial: a fault, an empty or a missing file. A fault counts as effective only if it takes place; an unwritten range only if its bytes are not all equal.",
    "P18": "A case is a file and generated arguments (restrictions, instruction set level, runs; invalid and doubled ones). Non-trivial: at least one restriction or level, or something invalid.",
    "P19": "A case is a mode of the built-in fuzzer, a level and a codec call (of the first 380 inputs, 4 in the random mode) that is made to misbehave, or none. Every case is non-trivial (it runs all codecs on at least one input).",
    "P25": "A case is a file, generated arguments (restrictions, --runs, --min-time, --sd, --test, level), a duration for every codec call on a simulated clock and in three tenths of the benchmark runs a codec that fails. Every case is non-trivial; distinct = distinct files, arguments, clocks and faults.",
    "P20": "A case is a file; non-trivial: all (every report has 16 symbol sizes, which are all compared).",
}
THOROUGH = {"gcc": 420, "clang": 240, "asan": 240}   # seconds per variant.
CAP = {"quick": 150, "thorough": 1e9}
VAST = " One batch in 2500 is a vast input instead (2^26 to 2^30 bytes, up to 0xF0000000 where the codec takes that; one run, incompressible or mixed; a part of 12 MiB mapped repeatedly)."
RULES = {
    "default": "Inputs are generated for a symbol width (segments of boundary-rich literal and run lengths, literal/run/literal, small alphabets, Markov, random, many-symbol tables, SIMD-lane structure, periodic, mutated, tiny, run lengths around 2^12..2^16, look-up table churn, single runs, accumulating-expansion patterns) and given to every codec of that width plus some others, at a random SIMD level and buffer placement. A case is non-trivial if its input contains, for the codec's symbol width, both a repetition and something that is not one; distinct = distinct (input, codec, levels, parameters).",
    "P22": "A case is a generated processor (highest cpuid leaf, feature bits of leaves 1 and 7, extended control register 0; consistent in that extensions come with what they extend) and a choice of switches that are turned off afterwards. Every case is non-trivial; distinct = distinct machines, switches and codecs.",
    "P23": "A case is one of 13 pairs of functions, values below 2^N in a number that the pair supports (1-14 units mostly, up to 700), and placements of the three buffers. Every case is non-trivial; distinct = distinct values, pairs and placements.",
    "P24": "A case is a history of 1-6 steps: decompressions of generated blocks in 1-300 sections, initializations for other sizes, clean-ups, calls that have to be refused; in a fifth of the steps one of the calls of OpenCL or allocations fails. Every case is non-trivial; distinct = distinct blocks, sections, steps and failing calls.",
    "P26": "Half of the inputs repeat one to three kinds of unit (a number of other bytes, then a repetition of a given length of one of 1-10 or of always another symbol) over 1500-9000 bytes, so that what is missed of one kind adds up; a quarter draws from 2-12 symbols that each have a frequency and a tendency to repeat; the others are generated as for the other properties. Non-trivial: for the codec's symbol width, both a repetition and something that is not one; distinct = distinct (input, codec, level, sections).",
}
NOASAN = ("P09", "P10", "P21", "P22", "P23", "P24", "P26")
CUT = ("P08", "P09", "P21", "P22")
ASSUME = [
    "x86-64; SIMD levels up to what this machine offers (levels are lowered through the same switches that the command line's --max-simd uses)",
    "input buffers as the README asks for: exact-size input, compressed buffer of the advertised bound, decompressed buffer with rle_decompress_additional_size() spare bytes",
    "random search: absence of a counterexample among the generated cases, not a proof",
]


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def tree_hash(variant):
    h = hashlib.sha256(variant.encode())
    for root in (REPO + "/src", V + "/harness", V + "/cli", V + "/reference/src"):
        for f in sorted(glob.glob(root + "/**", recursive=True)):
            if os.path.isfile(f) and "__pycache__" not in f:
                h.update(os.path.relpath(f, root).encode())
                h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def build(variants, ref=False, cut=False, cli=False, engine=True, pack=False, ocl=False):
    """-> {variant: dir}; keyed by content, so never out of date."""
    root = os.environ.get("HS_BUILD") or os.path.join(V, "build")
    os.makedirs(root, exist_ok=True)
    with open(root + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dirs, procs = {}, []
        for v in variants:
            d = f"{root}/{v}-{tree_hash(v)}"
            dirs[v] = d
            want = [f"{d}/engine"] if engine else []
            if cli:
                want.append(f"{d}/hsrlekit")
            if ref and v == variants[0]:
                want.append(f"{d}/libref.so")
            if cut and "asan" not in v:
                want.append(f"{d}/libcut.so.insn")
            if pack:
                want.append(f"{d}/libpack.so")
            if ocl:
                want += [f"{d}/libocl.so", f"{d}/libkernel.so"]
            if all(os.path.exists(w) for w in want):
                continue
            for old in glob.glob(f"{root}/{v}-*"):
                if old != d:
                    shutil.rmtree(old, ignore_errors=True)
            procs.append((v, subprocess.Popen(["make", "-s", "-k", f"-j{CPUS}", "-C", f"{V}/harness", f"REPO={REPO}", f"OUT={d}", f"VARIANT={v}"] + want, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for v, p in procs:
            out = p.communicate()[0].decode(errors="replace")
            if p.returncode:
                print(out[-4000:])
                print(f"check: the {v} build failed")
                sys.exit(2)
        return dirs


def engine_env(dirs, variants, v=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN
    e["HS_CUT"] = f"{dirs[v or variants[0]]}/libcut.so"
    e["HS_PACK"] = f"{dirs[v or variants[0]]}/libpack.so"
    e["HS_OCL"] = f"{dirs[v or variants[0]]}/libocl.so"
    e["HS_OCLK"] = f"{dirs[v or variants[0]]}/libkernel.so"
    ref = f"{dirs[variants[0]]}/libref.so"
    if os.path.exists(ref):
        e["HS_REFERENCE"] = ref
    return e


def known_findings(prop):
    out = []
    p = V + "/known-findings.txt"
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("known: property=" + prop + " "):
            out.append(line[len("known: property=" + prop + " "):])
    return out


def violation(prop, replay, msg):
    dst = f"{V}/replays/{prop}-{time.strftime('%H%M%S')}-{os.getpid()}.txt"
    os.makedirs(V + "/replays", exist_ok=True)
    if os.path.abspath(replay) != dst and os.path.exists(replay):
        shutil.copy(replay, dst)
    else:
        dst = replay
    print(f"{prop}: {msg}")
    print(f"VIOLATION property={prop} replay={dst}")
    return dst


def write_evidence(prop, tier, seed, cov, t0, violations, assume=None):
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assume or ASSUME, "wall_s": round(time.time() - t0, 2), "violations": violations}, open(f"{V}/evidence/{prop}.json", "w"), indent=1)


def engine_check(prop, tier, seed, t0):
    plan = dict(QUICK[prop])
    if tier == "thorough":
        plan = dict(THOROUGH)
    if prop in NOASAN:
        plan.pop("asan", None)
    variants = list(plan)
    dirs = build(variants, ref=prop in ("P10", "P26"), cut=prop in CUT, pack=prop == "P23", ocl=prop == "P24")
    runs, viol, notes, corpus = [], 0, [], 0

    # earlier counterexamples first: the committed regression corpus.
    for f in sorted(glob.glob(f"{V}/corpus/{prop}*.txt")):
        for v in variants:
            ok = 0
            for _ in range(3):
                r = sh([f"{dirs[v]}/engine", "replay", f], env=engine_env(dirs, variants, v), capture_output=True, timeout=600)
                if r.returncode == 1:
                    ok += 1
                    continue
                if r.returncode != 0:
                    print(r.stderr.decode()[-500:]); print("check: replay error"); sys.exit(2)
                break
            corpus += 1
            if ok == 3:
                violation(prop, f, f"{r.stdout.decode(errors='replace').strip()} [{v} build, corpus {os.path.basename(f)}]")
                viol += 1
                break
        if viol:
            break

    big = "4" if tier == "quick" else "12"
    for v in variants:
        if viol:
            break
        batches, seconds = (plan[v], CAP["quick"]) if tier == "quick" else (10**12, plan[v])
        if v != "gcc" and tier == "quick":
            vs = seed * 1000 + len(runs) * 7 + 1
        else:
            vs = seed * 1000
        tmp = f"{dirs[v]}/run-{prop}-{os.getpid()}"
        for attempt in range(2):
            r = sh([f"{dirs[v]}/engine", "run", prop, str(vs), str(batches), str(CPUS), str(seconds), tmp + ".json", tmp + ".txt", big], env=engine_env(dirs, variants, v), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode != 4:
                break
            notes.append("unreproducible: " + r.stderr.decode(errors="replace")[-400:])
        if r.returncode not in (0, 1, 4):
            print(r.stderr.decode(errors="replace")[-2000:])
            print(f"check: engine error {r.returncode}")
            sys.exit(2)
        st = json.load(open(tmp + ".json"))
        st["variant"] = v
        runs.append(st)
        if r.returncode == 1:
            violation(prop, tmp + ".txt", st["message"] + f" [{v} build]")
            viol += 1
        for x in (tmp + ".json", tmp + ".txt"):
            if os.path.exists(x):
                os.remove(x)
        print(f"{prop} {v}: {st['evaluations']} cases, {st['distinct_nontrivial']} distinct non-trivial, {st['wall_s']} s")

    merge = lambda k: {n: sum(r[k].get(n, 0) for r in runs) for n in sorted({n for r in runs for n in r[k]})}
    cov = {
        "evaluations": sum(r["evaluations"] for r in runs) + corpus,
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs[:1]) if runs else 0,
        "rule": RULES.get(prop, RULES["default"]) + (VAST if prop == "P01" else "") + " (distinct_nontrivial counts the first build only; other builds repeat the search with other seeds)",
        "samples": runs[0]["samples"] if runs else [],
        "corpus_replays": corpus,
    }
    if runs:
        cov.update({"builds": {r["variant"]: {"seed": r["seed"], "evaluations": r["evaluations"], "nontrivial": r["nontrivial"], "distinct_nontrivial": r["distinct_nontrivial"], "wall_s": r["wall_s"]} for r in runs},
                    "input_bytes": sum(r["input_bytes"] for r in runs), "input_sizes": merge("sizes"), "generators": merge("labels"), "levels": merge("levels"), "cases_per_codec": merge("codecs")})
    if notes:
        cov["notes"] = notes
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    write_evidence(prop, tier, seed, cov, t0, viol)
    return 1 if viol else 0


def cli_check(prop, tier, seed, t0):
    sys.path.insert(0, V + "/cli")
    sys.dont_write_bytecode = True
    import cli
    plan = CLIQUICK[prop]
    dirs = build(list(plan), cli=True, engine=False)
    runs, viol, corpus = [], 0, 0
    for f in sorted(glob.glob(f"{V}/corpus/{prop}*.json")):
        case = json.load(open(f))
        for v in plan:
            corpus += 1
            msgs = [cli.replay(case, f"{dirs[v]}/hsrlekit") for _ in range(3)]
            if all(msgs) and not viol:
                violation(prop, f, f"{msgs[0]} [{v} build, corpus {os.path.basename(f)}]")
                viol += 1
    for k, v in enumerate(plan):
        if viol:
            break
        st = cli.search(prop, f"{dirs[v]}/hsrlekit", seed * 1000 + k, plan[v] if tier == "quick" else 10**9, CPUS, CAP["quick"] if tier == "quick" else THOROUGH[v])
        st["variant"] = v
        runs.append(st)
        if st["violation"]:
            tmp = f"{dirs[v]}/case-{os.getpid()}.json"
            json.dump(st["violation"][0], open(tmp, "w"))
            violation(prop, tmp, f"{st['violation'][1]} [{v} build]")
            os.remove(tmp)
            viol += 1
        print(f"{prop} {v}: {st['evaluations']} cases, {st['distinct_nontrivial']} distinct non-trivial, {st['wall_s']} s")
    cov = {"evaluations": sum(r["evaluations"] for r in runs) + corpus, "distinct_nontrivial": runs[0]["distinct_nontrivial"] if runs else 0, "rule": CLIRULES[prop], "samples": runs[0]["samples"] if runs else [], "corpus_replays": corpus,
           "builds": {r["variant"]: {k: r[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "wall_s")} for r in runs}, "kinds": {n: sum(r["labels"].get(n, 0) for r in runs) for n in sorted({n for r in runs for n in r["labels"]})}}
    notes = [n for r in runs for n in r["notes"]]
    if notes:
        cov["notes"] = notes[:5]
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    write_evidence(prop, tier, seed, cov, t0, viol, ["x86-64 Linux; the tool built from the current tree, its calls of codecs interposed at link time", ASSUME[2]])
    return 1 if viol else 0


def main():
    t0 = time.time()
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build(["gcc", "clang"], ref=True, cut=True, cli=True, pack=True, ocl=True)
        return 0
    if a and a[0] == "--replay" and open(a[1]).read(1) == "{":
        sys.path.insert(0, V + "/cli")
        sys.dont_write_bytecode = True
        import cli
        d = build(["gcc", "asan"], cli=True, engine=False)
        m = next(filter(None, (cli.replay(json.load(open(a[1])), d[v] + "/hsrlekit") for v in d)), None)
        print(m or "held")
        return 1 if m else 0
    if a and a[0] == "--replay":
        text = open(a[1]).read()
        d = build(["gcc"], ref=True, cut=True, pack="P23" in text, ocl="P24" in text)
        r = sh([f"{d['gcc']}/engine", "replay", a[1]], env=engine_env(d, ["gcc"]))
        return r.returncode
    if not a:
        print(__doc__)
        return 2
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop in QUICK:
        return engine_check(prop, tier, seed, t0)
    if prop in CLIQUICK:
        return cli_check(prop, tier, seed, t0)
    print("unknown property", prop)
    return 2


if __name__ == "__main__":
    sys.exit(main())
