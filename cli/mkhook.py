#!/usr/bin/env python3
"""mkhook.py <codecs.def> <hook_gen.h> <wrap.txt>: interposition table for all one-shot codec entry points."""
import re, sys
comp, dec = [], []
for l in open(sys.argv[1]):
    m = re.match(r"X\(([^)]*)\)", l)
    if m:
        f = [x.strip() for x in m.group(1).split(",")]
        if f[1] not in comp: comp.append(f[1])
        if f[2] not in dec: dec.append(f[2])
allf = [(f, 0) for f in comp] + [(f, 1) for f in dec]
with open(sys.argv[2], "w") as o:
    for i, (f, k) in enumerate(allf):
        o.write(f"uint32_t __real_{f}(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);\n"
                f"uint32_t __wrap_{f}(const uint8_t *pIn, const uint32_t inSize, uint8_t *pOut, const uint32_t outSize) {{ return hook({i}, {k}, __real_{f}, pIn, inSize, pOut, outSize); }}\n")
    o.write("const char *const hookNames[] = {" + ",".join(f'"{f}"' for f, _ in allf) + "};\n")
open(sys.argv[3], "w").write("\n".join(f"-Wl,--wrap={f}" for f in [f for f, _ in allf] + ["_DetectCPUFeatures", "aligned_alloc", "clock_gettime", "timespec_get", "gettimeofday", "usleep", "sleep", "nanosleep", "clock_nanosleep"]) + "\n")
