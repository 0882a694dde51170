#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "property-based testing: generated inputs, round-trip oracle",
 "P02": "property-based testing: differential between instruction set levels",
 "P03": "property-based testing: worst-case-seeking generators, bound and guard page oracle",
 "P04": "property-based testing: generated capacities, canary and guard page oracle",
 "P05": "property-based testing: generated truncations and missing arguments",
 "P06": "property-based testing: metamorphic relation (relocated stream, other trailing bytes)",
 "P07": "property-based testing: guard pages, canaries and AddressSanitizer as oracle",
 "P08": "stateful property-based testing: generated call histories, repeated-call oracle",
 "P09": "stateful property-based testing: generated schedules (deterministic preemption and free threads), sequential oracle",
 "P10": "property-based testing: differential against the recorded release, both directions",
 "P11": "property-based testing: plain reference model of move-to-front",
 "P12": "property-based testing: plain reference model of the xor transform",
 "P13": "property-based testing: generated inputs against invariants and round trips of the information interface",
 "P14": "property-based testing: generated inputs and section counts, round trip and bound oracle",
 "P15": "property-based testing: size limit computed from the generated input's runs",
 "P16": "property-based testing: metamorphic relation over buffer capacities",
 "P17": "property-based testing: generated files, arguments and injected codec faults, exit status oracle",
 "P18": "property-based testing: generated arguments against a model of the selection, observed through interposed codec calls",
 "P19": "stateful property-based testing: injected faults in call histories of the built-in fuzzer",
 "P25": "property-based testing: generated files, arguments, call durations on a simulated clock and codec faults against a model of the report",
 "P20": "property-based testing: reference model of the analysis",
 "P21": "property-based testing: generated inputs, breakpoints on every instruction above the level as oracle",
 "P22": "property-based testing: generated machines (emulated cpuid and xgetbv), model of the switches",
 "P23": "property-based testing: generated values and sizes, round trip between function variants, guard page oracle",
 "P24": "stateful property-based testing: generated histories and injected failures on a stand-in for OpenCL, round trip, resource accounting and guard page oracle",
 "P26": "property-based testing: generated repetitions, compressed size compared with the recorded release's",
}
N = "Random search with boundary-rich generators and shrinking on gcc and clang builds of the current tree (ASan build where memory matters); no counterexample among the generated cases, not a proof."
def main():
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    checks = [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": N} for i in ids if i in T]
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [{"property": i, "reason": "no check built yet"} for i in ids if i not in T]}, open(V + "/MANIFEST.json", "w"), indent=1)
main()
