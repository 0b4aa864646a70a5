#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist under src/props."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("property-based testing: generated QPs/OCPs, guesses and options against an extended-precision KKT oracle",),
"C02": ("property-based testing: problems constructed from a known solution; SUCCESS and known optimal value as oracle",),
"C03": ("property-based testing: certificates re-verified in extended precision; solvable-by-construction problems",),
"C04": ("property-based testing: problems constructed with Farkas certificates / descent rays; verdict and feasibility oracle",),
"C05": ("property-based testing and fault-like extreme inputs: termination, counters and exit-flag invariants under a watchdog",),
"C06": ("property-based testing: summary recomputed from the returned point; prefix (budgeted-run) metamorphic relation",),
"C07": ("differential property-based testing: OCP solver against the dense solver on the explicit QP",),
"C08": ("stateful property-based testing: random operation histories, nested and threaded solves, poisoned heap; fresh-object differential, bitwise",),
"C09": ("differential property-based testing of the interfaces with canaries, misaligned buffers and AddressSanitizer",),
"C10": ("property-based testing with generated size faults; acceptance predicate model and state-unchanged differential",),
"C11": ("property-based testing: option sanitiser reference model, idempotence, bitwise solve equivalence, stateful updates",),
"C12": ("property-based testing: operators against explicit dense matrices in extended precision",),
"C13": ("property-based testing: solutions substituted into an independently assembled linear system; finite differences",),
"C14": ("property-based testing: residuals against independent formulas; stateful accessor model",),
"C15": ("stateful model-based property testing of the iterate type",),
"C16": ("property-based testing: verdict against an independent three-valued reference of the certificate conditions; metamorphic relations",),
"C17": ("stateful model-based property testing with AddressSanitizer",),
"C18": ("property-based testing: captured output parsed and compared with the solve's results at every display level",),
"C19": ("property-based testing: re-solve (round-trip) from returned and constructed solutions, bitwise",),
"C20": ("metamorphic property-based testing: equivalent problem transformations",),
"C21": ("differential property-based testing against an independent reference implementation under iteration budgets",),
"C22": ("property-based testing with instrumented and fault-injecting components; call-protocol invariants over the history",),
"C23": ("property-based testing of generated misuse against an acceptance predicate, with AddressSanitizer",),
"C24": ("property-based testing of the wrapper over a stand-in of the QDLDL C API with AddressSanitizer",),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ids = [p["id"] for p in props]
have = {os.path.basename(f)[:-3] for f in glob.glob(HERE + "/src/props/C*.cc")}
NOTE = ("Held on every generated case; cases are drawn from VERIF_SEED "
        "(quick and thorough differ in their number), failures are shrunk and "
        "must reproduce three times. Trusts the harness's oracle, compiler "
        "and Eigen. ")
EXTRA = {
"C24": "QDLDL itself is not installed: the wrapper is compiled against a stand-in implementation of the same C API, so the wrapper, not QDLDL, is judged.",
"C21": "Cases in which a decision of the algorithm is within rounding of a tie are set aside and counted.",
"C02": "Batches bound how often the stock iteration limits are hit.",
"C09": "Memory safety is what AddressSanitizer and canaries can see.",
}
man = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "checks": [{
    "property": i,
    "quick_cmd": "python3 check.py " + i,
    "thorough_cmd": "python3 check.py " + i + " --tier thorough",
    "technique": T[i][0],
    "level": "exploration",
    "level_note": NOTE + EXTRA.get(i, ""),
 } for i in ids if i in have],
 "not_applicable": [{"property": i, "reason": "check under construction"}
                    for i in ids if i not in have],
 "notes": "All checks build /repo's sources out of tree into /verif/build "
          "(ignored by git). No hooks in /repo are needed. See DESIGN.md.",
}
open(os.path.join(HERE, "MANIFEST.json"), "w").write(
    json.dumps(man, indent=1) + "\n")
print(len(man["checks"]), "checks", len(man["not_applicable"]), "missing")
