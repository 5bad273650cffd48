"""Writes MANIFEST.json from the properties (run by hand)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "property-based differential testing: repeated runs after generated histories",
    "C02": "property-based stateful testing: interrupted against uninterrupted run",
    "C03": "exhaustive fault injection at every file operation of generated histories",
    "C04": "property-based testing: invariants over generated runs",
    "C05": "property-based testing: invariants at every hook of generated runs",
    "C06": "property-based testing: volume balance over generated stages and runs",
    "C07": "property-based testing against an independent reference (parcel replay)",
    "C08": "property-based testing against an independent reference (every cell)",
    "C09": "property-based testing against an independent reference (walk replay)",
    "C10": "property-based testing against an independent reference (surface from walks)",
    "C11": "property-based testing: reference fluxes and conservation",
    "C12": "property-based testing against an independent reference",
    "C13": "property-based testing against exact clock arithmetic",
    "C14": "property-based stateful testing against a model of the output schedule",
    "C15": "property-based stateful testing: histories of sessions in shared folders",
    "C16": "property-based testing: generated input files and keywords against precedence",
    "C17": "property-based testing against closed formulas",
    "C18": "property-based testing: enumeration model and round trip of job files",
    "C19": "property-based differential testing with injected failures and schedules",
    "C20": "property-based testing against exact arithmetic, with stateful resumes",
    "C21": "property-based testing: recorded call sequences, neutrality and reference",
    "C22": "property-based stateful testing: changed against configured model",
    "C23": "property-based testing: laws, numpy oracle and generator replay",
    "C24": "property-based stateful testing: drawn cells against the cells asked for",
    "C25": "property-based stateful testing: logs against a model of what each run did",
}
N = {
    "C03": "Every file operation (as seen by an LD_PRELOAD shim) of each generated history is "
           "a fault point, in four modes; histories themselves are sampled. Assumes that "
           "completed writes survive the crash of the process.",
}
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
M = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the model is observed through its documented subclass "
              "hooks. VERIF_SEED selects the generated cases. "
              "check.sh <id> quick --replay <file> re-runs one recorded case."}
for p in props:
    i = p["id"]
    M["checks"].append({
        "property": i, "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": T[i],
        "level": "fault_enumeration" if i == "C03" else "exploration",
        "level_note": N.get(i, "No counterexample among the generated cases (numbers, "
                            "non-trivial rule and samples in the evidence file); failures "
                            "are shrunk and replayable. Bounds and oracle in DESIGN.md.")})
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(M, indent=1) + "\n")
