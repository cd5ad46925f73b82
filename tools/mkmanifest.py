#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
import run
run.load()
NA = {
    "P90": "stack depth at run time depends on the nesting of the input and the frame sizes of the build; no bound is visible in the source, which deliberately recurses without one, and the current code does overflow on extreme nesting",
    "P91": "the current code frames a body by the end of the connection only, and the property asks for a protocol feature that is absent; there is no code to analyse",
    "P92": "quantifies over scheduling and wall-clock time",
    "P93": "round-trip equality of the printer and the parser over all expressions is a relation between two runs of printer and parser over unbounded trees, and the current printer does not re-escape strings; the structural part that can be decided (every part shown, in order, with its delimiters) is P17",
}
NA.update(json.load(open(os.path.join(V, "tools", "na.json"))) if os.path.exists(os.path.join(V, "tools", "na.json")) else {})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in run.REGISTRY:
        f, floor, tech, assume, explain = run.REGISTRY[p]
        checks.append({
            "property": p, "quick_cmd": "python3 analysis/run.py " + p, "thorough_cmd": "python3 analysis/run.py " + p,
            "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: " + tech, "level": "other",
            "level_note": "Decided on the MIR of /repo's current source on every run: " + explain + ". Trusts rustc's MIR, the models of library functions in analysis/models.py" +
            ("; " + "; ".join(assume) if assume else "") + "."})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check is built for this property yet")})
m = {"version": 1, "setup_cmd": "python3 analysis/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the source of /repo is analysed as it is. fix: commits repair defects listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
