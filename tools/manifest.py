#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl, the contracts and the tables below.
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
specs = "".join(open(os.path.join(V, "contracts", f)).read() + "\n" for f in sorted(os.listdir(os.path.join(V, "contracts"))) if f.endswith(".spec"))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
NOTE = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif ("property " + i + " ") in specs:
        checks.append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i, "thorough_cmd": "python3 run_check.py %s thorough" % i,
                       "technique": "contract-based deductive verification: verification conditions generated from /repo's Go source by govc, discharged by z3/cvc5",
                       "level": "proof",
                       "level_note": NOTE.get(i, "Every obligation generated from the functions under contract is discharged for all inputs and iterations.") + " Floats are exact reals with infinities and NaN, integers mathematical; trusted contracts and axioms are listed in the evidence file. A bounded replay harness on the real code runs as a supplement and is not counted as proof."})
    else:
        na.append({"property": i, "reason": "check under construction: contracts not yet discharged"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are keyed by function and loop ordinal; govc re-reads /repo's source on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
