#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property with a harness, the others as not applicable."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = {}
DEFAULT_NOTE = ("Bounded: every value of the symbolic inputs within the stated bounds, on every feasible path of the real code; "
  "bounds, paths and queries per case are in the evidence file. Trusts rustc, z3, and the symbolic integer type standing in for data, times and differences.")
checks, na = [], []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if any(os.path.exists(f"{here}/{c}/src/bin/{i.lower()}.rs") for c in ("harness", "harness2")) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="symbolic execution of the compiled implementation, z3 deciding every branch and assertion" + ("; Kani (CBMC) over every bit pattern for machine integers" if i in ("L01", "D01", "F01") else ""),
            level="model_checking", level_note=NOTES.get(i, DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="cfg(ddverif)", enable="RUSTFLAGS='--cfg ddverif' (set by check.sh and setup.sh)", source_commits=["e853acd"]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. known-findings.txt lists genuine defects found.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", len(na), "not applicable")
