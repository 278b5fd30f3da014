#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPT = ("TLA+ definition of the optimum over all trees evaluated by TLC (dynamic program, itself model-checked against enumeration of all "
       "trees); recorded fits of the built package validated as traces")
NOTES = {
    "P01": OPT, "P02": OPT, "P03": OPT, "P04": OPT, "P05": OPT, "P06": OPT, "P07": OPT, "P08": OPT, "P09": OPT,
    "P10": "trace validation of fits against the TLA+ definition of admissible trees",
    "P11": "trace validation in TLA+: one problem, many option settings, column and row orders; every answer must be equally good",
    "P12": "trace validation of scores and question lengths recomputed in TLA+ from the returned tree",
    "P13": "replay of model-generated sessions and trace validation of predictions in TLA+",
    "P14": "expiry points enumerated through an injected clock; results validated against the TLA+ optimum",
    "P15": "bounds around the TLA+ optimum enumerated; fits validated as traces",
    "P16": "TLA+ specification of tuning validated on recorded tuning runs",
    "P17": "replay of model-generated sessions (TLC simulation of Session.tla) and trace validation",
    "P18": "TLA+ specification of the binary encodings validated on recorded transformations",
    "P19": "replay of subproblem query sessions on the solver class, validated against the TLA+ optimum; branch-and-bound protocol model-checked",
    "P20": "replay of model-generated sessions (TLC simulation of Session.tla) and trace validation of the observed outcomes",
    "P21": "exports parsed and validated against the fitted tree in TLA+",
    "P22": "command-line runs on generated files validated as traces",
}
LEVEL_NOTE = ("model_checking: the specification is checked by TLC over bounded instances and bound to the implementation by trace validation; "
              "the implementation side is sampled (seeded random problems within stated bounds), not exhaustive")

props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "python3-vt check.py " + p, "thorough_cmd": "python3-vt check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": NOTES[p], "level": "model_checking", "level_note": LEVEL_NOTE})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3-vt lib/build.py",
     "checks": checks, "not_applicable": na,
     "notes": "Specification in spec/ (TLA+, checked with TLC); lib/ and checks/ bind it to the implementation; known findings and repaired defects in known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
