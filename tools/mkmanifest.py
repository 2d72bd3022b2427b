#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "engine"))
import props
MAT = ("translation validation: abstract interpretation of the generated impls' MIR over a matrix of witness types, against a reference semantics",
       "Every path of every analysed impl is compared for all field values and all inputs (no execution, no sampling of values). The matrix of attribute "
       "combinations is finite: about 720 fixed witness types plus 650 generated ones per run and property, up to 400 of them aimed at that property (thorough: 8,000 to 10,000), so a defect that needs a combination outside it is missed. "
       "Trusts rustc's MIR, summaries of std/regex, and engine/model.py as the statement of the documentation.")
checks = []
for pid in sorted(props.CHECKS):
    c = props.CHECKS[pid]
    t, n = c.get("tech", MAT[0]), c.get("note", MAT[1] + (props.RTN if len(c["run"]) > 1 else ""))
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} --tier quick", thorough_cmd=f"python3 check.py {pid} --tier thorough",
                       technique=t, level=c["level"], level_note=n))
na = [dict(property="C40", reason="Value equality after a round trip depends on the runtime behaviour of user and std Display/FromStr implementations (float printing, user types) and on which of several matches the regex engine prefers; no static argument in reach bounds these. The structural part - both sides read one format alike - is claimed as C27."),
      dict(property="C41", reason="Running time is a property of the regex crate's matching engine, outside this repository; nothing in this codebase's source decides it.")]
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
for i in ids:
    if i not in props.CHECKS and i not in [x["property"] for x in na]:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="One analysis engine (engine/), one entry point (check.py). /repo carries no hooks."), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
