#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and table.py."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
import props, table
P = {p["id"]: p for p in props.P}
order = sorted(P)
with open(V + "/properties.jsonl", "w") as f:
    for i in order: f.write(json.dumps(P[i]) + "\n")
checks = []
for i in order:
    if i not in table.PROPS: continue
    t = table.PROPS[i]
    kinds = {table.HARNESS[h]["kind"] for h in t["harness"]}
    tech = {"mc": "stateless model checking of the implementation (controlled scheduler, simulated kernel, preemption-bounded exhaustive search)",
            "seq": "exhaustive enumeration of operation sequences and inputs on the implementation against a reference model"}
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i, evidence_file="evidence/%s.json" % i,
        technique="; ".join(tech[k] for k in sorted(kinds)), level="model_checking",
        level_note="Exhaustive within: " + t["bounds"] + ". Assumes: " + "; ".join(t["assumptions"])))
man = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="SALTICIDAE_VERIF_MPMCQ_SIZE", enable="-DSALTICIDAE_VERIF_MPMCQ_SIZE=2 when compiling the harnesses and /repo's sources", source_commits=table.HOOKS),
    checks=checks, not_applicable=[dict(property=i, reason=table.NA[i]) for i in order if i not in table.PROPS])
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
