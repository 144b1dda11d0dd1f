#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks in lib/props.py and the properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C24": "The other language implementations are not in the repository, so there is no source to compare with; what can be decided from this source "
           "(bit layout, resource format, names) is C03, C13 and C16.",
    "C25": "The code never calls a sync operation and does not promise it; what survives a power failure depends on the operating system, not on this source.",
}
LEVEL = ("Decided by abstract interpretation of the MIR of the current tree over all paths and all values of the stated inputs, for the generated family of declarations; "
         "sound up to the models of library functions (lib/models.py) and what the evidence lists as undecided.")
m = {"version": 1, "setup_cmd": "python3 lib/build.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "Static analysis only: a rustc driver dumps the MIR of /repo's current tree together with the entry points in harness/, and check.py interprets it abstractly. No hooks in /repo are needed."}
for i in ids:
    if i in props.CHECKS:
        c = props.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": c.get("technique", "abstract interpretation of MIR (bit-provenance, linear and segment-memory domains)"),
                            "level": "other", "level_note": c.get("note", LEVEL)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
