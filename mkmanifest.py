#!/usr/bin/env python3
"""Regenerates MANIFEST.json from runs.json (the properties that have worlds)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(H + "/runs.json"))["properties"]
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {
 "N01": "Encoding and decoding one value is a pure function of its input: no schedule, time or fault can change the result, so a simulated run decides nothing a table of inputs does not. The part that crosses the wire is R02.",
 "N03": "Scalar validation and conversion is a pure function of its input.",
}
checks = []
for p in props:
    i = p["id"]
    if i in conf:
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules and fault sequences)",
            "level": "exploration", "level_note": conf[i]["note"]})
m = {"version": 1, "setup_cmd": "bash /verif/build.sh", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks: the seam is the linker (--wrap of system, thread and clock calls) over unmodified sources", "source_commits": []},
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "world not finished yet")} for p in props if p["id"] not in conf],
     "notes": "Every check builds its own copy of the library from /repo's working tree into /verif/build (git-ignored). See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
