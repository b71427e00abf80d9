#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {
 "N01": "Running time is outside what the available deductive verifiers express for this code: neither Verus nor Kani has a cost model for extracted Rust that calls back through scale-encode. (Reading the code suggests it is false: see DESIGN.md, encoding single-item chains that fail takes time exponential in their depth.)",
 "N02": "Stack use has no contract in the available verifiers (Verus ignores stack exhaustion, Kani has no stack model). The crate recurses without a depth limit; DESIGN.md records it.",
}
BOUNDED = "bounded comparison with an independent reference implementation on the real crate"
T = json.load(open(H + "/tools/levels.json"))
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    t = T.get(i, {})
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "technique": t.get("technique", BOUNDED), "level": t.get("level", "exploration"),
                   "level_note": t.get("note", "Bounded only so far: no obligation is discharged.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks were needed: the checks read private functions from the source text and use the public API of the real crate", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "See DESIGN.md. Bounded parts are labelled bounded in the evidence and never counted as proved."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
