#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os
from props import PROPS
from specs import PROPS as SPECS
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled pallet code (LLVM IR) with Z3 deciding every branch and assertion"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": False}
        if p["state"]: a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
        if p["observe"]: a["observe_at"] = list(p["observe"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
claimed = [p for p in PROPS if p["id"] in SPECS]
assert not [k for k in SPECS if k not in {p["id"] for p in PROPS}]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "technique": TECH, "level": "model_checking",
                 "level_note": (p["note"] or "") + ". Trusted: the symx executor, Z3, the stub Substrate layer (storage, origins, transactional layers); bounds in the evidence file."} for p in claimed],
     "not_applicable": [{"property": p["id"], "reason": p["na"] or "no check built yet"} for p in PROPS if p["id"] not in SPECS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed,", len(m["not_applicable"]), "not applicable")
