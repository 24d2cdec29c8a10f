"""Writes properties.jsonl and MANIFEST.json from docs/props.py (the single list of properties)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/docs")
from props import PROPS, NA
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
claimed = [p for p in PROPS if glob.glob(f"{V}/checks/{p['id'].lower()}_*.py") and p["id"] not in NA]
m = {"version": 1, "setup_cmd": "python3 lib/mkbuild.py py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                 "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in claimed],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")}
                        for p in PROPS if p not in claimed],
     "notes": "One driver (check.py) rebuilds Cantera from /repo's working tree into .build (content-mirrored, "
              "see lib/mkbuild.py) and runs the generated-case sub-checks of checks/<id>_*.py."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
    for fn in p["files"]:
        assert os.path.exists("/repo/" + fn), fn
print(len(PROPS), "properties,", len(claimed), "claimed")
