"""write properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props   # noqa: E402

ROOT = os.path.dirname(HERE)
lines, checks, na = [], [], []
for p in sorted(props.P, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}))
    assert (p["claim"] is None) != (p["na"] is None), p["id"]
    if p["claim"]:
        assert os.path.exists(os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py")), p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["claim"][0], "level": "other", "level_note": p["claim"][1]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the checks read /repo's source and never import or run it."}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
