#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json. Run: python3 tools/props.py"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, observe=observe or [], technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
        n = len(re.findall(r"[.;:!?](?:\s|$)", p["statement"]))
checks, na = [], []
for p in P:
    have = glob.glob(os.path.join(V, "harness", p["id"] + "_*.cpp"))
    if p["na"] or not have:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"],
                   "evidence_file": "evidence/%s.json" % p["id"]})
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", [x["property"] for x in na])
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("schemas ok")
except ImportError:
    pass
