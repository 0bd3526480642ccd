#!/usr/bin/env python3
"""generate properties.jsonl and MANIFEST.json from checks/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        a = dict(files=p["files"], mechanism=p["mech"], hook_needed=None)
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
ch, na = [], []
for p in props.PROPS:
    if p["kind"] == "na":
        na.append(dict(property=p["id"], reason=p["note"]))
        continue
    c = dict(property=p["id"], quick_cmd=f"python3-vt checks/run.py {p['id']}")
    if p["thorough"]:
        c["thorough_cmd"] = f"python3-vt checks/run.py {p['id']} --tier thorough"
    c.update(technique=p["technique"], level="other", level_note=p["note"])
    ch.append(c)
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=ch, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    S = "/root/.vp/"
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open(S + "MANIFEST.schema.json")))
    ps = json.load(open(S + "PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), ps)
    for p in props.PROPS:
        n = p["statement"].count(". ") + 1
        if n > 3:
            print("statement too long:", p["id"], n)
    print("valid:", len(ch), "claimed,", len(na), "not applicable")
except ImportError:
    pass
