#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after editing PROPS."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa

TRUST = ("Trusts the reference model written in the harness, g++-12, and the in-tree stand-ins for the third-party "
         "headers (cista, utl) that are not installed here.")

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="model_checking", state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note, level=level, state=state))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])

with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"],
                 hook_needed=None)
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        for fn in p["files"]:
            assert os.path.exists("/repo/" + fn), (p["id"], fn)
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")

m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
na = {x["property"] for x in NOT_APPLICABLE}
for p in PROPS:
    if p["id"] in na:
        continue
    assert p["id"] in CHECKS, p["id"]
    m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick",
                            thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                            evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"],
                            level_note=p["note"] + " " + TRUST))
m["not_applicable"] = NOT_APPLICABLE
m["notes"] = ("Every check builds a harness together with the sources it needs from /repo's working tree (ninja, g++-12), "
              "enumerates a bounded space completely on all cores, replays every reported case in a fresh process before "
              "reporting it, and writes evidence/<id>.json. No hooks are needed in /repo.")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(m["checks"]), "checks")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for l in open(f"{HERE}/properties.jsonl"): jsonschema.validate(json.loads(l), ps)
    jsonschema.validate(m, ms)
except ImportError:
    print("jsonschema not available")
