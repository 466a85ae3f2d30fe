#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None, tech=None, note=None, na=None, level="model_checking"):
    a = dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), tech, note, na, level))
    assert len(title) <= 80, title

exec(open(os.path.join(V, "tools", "properties.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, *_ in P: f.write(json.dumps(p) + "\n")
    checks = []; na = []
    for p, tech, note, why, level in P:
        if why: na.append(dict(property=p["id"], reason=why)); continue
        c = "python3 check.py " + p["id"]
        checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick " + c, thorough_cmd="VERIF_TIER=thorough " + c,
                           evidence_file="evidence/%s.json" % p["id"], technique=tech, level=level, level_note=note))
    m = dict(version=1, setup_cmd="python3 check.py build", hooks=dict(guard="VERIF_HARNESS", enable="the checks compile /repo/src/*.c with -DVERIF_HARNESS=1; no change in /repo is guarded by it: all seams are public calls, internal headers and link-time interposition", source_commits=[]),
             checks=checks, not_applicable=na, notes="Properties and checks are described in DESIGN.md; known-findings.txt lists repaired and recorded defects.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p, *_ in P: jsonschema.validate(p, s)
    except ImportError: pass
    print(len(P), "properties,", len(checks), "claimed")
main()
