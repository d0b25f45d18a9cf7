#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), tech=None, note=None, claimed=False, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=list(observe), state=list(state), tech=tech, note=note, claimed=claimed, na=na))
exec(open(os.path.join(V, "tools", "props_data.py")).read())
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["observe"]: a["observe_at"] = p["observe"]
            if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
         "notes": "All specifications are TLA+ (spec/), checked with TLC. No hooks in /repo are needed: the drivers compile /repo's sources against the stand-in headers in stubs/. Genuine defects: known_findings.txt."}
    for p in P:
        if p["claimed"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                                "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"], "technique": p["tech"],
                                "level": "model_checking", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "not claimed yet: the check is still being built"})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(m["checks"]), "claimed")
main()
