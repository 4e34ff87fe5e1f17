#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))


def main():
    exec(open(os.path.join(HERE, "tools", "props_data.py")).read(), globals())
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["pid"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["pid"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["pid"], "quick_cmd": "python3 sa/check.py %s" % p["pid"],
                                "thorough_cmd": "python3 sa/check.py %s" % p["pid"],
                                "technique": p["technique"], "level": "other", "level_note": p["note"]})
    m["notes"] = NOTES
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
