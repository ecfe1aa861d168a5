#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from rules.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rules
V = os.path.dirname(HERE)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for k, p in sorted(list(rules.PROPS.items()) + list(rules.NA.items())):
            o = {"id": k, "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p.get("observe"):
                o["anchors"]["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, k
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": []}
    for k, p in sorted(rules.PROPS.items()):
        m["checks"].append({"property": k, "quick_cmd": "python3 sa/run.py %s" % k,
                            "thorough_cmd": "python3 sa/run.py %s" % k,
                            "technique": p.get("technique") or rules.TECHNIQUE, "level": p.get("level", "other"),
                            "level_note": p.get("note") or rules.NOTE})
    for k, p in sorted(rules.NA.items()):
        m["not_applicable"].append({"property": k, "reason": p["reason"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)


main()
