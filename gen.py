#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they cannot drift apart."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []      # properties
NA = {}     # id -> reason


def prop(id, title, statement, over, text, tests, files, mech, technique=None, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, level_note=level_note))
    if na:
        NA[id] = na


ABS = "abstract interpretation of MIR (partitioned by enum shape, symbolic terms, linear inequalities)"
GRAPH = "queries over the resolved call graph and MIR dataflow"
TRUST = ("Sound over-approximation of every execution of the code analysed, given the library models in /verif/models and /verif/sa/models.py "
         "and rustc's MIR; a violation names a construct and may be spurious only where the abstraction is too coarse.")

exec(open(os.path.join(HERE, "props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 /verif/sa/build.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 /verif/check.py %s" % p["id"],
            "thorough_cmd": "python3 /verif/check.py %s --thorough" % p["id"],
            "technique": p["technique"] or ABS,
            "level": "other",
            "level_note": p["level_note"] or TRUST,
        } for p in P if p["id"] not in NA],
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "Static analysis only: /repo is compiled to MIR by a rustc driver and never run. No hooks in /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
