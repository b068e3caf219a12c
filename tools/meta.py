#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "sopht/numeric/eulerian_grid_ops/"
S2, S3 = N + "stencil_ops_2d/", N + "stencil_ops_3d/"
P2, P3 = N + "poisson_solver_2d/", N + "poisson_solver_3d/"
IB = "sopht/numeric/immersed_boundary_ops/"
U = "sopht/utils/"
TECH = "abstract interpretation of the source: array-region dataflow with value numbering (stencil normal forms)"
TECH_IB = "abstract interpretation of the source: loop-body generalisation and array-region dataflow with value numbering"
LN = ("Decided from /repo's syntax trees on every run, for symbolic grid extents, symbolic field contents and every listed generator option; "
      "exact-arithmetic semantics; trusts the models of pystencils/numpy in sa/. ")

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None, na=None, note="", tech=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      state=state, observe=observe, na=na, note=note, tech=tech))


exec(open(os.path.join(V, "tools", "props_table.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py",
         "checks": [], "not_applicable": [],
         "notes": "All checks: python3 check.py <id>; pure standard library; nothing of /repo is executed. See DESIGN.md."}
    for p in PROPS:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                                "technique": p["tech"] or TECH, "level": "other", "level_note": LN + p["note"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")


main()
