"""Writes DESIGN.md: hand-written parts (below and tools/design_notes.md) plus, per property, what its check declares.
Run: python3 tools/gen_design.py (after a quick sweep, so that evidence/ exists)."""
import ast
import glob
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import HERE, P  # noqa: E402

NOTES = open(os.path.join(HERE, "tools", "design_notes.md")).read()


def declared(path):
    """RULE, ASSUME, REQUIRE of a check, without importing it."""
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("RULE", "ASSUME", "REQUIRE"):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                out[node.targets[0].id] = ast.unparse(node.value)
    return out


def section(p):
    r, id = p["rec"], p["rec"]["id"]
    d = declared(os.path.join(HERE, "rv", "checks", id.lower() + ".py"))
    ev = os.path.join(HERE, "evidence", id + ".json")
    cost = ""
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        if e["tier"] == "quick":
            cost = f" A quick run: {c['evaluations']} executions, {c['oracle_assertions']} assertions, {len(c['robpy_functions_reached'])} functions of robpy entered, about {max(1, round(e['wall_s']))} s on 8 cores."
    L = [f"### {id} {r['title']}", "", r["statement"], "",
         f"*Decided by* {p['technique']}.", "",
         f"*Workload and oracle.* {d['RULE']}.{cost}", "",
         f"*Why tests do not settle it.* {r['why_tests_cant']}", ""]
    if d.get("ASSUME"):
        a = d["ASSUME"]
        L += ["*Bounds and assumptions.* " + ("; ".join(a) if isinstance(a, list) else a) + ".", ""]
    if d.get("REQUIRE"):
        q = d["REQUIRE"]
        L += ["*Must have been observed, or the run gives no answer.* " + (", ".join(f"{k} ≥ {v}" for k, v in q.items()) if isinstance(q, dict) else q) + ".", ""]
    return "\n".join(L)


def matrix():
    rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
    path = os.path.join(HERE, "tools", "caught.json")
    got = json.load(open(path)) if os.path.exists(path) else {}
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        i = os.path.basename(os.path.dirname(m))
        rows.append(f"| {i} | {d['property']} | {d['needs']} | {got.get(i, 'not run')} |".replace("\n", " "))
    return "\n".join(rows)


def findings():
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith(("finding:", "fixed:")):
            out.append("- " + line.strip())
    return "\n".join(out)


text = NOTES.replace("@PROPERTIES@", "\n".join(section(p) for p in P)).replace("@MATRIX@", matrix()).replace("@FINDINGS@", findings()).replace("@COUNT@", str(len(P)))
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
print(len(text.splitlines()), "lines")
