#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development aid; the results are committed)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, level_note=None, technique=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, hook=hook, note=level_note, technique=technique))

OPS = "spec/lang/step/operators.md"; ST = "spec/lang/step/statements.md"; TE = "spec/lang/step/terminators.md"; EX = "spec/lang/step/expressions.md"
IN = "spec/lang/step/intrinsics.md"; RE = "spec/lang/representation.md"; TY = "spec/lang/types.md"; VA = "spec/lang/values.md"; MA = "spec/lang/machine.md"; WF = "spec/lang/well-formed.md"
BA = "spec/mem/basic.md"; CO = "spec/mem/concurrent.md"; IF = "spec/mem/interface.md"; PC = "spec/mem/intptrcast.md"; PT = "spec/mem/pointer.md"; LO = "spec/lang/step/locks.md"
TB = "spec/mem/tree_borrows"
PROG = ("programs", "inputs")
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = list(p["observe"])
        a["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": list(p["over"]), "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
DEF_TECH = "runtime monitoring: online trace oracle (independent reference semantics) over generated programs, with choice probing"
DEF_NOTE = "Every monitored execution of the real machine agreed with the reference step by step (outcome, output, choices offered, final memory). Exploration: trusts the reference in /verif/harness/src/rf, the transpiler and the instrumented libspecr."
m = {"version": 1, "setup_cmd": "./check build", "checks": [], "not_applicable": NA,
     "notes": "No hook in /repo is needed: the specification is generic over its memory and over libspecr, both of which /verif/harness supplies instrumented. Every check transpiles /repo/spec when it changed and rebuilds the harness against /repo's working tree."}
na = {x["property"] for x in NA}
for p in P:
    if p["id"] in na: continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough", "technique": p["technique"] or DEF_TECH, "level": "exploration", "level_note": p["note"] or DEF_NOTE})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
for p in P:
    for f in p["files"]: assert os.path.exists("/repo/" + f), f
