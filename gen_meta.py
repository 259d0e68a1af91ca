#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development aid; both are committed)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, note=None, claim=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], hook=hook, note=note, claim=claim, na=na))
M = lambda *a: [dict(name=n, where=w) for n, w in a]
exec(open(os.path.join(D, "props.py")).read())
with open(D + "/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=q["mech"], observe_at=q["observe"], hook_needed=q["hook"]))) + "\n")
HOOK = "a7cbad74b0a1f3"
import subprocess
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
man = dict(version=1, setup_cmd="bash build_harness.sh",
    hooks=dict(guard="cfg(perception_verif)", enable='RUSTFLAGS="--cfg perception_verif" (set by check.py and build_harness.sh when they build the harness crate)', source_commits=HOOK),
    checks=[dict(property=q["id"], quick_cmd="python3 check.py " + q["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + q["id"],
        technique="symbolic execution of the compiled LLVM IR with an SMT solver (z3), counterexamples replayed natively",
        level="model_checking", level_note=q["note"]) for q in P if q["claim"]],
    not_applicable=[dict(property=q["id"], reason=q["na"]) for q in P if not q["claim"]],
    notes="DESIGN.md describes engine, harnesses and bounds; known_findings.json lists repaired and recorded defects.")
json.dump(man, open(D + "/MANIFEST.json", "w"), indent=1)
