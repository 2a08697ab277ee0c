#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; the outputs are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
M = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, level_note=None, state=None):
    M.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}), level_note))


exec(open(os.path.join(HERE, "tools/properties.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in M:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for p, note in M:
    i = p["id"]
    if i not in props.PROPS:
        assert any(n["property"] == i for n in NA), i
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": "symbolic execution of the LLVM IR of /repo's code, SMT (z3) deciding branches and assertions; native replay of counterexamples",
                   "level": "model_checking",
                   "level_note": "Decides the property for every input within the bounds: %s. %sTrusts the symbolic executor (its sampled paths are replayed on the native build in every run) and the models of C-backed crates." % (
                       props.PROPS[i]["bounds"], (note + " ") if note else "")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo: the harnesses use the public API only. Each check rebuilds the IR module and the native replayer from /repo's working tree."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
