"""Writes DESIGN.md from tools/gen.py, the monitors, the known findings and seeded/ (run by hand)."""

import ast
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from gen import PROPS  # noqa: E402


def monitor(pid):
    (path,) = glob.glob(f"{ROOT}/wv/monitors/{pid.lower()}_*.py")
    t = ast.parse(open(path).read())
    out, kinds = {"path": os.path.relpath(path, ROOT)}, []
    for n in t.body:
        if isinstance(n, ast.Assign):
            names = n.targets[0]
            try:
                if isinstance(names, ast.Tuple):
                    for a, v in zip(names.elts, n.value.elts):
                        out[a.id] = ast.literal_eval(v)
                else:
                    out[names.id] = ast.literal_eval(n.value)
            except Exception:
                pass
        if isinstance(n, ast.FunctionDef) and any("R.kind" in ast.unparse(d) for d in n.decorator_list):
            kinds.append((n.name, (ast.get_docstring(n) or "").split("\n")[0]))
    return out, kinds


HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
NOTES = json.load(open(os.path.join(ROOT, "tools", "design_notes.json")))

findings = [line.strip() for line in open(f"{ROOT}/KNOWN_FINDINGS.txt") if line.startswith(("known", "fixed"))]
bugs = []
for m in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    d = json.load(open(m))
    bugs.append((os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"]))

o = [HEAD.rstrip(), "", "## Properties", ""]
for p in PROPS:
    m, kinds = monitor(p["id"])
    o += [f"### {p['id']} {p['title']}", "",
          f"*Specified.* {p['statement']}", "",
          f"*Monitored, and against what.* {m['RULE']}. Deciding method: {p['technique']}.", "",
          f"*Workload kinds* (`{m['path']}`): " + ", ".join(f"`{k}`" for k, _ in kinds) + ".", ""]
    if m.get("ASSUMPTIONS"):
        o += ["*Bounds and assumptions.* " + "; ".join(m["ASSUMPTIONS"]) + ".", ""]
    o += [f"*Cost.* {m['QUICK']} cases per worker quick, {m['THOROUGH']} thorough (8 workers).", "",
          f"*Reach beyond the tests.* Quantified over {p['text']}; {p['why']}.", ""]
    if p["id"] in NOTES:
        o += ["*Notes.* " + NOTES[p["id"]], ""]
    b = [x for x in bugs if x[1] == p["id"]]
    if b:
        o += ["*Planted bugs it catches.* " + "; ".join(f"`{n}` (needs {need})" for n, _, need, _ in b) + ".", ""]
o += ["## Genuine defects found", "", "Known (recorded, reported as KNOWN-FINDING):", ""]
o += ["- " + f[len("known: "):] for f in findings if f.startswith("known")]
o += ["", "Repaired by `fix:` commits (the check reports them again if they return):", ""]
o += ["- " + f[len("fixed: "):] for f in findings if f.startswith("fixed")]
o += ["", "## Planted bugs", "",
      "Each one was confirmed in a scratch copy bound over /repo in a private mount namespace (`tools/plant.sh`): the "
      "patch applies, builds, passes all the stable tests, its demonstration passes without it and fails with it.", "",
      "| change | property, caught by | needs | breaks |", "|---|---|---|---|"]
o += [f"| {n} | {p} | {a} | {b} |" for n, p, a, b in bugs]
o += ["", TAIL.rstrip(), ""]
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(o))
print(len(bugs), "bugs")
