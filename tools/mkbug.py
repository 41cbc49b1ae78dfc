"""mkbug(id, property, edits, needs, breaks, demo): writes seeded/<id>/ (patch against /repo's tree)."""
import json, os, subprocess, tempfile, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
. /opt/vp/env.sh
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def mkbug(id, prop, edits, needs, breaks, demo):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open(f"/repo/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        with tempfile.NamedTemporaryFile("w", suffix=".py") as t:
            t.write(s)
            t.flush()
            r = subprocess.run(["git", "diff", "--no-index", "--no-color", f"/repo/{f}", t.name], capture_output=True, text=True).stdout
            lines = r.splitlines(keepends=True)
            body = "".join(l for l in lines[lines.index(next(l for l in lines if l.startswith("@@"))):])
            diff += f"diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n{body}"
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.sh", "w").write(HEAD)
    open(f"{d}/demo.py", "w").write(textwrap.dedent(demo).lstrip())
