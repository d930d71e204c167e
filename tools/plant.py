#!/usr/bin/env python3
"""plant.py ID FILE  : FILE is a python file defining PROPERTY, EDITS=[(path, old, new[, count])], NEEDS, BREAKS, DEMO.
Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}.  Uses a scratch worktree of /repo."""
import json, os, shutil, subprocess, sys, tempfile

bid, src = sys.argv[1:3]
ns = {}
exec(open(src).read(), ns)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", bid)
os.makedirs(out, exist_ok=True)
w = tempfile.mkdtemp(prefix="plant")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
try:
    for e in ns["EDITS"]:
        p = os.path.join(w, "r", e[0])
        s = open(p).read()
        n = s.count(e[1])
        nth = e[3] if len(e) > 3 else None
        if nth is None:
            assert n == 1, "%s: %d occurrences of %r" % (e[0], n, e[1])
            s = s.replace(e[1], e[2])
        else:
            parts = s.split(e[1])
            assert len(parts) > nth + 1, n
            s = e[1].join(parts[:nth + 1]) + e[2] + e[1].join(parts[nth + 1:])
        open(p, "w").write(s)
    d = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    open(out + "/patch.diff", "w").write(d)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
    shutil.rmtree(w, ignore_errors=True)
open(out + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
open(out + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository; exit 0 when the property holds\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
    'export PYTHONPATH="%s" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$here/demo.py"\n' % ns.get("PATHS", "$PWD/src"))
os.chmod(out + "/demo.sh", 0o755)
json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
