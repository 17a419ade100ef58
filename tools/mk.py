#!/usr/bin/env python3
"""mk.py ID PROPERTY NEEDS BREAKS < 'file<<<old>>>new' edits; writes seeded/ID/patch.diff + meta.json.  Dev helper."""
import json, os, shutil, subprocess, sys, tempfile
id_, prop, needs, breaks = sys.argv[1:5]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", id_)
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
subprocess.check_call(["git", "-C", os.environ.get("SRC", "/repo"), "worktree", "add", "-q", "--detach", w + "/r"])
try:
    ns = {}
    edits = []
    exec(sys.stdin.read(), {"sub": lambda f, a, b, n=1: edits.append((f, a, b, n))})
    for f, a, b, n in edits:
        p = os.path.join(w, "r", f)
        s = open(p, encoding="latin-1").read()
        if s.count(a) != n:
            sys.exit("%s: %d occurrences of %r" % (f, s.count(a), a))
        open(p, "w", encoding="latin-1").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy(os.path.join(V, "tools", "demolib.py"), d + "/demolib.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
finally:
    subprocess.call(["git", "-C", os.environ.get("SRC", "/repo"), "worktree", "remove", "--force", w + "/r"])
    shutil.rmtree(w, ignore_errors=True)
