#!/usr/bin/env python3
"""mkseed.py FILE: writes seeded/<id>/ from python descriptions: seed(id, property, needs, breaks, [(file, old, new)], demo)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def seed(id, prop, needs, breaks, edits, demo, lib=True, extra=None):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = f"{w}/r/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    if lib:
        shutil.copy(V + "/tools/cedlib.py", d + "/cedlib.py")
        open(d + "/demo.py", "w").write("from cedlib import *\n" + demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    else:
        open(d + "/demo.sh", "w").write(demo.lstrip("\n"))
    for n, c in (extra or {}).items():
        open(f"{d}/{n}", "w").write(c)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)

exec(open(sys.argv[1]).read())
