"""mkseed.py SPEC.py [ids]: write /verif/seeded/<id>/ from a spec (edits + demo)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
SH = '''#!/bin/bash
# exit 0 when the property holds for this scenario, 1 when it does not
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 250 python3-vt "$here/demo.py"
'''
HEAD = '''# -*- coding: utf-8 -*-
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "env"))
import demostub as D
import numpy as np
'''
for b in spec["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = "/verif/seeded/" + b["id"]
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    wt = "/tmp/seedwt"
    if os.path.exists(wt):
        shutil.rmtree(wt)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        if n != 1:
            sys.exit("%s: %d matches in %s of %r" % (b["id"], n, f, old))
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt, "diff"])
    open(d + "/patch.diff", "wb").write(diff)
    shutil.copytree(os.path.join(HERE, "env"), d + "/env", ignore=shutil.ignore_patterns("__pycache__"))
    open(d + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
    ok = r0.returncode == 0 and r1.returncode != 0
    print("%-28s %s clean=%d patched=%d %s" % (b["id"], "ok" if ok else "BAD", r0.returncode, r1.returncode,
          (r1.stdout + r1.stderr).strip().splitlines()[-1:] if ok else (r0.stdout + r0.stderr)[-1500:] + r1.stdout[-300:]+r1.stderr[-600:]))
    shutil.rmtree(wt)
    shutil.rmtree(d + "/env/__pycache__", ignore_errors=True)
