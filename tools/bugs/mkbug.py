#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugs.py (patch made against /repo's HEAD in a scratch worktree)."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
out = os.path.join(os.path.dirname(os.path.dirname(here)), "seeded")
want = sys.argv[1:]
for id, b in BUGS.items():
    if want and id not in want: continue
    d = os.path.join(out, id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(t, f); s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.c"), "w").write('#include "plc.h"\n' + b["demo"].lstrip("\n"))
    shutil.copy(os.path.join(here, "plc.h"), d); shutil.copy(os.path.join(here, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("wrote", id)
