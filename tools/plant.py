#!/usr/bin/env python3
"""Write and confirm a planted bug.  plant.py SPEC.py [ids...]
SPEC.py defines SEEDS: list of dict(id, property, file, edits=[(old,new)], needs, breaks, demo).
For each: makes /verif/seeded/<id>/, and runs the demonstration on /repo (must pass) and on a patched scratch copy (must fail)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\n# run with cwd = the repository\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
def run(d, cwd):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if sys.argv[2:] and s["id"] not in sys.argv[2:]: continue
    d = os.path.join(VERIF, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant"); r = os.path.join(w, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        for f, edits in ([(s["file"], s["edits"])] if "file" in s else s["files"]):
            p = os.path.join(r, f); src = open(p).read()
            for a, b in edits:
                assert src.count(a) == 1, (s["id"], src.count(a), a)
                src = src.replace(a, b)
            open(p, "w").write(src)
        diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        a, b = run(d, "/repo"), run(d, r)
        print(s["id"], s["property"], "clean rc", a.returncode, "patched rc", b.returncode, "OK" if a.returncode == 0 and b.returncode != 0 else "BAD")
        if a.returncode: print(a.stdout[-500:], a.stderr[-1500:])
        print("   ", (b.stderr.strip().splitlines() or ["-"])[-1][:200])
    finally: shutil.rmtree(w)
