#!/usr/bin/env python3
"""Confirm planted bugs and file them under seeded/:  mkbug.py bugs.py [id ...]

bugs.py defines BUGS = {id: dict(property, needs, what_it_breaks, edits=[(file, old, new)], demo=python text)}.
Each is tried in a scratch copy of /repo: the unedited suite must pass, the demo must pass
without and fail with it.  Then the property's check is run against the copy (VC_SRC).
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
BUGS = ns["BUGS"]
want = [a for a in sys.argv[2:] if not a.startswith("-")] or list(BUGS)
nocheck = "--nocheck" in sys.argv
DEMO = 'PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, t=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout + p.stderr


def prepare(bid):
    b = BUGS[bid]
    w = f"/tmp/w/{bid}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    for f, old, new in b["edits"]:
        p = f"{w}/src/colosseum/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return bid, f"edit matches {s.count(old)} times: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    _, diff = sh("git diff", w)
    d = f"/tmp/w/{bid}.d"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(b["demo"])
    open(f"{d}/demo.sh", "w").write("#!/bin/bash\n" + DEMO)
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    rc, out = sh(f"bash {d}/demo.sh", "/repo")
    if rc:
        return bid, "demo fails on the unchanged tree: " + out[-600:]
    rc, out = sh(f"bash {d}/demo.sh", w)
    if rc == 0:
        return bid, "demo passes with the bug"
    rc, out = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -x", w, env={"PYTHONPATH": f"{w}/src"})
    if rc:
        return bid, "suite fails: " + out[-500:]
    return bid, None


ok = []
with ThreadPoolExecutor(4) as ex:
    for bid, why in ex.map(prepare, want):
        print(bid, why or "confirmed", flush=True)
        if why is None:
            ok.append(bid)
            dst = f"{HERE}/seeded/{bid}"
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(f"/tmp/w/{bid}.d", dst)
if not nocheck:
    for bid in ok:
        p = BUGS[bid]["property"]
        try:
            rc, out = sh(f"python3-vt {HERE}/check.py {p}", "/tmp", env={"VC_SRC": f"/tmp/w/{bid}/src", "VERIF_SEED": "1"})
        except subprocess.TimeoutExpired:
            rc, out = "timeout", ""
        lines = [x for x in out.splitlines() if x.startswith(("VIOLATION", "failed", "failing", "C"))]
        print(bid, p, "rc", rc, "CAUGHT" if rc == 1 else "MISSED", "|", " | ".join(x[:200] for x in lines[:5]), flush=True)
for bid in want:
    shutil.rmtree(f"/tmp/w/{bid}", ignore_errors=True)
    shutil.rmtree(f"/tmp/w/{bid}.d", ignore_errors=True)
