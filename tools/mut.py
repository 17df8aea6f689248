#!/usr/bin/env python3
"""Developer aid: runs the check of each planted bug against a scratch copy that has it.

usage: mut.py [--all] [id...]     --all: every check, not only that of the bug's property"""

import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
for d in sorted(glob.glob(HERE + "/seeded/*")):
    i = os.path.basename(d)
    if args and i not in args:
        continue
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"])
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr[:200])
            continue
        props = [meta["property"]]
        if "--all" in sys.argv:
            props = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(HERE + "/props/c[0-9][0-9].py"))
        for p in props:
            t = time.time()
            r = subprocess.run(["python3-vt", "check.py", p], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            kind = "missed" if r.returncode == 0 else "no-input" if v and v[0].endswith("no-failing-input-found") else "caught" if v else f"exit {r.returncode} {r.stderr[-300:]}"
            if len(props) == 1 or kind != "missed":
                print(i, p, kind, f"{time.time() - t:.0f}s", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
