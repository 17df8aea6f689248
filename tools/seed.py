#!/usr/bin/env python3
"""Developer aid: makes and confirms planted bugs (never used by a check).

usage: seed.py FILE [id...]   FILE defines BUGS = [dict(id, property, needs, breaks, file, old, new, demo)]
Each bug is applied to a scratch copy of /repo, the stable tests and the demonstration are run with
and without it, and /verif/seeded/<id>/ is written when everything is confirmed."""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(repo):
    """Names of the stable tests that do not pass in a scratch copy."""
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA", "tests"], cwd=repo, env=dict(os.environ, PYTHONPATH=repo), stdin=subprocess.DEVNULL)
    passed = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("PASSED")}
    key = lambda s: s.split("::")[-1].split(".")[-1]
    have = {key(p) for p in passed}
    return [s for s in stable if key(s) not in have]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in bugs:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="seed_")
        repo = os.path.join(tmp, "repo")
        try:
            sh(["cp", "-a", "/repo", repo])
            sh(["find", repo, "-name", "__pycache__", "-prune", "-exec", "rm", "-rf", "{}", "+"])
            d = os.path.join(tmp, "demo")
            os.mkdir(d)
            open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py" </dev/null\n')
            clean = sh(["bash", d + "/demo.sh"], cwd=repo)
            edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
            bad = None
            for f, old, new in edits:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"text found {s.count(old)} times: {old!r}"
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "NOT APPLIED", bad)
                continue
            diff = sh(["git", "diff"], cwd=repo).stdout
            # changed lines must be the original repository's
            fixed = []
            for f, old, new in edits:
                blame = sh(["git", "blame", "-s", "HEAD", "--", f], cwd=repo).stdout.splitlines()
                orig = {l.split(")", 1)[1][1:] for l in blame if l.startswith("^")}
                for l in diff.splitlines():
                    if l.startswith("-") and not l.startswith("---") and l[1:] not in orig and l[1:].strip():
                        fixed.append(l)
            dirty = sh(["bash", d + "/demo.sh"], cwd=repo)
            t = tests(repo)
            ok = clean.returncode == 0 and dirty.returncode != 0 and not t
            print(b["id"], "ok" if ok else "REJECTED", f"clean={clean.returncode} dirty={dirty.returncode} tests={t}", "not original: %s" % fixed if fixed else "")
            if clean.returncode:
                print(clean.stderr[-600:])
            if ok:
                out = os.path.join(HERE, "seeded", b["id"])
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(d, out)
                os.chmod(out + "/demo.sh", 0o755)
                open(out + "/patch.diff", "w").write(diff)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
