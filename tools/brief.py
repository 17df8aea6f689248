#!/usr/bin/env python3
"""Developer aid: run a check and show only what was not proved."""
import subprocess, sys, json
p = subprocess.run(["python3-vt", "check.py", *sys.argv[1:], "--verbose"], capture_output=True, text=True)
n = 0
cur = ""
for line in p.stdout.splitlines():
    if line.startswith("{"):
        d = json.loads(line)
        if d["status"] not in ("proved", "bounded"):
            print(d["contract"], d["status"], f"{d['discharged']}/{d['obligations']}", "|", " || ".join(w[:220] for w in d.get("why", [])[:4]))
    elif line.startswith("   refuted"):
        n += 1
        if n < 8:
            print(cur[:60], line[:400])
    elif line.startswith("   search"):
        if "'found': None" not in line or "'error': None" not in line:
            n += 1
            if n < 8:
                print(cur[:60], line[:900])
    elif "'wall_s'" in line:
        cur = line
        if "error" in line and n < 4:
            n += 1
            print(line[:100], line[line.rfind("File"):][-600:])
    else:
        print(line[:500])
print(p.stderr[-1500:])
