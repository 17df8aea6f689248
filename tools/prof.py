#!/usr/bin/env python3-vt
"""Developer aid: profile one contract case in this process:  prof.py C14 roundtrip 0"""
import cProfile
import os
import pstats
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402
from pyvc import harness as H  # noqa: E402

mod, cs = check.load(sys.argv[1])
c = [c for c in cs if c.name == sys.argv[2]][0]
case = c.cases[int(sys.argv[3])]
pr = cProfile.Profile()
r = pr.runcall(H.prove_contract, c, case, c.budget)
print({k: v for k, v in r.items() if k not in ("refuted",)} if len(str(r)) < 3000 else str(r)[:3000])
pstats.Stats(pr).sort_stats("tottime").print_stats(18)
pstats.Stats(pr).sort_stats("cumtime").print_stats(40)
