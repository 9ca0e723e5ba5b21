#!/usr/bin/env python3
"""Builds every library variant and harness from /repo's current tree (checks do this themselves when needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import check, checks
stages = [st for c in checks.CHECKS.values() for st in c["stages"]]
with ThreadPoolExecutor(4) as ex:
    def one(st):
        try: check.prepare(st)
        except (Exception, SystemExit) as e: print("not built:", st.harness, e) # the check itself will say more
    for _ in ex.map(one, stages): pass
print("built", len(stages), "stages")
