"""Builds every simulated target once (each check rebuilds when /repo's sources differ)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import targets  # noqa: E402

seen = set()
for p in sorted(targets.T):
    t = targets.T[p]
    t.build()
    seen.add(str(t.cmd()))
print("built", len(seen), "target(s)")
