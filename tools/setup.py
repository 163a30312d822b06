#!/usr/bin/env python3
"""Builds what the checks need: the crates of /repo, as rustc will use them; fails when a tool is missing."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

common.libs()
w = common.Work("setup")
try:
    out = w.path("scope.json")
    common.tlc(w, "SmallScope.tla", env={"SCOPE": "onelit", "OUT": out})
    assert os.path.getsize(out) > 1000
finally:
    w.close()
print("ready")
