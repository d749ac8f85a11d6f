#!/usr/bin/env python3
"""setup_cmd: nothing needs installing; make sure the tools the checks use are there."""
import shutil, sys, os
for t in ("g++", "gcc", "ar"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), d), exist_ok=True)
print("ok")
