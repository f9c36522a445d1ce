#!/usr/bin/env python3
"""Builds every program the checks need once, to show that the framework builds offline."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    done = set()
    for pid, spec in sorted(B.PROPS.items()):
        key = repr(sorted((k, repr(v)) for k, v in spec.items() if k in ("bin", "race", "repo_cmds", "drivers")))
        if key in done:
            continue
        done.add(key)
        B.prepare(spec, os.path.join(d, pid))
        print("built for", pid)
finally:
    shutil.rmtree(d, ignore_errors=True)
