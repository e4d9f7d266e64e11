#!/usr/bin/env python3
"""Checks that the tools are there and that the specification parses.

Nothing is built ahead: every check compiles the driver from the tree under
test."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run

with run.Work() as work:
    for f in sorted(os.listdir(run.SPEC)):
        if not f.endswith(".tla"):
            continue
        p = subprocess.run(["java", "-cp", run.JARS, "-Djava.io.tmpdir=" + work.dir, "tla2sany.SANY", f],
                           cwd=run.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or "*** Errors" in p.stdout:
            sys.exit("%s does not parse:\n%s" % (f, p.stdout[-2000:]))
        print("parsed", f)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
