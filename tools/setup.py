#!/usr/bin/env python3
"""Checks that the tools are there and that every module of the specification parses."""
import subprocess, sys, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec"))
cp = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))
for f in sorted(glob.glob("*.tla")):
    p = subprocess.run(["java", "-cp", cp, "tla2sany.SANY", f], capture_output=True, text=True)
    if p.returncode or "*** Errors" in p.stdout:
        sys.exit("%s does not parse:\n%s" % (f, p.stdout))
subprocess.run(["clang++", "--version"], check=True, stdout=subprocess.DEVNULL)
print("ready")
