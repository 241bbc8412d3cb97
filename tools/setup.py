#!/usr/bin/env python3
"""Checks that the tools the checks need are there (every check builds what it needs itself)."""
import glob, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (["java", "-version"], ["javac", "-version"], ["g++", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(f):
        sys.exit("missing " + f)
os.makedirs(H + "/evidence", exist_ok=True)
print("ready:", len(glob.glob(H + "/spec/*.tla")), "modules")
