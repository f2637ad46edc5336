#!/usr/bin/env python3
"""Helper: prints 'fixed:' lines (hash + subject) for the fix commits of /repo that known_findings.txt does not list yet."""
import subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try: have = open(os.path.join(H, "known_findings.txt")).read()
except OSError: have = ""
for l in subprocess.check_output(["git", "-C", os.environ.get("VP_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:") and h not in have: print("fixed: property=?? %s %s" % (h, s[5:]))
