"""Rewrite the fixed: lines of known_findings.txt from the fix: commits of /repo (run by hand after a fix)."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(HERE, "known_findings.txt")
old = open(fn).read().splitlines()
prop = {}
for l in old:
    if l.startswith("fixed:"):
        w = l.split()
        prop[w[2]] = w[1]
import sys
for a in sys.argv[1:]:
    h, p = a.split("=")
    prop[h] = "property=" + p
out = [l for l in old if not l.startswith("fixed:")]
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse", "e5fdb3a..HEAD"], universal_newlines=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        out.append("fixed: %s %s did not hold before: %s" % (prop.get(h, "property=???"), h, s[4:].strip()))
open(fn, "w").write("\n".join(out) + "\n")
