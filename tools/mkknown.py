#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of /verif/KNOWN_FINDINGS from tools/fixes.txt and
the fix: commits of /repo, matching by subject."""
import os, subprocess

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
commits = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log if " fix: " in l}
path = os.path.join(HERE, "KNOWN_FINDINGS")
keep = []
if os.path.exists(path):
    keep = [l for l in open(path).read().splitlines() if not l.startswith("fixed: ")]
fixed, used = [], set()
for l in open(os.path.join(HERE, "tools", "fixes.txt")):
    l = l.strip()
    if not l:
        continue
    props, subject, what = l.split(" | ")
    if subject not in commits:
        raise SystemExit("no commit: " + subject)
    used.add(subject)
    for p in props.split(","):
        fixed.append("fixed: property=%s %s %s" % (p, commits[subject], what))
for s in commits:
    if s not in used:
        print("not recorded:", s)
open(path, "w").write("\n".join(keep + fixed) + "\n")
