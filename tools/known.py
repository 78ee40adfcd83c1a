#!/usr/bin/env python3
"""Rewrites the 'fixed:' part of known_findings.txt from /repo's fix commits (map subject -> property)."""
import subprocess, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.fixmap import prop_of
log = subprocess.run("git -C /repo log --reverse --format='%h\t%s' c9fe1ea..HEAD", shell=True, text=True,
                     stdout=subprocess.PIPE).stdout
path = os.path.join(HERE, 'known_findings.txt')
keep = [l for l in open(path)] if os.path.exists(path) else []
keep = [l for l in keep if not l.startswith('fixed:')]
out = []
for line in log.strip().splitlines():
  h, s = line.split('\t', 1)
  if s.startswith('fix:'):
    out.append(f"fixed: property={prop_of(s[4:].strip())} {h} {s[4:].strip()}\n")
if not keep:
  keep = ["# Known findings and repaired defects.\n",
          "# finding:<TAB>property=..<TAB>rule=..<TAB>construct=..<TAB>detail=.. :: what fails   (suppresses exactly that)\n",
          "# fixed: property=<id> <commit in /repo> <what failed>                         (suppresses nothing)\n"]
open(path, 'w').writelines(keep + out)
print(len(out), 'fixed')
