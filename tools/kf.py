#!/usr/bin/env python3
"""development helper: rewrites the 'fixed:' lines of KNOWN_FINDINGS.txt from the fix commits in /repo (message -> property map below)"""
import subprocess, os, sys
here = os.path.dirname(os.path.abspath(__file__))
MAP = [l.rstrip('\n').split('|', 1) for l in open(os.path.join(here, 'fixmap.txt')) if '|' in l]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h|%s', '2fff513..HEAD'], capture_output=True, text=True).stdout.split('\n')
out = []
for l in log:
    if '|' not in l:
        continue
    h, s = l.split('|', 1)
    s = s[5:] if s.startswith('fix: ') else s
    pid = [p for p, m in MAP if s.startswith(m)]
    if not pid:
        print('unmapped', h, s)
        continue
    out.append('fixed: property=%s %s (repaired: %s)' % (pid[0], h, s))
p = os.path.join(os.path.dirname(here), 'KNOWN_FINDINGS.txt')
keep = [l.rstrip('\n') for l in open(p)] if os.path.exists(p) else ['# known findings; "known:" lines are matched by key by mc/core.py, "fixed:" lines suppress nothing']
keep = [l for l in keep if not l.startswith('fixed:')]
open(p, 'w').write('\n'.join(keep + out) + '\n')
