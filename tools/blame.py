#!/usr/bin/env python3
"""Development tool: do the seeded patches apply, and to original lines?"""
import glob
import os
import re
import subprocess
import sys

BASE = '6cea153'
bad = 0
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    name = d.split('/')[3]
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d],
                       capture_output=True, text=True)
    if r.returncode:
        print(name, 'DOES NOT APPLY')
        bad += 1
        continue
    f, n, own, tot = None, 0, 0, 0
    for line in open(d):
        if line.startswith('--- '):
            f = line[6:].strip()
        elif line.startswith('+++ '):
            pass
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-'):
            b = subprocess.run(
                ['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (n, n),
                 f], capture_output=True, text=True).stdout
            tot += 1
            if not b.startswith('^') and not b.startswith(BASE):
                own += 1
            n += 1
        elif line.startswith('+'):
            pass
        elif f:
            n += 1
    if own or not tot:
        print(name, 'removed', tot, 'own', own)
        bad += 1
print('checked', 'problems:', bad)
