#!/opt/venv/bin/python
"""Writes BOUNDS.md: every harness with its tier and stated bounds."""
import glob
import importlib
import os
import sys
import warnings

warnings.simplefilter('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
out = ['# Bounds of every harness', '',
       'Written by `tools/bounds.py` from the checks themselves.  q = quick, '
       't = thorough only.', '']
for f in sorted(glob.glob(os.path.join(ROOT, 'checks', 'c[0-9]*.py'))):
    n = os.path.basename(f)[:-3]
    m = importlib.import_module('checks.' + n)
    out += ['## %s' % n.upper(), '']
    b = {}
    for h in m.harnesses():
        b.setdefault((h.tier[0], h.bounds), []).append(h.name)
    for (t, x), v in b.items():
        out.append('- %s: %s — `%s`' % (t, x, '`, `'.join(v)))
    out += ['', 'Assumptions:'] + [
        '- ' + a for a in getattr(m, 'ASSUMPTIONS', [])] + ['']
open(os.path.join(ROOT, 'BOUNDS.md'), 'w').write('\n'.join(out))
