#!/usr/bin/env python3
"""Development tool: make a planted bug under /verif/seeded from a spec file.

The spec (a Python file) defines BUGS, a list of dicts with keys id, property,
needs, breaks, edits [(file under src, old text, new text)] and demo (Python
source with `U`, the loaded package, in scope; it raises when the bug shows).
The demonstration is run against a scratch copy without and with the edit.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')
HEAD = '''import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from p2.loader import Universe
import numpy as np
from math import *
U = Universe(False, src=os.path.join(os.getcwd(), 'src'))


def close(a, b, tol=1e-8):
    assert abs(a - b) <= tol * (1 + abs(b)), (a, b)


def raises(f, kind=Exception):
    try:
        f()
    except kind:
        return True
    return False


'''
SH = '''#!/bin/sh
# Runs the demonstration against the source tree in the current directory.
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main():
    env = {}
    exec(open(sys.argv[1]).read(), env)
    only = sys.argv[2:]
    for b in env['BUGS']:
        if only and b['id'] not in only:
            continue
        w = '/tmp/plant_%s' % b['id']
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', w])
        out = os.path.join(SEEDED, b['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, 'p2'))
        open(os.path.join(out, 'p2', '__init__.py'), 'w').close()
        for f in ('loader.py', 'py2.py'):
            shutil.copy(os.path.join(HERE, '..', 'vp', f),
                        os.path.join(out, 'p2', f))
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(HEAD + b['demo'].strip() + '\n')
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']}, f, indent=1)
            f.write('\n')
        d = os.path.join(out, 'demo.sh')
        r0 = run(['bash', d], cwd=w)
        for path, old, new in b['edits']:
            p = os.path.join(w, 'src', path)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', '-C', w, 'diff']).stdout
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        r1 = run(['bash', d], cwd=w)
        ok = r0.returncode == 0 and r1.returncode != 0
        print(b['id'], b['property'], 'ok' if ok else 'BAD',
              r0.returncode, r1.returncode,
              r1.stdout.strip().splitlines()[-1:] if ok
              else (r0.stdout[-1500:], r1.stdout[-500:]))
        shutil.rmtree(w)


main()
