#!/usr/bin/env python3
"""Development tool: run the check of each planted bug against a scratch copy
of the sources with that bug, and report which are caught."""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')


def one(i):
    meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    w = '/tmp/hunt_%s' % i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    subprocess.check_call(
        ['git', '-C', w, 'apply',
         os.path.abspath(os.path.join(SEEDED, i, 'patch.diff'))])
    t = time.time()
    r = subprocess.run(
        [os.path.join(HERE, '..', 'bin', 'check'), meta['property'], 'quick'],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        env=dict(os.environ, CGPM_SRC=w + '/src', VP_EVID='/tmp/hunt_evidence'))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    shutil.rmtree(w)
    return '%-28s %s %-6s exit %d %5.0fs %s' % (
        i, meta['property'], 'CAUGHT' if r.returncode == 1 and v else 'missed',
        r.returncode, time.time() - t, v[0][-60:] if v else '')


def main():
    ids = sorted(d for d in os.listdir(SEEDED)
                 if os.path.isdir(os.path.join(SEEDED, d)))
    if sys.argv[1:]:
        ids = [i for i in ids if any(a in i for a in sys.argv[1:])]
    with ThreadPoolExecutor(1) as ex:
        for line in ex.map(one, ids):
            print(line, flush=True)


main()
