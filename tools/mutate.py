#!/usr/bin/env python3
"""Development tool: random small changes to a source file, each judged by the
quick checks of the properties the file matters to.  Prints the survivors.

  tools/mutate.py FILE COUNT SEED CHECK[,CHECK...]
"""
import os
import random
import re
import shutil
import subprocess
import sys
import time
from lib2to3 import pygram, pytree, pygram
from lib2to3.pgen2 import driver, token
import lib2to3.pygram

HERE = os.path.dirname(os.path.abspath(__file__))
SKIP_FUNCS = ('plot', 'name', '_progress', '__repr__', 'to_metadata_x',
              'is_numeric', 'plot_dist', 'construct_hyper_grids',
              'estimate_kappa', 'is_continuous')


def parse(src):
    d = driver.Driver(pygram.python_grammar, convert=pytree.convert)
    return d.parse_string(src)


def in_func(n):
    while n.parent is not None:
        n = n.parent
        if n.type == pygram.python_symbols.funcdef:
            return n.children[1].value
    return None


def quiet(n):
    """In an assertion, a message, a default value or progress output."""
    S = pygram.python_symbols
    while n is not None:
        if n.type in (S.assert_stmt, S.raise_stmt, S.print_stmt):
            return True
        if n.type == S.power and '.get' in str(n) and len(str(n)) < 60 and \
                not any(c.type == S.funcdef for c in n.children) and \
                ("hypers.get" in str(n) or "params.get" in str(n)):
            return True
        if n.type == S.simple_stmt:
            t = str(n)
            if '_progress' in t or 'diagnostics' in t:
                return True
        n = n.parent
    return False


def sites(tree):
    S = pygram.python_symbols
    out = []
    swap = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=',
            '!=': '==', '+': '-', '-': '+', '*': '/', '/': '*', 'and': 'or',
            'or': 'and', '+=': '-=', '-=': '+=', 'in': 'not in', '**': '*',
            'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min',
            'sorted': 'list', 'True': 'False', 'False': 'True',
            'union': 'intersection', 'intersection': 'union',
            'append': 'remove', 'sum': 'max', 'break': 'pass',
            'issubset': 'issuperset', 'continue': 'pass'}
    for n in tree.pre_order():
        f = in_func(n)
        if f is None or f in SKIP_FUNCS:
            continue
        if quiet(n):
            continue
        if isinstance(n, pytree.Leaf):
            if n.type == token.STRING:
                continue
            if n.value in swap and n.value != 'in':
                out.append(('leaf', n, swap[n.value]))
            elif n.value == 'in' and n.parent.type == S.comparison:
                out.append(('leaf', n, 'not in'))
            elif n.value == 'not' and n.parent.type == S.not_test:
                out.append(('leaf', n, ''))
            elif n.type == token.NUMBER:
                v = n.value
                out.append(('leaf', n, {'0': '1', '1': '2'}.get(
                    v, '(%s+1)' % v)))
                if v == '1':
                    out.append(('leaf', n, '0'))
        elif n.type == S.simple_stmt:
            c = n.children[0]
            t = str(c).strip()
            if c.type == token.STRING or t.startswith(
                    ('"""', "'''", 'assert', 'import', 'from', 'pass',
                     'print', 'raise NotImpl')):
                continue
            if c.type == S.return_stmt:
                continue
            out.append(('del', n, None))
        elif n.type in (S.if_stmt,):
            out.append(('neg', n.children[1], None))
        elif n.type == S.arglist:
            args = [c for c in n.children if c.type != token.COMMA]
            if len(args) >= 2 and all(
                    a.type != S.argument for a in args[:2]) and \
                    str(args[0]).strip() != str(args[1]).strip():
                out.append(('swap', (args[0], args[1]), None))
            for a in args:
                if a.type == S.argument and '=' in str(a) and \
                        'rng' not in str(a):
                    out.append(('delarg', a, None))
    return out


def apply(src, i):
    tree = parse(src)
    kind, n, v = sites(tree)[i]
    if kind == 'leaf':
        line, f = n.get_lineno(), in_func(n)
        n.value = v
    elif kind == 'del':
        line, f = n.get_lineno(), in_func(n)
        p = n.children[0].prefix
        n.children[0].replace(pytree.Leaf(token.NAME, 'pass', prefix=p))
    elif kind == 'neg':
        line, f = n.get_lineno(), in_func(n)
        n.replace(pytree.Leaf(token.NAME, ' not (%s)' % str(n).strip()))
    elif kind == 'swap':
        a, b = n
        line, f = a.get_lineno(), in_func(a)
        sa, sb = str(a).strip(), str(b).strip()
        pa, pb = a.prefix, b.prefix
        a.replace(pytree.Leaf(token.NAME, sb, prefix=pa))
        b.replace(pytree.Leaf(token.NAME, sa, prefix=pb))
    elif kind == 'delarg':
        line, f = n.get_lineno(), in_func(n)
        p = n.parent
        k = p.children.index(n)
        if k > 0:
            p.children[k - 1].remove()
        elif len(p.children) > 1:
            p.children[1].remove()
        n.remove()
    return kind, line, f, str(tree)


def main():
    rel, count, seed, checks = sys.argv[1:5]
    only = sys.argv[5] if len(sys.argv) > 5 else None
    w = '/tmp/mutate_%s_%d' % (re.sub(r'\W', '_', rel), os.getpid())
    subprocess.check_call(['cp', '-a', '/repo/src', w])
    path = os.path.join(w, rel)
    src = open(path).read()
    n = len(sites(parse(src)))
    order = list(range(n))
    random.Random(int(seed)).shuffle(order)
    done = killed = 0
    import difflib
    for i in order:
        if done >= int(count):
            break
        try:
            kind, line, f, new = apply(src, i)
        except Exception as e:
            continue
        if only and not re.search(only, f or ''):
            continue
        if new == src:
            continue
        try:
            parse(new)
        except Exception:
            continue
        open(path, 'w').write(new)
        done += 1
        t = time.time()
        by, bad = None, []
        for c in checks.split(','):
            c, _, sub = c.partition(':')
            try:
                r = subprocess.run(
                    [os.path.join(HERE, '..', 'bin', 'check'), c, 'quick']
                    + ([sub] if sub else []),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True, timeout=400,
                    env=dict(os.environ, CGPM_SRC=w, VP_FAST='1',
                             VP_EVID='/tmp/mutate_evid_%d' % os.getpid()))
            except subprocess.TimeoutExpired:
                bad.append(c + ':timeout')
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                by = c
                break
            if r.returncode:
                bad.append(c + ':' + r.stdout[-300:])
        if by:
            killed += 1
            print('killed   %s:%s %s %s by %s %.0fs' % (
                rel, line, f, kind, by, time.time() - t), flush=True)
        else:
            d = [l for l in difflib.unified_diff(
                src.splitlines(), new.splitlines(), n=0, lineterm='')
                if not l.startswith(('---', '+++', '@@'))]
            print('SURVIVED %s:%s %s %s %.0fs %s\n    %s' % (
                rel, line, f, kind, time.time() - t, bad,
                '\n    '.join(d)), flush=True)
    print('== %s: %d of %d killed' % (rel, killed, done), flush=True)
    shutil.rmtree(w)


main()
