"""C02: incorporate and unincorporate are exact inverses, in any order."""
import itertools

from vp.runner import H
from .lib import PRIMS, Mth

ASSUMPTIONS = ['hyperparameters in [1/16, 16]']


def stats_eq(E, a, b, label):
    E.check(sorted(a) == sorted(b), label + '-keys')
    for k in a:
        va, vb = a[k], b[k]
        if isinstance(va, (list, tuple)):
            va, vb = list(va), list(vb)
            if va and isinstance(va[0], (list, tuple)):
                va = [y for x in sorted(va) for y in x]
                vb = [y for x in sorted(vb) for y in x]
            E.check(len(va) == len(vb), label)
            for x, y in zip(va, vb):
                E.check_eq(x, y, label)
        else:
            E.check_eq(va, vb, label)


def same(E, d, ref, x, label):
    stats_eq(E, d.get_suffstats(), ref.get_suffstats(), label + '-statistics')
    E.check_eq(d.logpdf_score(), ref.logpdf_score(), label + '-score')
    E.check_eq(d.logpdf(10 ** 6, {0: x}), ref.logpdf(10 ** 6, {0: x}),
               label + '-density')
    E.check(sorted(d.data) == sorted(ref.data), label + '-rows')
    for r in ref.data:
        E.check_eq(d.data[r], ref.data[r], label + '-stored-value')


def build(p, U, hy, rows):
    d = p.make(U, hypers=dict(hy))
    for r, v in rows:
        d.incorporate(r, {0: v})
    return d


def history(p, n, orders=None, maxrem=None, query=True):
    """Add n rows in some order, remove some in some order, re-add one."""
    def h(E, U):
        hy = p.hypers(E)
        xs = {r: p.datum(E, 'x%d' % r) for r in range(n)}
        x = p.datum(E, 'x') if query else 1
        p.ok(hy, list(xs.values()) + [x], E)
        perms = list(itertools.permutations(range(n)))
        if orders:
            perms = [perms[i] for i in orders]
        order = perms[E.choose('order', len(perms))]
        d = build(p, U, hy, [(r, xs[r]) for r in order])
        held = list(range(n))
        same(E, d, build(p, U, hy, [(r, xs[r]) for r in held]), x, 'order')
        k = E.choose('removals', (n if maxrem is None else maxrem) + 1)
        gone = []
        for i in range(k):
            r = held.pop(E.choose('rm%d' % i, len(held)))
            gone.append(r)
            d.unincorporate(r)
        if p.name == 'vonmises':
            p.ok(hy, [xs[r] for r in held] + [x], E)
        same(E, d, build(p, U, hy, [(r, xs[r]) for r in held]), x, 'removal')
        if gone:
            r = gone[E.choose('readd', len(gone))]
            y = p.datum(E, 'y')
            if p.name == 'vonmises':
                p.ok(hy, [xs[q] for q in held] + [y, x], E)
            d.incorporate(r, {0: y})
            xs = dict(xs)
            xs[r] = y
            held = sorted(held + [r])
            same(E, d, build(p, U, hy, [(q, xs[q]) for q in held]), x,
                 'replacement')
    return h


def rejected(p):
    """Rejected operations raise and leave the model as it was."""
    def h(E, U):
        hy = p.hypers(E)
        n = E.choose('n', 3)
        xs = {r: p.datum(E, 'x%d' % r) for r in range(n)}
        x = p.datum(E, 'x')
        p.ok(hy, list(xs.values()) + [x], E)
        d = build(p, U, hy, sorted(xs.items()))
        ref = build(p, U, hy, sorted(xs.items()))
        ops = ['unknown-row', 'unknown-column', 'missing-column']
        if n:
            ops += ['duplicate-row']
        if p.bad:
            ops += ['bad-value'] * len(p.bad)
        i = E.choose('op', len(ops))
        op = ops[i]
        err = None
        try:
            if op == 'unknown-row':
                d.unincorporate(77)
            elif op == 'duplicate-row':
                d.incorporate(0, {0: x})
            elif op == 'unknown-column':
                d.incorporate(5, {3: x})
            elif op == 'missing-column':
                d.incorporate(5, {})
            else:
                bad = p.bad[i - (len(ops) - len(p.bad))]
                if bad == -1:
                    bad = E.real('neg', -8, '-1/8')
                elif isinstance(bad, float):
                    bad = E.const('%d/8' % int(bad * 8)) if E.symbolic \
                        else bad
                d.incorporate(5, {0: bad})
        except Exception as e:
            err = e
        E.check(err is not None, op + '-raises')
        if op == 'bad-value':
            E.check(isinstance(err, ValueError), 'bad-value-is-ValueError',
                    repr(err))
        same(E, d, ref, x, 'after-' + op)
    return h


def harnesses():
    hs = []
    for p in PRIMS:
        m = ['primitives.' + p.module]
        big = p.name in ('bernoulli', 'categorical', 'crp', 'normal')
        n = 2 if big or p.name in ('lognormal', 'vonmises') else 3
        hs.append(H('history-%s' % p.name, history(p, n), modules=m,
                    seconds=120, paths=20000,
                    bounds='%d rows added in any order, any removals in any '
                    'order, one replacement' % n))
        if big:
            hs.append(H('history3-%s' % p.name,
                        history(p, 3, orders=(0,), maxrem=1,
                                query=p.name == 'normal'), modules=m,
                        seconds=120, paths=20000,
                        bounds='3 rows in order, at most one removal and '
                        'replacement'))
        if n == 2:
            hs.append(H('long-history-%s' % p.name, history(p, 3), modules=m,
                        tier='thorough', thorough_seconds=1500,
                        bounds='3 rows added in any order, any removals in '
                        'any order, one replacement'))
        hs.append(H('rejected-%s' % p.name, rejected(p),
                    modules=['primitives.' + p.module],
                    bounds='up to 2 rows, one rejected operation'))
    return hs
