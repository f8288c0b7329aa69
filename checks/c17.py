"""C17: crosscat samples follow the reported density."""
from vp.runner import H
from .slib import (BERN, CAT, STable, is_nan, small_grids, try_)
from .c16 import hook, start

ASSUMPTIONS = ['hyperparameters in [1/16, 16]']


def combos(t, cols):
    out = [()]
    for c in cols:
        out = [k + (x,) for k in out for x in t.cols[c].support]
    return out


def check_law(E, t, outs, T, law, N, label):
    """law: {value tuple: weight}."""
    tab = {}
    for o in outs:
        s = o.value
        if N is not None:
            E.check(isinstance(s, list) and len(s) == N,
                    label + '-number-of-samples')
        else:
            s = [s]
        for d in s:
            E.check(set(d) == set(T), label + '-exactly-the-targets')
        key = tuple(tuple(int(d[c]) for c in T) for d in s)
        tab[key] = tab.get(key, 0) + o.weight
    if N is None or N == 1:
        for k, w in law.items():
            E.check_eq(tab.pop((k,), 0), w, label + '-sample-law')
    else:
        ks = sorted(law)
        for a in ks:
            for b in ks:
                E.check_eq(tab.pop((a, b), 0), law[a] * law[b],
                           label + '-independent-samples')
    for k, w in tab.items():
        E.check_eq(w, 0, label + '-no-other-samples')


def fresh(ncols, n, types, zvs, N=None, paths=('fast', 'composed'),
          missing=(), given=True, most=9):
    def h(E, U):
        small_grids(U)
        t = start(E, ncols, n, types, zvs, missing)
        M = t.M
        path = E.choose('path', list(paths))
        T, C = [], {}
        for c in t.order:
            role = E.choose('role%d' % c, ['t', 'c', '-'] if given
                            else ['t', '-'])
            if role == 't':
                T.append(c)
            elif role == 'c':
                sup = t.cols[c].support
                C[c] = sup[E.choose('v%d' % c, len(sup))]
        if not T or len(T) > most:
            return
        if E.choose('order', 2):
            T = T[::-1]
        row = E.choose('row', [-1, None])

        def run(rng):
            s = t.build(U, rng)
            if path == 'composed':
                hook(U, s, rng=rng)
            return s.simulate(row, list(T), dict(C) or None, N=N)
        law = {k: M.exp(t.logcond(dict(zip(T, k)), C))
               for k in combos(t, T)}
        check_law(E, t, E.enumerate_random(run), T, law, N, path)
    return h


def observed(ncols, n, types, missing, zvs, N=None):
    def h(E, U):
        small_grids(U)
        t = start(E, ncols, n, types, zvs, missing)
        M = t.M
        path = E.choose('path', ['fast', 'composed'])
        r = missing[0][0]
        X = t.X
        T, C = [], {}
        for c in t.order:
            roles = ['t', '-']
            if is_nan(X[c][r]):
                roles.append('c')
            role = E.choose('role%d' % c, roles)
            if role == 't':
                T.append(c)
            elif role == 'c':
                C[c] = 1
        if not T:
            return

        def run(rng):
            s = t.build(U, rng)
            if path == 'composed':
                hook(U, s, rng=rng)
            return s.simulate(r, list(T), dict(C) or None, N=N)
        law = {k: M.exp(t.logrow(r, dict(zip(T, k)))) for k in combos(t, T)}
        check_law(E, t, E.enumerate_random(run), T, law, N, path + '-row')
    return h


def composed(E, U):
    """A hooked child is sampled given its sampled, given or observed
    parent."""
    small_grids(U)
    t = start(E, 2, 2, (BERN, BERN), [{0: 0, 1: 0}, {0: 0, 1: 1}], (),
              [(1, 0), (1, 1)])
    M = t.M
    par = E.choose('parent', [0, 1])
    kind = E.choose('kind', ['joint', 'given-parent', 'child-only',
                             'row', 'all'])
    P = [[.9, .1], [.3, .7]]

    def child(x, y):
        return E.const(repr(P[x][y]))
    row, C = -1, None
    if kind == 'joint':
        T = [100, par]
        law = {(y, x): child(x, y) * M.exp(t.logjoint({par: x}))
               for x in (0, 1) for y in (0, 1)}
    elif kind == 'all':
        T = [0, 100, 1]
        law = {(a, y, b): child([a, b][par], y)
               * M.exp(t.logjoint({0: a, 1: b}))
               for a in (0, 1) for b in (0, 1) for y in (0, 1)}
    elif kind == 'given-parent':
        x = E.choose('x', 2)
        T, C = [100], {par: x}
        law = {(y,): child(x, y) for y in (0, 1)}
    elif kind == 'child-only':
        T = [100]
        law = {(y,): sum(child(x, y) * M.exp(t.logjoint({par: x}))
                         for x in (0, 1)) for y in (0, 1)}
    else:
        row, T = 1, [100]
        law = {(y,): child(t.X[par][1], y) for y in (0, 1)} \
            if not hasattr(t.X[par][1], 'poly') else None
        x1 = t.X[par][1]
        law = {(y,): child(1, y) if x1 == 1 else child(0, y)
               for y in (0, 1)}

    def run(rng):
        s = t.build(U, rng)
        hook(U, s, (par,), rng=rng)
        return s.simulate(row, list(T), C)
    check_law(E, t, E.enumerate_random(run), T, law, None, kind)


def bulk(E, U):
    small_grids(U)
    t = start(E, 1, 2, (BERN,), [{0: 0}])
    M = t.M
    tab = {}
    for o in E.enumerate_random(lambda rng: t.build(U, rng).simulate_bulk(
            [-1, -1], [[0], [0]], None, None, [1, 2])):
        a, b = o.value
        E.check(len(a) == 1 and len(b) == 2, 'bulk-sample-counts')
        k = int(a[0][0])
        tab[k] = tab.get(k, 0) + o.weight
    for x in (0, 1):
        E.check_eq(tab.get(x, 0), M.exp(t.logjoint({0: x})), 'bulk-law')


def zero(E, U):
    small_grids(U)
    t = start(E, 2, 2, (BERN, CAT), [{0: 0, 1: 0}])
    path = E.choose('path', ['fast', 'composed'])
    s = t.build(U)
    if path == 'composed':
        hook(U, s)
    e = try_(lambda: s.simulate(-1, [0], {1: 9}, N=E.choose('N', [None, 2])))
    E.check(isinstance(e, ValueError), 'impossible-condition', repr(e))


MODS = ['crosscat.state', 'crosscat.sampling', 'mixtures.view',
        'mixtures.dim', 'primitives.crp', 'primitives.bernoulli',
        'primitives.categorical', 'network.importance', 'network.helpers',
        'utils.general', 'utils.validation', 'dummy.twoway']


def harnesses():
    zz = [{0: 0, 1: 0}, {0: 0, 1: 1}]
    zzz = [{0: 0, 1: 0, 2: 1}]
    return [
        H('fresh', fresh(2, 2, (BERN, BERN), zz, None, missing=[(0, 0)]),
          modules=MODS, bounds='2 columns in 1 or 2 views, 2 rows, a missing '
          'cell'),
        H('fresh-three', fresh(3, 1, (BERN, BERN, BERN), zzz, None,
                               most=2),
          modules=MODS, bounds='3 columns in 2 views, 1 row'),
        H('fresh-labels', fresh(2, 2, (BERN, CAT), [{0: 7, 1: 3}], None,
                                ('fast',)),
          modules=MODS, bounds='2 columns, view labels 7 and 3'),
        H('many', fresh(2, 2, (BERN, BERN), [{0: 0, 1: 0}], 2, ('fast',),
                        most=1),
          modules=MODS, bounds='2 columns, 2 rows, 2 samples'),
        H('many-joint', fresh(2, 1, (BERN, BERN), zz, 2, ('fast',),
                              given=False),
          modules=MODS, bounds='2 columns, 1 row, 2 samples'),
        H('many-composed', fresh(1, 2, (BERN, BERN), [{0: 0}], 2,
                                 ('composed',), most=1), modules=MODS,
          bounds='1 column, 2 rows, 2 samples'),
        H('observed', observed(2, 2, (BERN, BERN), [(1, 0)], zz),
          modules=MODS, bounds='2 columns, 2 rows, a missing cell'),
        H('observed-many', observed(2, 2, (BERN, BERN), [(1, 0)], zz, 2),
          modules=MODS, bounds='2 columns, 2 rows, a missing cell, 2 samples'),
        H('composed', composed, modules=MODS,
          bounds='2 columns, 2 rows, one hooked child'),
        H('bulk', bulk, modules=MODS, bounds='1 column, 2 rows'),
        H('zero', zero, modules=MODS, bounds='2 columns, 2 rows'),
        H('fresh-wide', fresh(3, 2, (BERN, BERN, BERN), None), modules=MODS,
          tier='thorough', thorough_seconds=1500,
          bounds='3 columns, 2 rows, every partition'),
    ]
