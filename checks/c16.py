"""C16: crosscat densities obey probability calculus across views."""
from vp.runner import H
from .slib import (BERN, CAT, EXPO, NAN, POIS, STable, is_nan,
                   partition_choice, small_grids, try_)

ASSUMPTIONS = ['hyperparameters in [1/16, 16]']


def start(E, ncols, n, types, zvs=None, missing=(), free=()):
    cols = [(c, types[c % len(types)]) for c in range(ncols)]
    if zvs is None:
        z = partition_choice(E, ncols, 'v', kmax=ncols)
        zv = {c: z[c] for c in range(ncols)}
    else:
        zv = E.choose('zv', zvs)
    zrv = {}
    for i, v in enumerate(sorted(set(zv.values()))):
        lab = [(0, 3), (0, 1), (4, 1)][i % 3]
        zrv[v] = [lab[0]] + [lab[E.choose('z%d_%d' % (v, r), 2)]
                             for r in range(1, n)]
    return STable(E, cols, n, zv, zrv, missing, free=free)


def hook(U, s, inputs=(0,), out=100, rng=None):
    """Attach a child model, so that queries take the composed path."""
    T = U['dummy.twoway'].TwoWay
    return s.compose_cgpm(T(outputs=[out], inputs=list(inputs),
                            rng=rng))


def split(E, t, cols):
    T, C = {}, {}
    for c in cols:
        role = E.choose('role%d' % c, ['t', 'c', '-'])
        if role != '-':
            (T if role == 't' else C)[c] = t.cols[c].datum(E, 'q%d' % c)
    return T, C


def fresh(ncols, n, types, zvs=None, missing=()):
    def h(E, U):
        small_grids(U)
        t = start(E, ncols, n, types, zvs, missing)
        s = t.build(U)
        composed = E.choose('path', ['fast', 'composed'])
        if composed == 'composed':
            hook(U, s)
        T, C = split(E, t, t.order)
        if not T:
            return
        row = E.choose('row', [-1, n, None])
        E.check_eq(s.logpdf(row, dict(T), dict(C) or None),
                   t.logcond(T, C), composed + '-density')
    return h


def observed(ncols, n, types, missing, zvs=None):
    def h(E, U):
        small_grids(U)
        t = start(E, ncols, n, types, zvs, missing)
        s = t.build(U)
        composed = E.choose('path', ['fast', 'composed'])
        if composed == 'composed':
            hook(U, s)
        r = missing[0][0]
        X = t.X
        T, C = split(E, t, [c for c in t.order if is_nan(X[c][r])])
        # restating an observed cell is allowed and changes nothing
        seen = [c for c in t.order if not is_nan(X[c][r])]
        if seen and E.choose('restate', 2):
            C[seen[0]] = X[seen[0]][r]
        if not T:
            return
        E.check_eq(s.logpdf(r, dict(T), dict(C) or None),
                   t.logrow(r, T), composed + '-observed-row-density')
    return h


def composed(n, zvs, missing=()):
    """A child model hooked to a column."""
    def h(E, U):
        small_grids(U)
        M = None
        t = start(E, 2, n, (BERN, BERN), zvs, missing, [(1, 0), (1, 1)])
        s = t.build(U)
        M = t.M
        par = E.choose('parent', [0, 1])
        tok = hook(U, s, (par,))
        P = s.hooked_cgpms[tok].probabilities
        y = E.choose('y', 2)

        def child(x):
            return M.log(E.const(repr(P[x][y])))
        q = {c: E.choose('q%d' % c, 2) for c in (0, 1)}
        oth = 1 - par
        kind = E.choose('kind', ['joint', 'child-given-parent',
                                 'parent-given-child', 'other-given-both',
                                 'joint-all', 'row'])
        if kind == 'joint':
            E.check_eq(s.logpdf(-1, {100: y, par: q[par]}),
                       child(q[par]) + t.logjoint({par: q[par]}), kind)
        elif kind == 'joint-all':
            E.check_eq(s.logpdf(-1, {100: y, 0: q[0], 1: q[1]}),
                       child(q[par]) + t.logjoint(q), kind)
        elif kind == 'child-given-parent':
            E.check_eq(s.logpdf(-1, {100: y}, {par: q[par]}),
                       child(q[par]), kind)
        elif kind == 'parent-given-child':
            E.check_eq(s.logpdf(-1, {100: y, oth: q[oth]}, {par: q[par]}),
                       child(q[par]) + t.logcond({oth: q[oth]},
                                                 {par: q[par]}), kind)
        elif kind == 'other-given-both':
            E.check_eq(s.logpdf(-1, {oth: q[oth]}, {par: q[par], 100: y}),
                       t.logcond({oth: q[oth]}, {par: q[par]}), kind)
        else:
            # an existing row supplies the input of the child
            x = t.X[par][1]

            acc = 1 + E.choose('acc', 2)

            def run(rng):
                s = t.build(U, rng)
                hook(U, s, (par,))
                return s.logpdf(1, {100: y}, accuracy=acc)
            for o in E.enumerate_random(run):
                E.check_eq(o.value, child(x), 'observed-parent-used')
    return h


def zero(E, U):
    """Impossible conditions are reported; impossible targets are -inf."""
    small_grids(U)
    t = start(E, 2, 2, (BERN, CAT), [{0: 0, 1: 0}, {0: 0, 1: 1}])
    s = t.build(U)
    if E.choose('path', ['fast', 'composed']) == 'composed':
        hook(U, s)
    v = s.logpdf(-1, {0: 5})
    E.check(v == -float('inf'), 'impossible-target')
    v = s.logpdf(-1, {0: 5, 1: 1})
    E.check(v == -float('inf'), 'impossible-joint')
    e = try_(lambda: s.logpdf(-1, {0: 1}, {1: 9}))
    if t.zv[0] == t.zv[1]:
        E.check(isinstance(e, ValueError), 'impossible-condition', repr(e))


def bulk(E, U):
    """The bulk entry point answers the same queries one by one."""
    small_grids(U)
    t = start(E, 2, 2, (BERN, CAT), [{0: 0, 1: 0}, {0: 0, 1: 1}])
    s = t.build(U)
    a, b = E.choose('a', 2), E.choose('b', 3)
    out = s.logpdf_bulk([-1, -1, -1], [{0: a}, {1: b}, {0: a}],
                        [{}, {0: a}, {1: b}])
    want = [t.logcond({0: a}, {}), t.logcond({1: b}, {0: a}),
            t.logcond({0: a}, {1: b})]
    E.check(len(out) == 3, 'bulk-length')
    for o, w in zip(out, want):
        E.check_eq(o, w, 'bulk-density')
    out = s.logpdf_bulk([-1], [{0: a}])
    E.check_eq(out[0], t.logcond({0: a}, {}), 'bulk-density-default')
    E.check(isinstance(try_(lambda: s.logpdf_bulk([-1, -1], [{0: a}])),
                       AssertionError), 'bulk-lengths-agree')


def score(E, U):
    """The score is the column process plus the view scores."""
    small_grids(U)
    t = start(E, 3, 2, (BERN, CAT, BERN), None, [(0, 0)])
    s = t.build(U)
    t.audit(s, 'built', True)
    lik = 0
    for v in t.views.values():
        for c in v.cols:
            lik = lik + v.col_score(c)
    E.check_eq(s.logpdf_likelihood(), lik, 'likelihood')


def conditional(where):
    def h(E, U):
        """A state built with a conditional column queries it through its
        inputs, within each cluster, wherever the column stands."""
        small_grids(U)
        S = U['crosscat.state'].State
        import numpy as np
        from .lib import Mth
        M = Mth(E)
        order = {'last': [0, 1], 'first': [1, 0], 'between': [0, 1, 2],
                 'apart': [0, 1, 2]}[where]
        Y = [E.real('y0', -2, 2), E.real('y1', -2, 2)]
        cells = {0: [1, 0], 1: Y, 2: [0, 1]}
        A = np.empty((2, len(order)), dtype=object)
        for j, c in enumerate(order):
            A[:, j] = cells[c]
        z1 = E.choose('z1', 2)
        half, three = E.const('1/2'), E.const('3/2')
        zv = {c: 0 for c in order}
        if where == 'apart':
            zv[2] = 4
        s = S(A, outputs=order,
              cctypes=[['categorical', 'linear_regression', 'bernoulli'][c]
                       for c in order],
              hypers=[[{'alpha': half}, {}, {'alpha': half, 'beta': half}][c]
                      for c in order],
              distargs=[[{'k': 2},
                         {'inputs': {'stattypes': ['categorical'],
                                     'statargs': [{'k': 2}], 'indexes': [0]}},
                         None][c] for c in order],
              Zv=zv, Zrv={v: [0, z1] for v in set(zv.values())},
              alpha=E.const(1),
              view_alphas={v: three for v in set(zv.values())})
        w = s.views[0]
        zid = w.outputs[0]
        x = E.choose('x', 2)
        y = E.real('y', -2, 2)
        ks = sorted(w.Nk()) + [max(w.Nk()) + 1]

        def lx(k):
            return w.dims[0].logpdf(-1, {0: x}, None, {zid: k})

        def ly(k):
            return w.dims[1].logpdf(-1, {1: y}, None, {zid: k, 0: x})

        def lz(k):
            n = w.Nk().get(k, 0)
            return M.log((n if n else three) / (2 + three))
        num = M.logsumexp([lz(k) + lx(k) + ly(k) for k in ks])
        den = M.logsumexp([lz(k) + lx(k) for k in ks])

        def agree(tag):
            E.check(s.is_composite(), 'composed' + tag)
            E.check_eq(s.logpdf(-1, {0: x, 1: y}), num,
                       'joint-with-conditional' + tag)
            E.check_eq(s.logpdf(-1, {1: y}, {0: x}), num - den,
                       'conditional-given-input' + tag)
        agree('')
        if where == 'apart':
            # columns coming and going leave it as it is
            s.incorporate_dim([1, 1], [7], cctype='bernoulli', v=4)
            agree('-with-a-new-column')
            s.unincorporate_dim(7)
            agree('-without-it')
    return h


MODS = ['crosscat.state', 'crosscat.sampling', 'mixtures.view',
        'mixtures.dim', 'primitives.crp', 'primitives.bernoulli',
        'primitives.categorical', 'network.importance', 'network.helpers',
        'utils.general', 'utils.validation', 'dummy.twoway']


def harnesses():
    zz = [{0: 0, 1: 0}, {0: 0, 1: 1}]
    zzz = [{0: 0, 1: 0, 2: 1}, {0: 0, 1: 1, 2: 0}]
    return [
        H('fresh', fresh(2, 2, (BERN, BERN), zz, [(0, 0)]), modules=MODS,
          bounds='2 columns in 1 or 2 views, 2 rows, one missing cell'),
        H('fresh-three', fresh(3, 1, (BERN, BERN, BERN), zzz), modules=MODS,
          bounds='3 columns in 2 views, 1 row'),
        H('fresh-labels', fresh(2, 2, (BERN, CAT), [{0: 7, 1: 3}]),
          modules=MODS, bounds='2 columns, 2 rows, view labels 7 and 3'),
        H('fresh-exponential', fresh(2, 2, (EXPO, BERN), [{0: 0, 1: 0}]),
          modules=MODS + ['primitives.exponential'],
          bounds='2 columns, 2 rows, real data'),
        H('observed', observed(3, 2, (BERN, BERN, BERN), [(1, 0), (1, 2)],
                               zzz), modules=MODS,
          bounds='3 columns in 2 views, 2 rows, two missing cells'),
        H('composed', composed(2, zz), modules=MODS,
          bounds='2 columns, 2 rows, one hooked child'),
    ] + [
        H('conditional' + ('' if k == 'last' else '-' + k), conditional(k),
          modules=MODS + ['regressions.linreg'],
          bounds='2 rows, a binary column and a regression on it, the '
          'regression column ' + k)
        for k in ('last', 'first', 'between', 'apart')
    ] + [
        H('zero', zero, modules=MODS, bounds='2 columns, 2 rows'),
        H('bulk', bulk, modules=MODS, bounds='2 columns, 2 rows'),
        H('score', score, modules=MODS, bounds='3 columns, 2 rows'),
        H('fresh-wide', fresh(3, 2, (BERN, CAT, BERN)), modules=MODS,
          tier='thorough', thorough_seconds=1500,
          bounds='3 columns, 2 rows, every partition'),
    ]
