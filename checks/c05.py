"""C05: hyperparameter transitions sample the exact grid conditional."""
import itertools

from vp.runner import H
from .lib import PRIMS, BYNAME, Mth

ASSUMPTIONS = ['hyperparameters and grid points in [1/16, 16] (von Mises mean '
               'direction in [1/16, 6])',
               'grids of two points per hyperparameter']


def marginal(p, M, h, clusters):
    t = 0
    for xs in clusters:
        for i, x in enumerate(xs):
            t = t + p.predictive(M, h, xs[:i], x)
    return t


def setup(E, p, nmax):
    n = 1 + E.choose('n', nmax)
    z = [0]
    for i in range(1, n):
        z.append(E.choose('z%d' % i, min(2, max(z) + 2)))
    xs = [p.datum(E, 'x%d' % i) for i in range(n)]
    cl = [[x for x, k in zip(xs, z) if k == c] for c in range(max(z) + 1)]
    return n, z, xs, cl


def make(U, p, hy, z, xs, rng, grids):
    D = U['mixtures.dim'].Dim
    d = D([0], [9], cctype=p.name, hypers=dict(hy), distargs=p.distargs,
          rng=rng)
    for i, (k, x) in enumerate(zip(z, xs)):
        d.incorporate(i, {0: x}, {9: k})
    d.hyper_grids = {k: list(g) for k, g in grids.items()}
    return d


def consistent(E, p, M, d, hy, cl, x):
    """Everything the column reports is that of hypers hy."""
    for k in hy:
        E.check_eq(d.hypers[k], hy[k], 'reported-hypers')
    for k in d.clusters:
        g = d.clusters[k].get_hypers()
        for a in hy:
            E.check_eq(g[a], hy[a], 'cluster-hypers')
    E.check_eq(d.logpdf_score(), marginal(p, M, hy, cl), 'score-after')
    E.check_eq(d.logpdf(-1, {0: x}, None, {9: 0}),
               p.predictive(M, hy, cl[0], x), 'density-in-old-cluster')
    E.check_eq(d.logpdf(-1, {0: x}, None, {9: 77}),
               p.predictive(M, hy, [], x), 'density-in-new-cluster')
    d.incorporate(50, {0: x}, {9: 77})
    E.check_eq(d.logpdf_score(), marginal(p, M, hy, cl + [[x]]),
               'score-with-new-cluster')


def applied(E, p, M, d, hy, x):
    """The hypers reached the column, its clusters and later clusters."""
    for k in hy:
        E.check_eq(d.hypers[k], hy[k], 'reported-hypers')
    for c in d.clusters:
        g = d.clusters[c].get_hypers()
        for a in hy:
            E.check_eq(g[a], hy[a], 'cluster-hypers')
    E.check_eq(d.logpdf(-1, {0: x}, None, {9: 77}),
               p.predictive(M, hy, [], x), 'density-in-new-cluster')


def single(p, which, nmax):
    """One hyperparameter has a grid of two points, the others one point."""
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        alt = p.hypers(E, 'g')
        n, z, xs, cl = setup(E, p, nmax)
        x = p.datum(E, 'x')
        p.ok(hy, xs + [x], E)
        ga = dict(hy)
        ga[which] = alt[which]
        p.ok(ga, xs + [x], E)
        if p.name == 'vonmises':
            for hh in (hy, ga):
                for c in cl:
                    p.ok(hh, c + [x], E)
                p.ok(hh, [x], E)
        grids = {k: [hy[k]] for k in hy}
        grids[which] = [hy[which], alt[which]]
        outs = E.enumerate_random(lambda rng: trans(
            make(U, p, hy, z, xs, rng, grids)))
        L = [marginal(p, M, hh, cl) for hh in (hy, ga)]
        E.check(len(outs) == 2, 'one-random-choice', repr(len(outs)))
        w = {}
        for o in outs:
            v = o.value.hypers[which]
            w[o.script[0]] = o.weight
            E.check_eq(v, grids[which][o.script[0]], 'chosen-grid-point')
            applied(E, p, M, o.value, [hy, ga][o.script[0]], x)
        E.check_eq(w[0] + w[1], 1, 'probabilities-sum-to-one')
        E.check_eq(M.log(w[0]) - M.log(w[1]), L[0] - L[1],
                   'grid-conditional')
    return h


def trans(d):
    d.transition_hypers()
    return d


def sweep(p, hypers, nmax):
    """Two hyperparameters with grids of two points: the law of the pair is a
    sequence of two exact redraws in either order."""
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        alt = p.hypers(E, 'g')
        n, z, xs, cl = setup(E, p, nmax)
        a, b = hypers
        grids = {k: [hy[k]] for k in hy}
        grids[a] = [hy[a], alt[a]]
        grids[b] = [hy[b], alt[b]]

        def score(i, j):
            hh = dict(hy)
            hh[a] = grids[a][i]
            hh[b] = grids[b][j]
            return M.exp(marginal(p, M, hh, cl))
        s = {(i, j): score(i, j) for i in (0, 1) for j in (0, 1)}
        order = E.choose('order', 2)
        outs = E.enumerate_random(
            lambda rng: trans(make(U, p, hy, z, xs, rng, grids)),
            perm='identity' if order == 0 else 'reverse')
        E.check(len(outs) == 4, 'two-random-choices')
        # which hyperparameter was redrawn first
        ab = None
        for o in outs:
            i, j = o.script
            if i != j:
                ab = o.value.hypers[a] is grids[a][i]
        got = {}
        for o in outs:
            i, j = o.script if ab else o.script[::-1]
            E.check_eq(o.value.hypers[a], grids[a][i], 'chosen-grid-point')
            E.check_eq(o.value.hypers[b], grids[b][j], 'chosen-grid-point')
            got[i, j] = o.weight
        # order a then b: P(i) = s(i, 0)/sum, P(j|i) = s(i,j)/sum_j
        def law(first_a, i, j):
            if first_a:
                return (s[i, 0] / (s[0, 0] + s[1, 0]) *
                        s[i, j] / (s[i, 0] + s[i, 1]))
            return (s[0, j] / (s[0, 0] + s[0, 1]) *
                    s[i, j] / (s[0, j] + s[1, j]))
        for i in (0, 1):
            for j in (0, 1):
                E.check_eq(got[i, j], law(ab, i, j), 'sequential-redraw')
    return h


def grids(p, nmax):
    """Constructed grids: valid, and instantiated hypers come from them."""
    def h(E, U):
        # (von Mises: the concentration estimate is a numeric Newton iteration
        # for two or more values)
        n = 1 + E.choose('n', nmax if p.name != 'vonmises' else 1)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        G = 2 + E.choose('G', 2)
        D = U['mixtures.dim'].Dim
        nan = float('nan')
        X = xs + [nan] if p.name != 'crp' else xs
        outs = E.enumerate_random(lambda rng: built(D, p, rng, X, G))
        names = set(p.make(U).get_hypers())
        for o in outs[:6]:
            d = o.value
            E.check(set(d.hyper_grids) == names, 'grid-per-hyper')
            E.check(set(d.hypers) == names, 'hypers-instantiated')
            for k, g in d.hyper_grids.items():
                g = list(g)
                E.check(1 <= len(g) <= G, 'grid-size')
                for v in g:
                    if k != 'm':
                        E.check(v > 0, 'grid-positive')
                    if p.name == 'vonmises' and k == 'b':
                        E.check(v <= E.const('6.2832'), 'grid-in-circle')
                ok = False
                for v in g:
                    if E.equal(d.hypers[k], v):
                        ok = True
                        break
                E.check(ok, 'hyper-from-grid')
        # existing hypers are kept
        hy = p.hypers(E)
        d = D([0], [9], cctype=p.name, hypers=dict(hy), distargs=p.distargs)
        d.transition_hyper_grids(X, n_grid=G)
        for k in hy:
            E.check_eq(d.hypers[k], hy[k], 'given-hypers-kept')
    return h


def built(D, p, rng, X, G):
    d = D([0], [9], cctype=p.name, distargs=p.distargs, rng=rng)
    d.transition_hyper_grids(X, n_grid=G)
    return d


def forced(p):
    """Setting a column's hypers reaches existing and later clusters."""
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        new = p.hypers(E, 'g')
        n, z, xs, cl = setup(E, p, 2)
        x = p.datum(E, 'x')
        if p.name == 'vonmises':
            for hh in (hy, new):
                for c in cl:
                    p.ok(hh, c + [x], E)
                p.ok(hh, [x], E)
        d = make(U, p, hy, z, xs, None, {})
        d.set_hypers(dict(new))
        consistent(E, p, M, d, new, cl, x)
    return h


def apart(p):
    """Two columns given the same hypers do not share them."""
    def h(E, U):
        M = Mth(E)
        hy, new = p.hypers(E), p.hypers(E, 'g')
        n, z, xs, cl = setup(E, p, 1)
        x = p.datum(E, 'x')
        given = dict(new)

        def run(rng):
            ds = [make(U, p, hy, z, xs, rng, {k: [hy[k]] for k in hy})
                  for _ in range(2)]
            for d in ds:
                d.set_hypers(given)
            ds[0].transition_hypers()
            return ds
        for o in E.enumerate_random(run):
            a, b = o.value
            consistent(E, p, M, a, hy, cl, x)
            consistent(E, p, M, b, new, cl, x)
            E.check(set(given) == set(new), 'given-hypers-kept')
            for k in new:
                E.check_eq(given[k], new[k], 'given-hypers-kept')
    return h


def alone(p, which):
    """A distribution used on its own redraws its hyperparameters alike,
    from grids made from its own data, once per sweep."""
    def h(E, U):
        M = Mth(E)
        hy, alt = p.hypers(E), p.hypers(E, 'g')
        xs = [p.datum(E, 'x%d' % i) for i in range(1 + E.choose('n', 2))]
        x = p.datum(E, 'x')
        ga = dict(hy)
        ga[which] = alt[which]
        for hh in (hy, ga):
            p.ok(hh, xs + [x], E)
            p.ok(hh, xs, E)
        N = E.choose('N', [None, 1, 2])
        seen = []

        def grid(X, n_grid=30):
            seen.append(list(X))
            return {k: [hy[k], ga[k]] if k == which else [hy[k]] for k in hy}

        def run(rng):
            C = getattr(U['primitives.' + p.module], p.cls)
            C.construct_hyper_grids = staticmethod(grid)
            m = p.make(U, hypers=dict(hy), rng=rng)
            for i, v in enumerate(xs):
                m.incorporate(i, {0: v})
            if N is None:
                m.transition_hypers()
            else:
                m.transition_hypers(N=N)
            return m
        outs = E.enumerate_random(run)
        for X in seen:
            E.check(len(X) == len(xs), 'grid-from-own-data')
            for a, b in zip(X, xs):
                E.check_eq(a, b, 'grid-from-own-data')
        E.check(len(outs) == 2 ** (N or 1), 'one-random-choice-per-sweep')
        L = [marginal(p, M, hh, [xs]) for hh in (hy, ga)]
        w = [0, 0]
        for o in outs:
            i = o.script[-1]
            w[i] = w[i] + o.weight
            now = [hy, ga][i]
            for k, v in o.value.get_hypers().items():
                E.check_eq(v, now[k], 'chosen-grid-point')
        E.check_eq(w[0] + w[1], 1, 'probabilities-sum-to-one')
        E.check_eq(M.log(w[0]) - M.log(w[1]), L[0] - L[1], 'grid-conditional')
        E.check_eq(outs[0].value.logpdf(-1, {0: x}),
                   p.predictive(M, [hy, ga][outs[0].script[-1]], xs, x),
                   'density-after')
    return h


def harnesses():
    hs = []
    for p in PRIMS:
        m = ['mixtures.dim', 'primitives.' + p.module]
        n = 2
        for k in p.hyper_names:
            hs.append(H('redraw-%s-%s' % (p.name, k), single(p, k, n),
                        modules=m, seconds=120,
                        bounds='up to %d rows in up to 2 clusters, grid of 2 '
                        'points' % n))
        hs.append(H('forced-%s' % p.name, forced(p), modules=m,
                    bounds='up to 2 rows in up to 2 clusters'))
        hs.append(H('grids-%s' % p.name, grids(p, 3), modules=m,
                    bounds='up to 3 values and a missing one, 2 or 3 grid '
                    'points'))
    for name, k in (('bernoulli', 'beta'), ('categorical', 'alpha'),
                    ('normal', 'nu'), ('poisson', 'a'), ('crp', 'alpha'),
                    ('geometric', 'b'), ('exponential', 'a')):
        p = BYNAME[name]
        hs.append(H('alone-%s-%s' % (name, k), alone(p, k),
                    modules=['mixtures.dim', 'primitives.distribution',
                             'primitives.' + p.module],
                    bounds='up to 2 rows, up to 2 sweeps, grid of 2 points'))
    for name in ('bernoulli', 'categorical', 'poisson'):
        hs.append(H('apart-%s' % name, apart(BYNAME[name]),
                    modules=['mixtures.dim', 'primitives.' + name],
                    bounds='2 columns of one row, grid of 1 point'))
    for name, pair in (('poisson', ('a', 'b')),
                       ('exponential', ('a', 'b')), ('geometric', ('a', 'b'))):
        hs.append(H('sweep-%s' % name, sweep(BYNAME[name], pair, 2),
                    modules=['mixtures.dim', 'primitives.' + name],
                    bounds='up to 2 rows, 2x2 grid'))
    return hs
