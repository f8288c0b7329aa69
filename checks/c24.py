"""C24: mutual information estimates average the right log ratio.

The estimate is a random variable of the random source.  For every outcome of
the source (enumerated with its exact weight) the estimate is a number; its
mean must be the exact (conditional) mutual information or entropy of the
state's own density, and its second moment that of an average of N
independent terms."""
import itertools

from vp.runner import H
from .c16 import hook
from .c23 import Stand
from .elib import engine_of
from .slib import BERN, CAT, STable, small_grids, state_rng, try_

ASSUMPTIONS = ['hyperparameters in [1/16, 16]']


def table(E, U, spec, n=2, zrv=None, types=(BERN,), light=True):
    """A state; spec maps columns to views."""
    small_grids(U)
    zv = dict(enumerate(spec))
    zrv = {v: (zrv or {}).get(v, [0, 3][:n] + [0] * (n - 2))
           for v in sorted(set(spec))}
    t = STable(E, [(c, types[c % len(types)]) for c in sorted(zv)], n, zv,
               zrv, free=())
    if light:
        # hyperparameters of the first column stay symbolic
        for w in t.views.values():
            for c, hy in w.hy.items():
                if c:
                    for j, a in enumerate(sorted(hy)):
                        hy[a] = E.const('1/2') * (1 + c + 2 * j)
        t.views[spec[0]].alpha = E.const(2)
    return t


def values(t, cols):
    return [dict(zip(cols, x)) for x in itertools.product(
        *[t.cols[c].support for c in cols])]


class Law(object):
    """Exact conditional probabilities under the reference table."""

    def __init__(self, t):
        self.t = t
        self.memo = {}

    def p(self, cells):
        k = tuple(sorted(cells.items()))
        if k not in self.memo:
            self.memo[k] = self.t.M.exp(self.t.logjoint(cells)) \
                if cells else 1
        return self.memo[k]

    def cond(self, T, C):
        return self.p({**T, **C}) / self.p(C)

    def term(self, c0, c1, x, C):
        """Log ratio (or minus log density) contributed by one sample."""
        M = self.t.M

        def lp(cols):
            return self.t.logcond({c: x[c] for c in cols}, C)
        if set(c0) == set(c1):
            return -lp(c0)
        return lp(c0 + c1) - lp(c0) - lp(c1)


def moments(t, c0, c1, C, N, T, square=True):
    """Mean and second moment of the estimate."""
    law = Law(t)
    fixed = {c: x for c, x in C.items() if x is not None}
    marg = [c for c, x in C.items() if x is None]
    cols = sorted(set(c0) | set(c1))
    outer = []                      # (weight, mean, second moment) of a round
    for m in values(t, marg):
        K = {**fixed, **m}
        e1 = e2 = 0
        for x in values(t, cols):
            p, v = law.cond(x, K), law.term(c0, c1, x, K)
            e1 = e1 + p * v
            if square:
                e2 = e2 + p * v * v
        w = law.cond(m, fixed) if m else 1
        if square and N > 1:
            e2 = (e2 + (N - 1) * e1 * e1) / N
        outer.append((w, e1, e2))
    m1 = sum(w * a for w, a, b in outer)
    m2 = sum(w * b for w, a, b in outer) if square else None
    if square and T > 1 and marg:
        m2 = (m2 + (T - 1) * m1 * m1) / T
    return m1, m2


def estimate(spec, queries, N=1, T=1, n=2, square=True, types=(BERN,),
             zrv=None, light=True):
    def h(E, U):
        t = table(E, U, spec, n, zrv, types, light)
        c0, c1, C = queries[E.choose('query', len(queries))]

        def run(rng):
            s = t.build(U, rng)
            return s.mutual_information(list(c0), list(c1), dict(C) or None,
                                        T=T, N=N)
        m1 = m2 = w = 0
        for o in E.enumerate_random(run):
            w = w + o.weight
            m1 = m1 + o.weight * o.value
            if square:
                m2 = m2 + o.weight * o.value * o.value
        E.check_eq(w, 1, 'probabilities-sum-to-one')
        a, b = moments(t, list(c0), list(c1), C, N, T, square)
        E.check_eq(m1, a, 'mean-of-the-estimate')
        if square:
            E.check_eq(m2, b, 'second-moment-of-the-estimate')
    return h


def blocks(E, U):
    """Over several views the parts that share a view add up."""
    t = table(E, U, (0, 0, 1, 1), 2, {0: [0, 1], 1: [0, 0]})
    # of the two views only one part is common to both sides
    qs = [((0, 2), (1,), {}), ((0,), (1, 3), {}),
          ((0,), (1,), {2: 1}), ((2, 0), (1,), {3: 0})]
    c0, c1, C = qs[E.choose('query', len(qs))]

    def run(rng):
        return t.build(U, rng).mutual_information(
            list(c0), list(c1), dict(C), T=1, N=1)
    m1 = 0
    for o in E.enumerate_random(run):
        m1 = m1 + o.weight * o.value
    a, _ = moments(t, [0], [1], {}, 1, 1, False)
    E.check_eq(m1, a, 'only-the-common-view-contributes')


def two_blocks(E, U):
    t = table(E, U, (0, 1), 2, {0: [0, 1], 1: [0, 0]})

    def run(rng):
        return t.build(U, rng).mutual_information([0, 1], [1, 0], T=1, N=1)
    m1 = 0
    for o in E.enumerate_random(run):
        m1 = m1 + o.weight * o.value
    a = moments(t, [0], [0], {}, 1, 1, False)[0]
    b = moments(t, [1], [1], {}, 1, 1, False)[0]
    E.check_eq(m1, a + b, 'entropies-of-independent-parts-add-up')


def independent(E, U):
    """Zero, exactly, when the two sides share no part of the model."""
    spec = [(0, 1, 1), (0, 0, 1), (0, 1, 2), (3, 1, 3)][E.choose('zv', 4)]
    t = table(E, U, spec, 2)
    rng = state_rng(E)
    s = t.build(U, rng)
    path = E.choose('path', ['plain', 'child', 'apart', 'collider'])
    if path == 'child':
        hook(U, s, inputs=(0,), rng=rng)
    elif path == 'apart':
        s.compose_cgpm(Stand([77], []))
    sides = [(a, b) for a in t.order for b in t.order
             if spec[a] != spec[b]]
    a, b = sides[E.choose('pair', len(sides))]
    if path == 'collider':
        # now in one connected network, but still independent
        hook(U, s, inputs=(min(a, b),), rng=rng)
        s.compose_cgpm(Stand([77], [a, b]))
    C = {}
    rest = [c for c in t.order if c not in (a, b)]
    k = E.choose('given', ['nothing', 'value', 'marginal'])
    if k != 'nothing':
        if path == 'collider':
            return
        C = {rest[0]: 1 if k == 'value' else None}
    E.check_eq(s.mutual_information([a], [b], C, T=1, N=1), 0,
               'zero-for-independent-columns')


def malformed(E, U):
    t = table(E, U, (0, 0, 1), 2)
    s = t.build(U, state_rng(E))
    bad = [([0], [1], {0: 1}), ([0], [1], {1: None}), ([0], [0], {0: 1}),
           ([0, 1], [1], {}), ([0], [0, 1], {}), ([0, 2], [2, 1], {}),
           ([0, 1], [0, 2], {1: 1})]
    a, b, C = bad[E.choose('bad', len(bad))]
    e = try_(lambda: s.mutual_information(a, b, C, T=1, N=1))
    E.check(isinstance(e, ValueError), 'overlapping-columns-rejected')
    t.audit(s, 'after')


def ensemble(E, U):
    """One estimate per state, in order."""
    small_grids(U)
    ts = [table(E, U, spec, 2, {0: z, 1: [0, 0]}) for spec, z in (
        ((0, 0), [0, 1]), ((0, 1), [0, 0]), ((0, 0), [0, 0]))]
    for t, k in zip(ts, (1, 2, 3)):
        for w in t.views.values():
            w.alpha = E.const(k)
            for hy in w.hy.values():
                for a in hy:
                    hy[a] = E.const(k) / 2
    sel = E.choose('states', [[0], [2, 1], [1, 0]])

    def run(rng):
        e = engine_of(U, ts, rng)
        return e.mutual_information([0], [1], None, T=1, N=1, statenos=sel,
                                    multiprocess=0)
    got = [0] * len(sel)
    for o in E.enumerate_random(run):
        E.check(len(o.value) == len(sel), 'one-estimate-per-state')
        for i, x in enumerate(o.value):
            got[i] = got[i] + o.weight * x
    for g, i in zip(got, sel):
        want = moments(ts[i], [0], [1], {}, 1, 1, False)[0]
        E.check_eq(g, want, 'estimate-of-that-state')


def unchanged(E, U):
    """A query leaves the state as it was."""
    t = table(E, U, (0, 0, 0), 2)
    s = t.build(U, state_rng(E))
    C = [{}, {2: 1}, {2: None}][E.choose('given', 3)]
    C0 = dict(C)
    c0, c1 = [0], [1]
    s.mutual_information(c0, c1, C, T=1, N=1)
    E.check(C == C0 and c0 == [0] and c1 == [1], 'arguments-unchanged')
    t.audit(s, 'after')


MODS = ['crosscat.state', 'crosscat.engine', 'mixtures.view',
        'network.helpers', 'crosscat.sampling', 'utils.general']


def harnesses():
    def mk(name, fn, bounds, **k):
        return H(name, fn, modules=MODS, bounds=bounds, **k)
    pair = [((0,), (1,), {}), ((1,), (0,), {}), ((0,), (0,), {}),
            ((0, 1), (1, 0), {})]
    given = [((0,), (1,), {2: 1}), ((0,), (0,), {1: 0}),
             ((1,), (2,), {0: 1})]
    marg = [((0,), (1,), {2: None}), ((1,), (1,), {0: None})]
    both = [((0,), (1,), {2: None, 3: 1}), ((1,), (1,), {2: 0, 0: None})]
    multi = [((0, 2), (1,), {}), ((0,), (2, 1), {}), ((0, 2), (2, 0), {1: 1})]
    wide = [((0,), (1, 2), {3: 1}), ((2, 0), (3,), {1: 0}),
            ((3,), (1, 0), {2: None})]
    return [
        mk('pair', estimate((0, 0), pair), '2 columns, N=1'),
        mk('pair-two-samples', estimate((0, 0), pair[:1], N=2),
           '2 columns, N=2'),
        mk('entropy-two-samples', estimate((0, 0), [((0,), (0,), {})], N=2),
           '1 column, N=2'),
        mk('given', estimate((0, 0, 0), given), '3 columns, N=1'),
        mk('marginal', estimate((0, 0, 0), marg), '3 columns, T=N=1'),
        mk('marginal-and-given', estimate((0, 0, 0, 0), both, square=False),
           '4 columns, T=N=1'),
        mk('marginal-two-rounds', estimate(
            (0, 0), [((1,), (1,), {0: None})], T=2, n=1),
           '2 columns, T=2, N=1'),
        mk('several-columns', estimate((0, 0, 0), multi, square=False),
           '3 columns'),
        mk('several-columns-given', estimate(
            (0, 0, 0, 0), wide, square=False, n=1), '4 columns, 1 row'),
        mk('categorical', estimate((0, 0), pair[:1], types=(CAT, BERN)),
           'a categorical column'),
        mk('blocks', blocks, '2 views of 2 columns'),
        mk('two-blocks', two_blocks, '2 views'),
        mk('independent', independent, '3 columns, 4 column partitions'),
        mk('malformed', malformed, '3 columns'),
        mk('ensemble', ensemble, '3 states'),
        mk('unchanged', unchanged, '3 columns'),
        mk('two-rounds-deep', estimate(
            (0, 0, 0), marg[:1], T=2, N=1, square=False), 'T=2',
           tier='thorough', thorough_seconds=1500),
        mk('three-samples', estimate((0, 0), pair[:1], N=3, n=1,
                                     square=True), 'N=3',
           tier='thorough', thorough_seconds=1500),
    ]
