"""C29: nearest-neighbour queries use exactly the K nearest rows.

References: squared Euclidean distances on the documented coding (one
indicator per category but the last), the K nearest complete rows (ties at the
boundary broken uniformly), around each the M nearest in all the variables of
the query, and the uniform mixture of the product models of the localities."""
import copy
import itertools
import types

import numpy as np

from vp.runner import H
from .c20 import same
from .c27 import pick
from .lib import Mth
from .vlib import try_

ASSUMPTIONS = ['values in [-2, 2]',
               'scikit-learn KDTree returns the nearest rows in order of '
               'distance (library contract); rows equidistant from the '
               'centre of a locality at its boundary are left out']
NAN = float('nan')
NUM, CAT, CAT2 = ('numerical', None), ('categorical', 3), ('nominal', 2)
IDS = [6, 2, 9]


class Tree(object):
    """Exhaustive search.  Distances are squared: only their order counts."""

    def __init__(self, X, *a, **k):
        self.X = [list(r) for r in X]

    def query(self, Q, k=1, **_):
        ds, ix = [], []
        for q in Q:
            d = [sum(((a - b) * (a - b) for a, b in zip(x, q)), 0)
                 for x in self.X]
            o = sorted(range(len(d)), key=lambda i: d[i])[:k]
            ds.append([d[i] for i in o])
            ix.append(o)
        D = np.empty((len(ds), k), dtype=object)
        for i, r in enumerate(ds):
            for j, v in enumerate(r):
                D[i, j] = v
        return D, np.array(ix, dtype=int).reshape(len(ix), k)


def sk(symbolic):
    m, n = types.ModuleType('sklearn'), types.ModuleType('sklearn.neighbors')
    m.neighbors = n
    n.KDTree = Tree
    return {'sklearn': m, 'sklearn.neighbors': n}


class Skip(Exception):
    pass


class Knn(object):
    def __init__(self, E, kinds, K, M=None):
        self.E, self.Mt, self.kinds = E, Mth(E), kinds
        self.ids, self.K, self.M = IDS[:len(kinds)], K, M
        self.rows = {}

    def kind(self, o):
        return self.kinds[self.ids.index(o)]

    def distargs(self):
        return {'outputs': {
            'stattypes': [k[0] for k in self.kinds],
            'statargs': [{} if k[1] is None else {'k': k[1]}
                         for k in self.kinds]}}

    def build(self, U, rng=None, data=True):
        # decided path by path, not as an opaque maximum
        U['knn.mvknn'].max = max
        m = U['knn.mvknn'].MultivariateKnn(
            list(self.ids), [], K=self.K, M=self.M,
            distargs=self.distargs(), rng=rng)
        if data:
            for r, x in self.rows.items():
                m.incorporate(r, dict(x))
        return m

    def cell(self, name, o, fixed=None):
        E, (_, k) = self.E, self.kind(o)
        if k is None:
            return E.real(name, -2, 2) if fixed is None \
                else E.const(fixed) + 0
        return E.choose(name, k) if fixed is None else int(fixed) % k

    def fill(self, n, missing=(), free=(), only=None):
        """n rows; free: the cells that are symbolic (numerical ones only in
        the columns listed); missing: may be absent."""
        for j, r in enumerate([4, 0, 7, 5][:n]):
            x = {}
            for i, o in enumerate(self.ids):
                if (j, i) in missing and self.E.choose(
                        'miss%d_%d' % (j, i), 2):
                    continue
                f = [['1/2', -1, 1, '3/2'], [1, 0, '-1/4', '1/3'],
                     ['-3/2', '1/4', 2, 0]][i][j]
                if self.kind(o)[1] is not None:
                    f = j + i
                x[o] = self.cell('x%d_%d' % (r, o), o,
                                 None if (j, i) in free and (
                                     only is None or o in only or
                                     self.kind(o)[1]) else f)
            if x:
                self.rows[r] = x

    # ---- reference
    def code(self, o, v):
        k = self.kind(o)[1]
        if k is None:
            return [v]
        return [int(v == i) for i in range(k - 1)]

    def dist(self, a, b, vs):
        return sum(((x - y) * (x - y) for o in vs for x, y in zip(
            self.code(o, a[o]), self.code(o, b[o]))), 0)

    def neighbourhoods(self, t, c):
        """Every set of K nearest rows (more than one only on ties), each a
        list of localities."""
        vs = list(t) + list(c)
        D = [x for x in self.rows.values() if all(o in x for o in vs)]
        if len(D) < self.K:
            return None
        d = [self.dist(x, c, list(c)) for x in D]
        o = sorted(range(len(D)), key=lambda i: d[i])
        rad = d[o[self.K - 1]]
        near = [i for i in o if d[i] < rad]
        ties = [i for i in o if not (d[i] < rad) and not (rad < d[i])]
        sets = [near + list(s) for s in itertools.combinations(
            ties, self.K - len(near))]
        M = self.K if self.M is None else self.M
        loc = {}
        for i in set(itertools.chain(*sets)):
            e = [self.dist(x, D[i], vs) for x in D]
            q = sorted(range(len(D)), key=lambda j: e[j])
            if M < len(q) and not (e[q[M - 1]] < e[q[M]]):
                raise Skip()
            loc[i] = [D[j] for j in q[:M]]
        return [[loc[i] for i in s] for s in sets]

    def local(self, rows, o, x):
        """Density of x under the univariate model of the locality."""
        Mt, k, n = self.Mt, self.kind(o)[1], len(rows)
        if k is not None:
            return self.E.const(sum(int(r[o] == x) for r in rows)) / n
        mu = sum(r[o] for r in rows) / self.E.const(n)
        var = sum((r[o] - mu) * (r[o] - mu) for r in rows) / self.E.const(n)
        sd = Mt.sqrt(var) if n > 1 else 0
        least = self.E.const('1/100')
        sd = sd if sd > least else least
        return Mt.exp(-(x - mu) * (x - mu) / (2 * sd * sd)) / (
            sd * Mt.sqrt(2 * Mt.pi))

    def pdf(self, sets, t):
        """(mean, mean square) over ties of the mixture density."""
        a = b = 0
        for s in sets:
            p = sum(prod(self.local(l, o, x) for o, x in t.items())
                    for l in s) / self.E.const(len(s))
            a, b = a + p, b + p * p
        return a / self.E.const(len(sets)), b / self.E.const(len(sets))


def prod(xs):
    t = 1
    for x in xs:
        t = t * x
    return t


def assignment(f, vs, tag, free=()):
    return {o: f.cell('%s%d' % (tag, o), o, None if o in free or
                      f.kind(o)[1] is not None else '1/4') for o in vs}


def refer(f, t, c):
    try:
        return f.neighbourhoods(t, c)
    except Skip:
        return 'skip'


def density(kinds, K, M, n, nt, nc, missing=(), free=(), qfree=(),
            spread=False):
    def h(E, U):
        f = Knn(E, kinds, K, M)
        t, c = pick(E, f.ids, nt, nc)
        f.fill(n, missing, free, t if spread else c)
        t, c = assignment(f, t, 'q', qfree), assignment(f, c, 'q', qfree)
        sets = refer(f, t, c)
        if sets == 'skip':
            return

        row = [None, -1][E.choose('row', 2)]

        def run(rng):
            m = f.build(U, rng)
            try:
                return m.logpdf(row, dict(t), dict(c))
            except ValueError:
                return None
        outs = E.enumerate_random(run)
        if sets is None:
            E.check(all(o.value is None for o in outs),
                    'too-few-complete-rows-rejected')
            return
        a, b = f.pdf(sets, t)
        E.check(all(o.value is not None for o in outs), 'answers')
        ps = [0 if o.value == float('-inf') else f.Mt.exp(o.value)
              for o in outs]
        E.check_eq(sum(o.weight * p for o, p in zip(outs, ps)), a,
                   'uniform-mixture-of-localities')
        if len(sets) > 1:
            E.check_eq(sum(o.weight * p * p for o, p in zip(outs, ps)), b,
                       'ties-broken-uniformly')
    return h


def tight(E, U):
    """A locality of nearly equal values has the least spread, a wider one
    its own."""
    f = Knn(E, [NUM, CAT2], 2, 2)
    a, b = f.ids
    x = E.const('1/2')
    gap = E.const(E.choose('gap', ['0', '1/1000', '1/100', '1/64', '1/40',
                                   '1/10']))
    f.rows = {4: {a: x, b: 0}, 0: {a: x + gap, b: 0}}
    t = {a: x + E.const(E.choose('off', ['0', '1/50']))}
    m = f.build(U)
    got = m.logpdf(None, dict(t), {b: E.choose('c', 2)})
    p, _ = f.pdf([[list(f.rows.values())] * 2], t)
    E.check_eq(f.Mt.exp(got), p, 'least-spread')


def held(kinds, K, n, missing=(), free=()):
    def h(E, U):
        f = Knn(E, kinds, K)
        o = f.ids[E.choose('t', len(f.ids))]
        f.fill(n, missing, free, [p for p in f.ids if p != o])
        rows = list(f.rows) + [77]
        r = rows[E.choose('row', len(rows))]
        t = assignment(f, [o], 'q')
        c = [p for p in f.ids if p != o]
        c = assignment(f, c[:E.choose('nc', 2)], 'q')
        ev = {p: x for p, x in f.rows.get(r, {}).items()
              if p not in t and p not in c}
        ev.update(c)
        m = f.build(U)
        if not ev:
            e = try_(lambda: m.logpdf(r, dict(t), dict(c) or None))
            E.check(isinstance(e, ValueError), 'needs-a-constraint')
            return
        sets = refer(f, t, ev)
        if sets == 'skip' or sets is None:
            return
        outs = E.enumerate_random(lambda rng: f.build(U, rng).logpdf(
            r, dict(t), dict(c) or None))
        ps = [0 if o.value == float('-inf') else f.Mt.exp(o.value)
              for o in outs]
        E.check_eq(sum(o.weight * p for o, p in zip(outs, ps)),
                   f.pdf(sets, t)[0], 'conditions-on-its-own-cells')
    return h


PROBE = '1/3'


def law_of(E, f, outs, t, N):
    """The law of the outcomes: discrete targets by value, numerical ones by
    the density, at a probe, of the normal they were drawn from."""
    law = {}
    for o in outs:
        vals = [o.value] if N is None else list(o.value)
        E.check(len(vals) == (N or 1), 'one-per-sample')
        log = [d for d in o.log if d.family == 'normal']
        key, dens = [], 1
        for v in vals:
            E.check(sorted(v) == sorted(t), 'assigns-the-targets')
            for q in [q for q in t if f.kind(q)[1] is None]:
                d, = [d for d in log if d.value is v[q]
                      or E.symbolic and repr(d.value) == repr(v[q])
                      or not E.symbolic and d.value == v[q]][:1] or [None]
                E.check(d is not None, 'returns-the-drawn-value')
                log = [e for e in log if e is not d]
                mu, s = d.params
                p = E.const(PROBE)
                dens = dens * f.Mt.exp(-(p - mu) * (p - mu) / (2 * s * s)) \
                    / (s * f.Mt.sqrt(2 * f.Mt.pi))
            key.append(tuple(None if f.kind(q)[1] is None else int(v[q])
                             for q in t))
        key = tuple(key)
        law[key] = law.get(key, 0) + o.weight * dens
    return law


def at(E, f, t, k):
    return {q: E.const(PROBE) if v is None else v for q, v in zip(t, k)}


def sampling(kinds, K, M, n, nt, nc, missing=(), free=(), N=None):
    def h(E, U):
        f = Knn(E, kinds, K, M)
        t, c = pick(E, f.ids, nt, nc)
        f.fill(n, missing, free, c)
        c = assignment(f, c, 'q')
        sets = refer(f, dict.fromkeys(t), c)
        if sets is None or sets == 'skip':
            return
        outs = E.enumerate_random(lambda rng: f.build(U, rng).simulate(
            None, list(t), dict(c), None, N))
        law = law_of(E, f, outs, list(t), N)
        for key, w in law.items():
            want = 0
            for s in sets:
                want = want + prod(f.pdf([s], at(E, f, t, k))[0]
                                   for k in key)
            E.check_eq(w, want / E.const(len(sets)), 'law-is-the-density')
        if all(f.kind(q)[1] is not None for q in t):
            E.check_eq(sum(law.values()), 1, 'law-is-complete')
    return h


def fallback(kinds, K, n, nt, missing=(), free=()):
    """Without constraints a row is resampled: the variables not asked for
    (the first target if all are) take its values, the rest follows the
    density given those."""
    def h(E, U):
        f = Knn(E, kinds, K)
        t, _ = pick(E, f.ids, nt, 0)
        t = list(t)
        f.fill(n, missing, free, [o for o in f.ids if o not in t] or t[:1])
        N = [None, 1][E.choose('N', 2)]
        given = [o for o in f.ids if o not in t] or t[:1]
        rest = [o for o in t if o not in given]
        base = [x for x in f.rows.values() if all(o in x for o in given)]
        if len(f.rows) < K or not base:
            return
        ref = []
        for x in base:
            c = {o: x[o] for o in given}
            sets = refer(f, dict.fromkeys(rest), c)
            if sets is None or sets == 'skip':
                return
            ref.append((c, sets))
        outs = E.enumerate_random(lambda rng: f.build(U, rng).simulate(
            None, list(t), None, None, N))
        if given == t[:1] and f.kind(t[0])[1] is None:
            # the resampled number: which row's?
            first = {}
            for o in outs:
                v = o.value if N is None else o.value[0]
                ix = [i for i, (c, _) in enumerate(ref)
                      if v[t[0]] == c[t[0]]]
                E.check(ix, 'resamples-a-held-value')
                k = tuple(ix)
                first[k] = first.get(k, 0) + o.weight
            for k, w in first.items():
                E.check_eq(w, E.const(len(k)) / len(ref),
                           'rows-resampled-uniformly')
            return
        law = law_of(E, f, outs, t, N)
        for key, w in law.items():
            want = 0
            for c, sets in ref:
                a = at(E, f, t, key[0])
                if all(c[o] == a[o] for o in given if o in t):
                    want = want + f.pdf(sets, {o: a[o] for o in rest})[0]
            E.check_eq(w, want / E.const(len(ref)), 'law-is-the-mixture')
    return h


def histories(ops):
    def h(E, U):
        f = Knn(E, [NUM, CAT2], 1)
        a, b = f.ids
        m = f.build(U)
        for k in range(ops):
            r = [3, 0][E.choose('r%d' % k, 2)]
            if E.choose('op%d' % k, 2) == 0:
                x = {a: E.const('1/2') * k, b: (k + r) % 2}
                if k % 2:
                    x[b] = NAN
                e = try_(lambda: m.incorporate(r, dict(x)))
                E.check((e is not None) == (r in f.rows), 'add-iff-absent')
                if e is None:
                    f.rows[r] = {o: v for o, v in x.items() if v == v}
            else:
                e = try_(lambda: m.unincorporate(r))
                E.check((e is not None) == (r not in f.rows),
                        'remove-iff-present')
                f.rows.pop(r, None)
            E.check(m.N == len(f.rows) and set(m.data) == set(f.rows),
                    'exact-rows')
        c = {a: E.real('c', -2, 2)}
        t = {b: E.choose('t', 2)}
        sets = refer(f, t, c)
        if sets is None or len(f.rows) < 1:
            E.check(try_(lambda: m.logpdf(None, t, c)) is not None,
                    'needs-K-complete-rows')
        elif sets != 'skip' and len(sets) == 1:
            p = m.logpdf(None, t, c)
            E.check_eq(0 if p == float('-inf') else f.Mt.exp(p),
                       f.pdf(sets, t)[0], 'depends-only-on-held-rows')
    return h


def saved(E, U):
    f = Knn(E, [NUM, CAT2], 1, [None, 2][E.choose('M', 2)])
    f.fill(3, [(0, 1)], [(1, 0)])
    g = f.build(U)
    meta = g.to_metadata()
    whole = copy.deepcopy(meta)
    E.check(set(meta['factory']) == {'cgpm.knn.mvknn', 'MultivariateKnn'},
            'factory')
    k = U['knn.mvknn'].MultivariateKnn.from_metadata(meta)
    t, c = {f.ids[1]: E.choose('t', 2)}, {f.ids[0]: E.real('c', -2, 2)}
    if f.M and E.choose('which', 2):
        t, c = {f.ids[0]: E.real('c', -2, 2)}, {f.ids[1]: E.choose('t', 2)}
    sets = refer(f, t, c)
    if sets is None or sets == 'skip' or len(sets) > 1:
        return
    p = k.logpdf(None, t, c)
    E.check_eq(0 if p == float('-inf') else f.Mt.exp(p), f.pdf(sets, t)[0],
               'same-densities')
    E.check(try_(lambda: k.incorporate(4, {f.ids[0]: E.const(1)}))
            is not None, 'same-rows')
    k.unincorporate(4)
    E.check(k.N == 2 and g.N == 3, 'same-rows')
    g.unincorporate(0)
    same(E, meta, whole, 'metadata-is-a-snapshot')


def guards(E, U):
    f = Knn(E, [NUM, CAT], 2)
    f.fill(3)
    m = f.build(U)
    a, b = f.ids
    one = E.const(1) + 0
    before = m.logpdf(None, {b: 1}, {a: one})
    K = U['knn.mvknn'].MultivariateKnn
    d = f.distargs()
    few = f.build(U, data=False)
    few.incorporate(0, {a: one, b: 0})

    def without(*path):
        import copy
        x = copy.deepcopy(d)
        y = x
        for p in path[:-1]:
            y = y[p]
        del y[path[-1]]
        return x
    bad = [
        lambda: m.incorporate(4, {a: one}),
        lambda: m.incorporate(9, {99: one}),
        lambda: m.incorporate(9, {}),
        lambda: m.incorporate(9, {a: one}, {b: 1}),
        lambda: m.unincorporate(9),
        lambda: m.logpdf(None, {}, {a: one}),
        lambda: m.logpdf(None, {b: 1}),
        lambda: m.logpdf(None, {b: NAN}, {a: one}),
        lambda: m.logpdf(None, {b: 1}, {a: NAN}),
        lambda: m.logpdf(None, {99: one}, {a: one}),
        lambda: m.logpdf(None, {b: 1}, {99: one}),
        lambda: m.logpdf(None, {a: one}, {a: one}),
        lambda: m.logpdf(None, {b: 1}, {a: one}, {b: 1}),
        lambda: m.simulate(None, []),
        lambda: m.simulate(None, [99]),
        lambda: m.simulate(None, [a], {99: one}),
        lambda: m.simulate(None, [a], {a: one}),
        lambda: m.simulate(None, [a], None, {b: 1}),
        lambda: m.simulate(None, [a], {b: NAN}),
        lambda: m.simulate(None, [a], {b: 1}, None, 0),
        lambda: m.simulate(None, [a], {b: 1}, None, -1),
        lambda: few.logpdf(None, {b: 1}, {a: one}),
        lambda: few.simulate(None, [a]),
        lambda: few.simulate(None, [a], {b: 1}),
        lambda: K([0, 1], [3], K=1, distargs=d),
        lambda: K([0], [], K=1, distargs=d),
        lambda: K([1, 1], [], K=1, distargs=d),
        lambda: K([0, 1], [], K=1),
        lambda: K([0, 1], [], distargs=d),
        lambda: K([0, 1], [], K=0, distargs=d),
        lambda: K([0, 1], [], K=1, distargs=without('outputs', 'stattypes')),
        lambda: K([0, 1], [], K=1, distargs=without('outputs', 'statargs')),
        lambda: K([0, 1], [], K=1, distargs=without('outputs', 'statargs',
                                                    0)),
        lambda: K([0, 1], [], K=1, distargs=without('outputs', 'stattypes',
                                                    1)),
        lambda: K([0, 1], [], K=1, distargs=without('outputs', 'statargs',
                                                    1, 'k')),
    ]
    i = E.choose('bad', len(bad))
    E.check(isinstance(try_(bad[i]), ValueError), 'rejected')
    E.check(sorted(m.data) == [0, 4, 7] and m.N == 3, 'unchanged')
    E.check_eq(m.logpdf(None, {b: 1}, {a: one}), before, 'unchanged')


MODS = ['knn.mvknn', 'utils.data', 'utils.general']


def mk(name, fn, bounds, tier='quick', **k):
    return H(name, fn, MODS, bounds, stubs=sk, tier=tier, **k)


def harnesses():
    col = lambda i, n: [(j, i) for j in range(n)]
    return [
        mk('nearest-one', density([CAT, NUM], 1, None, 3, 1, 1, (),
                                  col(1, 3)), 'K=1, 3 rows'),
        mk('nearest-two', density([CAT, NUM], 2, None, 3, 1, 1, (),
                                  [(0, 1), (2, 1)]), 'K=2, 3 rows'),
        mk('nearest-two-of-four', density(
            [CAT, NUM], 2, 1, 4, 1, 1, (), [(0, 1), (2, 1)]),
            'K=2, M=1, 4 rows'),
        mk('nearest-three-of-four', density(
            [CAT2, NUM], 3, 1, 4, 1, 1, (), [(0, 1), (2, 1)]),
            'K=3, M=1, 4 rows'),
        mk('nearest-by-category', density(
            [NUM, CAT], 2, 1, 4, 1, 1, (), col(1, 4)),
            'K=2, M=1, 4 rows, every coding'),
        mk('nearest-by-category-k3', density(
            [NUM, CAT], 3, 1, 4, 1, 1, (), col(1, 4)[:3]),
            'K=3, M=1, 4 rows'),
        mk('nearest-missing', density(
            [NUM, CAT], 1, None, 3, 1, 1, [(0, 0), (0, 1), (1, 0), (2, 1)],
            [(0, 1), (1, 1)]), 'K=1, 3 rows, missing cells'),
        mk('nearest-missing-two', density(
            [NUM, CAT2], 2, None, 4, 1, 1, [(0, 0), (1, 1), (2, 0)],
            [(0, 1), (1, 1)]), 'K=2, 4 rows, missing cells'),
        mk('locality-of-two', density(
            [NUM, NUM], 2, 2, 3, 1, 1, (), [(0, 0), (1, 1)]),
            'K=M=2, 3 rows, real cells'),
        mk('locality-smaller', density(
            [CAT2, NUM], 2, 1, 3, 1, 1, (), [(0, 1), (1, 0), (2, 0)]),
            'K=2, M=1'),
        mk('locality-larger', density(
            [CAT2, NUM], 1, 2, 3, 1, 1, (), [(0, 1), (1, 0), (2, 0)]),
            'K=1, M=2'),
        mk('local-normal', density(
            [NUM, CAT2], 1, 2, 2, 1, 1, (), [(0, 0), (0, 1), (1, 1)],
            IDS, True), 'K=1, M=2, 2 rows, real targets'),
        mk('local-normal-three', density(
            [NUM, CAT2], 1, 3, 3, 1, 1, (), [(0, 0), (1, 1)],
            (), True), 'K=1, M=3, 3 rows, real targets'),
        mk('tight', tight, '2 rows, 6 spreads about the least one'),
        mk('two-targets', density(
            [NUM, CAT2, NUM], 1, 2, 3, 2, 1, (), [(0, 0), (1, 1)]),
            'K=1, M=2, 3 columns'),
        mk('two-constraints', density(
            [NUM, CAT2, NUM], 2, None, 3, 1, 2, (), [(0, 2), (1, 1)]),
            'K=2, 3 columns'),
        mk('nearest-deep', density(
            [CAT, NUM], 2, 2, 4, 1, 1, (), col(1, 4)), 'K=M=2, 4 rows',
            'thorough', paths=8000),
        mk('held-rows', held([NUM, CAT2, CAT], 1, 3,
                             [(0, i) for i in range(3)], [(0, 1)]),
           'K=1, 3 rows'),
        mk('sampling', sampling([CAT, NUM], 2, None, 3, 1, 1, (),
                                [(0, 1), (1, 0)]), 'K=2, 3 rows'),
        mk('sampling-ties', sampling([NUM, CAT2], 2, 1, 4, 1, 1, (),
                                     col(1, 3)), 'K=2, M=1, 4 rows'),
        mk('sampling-pair', sampling([CAT2, NUM, CAT2], 1, 2, 3, 2, 1, (),
                                     [(0, 1), (1, 0)]), 'K=1, M=2, 3 rows'),
        mk('sampling-many', sampling([CAT2, NUM], 2, None, 3, 1, 1, (),
                                     [(0, 1), (1, 0)], N=2),
           'K=2, 3 rows, 2 samples'),
        mk('sampling-missing', sampling(
            [CAT2, CAT], 1, None, 3, 1, 1, [(0, 0), (1, 1)], [(0, 1),
                                                              (1, 0)], N=1),
           'K=1, 3 rows, missing cells'),
        mk('fallback-one', fallback([CAT2, CAT], 1, 3, 1, [(0, 0), (1, 1)],
                                    [(0, 1), (2, 0)]), 'K=1, 3 rows'),
        mk('fallback-all', fallback([CAT2, CAT], 1, 3, 2, [(0, 0), (1, 1)],
                                    [(0, 1), (2, 0)]), 'K=1, 3 rows'),
        mk('fallback-mixed', fallback([NUM, CAT2], 2, 3, 1, (), [
            (0, 1)]), 'K=2, 3 rows'),
        mk('fallback-mixed-all', fallback([NUM, CAT2], 2, 3, 2, (), [
            (0, 1)]), 'K=2, 3 rows'),
        mk('histories', histories(4), '4 operations on 2 rows'),
        mk('histories-long', histories(6), '6 operations on 2 rows',
           'thorough', paths=8000),
        mk('saved', saved, '3 rows'),
        mk('guards', guards, 'the malformed calls listed'),
    ]
