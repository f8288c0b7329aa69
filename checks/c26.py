"""C26: regression and forest models keep exact row accounting.

scikit-learn is replaced by a recording stand-in whose predictions are an
arbitrary function of the data it was last fitted to and of the query."""
import copy
import types

import numpy as np

from vp.runner import H
from .lib import Mth, posreal
from .vlib import try_

ASSUMPTIONS = ['scikit-learn regressors predict an arbitrary function of the '
               'data they were last fitted to and of the query point, over '
               'exactly the classes they were fitted to (library contract)']
NAN = float('nan')
INF = float('inf')


class Hold(object):
    E = None
    made = []
    memo = {}
    pickled = {}


def key(v):
    return tuple(float(x) if not hasattr(x, 'num') else repr(x) for x in v)


class Fake(object):
    def __init__(self, *a, **k):
        self.fits = []
        Hold.made.append(self)

    def fit(self, X, y):
        X, y = [list(r) for r in X], list(y)
        assert len(X) == len(y) > 0
        self.fits.append((X, y))
        return self

    def _id(self):
        X, y = self.fits[-1]
        return tuple(sorted(zip(map(key, X), [repr(v) for v in y])))

    def __reduce__(self):
        n = len(Hold.pickled)
        Hold.pickled[n] = self
        return (restore, (n,))


def restore(n):
    f = Hold.pickled[n]
    g = type(f)()
    g.__dict__.update(f.__dict__)
    g.fits = list(f.fits)
    return g


class Classifier(Fake):
    @property
    def classes_(self):
        if not self.fits:
            raise AttributeError('classes_')
        return np.array(sorted({int(c) for c in self.fits[-1][1]}))

    def probs(self, v):
        k = (self._id(), key(v))
        if k not in Hold.memo:
            n, E = len(Hold.memo), Hold.E
            ws = [E.const(1)] + [posreal(E, 'w%d_%d' % (n, j)) for j in
                                 range(1, len(self.classes_))]
            t = sum(ws)
            Hold.memo[k] = [w / t for w in ws]
        return Hold.memo[k]

    def predict_log_proba(self, rows):
        M = Mth(Hold.E)
        r = np.empty((len(rows), len(self.classes_)),
                     dtype=object if Hold.E.symbolic else float)
        for i, v in enumerate(rows):
            for j, p in enumerate(self.probs(v)):
                r[i, j] = M.log(p)
        return r

    def predict_proba(self, rows):
        return np.exp(self.predict_log_proba(rows))


class Line(Fake):
    def mean(self, v):
        if not self.fits:
            raise ValueError('not fitted')
        k = (self._id(), key(v))
        if k not in Hold.memo:
            Hold.memo[k] = Hold.E.real('mean%d' % len(Hold.memo), -4, 4)
        return Hold.memo[k]

    def predict(self, rows):
        return np.array([self.mean(v) for v in rows],
                        dtype=object if Hold.E.symbolic else float)


def sklearn(symbolic):
    top = types.ModuleType('sklearn')
    top.__path__ = []
    ens = types.ModuleType('sklearn.ensemble')
    lin = types.ModuleType('sklearn.linear_model')
    ens.RandomForestClassifier = Classifier
    lin.LinearRegression = Line
    top.ensemble, top.linear_model = ens, lin
    return {'sklearn': top, 'sklearn.ensemble': ens,
            'sklearn.linear_model': lin}


def begin(E):
    Hold.E, Hold.made, Hold.memo, Hold.pickled = E, [], {}, {}


# ----------------------------------------------------------------- forest

INS = [7, 2]                # declared order; the code reads them sorted
POOL = {5: (0, (1, 2)), 1: (2, (1, 3)), 8: (0, (4, 2)), 3: (1, (1, 2))}


def ins(v, flip=False):
    d = list(zip(INS, v))
    return dict(reversed(d) if flip else d)


def coded(v):
    return [x for i, x in sorted(zip(INS, v))]


def forest(U, rng=None, k=3, rows=(), alpha=None):
    F = U['regressions.forest'].RandomForest
    f = F([0], list(INS), distargs={'k': k, 'inputs': {
        'stattypes': ['normal', 'normal']}}, rng=rng,
        params=None if alpha is None else {'alpha': alpha})
    for r in rows:
        x, v = POOL[r]
        f.incorporate(r, {0: x}, ins(v))
    return f


def same_rows(E, f, held, label):
    E.check(f.N == len(held), label + '-count')
    E.check(sorted(f.data.x) == sorted(held)
            and sorted(f.data.Y) == sorted(held), label + '-rows')
    for r in held:
        E.check(f.data.x[r] == POOL[r][0], label + '-response')


def fitted(E, fit, held, label, code=coded, exact=True):
    X, y = fit
    want = sorted((key(code(POOL[r][1])), float(POOL[r][0])) for r in held)
    got = sorted((key(a), float(b)) for a, b in zip(X, y))
    E.check(got == want, label)


def oracle(E, f, k, alpha, x, v):
    """alpha/k + (1 - alpha) * forest."""
    if not (x % 1 == 0 and 0 <= x < k):
        return 0
    u = E.const(1) / k
    g = f.regressor
    if not g.fits:
        return u
    c = [int(j) for j in g.classes_]
    if x not in c:
        return alpha * u
    return alpha * u + (1 - alpha) * g.probs(coded(v))[c.index(x)]


def forest_histories(steps):
    def h(E, U):
        begin(E)
        f = forest(U, rng_of(E))
        held = []
        for i in range(steps):
            r = E.choose('op%d' % i, [5, 1, 3, 'fit'])
            if r == 'fit':
                n = len(f.regressor.fits)
                f.transition()
                E.check(len(f.regressor.fits) == n + bool(held),
                        'fitted-once-if-there-are-rows')
                if held:
                    fitted(E, f.regressor.fits[-1], held,
                           'fitted-to-exactly-the-rows-held')
            elif r in held:
                f.unincorporate(r)
                held.remove(r)
            else:
                f.incorporate(r, {0: POOL[r][0]}, ins(POOL[r][1], i % 2))
                held.append(r)
        same_rows(E, f, held, 'held')
        cnt = [sum(1 for r in held if POOL[r][0] == x) for x in range(3)]
        E.check(list(f.counts) == cnt, 'class-counts')
        E.check(isinstance(try_(lambda: f.unincorporate(44)), ValueError),
                'unknown-row')
        same_rows(E, f, held, 'after-rejection')
        E.check(list(f.counts) == cnt, 'after-rejection-class-counts')
    return h


def rng_of(E):
    from .vlib import choose_rng

    class First(choose_rng(E).__class__):
        def _outcome(self, w):      # which grid point is irrelevant here
            return 0
    return First(E, None, 'u', 'identity')


def forest_density(rows, fit):
    def h(E, U):
        begin(E)
        M = Mth(E)
        alpha = E.real('alpha', '1/100', '99/100')
        k = E.choose('k', [3, 4])
        f = forest(U, None, k, rows[:-1] if E.choose('later', 2) else rows,
                   alpha)
        if fit:
            f.regressor.fit(list(f.data.Y.values()), list(f.data.x.values()))
        for r in rows:
            if r not in f.data.x:
                f.incorporate(r, {0: POOL[r][0]}, ins(POOL[r][1]))
        v = (E.choose('v', [1, 4]), 2)
        t = 0
        for x in range(k):
            lp = f.logpdf(-1, {0: x}, None, ins(v, x % 2))
            E.check_eq(M.exp(lp), oracle(E, f, k, alpha, x, v), 'density')
            t = t + M.exp(lp)
        E.check_eq(t, 1, 'sums-to-one')
        for x in (-1, k, k + 2, .5):
            E.check(f.logpdf(-1, {0: x}, None, ins(v)) == -INF,
                    'outside-support')
        s = 0
        for r in f.data.x:
            s = s + M.log(oracle(E, f, k, alpha, *POOL[r]))
        E.check_eq(f.logpdf_score(), s, 'score-sums-over-rows')

        def run(rng):
            g = forest(U, rng, k, rows, alpha)
            g.regressor = f.regressor
            return g.simulate(None, [0], None, ins(v))
        p = {}
        for o in E.enumerate_random(run):
            E.check(list(o.value) == [0], 'sample-shape')
            p[int(o.value[0])] = p.get(int(o.value[0]), 0) + o.weight
        for x in range(k):
            E.check_eq(p.get(x, 0), oracle(E, f, k, alpha, x, v),
                       'sample-probability')
        E.check(set(p) <= set(range(k)), 'sample-in-support')
    return h


def forest_stored(E, U):
    begin(E)
    N = E.choose('N', [None, 1, 2])
    f = forest(U, rng_of(E), 3, (5, 1))
    r = E.choose('row', [5, 1])
    got = f.simulate(r, [0], None, ins(POOL[r][1]), N)
    vals = [got] if N is None else got
    E.check(len(vals) == (N or 1) and all(
        dict(x) == {0: POOL[r][0]} for x in vals), 'stored-value')


def forest_alpha(nrows):
    """The noise rate is redrawn in proportion to the likelihood."""
    def h(E, U):
        begin(E)
        rows = [5, 1][:nrows]
        probe = forest(U, None, 3, rows)
        probe.regressor.fit(list(probe.data.Y.values()),
                            list(probe.data.x.values()))

        def run(rng):
            g = forest(U, rng, 3, rows)
            g.regressor = restore_of(probe.regressor)
            g.transition_params()
            return g
        w = {}
        for o in E.enumerate_random(run):
            a = float(o.value.alpha) if not hasattr(o.value.alpha, 'cval') \
                else float(o.value.alpha.cval())
            E.check(.005 < a < .995, 'valid-noise-rate')
            w[a] = (o.value.alpha, o.weight)
        E.check(len(w) >= 10, 'grid')
        lik = {}
        for a, (A, p) in w.items():
            q = 1
            for r in rows:
                q = q * oracle(E, probe, 3, A, *POOL[r])
            lik[a] = q
        tot = sum(lik.values())
        for a, (A, p) in w.items():
            E.check_eq(p * tot, lik[a], 'probability-is-normalised-likelihood')
    return h


def restore_of(f):
    g = type(f)()
    g.fits = list(f.fits)
    return g


def forest_rejected(E, U):
    begin(E)
    f = forest(U, None, 3, (5,))
    good = ins((1, 2))
    bad = {
        'category': ({0: 3}, good), 'negative': ({0: -1}, good),
        'fraction': ({0: .5}, good), 'missing-value': ({0: NAN}, good),
        'no-value': ({}, good), 'none': ({0: None}, good),
        'missing-input': ({0: 1}, {7: 1}), 'no-input': ({0: 1}, {}),
        'nan-input': ({0: 1}, {7: NAN, 2: 1}),
        'extra-input': ({0: 1}, dict(list(good.items()) + [(50, 1)])),
        'output-as-input': ({0: 1}, dict(list(good.items()) + [(0, 1)])),
    }
    name = E.choose('bad', sorted(bad))
    obs, i = bad[name]
    e = try_(lambda: f.incorporate(9, dict(obs), dict(i)))
    E.check(isinstance(e, (ValueError, IndexError)), 'rejected-' + name)
    e = try_(lambda: f.incorporate(5, {0: 1}, good))
    E.check(e is not None, 'rejected-duplicate-row')
    same_rows(E, f, [5], 'after-rejection')
    E.check(list(f.counts) == [1, 0, 0], 'after-rejection-class-counts')


def apart(E, U, build, rebuild, edit):
    """What was written stays as it is, and can be restored again, whatever
    happens to the model or to one restored from it."""
    from .c20 import same
    a = build()
    md = a.to_metadata()
    whole = copy.deepcopy(md)
    b = rebuild(md)
    same(E, md, whole, 'metadata-is-a-snapshot')
    for m in [(a,), (b,), (a, b)][E.choose('edited', 3)]:
        edit(m)
    same(E, md, whole, 'metadata-is-a-snapshot')
    c = rebuild(md)
    return a, b, c


def forest_apart(E, U):
    begin(E)
    F = U['regressions.forest'].RandomForest
    rows = [5, 1]
    out = []

    def edit(m):
        out.append(m)
        m.unincorporate(5)
        m.incorporate(8, {0: POOL[8][0]}, ins(POOL[8][1]))
    a, b, c = apart(E, U, lambda: forest(U, None, 3, rows), F.from_metadata,
                    edit)
    want = list(forest(U, None, 3, rows).counts)
    same_rows(E, c, rows, 'restored-again')
    E.check(list(c.counts) == want, 'restored-again-class-counts')
    for m in (a, b):
        held = [1, 8] if any(m is x for x in out) else rows
        same_rows(E, m, held, 'models-apart')
        E.check(list(m.counts) == list(forest(U, None, 3, held).counts),
                'models-apart-class-counts')


def ols_apart(E, U):
    begin(E)
    rows = [5, 1]
    out = []

    def edit(m):
        out.append(m)
        m.unincorporate(5)
        m.incorporate(8, {0: OPOOL[8][0]}, ins(OPOOL[8][1]))
    a, b, c = apart(E, U, lambda: ols(U, None, rows, posreal(E, 'noise')),
                    U['regressions.ols'].OrdinaryLeastSquares.from_metadata,
                    edit)
    for m, held in [(c, rows)] + [
            (m, [1, 8] if any(m is x for x in out) else rows)
            for m in (a, b)]:
        E.check(m.N == 2 and sorted(m.data.x) == sorted(held)
                and sorted(m.data.Y) == sorted(held), 'models-apart')


def forest_saved(E, U):
    begin(E)
    alpha = E.real('alpha', '1/100', '99/100')
    rows = [5, 1, 8][:E.choose('n', 4)]
    f = forest(U, None, 3, rows, alpha)
    if rows and E.choose('fit', 2):
        f.regressor.fit(list(f.data.Y.values()), list(f.data.x.values()))
    md = f.to_metadata()
    # row numbers come back from text as strings
    md['data'] = {a: {str(r): v for r, v in b.items()}
                  for a, b in md['data'].items()}
    g = U['regressions.forest'].RandomForest.from_metadata(md)
    same_rows(E, g, rows, 'copy')
    E.check(list(g.counts) == list(f.counts), 'copy-class-counts')
    E.check(list(g.inputs) == INS and list(g.outputs) == [0], 'copy-shape')
    for x in range(3):
        E.check_eq(g.logpdf(-1, {0: x}, None, ins((1, 2))),
                   f.logpdf(-1, {0: x}, None, ins((1, 2))), 'copy-density')
    E.check_eq(g.logpdf_score(), f.logpdf_score(), 'copy-score')
    for r in rows:
        g.unincorporate(r)
    E.check(list(g.counts) == [0, 0, 0] and g.N == 0, 'copy-emptied')
    same_rows(E, f, rows, 'original')


# -------------------------------------------------------------------- OLS

KINDS = [None, 3]           # a real input and one of three categories


def code(v):
    return [v[0]] + [int(v[1] == i) for i in range(2)]


OPOOL = {5: (1.5, (2., 0)), 1: (-.5, (1., 2)), 8: (3., (1., 1))}


def ols(U, rng=None, rows=(), noise=None):
    O = U['regressions.ols'].OrdinaryLeastSquares
    o = O([0], list(INS), rng=rng, distargs={'inputs': {
        'stattypes': ['normal', 'categorical'], 'statargs': [None, {'k': 3}]}},
        params=None if noise is None else {'noise': noise})
    for r in rows:
        x, v = OPOOL[r]
        o.incorporate(r, {0: x}, ins(v))
    return o


def ols_fit(E, fit, held, label):
    X, y = fit
    want = sorted((key(code(OPOOL[r][1])), OPOOL[r][0]) for r in held)
    E.check(sorted((key(a), float(b)) for a, b in zip(X, y)) == want, label)


def ols_histories(steps):
    def h(E, U):
        begin(E)
        o = ols(U)
        held = []
        for i in range(steps):
            r = E.choose('op%d' % i, [5, 1, 'fit'])
            if r == 'fit':
                n = len(o.regressor.fits)
                o.transition()
                E.check(len(o.regressor.fits) == n + bool(held),
                        'fitted-once-if-there-are-rows')
                if held:
                    ols_fit(E, o.regressor.fits[-1], held,
                            'fitted-to-exactly-the-rows-held')
                    s = 0
                    for q in held:
                        d = OPOOL[q][0] - o.regressor.mean(code(OPOOL[q][1]))
                        s = s + d * d
                    E.check_eq(o.noise * o.noise * len(held), s,
                               'noise-is-root-mean-square-residual')
            elif r in held:
                o.unincorporate(r)
                held.remove(r)
            else:
                o.incorporate(r, {0: OPOOL[r][0]}, ins(OPOOL[r][1], i % 2))
                held.append(r)
        E.check(o.N == len(held) and sorted(o.data.x) == sorted(held)
                and sorted(o.data.Y) == sorted(held), 'rows-held')
        for r in held:
            E.check(o.data.x[r] == OPOOL[r][0], 'stored-response')
        E.check(isinstance(try_(lambda: o.unincorporate(44)), ValueError),
                'unknown-row')
        E.check(o.N == len(held), 'after-rejection')
    return h


def ols_density(E, U):
    begin(E)
    M = Mth(E)
    noise = posreal(E, 'noise')
    o = ols(U, None, (5, 1), noise)
    o.regressor.fit([code(OPOOL[r][1]) for r in (5, 1)],
                    [OPOOL[r][0] for r in (5, 1)])
    v = (E.choose('v', [1., 2.]), E.choose('c', 3))
    x = E.real('x', -4, 4)
    m = o.regressor.mean(code(v))
    z = (x - m) / noise
    E.check_eq(o.logpdf(-1, {0: x}, None, ins(v)),
               -M.log(noise) - M.log(2 * M.pi) / 2 - z * z / 2,
               'normal-density-about-the-prediction')


def ols_stored(E, U):
    begin(E)
    o = ols(U, None, (5, 1))
    r = E.choose('row', [5, 1])
    E.check(dict(o.simulate(r, [0], None, ins(OPOOL[r][1])))
            == {0: OPOOL[r][0]}, 'stored-value')


def ols_rejected(E, U):
    begin(E)
    o = ols(U, None, (5,))
    good = ins((1., 2))
    bad = {
        'missing-value': ({0: NAN}, good), 'no-value': ({}, good),
        'missing-input': ({0: 1}, {7: 1}), 'no-input': ({0: 1}, {}),
        'nan-input': ({0: 1}, {7: NAN, 2: 1}),
        'nan-category': ({0: 1}, {7: 1., 2: NAN}),
        'category': ({0: 1}, {7: 1., 2: 3}),
        'negative': ({0: 1}, {7: 1., 2: -1}),
        'fraction': ({0: 1}, {7: 1., 2: .5}),
        'extra-input': ({0: 1}, dict(list(good.items()) + [(50, 1)])),
        'output-as-input': ({0: 1}, dict(list(good.items()) + [(0, 1)])),
    }
    name = E.choose('bad', sorted(bad))
    obs, i = bad[name]
    e = try_(lambda: o.incorporate(9, dict(obs), dict(i)))
    E.check(isinstance(e, (ValueError, TypeError)), 'rejected-' + name)
    E.check(try_(lambda: o.incorporate(5, {0: 1.}, good)) is not None,
            'rejected-duplicate-row')
    E.check(o.N == 1 and list(o.data.x) == [5] and list(o.data.Y) == [5]
            and o.data.x[5] == 1.5, 'unchanged')


def ols_saved(E, U):
    begin(E)
    noise = posreal(E, 'noise')
    rows = [5, 1][:1 + E.choose('n', 2)]
    o = ols(U, None, rows, noise)
    o.regressor.fit([code(OPOOL[r][1]) for r in rows],
                    [OPOOL[r][0] for r in rows])
    md = o.to_metadata()
    md['data'] = {a: {str(r): v for r, v in b.items()}
                  for a, b in md['data'].items()}
    g = U['regressions.ols'].OrdinaryLeastSquares.from_metadata(md)
    E.check(g.N == len(rows) and sorted(g.data.x) == sorted(rows)
            and sorted(g.data.Y) == sorted(rows), 'copy-rows')
    E.check_eq(g.noise, noise, 'copy-noise')
    x = E.real('x', -4, 4)
    E.check_eq(g.logpdf(-1, {0: x}, None, ins((1., 1))),
               o.logpdf(-1, {0: x}, None, ins((1., 1))), 'copy-density')
    g.unincorporate(5)
    E.check(len(o.data.x) == len(rows), 'copy-independent')


def harnesses():
    def mk(name, fn, bounds, mod='forest', **k):
        return H(name, fn, modules=['regressions.' + mod, 'utils.data',
                                    'utils.general'],
                 bounds=bounds, stubs=sklearn, **k)
    return [
        mk('forest-histories', forest_histories(4),
           '4 operations (add, remove, refit) on 3 rows, 3 classes'),
        mk('forest-density', forest_density([5, 1, 8], True),
           '2 or 3 rows, 3 or 4 classes'),
        mk('forest-density-no-zero', forest_density([1, 3], True),
           '2 rows, of the last two of 3 or 4 classes'),
        mk('forest-density-prior', forest_density([5, 3], False),
           'no fit yet'),
        mk('forest-stored', forest_stored, '2 rows'),
        mk('forest-alpha', forest_alpha(1), '1 row, the whole grid'),
        mk('forest-alpha-two', forest_alpha(2), '2 rows, the whole grid'),
        mk('forest-rejected', forest_rejected, '1 row, 11 malformed rows'),
        mk('forest-saved', forest_saved, 'up to 3 rows'),
        mk('forest-apart', forest_apart, '2 rows, one replaced'),
        mk('ols-apart', ols_apart, '2 rows, one replaced', 'ols'),
        mk('ols-histories', ols_histories(4), '4 operations on 2 rows',
           'ols'),
        mk('ols-density', ols_density, '2 rows, mixed inputs', 'ols'),
        mk('ols-stored', ols_stored, '2 rows', 'ols'),
        mk('ols-rejected', ols_rejected, '1 row, 11 malformed rows', 'ols'),
        mk('ols-saved', ols_saved, 'up to 2 rows', 'ols'),
        mk('forest-histories-long', forest_histories(6),
           '6 operations on 3 rows', tier='thorough', paths=6000,
           thorough_seconds=1500),
        mk('ols-histories-long', ols_histories(6), '6 operations on 2 rows',
           'ols', tier='thorough', paths=6000, thorough_seconds=1500),
    ]
