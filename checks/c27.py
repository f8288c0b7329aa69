"""C27: factor analysis answers Gaussian queries exactly.

References: densities by determinants and cofactors, conditionals by the
product rule (joint over marginal), gradients by dual numbers on the textbook
formula, the joint covariance of [observables, latents] entry by entry from
x = W z + mux + e."""
import copy
import itertools
import types

import numpy as np

from vp.runner import H
from .c20 import same
from .c25 import arr, det, quad
from .lib import Mth
from .vlib import try_

ASSUMPTIONS = ['entries in [-4, 4], noise variances in [1/16, 16]',
               'the random source draws from exactly the mean and covariance '
               'requested (numpy contract)',
               'scikit-learn factor analysis returns arbitrary parameters '
               '(library contract: components, mean, positive noise)']
NAN = float('nan')


def spd(E, n, tag='S'):
    """An arbitrary symmetric positive definite matrix."""
    S = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            S[i][j] = S[j][i] = E.real('%s%d%d' % (tag, i, j), *(
                (-4, 4) if i != j else ('1/16', 16)))
    for k in range(1, n + 1):
        E.assume(det([r[:k] for r in S[:k]]) > E.const('1/100'))
    return S


def vec(E, n, tag):
    return [E.real('%s%d' % (tag, i), -4, 4) for i in range(n)]


def logn(M, x, mu, S):
    """Log density of N(mu, S) at x."""
    n, h = len(x), M.half()
    r = [a - b for a, b in zip(x, mu)]
    return -h * quad(S, r) - n * h * M.log(2 * M.pi) - h * M.log(det(S))


def sub(S, a, b=None):
    return [[S[i][j] for j in (a if b is None else b)] for i in a]


# --------------------------------------------------------------- mvnormal

def density(n):
    def h(E, U):
        mv = U['utils.mvnormal']
        M = Mth(E)
        x, mu, S = vec(E, n, 'x'), vec(E, n, 'm'), spd(E, n)
        E.check_eq(mv.logpdf(arr(E, x), arr(E, mu), arr(E, S)),
                   logn(M, x, mu, S), 'density')
    return h


def schur(n1, n2):
    def h(E, U):
        mv = U['utils.mvnormal']
        n = n1 + n2
        x2, mu, S = vec(E, n2, 'x'), vec(E, n, 'm'), spd(E, n)
        A, B = list(range(n1)), list(range(n1, n))
        a = lambda p, q: arr(E, sub(S, p, q))
        m, C = mv.conditional(
            arr(E, x2), arr(E, mu[:n1]), arr(E, mu[n1:]), a(A, A), a(A, B),
            a(B, A), a(B, B))
        E.check(np.shape(m) == (n1,) and np.shape(C) == (n1, n1), 'shapes')
        m, C = list(m), [list(r) for r in C]
        D = det(sub(S, B))
        r = [x - y for x, y in zip(x2, mu[n1:])]
        # Cramer: entries are ratios of bordered determinants.
        for i in A:
            bord = [[0] + [S[i][j] for j in B]] + [
                [rk] + [S[k][j] for j in B] for k, rk in zip(B, r)]
            E.check_eq(m[i], mu[i] - det(bord) / D, 'mean')
            for j in A:
                E.check_eq(C[i][j], det(sub(S, [i] + B, [j] + B)) / D,
                           'covariance')
    return h


class Dual(object):
    """a + b e with e e = 0."""

    def __init__(self, a, b=0):
        self.a, self.b = a, b

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x)

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.a + o.a, self.b + o.b)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.a, -self.b)

    def __sub__(self, o):
        return self + -Dual.of(o)

    def __rsub__(self, o):
        return Dual.of(o) - self

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.a * o.a, self.a * o.b + self.b * o.a)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        return Dual(self.a / o.a,
                    (self.b * o.a - self.a * o.b) / (o.a * o.a))

    def __rtruediv__(self, o):
        return Dual.of(o) / self


def gradient(n, which):
    def h(E, U):
        mv = U['utils.mvnormal']
        x, mu, S = vec(E, n, 'x'), vec(E, n, 'm'), spd(E, n)
        dX = [vec(E, n, 'u')] if which == 0 else []
        dMu = [vec(E, n, 'v'), [int(i == 0) for i in range(n)]] \
            if which == 1 else []
        dS = []
        if which == 2:
            T = [[E.real('w%d%d' % (min(i, j), max(i, j)), -2, 2)
                  for j in range(n)] for i in range(n)]
            dS = [T, [[int(i == j == 0) for j in range(n)]
                      for i in range(n)]]
        got = mv.dlogpdf(arr(E, x), [arr(E, d) for d in dX],
                         arr(E, mu), [arr(E, d) for d in dMu],
                         arr(E, S), [arr(E, d) for d in dS])
        E.check([len(g) for g in got] == [len(dX), len(dMu), len(dS)],
                'one-number-per-direction')

        def ref(dx, dm, ds):
            X = [Dual(a, b) for a, b in zip(x, dx)]
            Mu = [Dual(a, b) for a, b in zip(mu, dm)]
            SS = [[Dual(a, b) for a, b in zip(r, q)] for r, q in zip(S, ds)]
            r = [a - b for a, b in zip(X, Mu)]
            d = det(SS)
            return -(quad(SS, r).b + d.b / d.a) * E.const('1/2')
        z, Z = [0] * n, [[0] * n for _ in range(n)]
        for g, d in zip(got[0], dX):
            E.check_eq(g, ref(d, z, Z), 'derivative-in-x')
        for g, d in zip(got[1], dMu):
            E.check_eq(g, ref(z, d, Z), 'derivative-in-mean')
        for g, d in zip(got[2], dS):
            E.check_eq(g, ref(z, z, d), 'derivative-in-covariance')
    return h


# ---------------------------------------------------------------- factor

SHAPES = {(2, 1): [7, 2, 5], (3, 1): [7, 2, 5, 3], (2, 2): [4, 9, 1, 6],
          (1, 1): [3, 0]}


def noise(E, i):
    return E.real('p%d' % i, '1/16', 16)


class FA(object):
    """Reference: the joint Gaussian of outputs (observables then latents)."""

    def __init__(self, E, D, L, light=False):
        self.E, self.D, self.L = E, D, L
        self.outputs = list(SHAPES[D, L])
        h = E.const('1/2')
        self.mux = [E.real('m%d' % i, -4, 4) if not (light and i)
                    else h * (i + 1) for i in range(D)]
        self.psi = [noise(E, i) if not (light and i) else h * (i + 2)
                    for i in range(D)]
        self.W = [[E.real('w%d%d' % (i, j), -4, 4)
                   if not (light and i) else h * (j - 2 * i + 1)
                   for j in range(L)] for i in range(D)]

    def params(self):
        E, D = self.E, self.D
        return {'mux': arr(E, self.mux), 'W': arr(E, self.W),
                'Psi': arr(E, [[self.psi[i] if i == j else 0
                                for j in range(D)] for i in range(D)])}

    def build(self, U, rng=None):
        return U['factor.factor'].FactorAnalysis(
            list(self.outputs), [], L=self.L, params=self.params(), rng=rng)

    def mean(self, o):
        i = self.outputs.index(o)
        return self.mux[i] if i < self.D else 0

    def cov(self, o, p):
        D, i, j = self.D, self.outputs.index(o), self.outputs.index(p)
        if i >= D and j >= D:
            return int(i == j)
        if i >= D:
            i, j = j, i
        if j >= D:
            return self.W[i][j - D]
        t = sum(a * b for a, b in zip(self.W[i], self.W[j]))
        return t + self.psi[i] if i == j else t

    def joint(self, a):
        """Log density of an assignment."""
        M = Mth(self.E)
        if not a:
            return 0
        o = list(a)
        return logn(M, [a[q] for q in o], [self.mean(q) for q in o],
                    [[self.cov(p, q) for q in o] for p in o])

    def cond(self, t, c):
        return self.joint(dict(c, **t) if False else {**c, **t}) \
            - self.joint(c)


def pick(E, outs, nt, nc, name='q'):
    """Targets and constraints: every ordered choice."""
    alls = [(t, c) for t in itertools.permutations(outs, nt)
            for c in itertools.permutations(
                [o for o in outs if o not in t], nc)]
    return alls[E.choose(name, len(alls))]


def query(D, L, nt, nc, light=False):
    def h(E, U):
        f = FA(E, D, L, light)
        g = f.build(U)
        t, c = pick(E, f.outputs, nt, nc)
        t = {o: E.real('x%d' % o, -4, 4) for o in t}
        c = {o: E.real('x%d' % o, -4, 4) for o in c}
        E.check_eq(g.logpdf([None, -1][E.choose('row', 2)], dict(t),
                            dict(c) or None), f.cond(t, c),
                   'joint-over-marginal')
    return h


def draws(D, L, nt, nc, light=False):
    """Simulation draws the conditional Gaussian of the targets, in their
    order, and returns the drawn values under their names."""
    def h(E, U):
        f = FA(E, D, L, light)
        t, c = pick(E, f.outputs, nt, nc)
        t = list(t)
        c = {o: E.real('x%d' % o, -4, 4) for o in c}
        N = [None, 1, 2][E.choose('N', 3)]
        row = [None, 8][E.choose('row', 2)]
        outs = E.enumerate_random(lambda rng: f.build(U, rng).simulate(
            row, list(t), dict(c) or None, None, N))
        E.check(len(outs) == 1, 'one-outcome')
        o, = outs
        vals = [o.value] if N is None else list(o.value)
        E.check(len(vals) == (N or 1) == len(o.log), 'one-draw-per-sample')
        for v, d in zip(vals, o.log):
            E.check(d.family == 'mvn' and sorted(v) == sorted(t),
                    'assignment-to-targets')
            for i, q in enumerate(t):
                E.check_eq(v[q], d.value[i], 'returns-drawn-values')
            mean, cov = d.params
            E.check(np.shape(mean) == (len(t),)
                    and np.shape(cov) == (len(t), len(t)), 'shapes')
            # the conditional moments, by bordered determinants
            B = list(c)
            S = lambda p, q: [[f.cov(x, y) for y in q] for x in p]
            Dn = det(S(B, B))
            r = [c[q] - f.mean(q) for q in B]
            for i, q in enumerate(t):
                bord = [[0] + S([q], B)[0]] + [
                    [rk] + S([k], B)[0] for k, rk in zip(B, r)]
                E.check_eq(mean[i], f.mean(q) - det(bord) / Dn, 'mean')
                for j, p in enumerate(t):
                    E.check_eq(cov[i][j], det(S([q] + B, [p] + B)) / Dn,
                               'covariance')
    return h


def held(D, L, light=False):
    """A held row conditions on its observed cells that the query does not
    mention; what the query says wins."""
    def h(E, U):
        f = FA(E, D, L, light)
        g = f.build(U)
        miss = E.choose('missing', D + 1)
        obs = {o: E.real('r%d' % o, -4, 4)
               for i, o in enumerate(f.outputs[:D]) if i != miss}
        full = dict(obs)
        style = E.choose('style', 2)
        if style and miss < D:
            full[f.outputs[miss]] = NAN
        g.incorporate(4, full)
        g.incorporate(2, {f.outputs[0]: E.const(1)})
        t, c = pick(E, f.outputs, 1, E.choose('nc', 2))
        t = {o: E.real('x%d' % o, -4, 4) for o in t}
        c = {o: E.real('x%d' % o, -4, 4) for o in c}
        row = [4, 2, 9][E.choose('row', 3)]
        base = {4: obs, 2: {f.outputs[0]: E.const(1)}, 9: {}}[row]
        ev = {o: v for o, v in base.items() if o not in t and o not in c}
        ev.update(c)
        E.check_eq(g.logpdf(row, dict(t), dict(c) or None), f.cond(t, ev),
                   'conditions-on-its-own-row')
        outs = E.enumerate_random(lambda rng: again(
            f, U, rng, full, row, list(t), c))
        d, = outs[0].log
        o, = t
        one = E.const(1) + 0
        S = f.cov(o, o)
        # density of the drawn Gaussian equals the reported one
        M = Mth(E)
        E.check_eq(logn(M, [t[o]], [d.params[0][0]], [[d.params[1][0][0]]]),
                   f.cond(t, ev), 'simulate-conditions-alike')

    def again(f, U, rng, full, row, t, c):
        E = f.E
        g = f.build(U, rng)
        g.incorporate(4, full)
        g.incorporate(2, {f.outputs[0]: E.const(1)})
        return g.simulate(row, t, dict(c) or None)
    return h


def score(D, L, n):
    def h(E, U):
        f = FA(E, D, L)
        g = f.build(U)
        rows = {}
        for r in [3, 0, 11][:n]:
            x = {o: E.real('r%d_%d' % (r, o), -4, 4)
                 for i, o in enumerate(f.outputs[:D])
                 if E.choose('has%d_%d' % (r, o), 2)}
            if x:
                rows[r] = x
                g.incorporate(r, dict(x))
        if E.choose('drop', 2) and rows:
            r = sorted(rows)[0]
            g.unincorporate(r)
            del rows[r]
        E.check_eq(g.logpdf_score(), sum((f.joint(x) for x in rows.values()),
                                         0), 'sum-of-row-densities')
    return h


def rows_(E, U):
    f = FA(E, 2, 1, True)
    g = f.build(U)
    want = {}
    a, b, z = f.outputs
    for k in range(E.choose('n', 4) + 1):
        r = [0, 5, 2][E.choose('r%d' % k, 3)]
        op = E.choose('op%d' % k, 2)
        if op == 0:
            x = E.real('v%d' % k, -4, 4)
            e = try_(lambda: g.incorporate(r, {b: x}))
            E.check((e is not None) == (r in want), 'add-iff-absent')
            if e is None:
                want[r] = x
        else:
            e = try_(lambda: g.unincorporate(r))
            E.check((e is not None) == (r not in want),
                    'remove-iff-present')
            want.pop(r, None)
    E.check(set(g.data) == set(want) and g.N == len(want), 'exact-rows')
    for r in [0, 5, 2]:
        q = {a: E.const('1/2')}
        c = {b: want[r]} if r in want else {}
        E.check_eq(g.logpdf(r, q), f.cond(q, c), 'rows-hold-their-data')


def guards(E, U):
    f = FA(E, 2, 1, True)
    g = f.build(U)
    a, b, z = f.outputs
    one = E.const(1) + 0
    g.incorporate(0, {a: one})
    before = g.logpdf(0, {b: one})
    bad = [
        lambda: g.incorporate(0, {b: one}),
        lambda: g.incorporate(1, {z: one}),
        lambda: g.incorporate(1, {a: one, z: one}),
        lambda: g.incorporate(1, {99: one}),
        lambda: g.incorporate(1, {}),
        lambda: g.incorporate(1, {a: one}, {b: one}),
        lambda: g.unincorporate(1),
        lambda: g.logpdf(None, {}),
        lambda: g.logpdf(None, {a: one}, {a: one}),
        lambda: g.logpdf(None, {99: one}),
        lambda: g.logpdf(None, {a: one}, None, {b: one}),
        lambda: g.simulate(None, []),
        lambda: g.simulate(None, [a], {a: one}),
        lambda: g.simulate(None, [99]),
        lambda: g.simulate(None, [a], None, {b: one}),
    ]
    i = E.choose('bad', len(bad))
    e = try_(bad[i])
    E.check(e is not None, 'rejected')
    E.check(list(g.data) == [0] and g.N == 1, 'unchanged')
    E.check_eq(g.logpdf(0, {b: one}), before, 'unchanged')


def ctor(E, U):
    F = U['factor.factor'].FactorAnalysis
    num = {'outputs': {'stattypes': ['numerical'] * 2}}
    bad = [
        lambda: F([0, 1, 2], [5], L=1), lambda: F([0], [], L=1),
        lambda: F([0, 1, 1], [], L=1), lambda: F([0, 1, 2], []),
        lambda: F([0, 1, 2], [], L=0), lambda: F([0, 1, 2], [], L=2),
        lambda: F([0, 1, 2], [], L=1, distargs={'outputs': {
            'stattypes': ['numerical', 'categorical', 'numerical']}}),
    ]
    i = E.choose('bad', len(bad) + 1)
    if i < len(bad):
        E.check(try_(bad[i]) is not None, 'rejected')
        return
    # defaults: independent standard normals
    g = F([4, 7, 9], [], L=1)
    M = Mth(E)
    x = {o: E.real('x%d' % o, -4, 4) for o in (9, 4, 7)}
    E.check_eq(g.logpdf(None, x), sum(logn(M, [v], [0], [[1]])
                                      for v in x.values()), 'defaults')


class Hold(object):
    made = []
    give = None


class FakeFA(object):
    def __init__(self, n_components=None):
        self.n = n_components
        Hold.made.append(self)

    def fit(self, X):
        self.X = X
        self.components_, self.noise_variance_, self.mean_ = Hold.give
        return self


def sk(symbolic):
    m, d = types.ModuleType('sklearn'), types.ModuleType(
        'sklearn.decomposition')
    m.decomposition = d
    d.FactorAnalysis = FakeFA
    return {'sklearn': m, 'sklearn.decomposition': d}


def fitting(D, L, n=2):
    """Learning fits the complete rows, and the answers are then those of the
    parameters learned."""
    def h(E, U):
        f = FA(E, D, L)
        g = U['factor.factor'].FactorAnalysis(list(f.outputs), [], L=L)
        full = []
        for k, r in enumerate([6, 1, 3][:n]):
            miss = E.choose('miss%d' % r, D + 1) if k else D
            x = {o: E.real('r%d_%d' % (r, o), -4, 4)
                 for i, o in enumerate(f.outputs[:D]) if i != miss}
            g.incorporate(r, dict(x))
            if miss == D:
                full.append([x[o] for o in f.outputs[:D]])
        Hold.made = []
        Hold.give = (arr(E, f.W).T, arr(E, f.psi), arr(E, f.mux))
        g.transition()
        m, = Hold.made
        E.check(m.n == L, 'latent-dimension')
        E.check(np.shape(m.X) == (len(full), D), 'complete-rows-only')
        for a, b in zip(m.X, full):
            for u, v in zip(a, b):
                E.check_eq(u, v, 'complete-rows-only')
        t = f.outputs[E.choose('t', D + L)]
        c = [o for o in f.outputs if o != t][E.choose('c', D + L - 1)]
        t, c = {t: E.const('1/2') + 0}, {c: E.real('xc', -4, 4)}
        E.check_eq(g.logpdf(None, t, c), f.cond(t, c),
                   'answers-follow-learned-parameters')
    return h


def trip(D, L, light=True):
    def h(E, U):
        f = FA(E, D, L, light)
        g = f.build(U)
        o = f.outputs
        g.incorporate(5, {o[0]: E.real('r', -4, 4)})
        meta = g.to_metadata()
        whole = copy.deepcopy(meta)
        E.check(set(meta['factory']) == {'cgpm.factor.factor',
                                         'FactorAnalysis'}, 'factory')
        k = U['factor.factor'].FactorAnalysis.from_metadata(meta)
        E.check(k.outputs == g.outputs and k.inputs == [], 'variables')
        for row in (None, 5):
            for t in (o[1], o[-1]):
                q = {t: E.const('1/4') + 0}
                E.check_eq(k.logpdf(row, q), g.logpdf(row, q), 'densities')
        E.check(try_(lambda: k.incorporate(5, {o[1]: E.const(1)})) is not None, 'rows')
        k.unincorporate(5)
        E.check(k.N == 0 and g.N == 1, 'own-rows')
        g.unincorporate(5)
        same(E, meta, whole, 'metadata-is-a-snapshot')
    return h


MV = ['utils.mvnormal']
FM = ['factor.factor', 'utils.mvnormal']

def harnesses():
    return [
        H('density-%d' % n, density(n), MV, 'dimension %d, every mean and '
          'positive definite covariance' % n, tier='quick' if n < 4
          else 'thorough') for n in (1, 2, 3, 4)
    ] + [
        H('conditional-%d-%d' % (a, b), schur(a, b), MV,
          '%d unknown given %d known' % (a, b),
          tier='quick' if a + b < 4 else 'thorough')
        for a, b in ((1, 1), (2, 1), (1, 2), (1, 3), (2, 2), (3, 1))
    ] + [
        H('gradient-%s-%d' % ('xms'[w], n), gradient(n, w), MV,
          'dimension %d, arbitrary directions' % n,
          tier='quick' if n < 3 else 'thorough')
        for w in range(3) for n in (1, 2, 3)
    ] + [
        H('query-%d-%d-%d-%d%s' % (D, L, nt, nc, '-light' * li),
          query(D, L, nt, nc, li), FM,
          '%d observables, %d latents, every %d targets given %d others%s'
          % (D, L, nt, nc, ', one observable with free parameters' * li),
          stubs=sk, tier=tier)
        for D, L, nt, nc, li, tier in (
            (2, 1, 1, 0, 0, 'quick'), (2, 1, 1, 1, 0, 'quick'),
            (2, 1, 2, 0, 0, 'quick'), (2, 1, 1, 2, 0, 'quick'),
            (2, 1, 2, 1, 0, 'quick'), (2, 1, 3, 0, 0, 'quick'),
            (1, 1, 1, 1, 0, 'quick'),
            (2, 2, 1, 1, 0, 'quick'), (2, 2, 2, 1, 1, 'quick'),
            (2, 2, 1, 2, 1, 'quick'), (2, 2, 2, 2, 1, 'thorough'),
            (3, 1, 1, 2, 1, 'quick'), (3, 1, 2, 1, 1, 'quick'),
            (3, 1, 2, 2, 1, 'thorough'), (2, 2, 1, 2, 0, 'thorough'))
    ] + [
        H('draws-%d-%d-%d-%d%s' % (D, L, nt, nc, '-light' * li),
          draws(D, L, nt, nc, li), FM,
          '%d observables, %d latents, every %d targets given %d others'
          % (D, L, nt, nc), stubs=sk, tier=tier)
        for D, L, nt, nc, li, tier in (
            (2, 1, 1, 0, 0, 'quick'), (2, 1, 1, 1, 0, 'quick'),
            (2, 1, 2, 1, 0, 'quick'), (2, 1, 1, 2, 0, 'quick'),
            (2, 1, 3, 0, 0, 'quick'),
            (2, 2, 2, 1, 1, 'quick'), (3, 1, 2, 1, 1, 'quick'),
            (3, 1, 2, 2, 1, 'thorough'), (2, 2, 2, 2, 1, 'thorough'))
    ] + [
        H('held-rows', held(2, 1), FM, '2 observables, 1 latent, 2 rows, every '
          'missing cell', stubs=sk),
        H('held-rows-two-latents', held(2, 2, True), FM, '2 + 2, 2 rows',
          stubs=sk),
        H('held-rows-three', held(3, 1, True), FM, '3 + 1, 2 rows', stubs=sk,
          tier='thorough'),
        H('score-2', score(2, 1, 2), FM, '2 rows, every missing pattern',
          stubs=sk),
        H('score-3', score(2, 1, 3), FM, '3 rows, every missing pattern',
          stubs=sk, tier='thorough'),
        H('rows', rows_, FM, 'histories of up to 4 operations', stubs=sk,
          paths=20000),
        H('guards', guards, FM, 'every malformed call listed', stubs=sk),
        H('constructor', ctor, FM, 'every malformed construction listed',
          stubs=sk),
        H('fitting', fitting(2, 1), FM, '2 + 1, 2 rows', stubs=sk),
        H('fitting-two-latents', fitting(2, 2, 3), FM, '2 + 2, 3 rows',
          stubs=sk, tier='thorough'),
        H('round-trip', trip(2, 1), FM, '2 + 1', stubs=sk),
        H('round-trip-two-latents', trip(2, 2), FM, '2 + 2', stubs=sk),
    ]
