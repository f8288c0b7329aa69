"""C38: the entropy estimators equal their published formulas.

References: plug-in entropies over counted frequencies; Kozachenko-Leonenko
entropy, Kraskov-Stoegbauer-Grassberger (first algorithm) mutual information,
its conditional form, and the nearest-neighbour divergence estimator, written
from the papers with a brute-force neighbour search."""
import itertools
import math
import types

import numpy as np

from vp import sym as S
from vp.runner import H
from .lib import Mth

ASSUMPTIONS = ['points in [-4, 4]; no two closer than 1e-6 in a coordinate, '
               'and no distance within 1e-6 of the radius it is compared '
               'with unless equal to it (the code adds noise to break ties)',
               'the k-d tree answers exact queries (a brute-force stand-in '
               'symbolically, scipy itself in the replays)',
               'the noise drawn is zero, except in the harness about it']
INF = float('inf')


# ------------------------------------------------------------ environment

def maxnorm(p, q):
    m = 0
    for a, b in zip(p, q):
        d = a - b
        d = d if bool(d >= 0) else -d
        m = d if bool(d > m) else m
    return m


class Tree(object):
    def __init__(self, points):
        self.points = [list(p) for p in points]
        n = len(self.points[0])
        assert all(len(p) == n for p in self.points)

    def query(self, x, k=1, p=2.):
        assert p == INF
        d = [maxnorm(x, y) for y in self.points]
        order = sorted(range(len(d)), key=lambda i: d[i])
        d = [d[i] for i in order] + [INF] * k
        order = (order + [len(order)] * k)[:k]
        if k == 1:
            return d[0], order[0]
        return d[:k], order

    def query_ball_point(self, x, r, p=2.):
        assert p == INF
        return [i for i, y in enumerate(self.points)
                if bool(maxnorm(x, y) <= r)]


class Box(object):
    noise = None
    shuffles = None


def rand(n):
    return np.array([Box.noise() if Box.noise else 0 for _ in range(n)],
                    dtype=object)


def frand(n):
    return np.array([Box.noise() if Box.noise else 0 for _ in range(n)],
                    dtype=float)


def env(symbolic):
    nr = types.ModuleType('numpy.random')
    nr.rand = rand if symbolic else frand
    rd = types.ModuleType('random')

    def shuffle(xs):
        perm = Box.shuffles(len(xs))
        xs[:] = [xs[i] for i in perm]
    rd.shuffle = shuffle
    d = {'numpy.random': nr, 'random': rd}
    if symbolic:
        ss = types.ModuleType('scipy.spatial')
        ss.cKDTree = Tree
        d['scipy.spatial'] = ss
    return d


# -------------------------------------------------------------- references

class Ref(object):
    def __init__(self, E):
        self.E, self.M = E, Mth(E)
        self.eps = E.const('1/1000000')

    def psi(self, n):
        if self.E.symbolic:
            return S.uf('digamma', n)
        import scipy.special
        return float(scipy.special.digamma(n))

    def nth(self, p, pts, k):
        return sorted((maxnorm(p, q) for q in pts))[k - 1]

    def entropy(self, x, k, base):
        d, N, M = len(x[0]), len(x), self.M
        tot = 0
        for i, p in enumerate(x):
            tot += M.log(self.nth(p, x[:i] + x[i + 1:], k))
        return (self.psi(N) - self.psi(k) + M.log(self.E.const(2)) * d +
                tot * d / N) / M.log(base)

    def inside(self, p, pts, r):
        """Points strictly nearer than r, the point itself among them."""
        n = 0
        for q in pts:
            z = r - maxnorm(p, q)
            if bool(z > 0):
                self.E.assume(z > self.eps)
                n += 1
            elif not (isinstance(z, S.Sym) and z.is_const()):
                self.E.assume(z < -self.eps if bool(z < 0) else z == 0)
        return n

    def radii(self, x, k):
        return [self.nth(p, x[:i] + x[i + 1:], k) for i, p in enumerate(x)]

    def avgpsi(self, pts, rs):
        return sum(self.psi(self.inside(p, pts, r))
                   for p, r in zip(pts, rs)) / self.E.const(len(pts))

    def mi(self, x, y, k, base):
        rs = self.radii([a + b for a, b in zip(x, y)], k)
        return (self.psi(k) + self.psi(len(x)) - self.avgpsi(x, rs) -
                self.avgpsi(y, rs)) / self.M.log(base)

    def cmi(self, x, y, z, k, base):
        rs = self.radii([a + b + c for a, b, c in zip(x, y, z)], k)
        xz = [a + c for a, c in zip(x, z)]
        yz = [b + c for b, c in zip(y, z)]
        return (self.psi(k) - self.avgpsi(xz, rs) - self.avgpsi(yz, rs) +
                self.avgpsi(z, rs)) / self.M.log(base)

    def kldiv(self, x, xp, k, base):
        d, n, m, M = len(x[0]), len(x), len(xp), self.M
        tot = 0
        for i, p in enumerate(x):
            tot += M.log(self.nth(p, xp, k)) - \
                M.log(self.nth(p, x[:i] + x[i + 1:], k))
        return (tot * d / n + M.log(self.E.const(m)) -
                M.log(self.E.const(n - 1))) / M.log(base)

    def plug(self, xs, base):
        n = len(xs)
        seen = []
        for v in xs:
            for s in seen:
                if s[0] == v:
                    s[1] += 1
                    break
            else:
                seen.append([v, 1])
        h = 0
        for _, c in seen:
            q = self.E.const('%d/%d' % (c, n))
            h -= q * self.M.log(q) if c < n else 0
        return h / self.M.log(base)


def points(E, tag, n, d, free=None):
    """n points of dimension d; the coordinates not free are fixed, uneven."""
    out, i = [], 0
    for r in range(n):
        p = []
        for c in range(d):
            if free is None or (r, c) in free:
                p.append(E.real('%s%d_%d' % (tag, r, c), -4, 4))
            else:
                v = [0, 37, -53, 91, -17, 68][(2 * r + 3 * c) % 6] + 3 * r + c
                p.append(E.const('%d/50' % v))
        out.append(p)
    return out


def apart(E, *sets):
    """No two points coincide in any coordinate."""
    eps = E.const('1/1000000')
    for x in sets:
        for c in range(len(x[0])):
            for p, q in itertools.combinations(x, 2):
                d = p[c] - q[c]
                if isinstance(d, S.Sym) and not d.is_const() or \
                        not E.symbolic:
                    E.assume(d > eps if bool(d > 0) else d < -eps)


def base_of(E):
    return E.const(E.choose('base', [2, 3]))


def entropy(n, d, free=None):
    def h(E, U):
        Box.noise = None
        ee, R = U['utils.entropy_estimators'], Ref(E)
        x = points(E, 'x', n, d, free)
        apart(E, x)
        k = E.choose('k', list(range(1, n + 1)))
        b = base_of(E)
        if k == n:
            try:
                ee.entropy([list(p) for p in x], k, b)
            except Exception:
                return
            E.check(False, 'too-few-samples-accepted')
            return
        E.check_eq(ee.entropy([list(p) for p in x], k, b),
                   R.entropy(x, k, b), 'entropy-formula')
    return h


def defaults(E, U):
    """k = 3 and base 2 when left out."""
    Box.noise = None
    ee, R = U['utils.entropy_estimators'], Ref(E)
    x = points(E, 'x', 5, 1, {(0, 0)})
    y = [[E.const('%d/10' % v)] for v in (3, -11, 7, 25, 16)]
    z = [[E.const('%d/10' % v)] for v in (-20, 31, 12, 2, -9)]
    apart(E, x)
    E.assume(x[0][0] > E.const('9/10'))
    two = E.const(2)
    c = lambda v: [list(p) for p in v]
    E.check_eq(ee.entropy(c(x)), R.entropy(x, 3, two), 'entropy-defaults')
    E.check_eq(ee.mi(c(x), c(y)), R.mi(x, y, 3, two), 'mi-defaults')
    E.check_eq(ee.kldiv(c(y), c(z)), R.kldiv(y, z, 3, two), 'kl-defaults')
    E.check_eq(ee.cmi(c(y), c(z), c(x)), R.cmi(y, z, x, 3, two),
               'cmi-defaults')


def mutual(n, dx, dy, free):
    def h(E, U):
        Box.noise = None
        ee, R = U['utils.entropy_estimators'], Ref(E)
        w = points(E, 'w', n, dx + dy, free)
        x, y = [p[:dx] for p in w], [p[dx:] for p in w]
        apart(E, w)
        k = E.choose('k', list(range(1, n)))
        b = base_of(E)
        got = ee.mi([list(p) for p in x], [list(p) for p in y], k, b)
        E.check_eq(got, R.mi(x, y, k, b), 'mi-formula')
    return h


def cmutual(n, free):
    def h(E, U):
        Box.noise = None
        ee, R = U['utils.entropy_estimators'], Ref(E)
        w = points(E, 'w', n, 3, free)
        x, y, z = ([p[i:i + 1] for p in w] for i in range(3))
        apart(E, w)
        k = E.choose('k', list(range(1, n)))
        b = base_of(E)
        got = ee.cmi(*([list(p) for p in v] for v in (x, y, z)), k=k, base=b)
        E.check_eq(got, R.cmi(x, y, z, k, b), 'cmi-formula')
    return h


def divergence(n, m, d, free):
    def h(E, U):
        ee, R = U['utils.entropy_estimators'], Ref(E)
        w = points(E, 'w', n + m, d, free)
        apart(E, w)
        x, xp = w[:n], w[n:]
        k = E.choose('k', list(range(1, min(n, m) + 1)))
        b = base_of(E)
        call = lambda: ee.kldiv([list(p) for p in x], [list(p) for p in xp],
                                k, b)
        if k > min(n, m) - 1:
            try:
                call()
            except Exception:
                return
            E.check(False, 'too-few-samples-accepted')
            return
        E.check_eq(call(), R.kldiv(x, xp, k, b), 'divergence-formula')
    return h


def discrete(n):
    def h(E, U):
        ee, R = U['utils.entropy_estimators'], Ref(E)
        b = base_of(E)
        x = [E.int('x%d' % i, 0, 2, flt=False) for i in range(n)]
        y = [E.int('y%d' % i, 0, 1, flt=False) for i in range(n)]
        hx = R.plug(x, b)
        E.check_eq(ee.entropyd(x, b), hx, 'plug-in-entropy')
        xy = list(zip(x, y))
        E.check_eq(ee.midd(x, y, b),
                   hx + R.plug(y, b) - R.plug(xy, b),
                   'plug-in-mutual-information')
        if E.choose('base-default', 2):
            E.check_eq(ee.entropyd(x), R.plug(x, E.const(2)),
                       'plug-in-entropy')
    return h


def cdiscrete(n):
    def h(E, U):
        ee, R = U['utils.entropy_estimators'], Ref(E)
        b = base_of(E)
        x, y, z = ([E.int('%s%d' % (t, i), 0, 1, flt=False)
                    for i in range(n)] for t in 'xyz')
        want = R.plug(list(zip(x, z)), b) + R.plug(list(zip(y, z)), b) - \
            R.plug(list(zip(x, y, z)), b) - R.plug(z, b)
        E.check_eq(ee.cmidd(x, y, z, b), want,
                   'plug-in-conditional-mutual-information')
    return h


def probs(E, U):
    """The entropy of any probability vector."""
    ee, M = U['utils.entropy_estimators'], Mth(E)
    p = [E.real('p%d' % i, 0, 1) for i in range(2)]
    E.assume(p[0] + p[1] <= 1)
    p.append(1 - p[0] - p[1])
    b = base_of(E)
    want = 0
    for q in p:
        if bool(q > 0) and bool(q < 1):
            want -= q * M.log(q)
    E.check_eq(ee.entropyfromprobs(p, b), want / M.log(b), 'entropy-of-vector')


def mixed(E, U):
    """Continuous against discrete: overall entropy less the weighted entropies
    within each class; classes too small count as the overall entropy."""
    Box.noise = None
    ee, R = U['utils.entropy_estimators'], Ref(E)
    n = 5
    x = points(E, 'x', n, 1, {(0, 0)})
    apart(E, x)
    y = E.choose('y', [[0, 0, 1, 1, 0], [2, 1, 2, 1, 2], [0, 0, 0, 0, 0],
                       [0, 0, 0, 1, 0], [0, 1, 2, 0, 0]])
    k = E.choose('k', [1, 2])
    b = base_of(E)
    h = R.entropy(x, k, b)
    want = h
    for v in sorted(set(y)):
        sub = [x[i] for i in range(n) if y[i] == v]
        want -= (R.entropy(sub, k, b) if k <= len(sub) - 1 else h) * \
            E.const('%d/%d' % (len(sub), n))
    E.check_eq(ee.micd([list(p) for p in x], y, k, b, warning=False), want,
               'mixed-estimator')


def noise(E, U):
    """The noise that breaks ties does not move an estimate."""
    ee, M, R = U['utils.entropy_estimators'], Mth(E), Ref(E)
    a = E.real('a', -4, 4)
    gap = E.real('gap', '1/8', 4)
    us = iter([E.const(v) for v in E.choose('draws', [
        ['0', '999/1000'], ['999/1000', '0'], ['1/2', '1/4']])])
    Box.noise = lambda: next(us)
    try:
        got = ee.entropy([[a], [a + gap]], 1, E.const(2))
    finally:
        Box.noise = None
    # two points: both distances are the gap
    d = M.exp(got * M.log(E.const(2)) - R.psi(2) + R.psi(1)) / 2
    tol = E.const('1/100000000')
    E.check(d - gap <= tol, 'noise-is-negligible')
    E.check(gap - d <= tol, 'noise-is-negligible')


def shuffled(E, U):
    """Every value is the measure at a rearrangement of x, sorted; x and y
    stay as they were."""
    ee = U['utils.entropy_estimators']
    x = [E.real('x%d' % i, -4, 4) for i in range(3)]
    perms = list(itertools.permutations(range(3)))
    picks = [perms[E.choose('perm%d' % i, len(perms))] for i in range(2)]
    it = iter(picks)
    Box.shuffles = lambda n: next(it)
    y, z = ['a', 'b', 'c'], [7, 8, 9]
    seen = []
    cond = E.choose('conditional', 2)

    def measure(xs, ys, zs=None, scale=None):
        E.check(ys == y and (zs == z if cond else zs is None) and
                scale == 5, 'other-arguments-unchanged')
        seen.append(list(xs))
        return xs[0] * 2 + xs[1]
    keep = list(x)
    out = ee.shuffle_test(measure, x, y, z if cond else False, ns=2, scale=5)
    E.check(all(a is b for a, b in zip(x, keep)) and len(x) == 3,
            'input-unchanged')
    E.check(len(seen) == len(out) == 2, 'one-value-per-run')
    cur, want = list(keep), []
    for s, p in zip(seen, picks):
        cur = [cur[i] for i in p]
        E.check(all(a is b for a, b in zip(s, cur)), 'rearrangement-of-x')
        want.append(cur[0] * 2 + cur[1])
    if bool(want[1] < want[0]):
        want.reverse()
    for a, b in zip(out, want):
        E.check_eq(a, b, 'values-sorted')


def vectors(E, U):
    ee = U['utils.entropy_estimators']
    x = [E.real('x%d' % i, -4, 4) for i in range(E.choose('n', 4))]
    v = ee.vectorize(x)
    E.check(len(v) == len(x) and all(len(p) == 1 for p in v), 'vectorize')
    for p, q in zip(v, x):
        E.check_eq(p[0], q, 'vectorize')


def harnesses():
    m = ['utils.entropy_estimators']

    def h(name, fn, bounds, **k):
        return H(name, fn, modules=m, bounds=bounds, stubs=env, **k)
    return [
        h('entropy-line', entropy(3, 1), '3 points on a line, k up to 2'),
        h('entropy-line-4', entropy(4, 1, {(0, 0), (1, 0)}),
          '4 points on a line, 2 of them free, k up to 3'),
        h('entropy-plane', entropy(3, 2, {(0, 0), (1, 1)}),
          '3 points in the plane, 2 coordinates free'),
        h('mutual', mutual(3, 1, 1, {(0, 0)}),
          '3 pairs, 1 coordinate free'),
        h('mutual-free', mutual(3, 1, 1, {(0, 0), (1, 1)}),
          '3 pairs, 2 coordinates free', tier='thorough'),
        h('conditional-mutual-free', cmutual(3, {(0, 0), (1, 2)}),
          '3 triples, 2 coordinates free', tier='thorough', paths=20000,
          seconds=600),
        h('entropy-line-free', entropy(4, 1, {(0, 0), (1, 0), (2, 0)}),
          '4 points on a line, 3 of them free', tier='thorough',
          paths=20000, seconds=600),
        h('divergence-free', divergence(3, 3, 2, {(0, 0), (1, 1), (4, 0)}),
          '3 against 3 points of the plane, 3 coordinates free',
          tier='thorough', paths=20000, seconds=600),
        h('mutual-4', mutual(4, 1, 1, {(0, 0)}),
          '4 pairs, 1 coordinate free'),
        h('mutual-wide', mutual(3, 2, 1, {(1, 2)}),
          '3 pairs of a plane vector and a number, 1 coordinate free'),
        h('conditional-mutual', cmutual(4, {(0, 0)}),
          '4 triples, 1 coordinate free'),
        h('divergence', divergence(3, 3, 1, {(0, 0), (3, 0)}),
          '3 against 3 points, 2 of them free'),
        h('divergence-plane', divergence(3, 2, 2, {(3, 1)}),
          '3 against 2 points of the plane, 1 coordinates free'),
        h('defaults', defaults, '5 points, one free'),
        h('discrete', discrete(3), '3 samples of 3 and of 2 values'),
        h('discrete-4', discrete(4), '4 samples', tier='thorough',
          paths=20000),
        h('conditional-discrete', cdiscrete(3), '3 samples of binary triples'),
        h('probabilities', probs, 'any three probabilities'),
        h('mixed', mixed, '5 points in up to 3 classes, one of them free'),
        h('noise', noise, '2 points, any gap from 1/8'),
        h('shuffle', shuffled, '3 points, 2 runs, every rearrangement'),
        h('vectorize', vectors, 'up to 3 numbers'),
    ]
