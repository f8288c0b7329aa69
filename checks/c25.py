"""C25: linear regression is the exact conjugate Bayesian posterior.

The reference is the marginal form: given the inputs, the responses are jointly
multivariate Student with 2a degrees of freedom, centre X mu and shape
(b/a) (I + X V X').  The code works in the posterior form of the regression
coefficients; the solver shows the two agree."""
import numpy as np

from vp.runner import H
from .laws import free_of
from .lib import Mth, posreal, student
from .vlib import try_

ASSUMPTIONS = ['a, b in [1/16, 16], responses and inputs in [-4, 4], prior '
               'means in [-2, 2]',
               'the random source draws exactly from the family and '
               'parameters requested (numpy contract)']
NAN = float('nan')


def det(A):
    n = len(A)
    if n == 0:
        return 1
    if n == 1:
        return A[0][0]
    return sum((-1) ** j * A[0][j] * det(
        [r[:j] + r[j + 1:] for r in A[1:]]) for j in range(n))


def arr(E, x):
    return np.array(x, dtype=object if E.symbolic else float)


def quad(A, r):
    """r' inv(A) r by cofactors."""
    n, d = len(A), det(A)
    if n == 0:
        return 0
    t = 0
    for i in range(n):
        for j in range(n):
            m = det([[A[k][l] for l in range(n) if l != j]
                     for k in range(n) if k != i])
            t = t + (-1) ** (i + j) * m * r[i] * r[j]
    return t / d


class Ref(object):
    def __init__(self, E, p, mu=None, V=None):
        self.E, self.M, self.p = E, Mth(E), p
        self.a, self.b = posreal(E, 'a'), posreal(E, 'b')
        self.mu, self.V = mu, V

    def hypers(self):
        h = {'a': self.a, 'b': self.b}
        if self.mu is not None:
            h['mu'] = arr(self.E, self.mu)
        if self.V is not None:
            h['V'] = arr(self.E, self.V)
        return h

    def marginal(self, rows, hy=None):
        """log density of the responses; rows: [(response, code)]."""
        M, p, n = self.M, self.p, len(rows)
        a, b = hy or (self.a, self.b)
        if n == 0:
            return 0
        mu = self.mu or [0] * p
        V = self.V or [[int(i == j) for j in range(p)] for i in range(p)]
        S = [[sum(x[i] * V[i][j] * z[j] for i in range(p) for j in range(p))
              + int(k == l) for l, (_, z) in enumerate(rows)]
             for k, (_, x) in enumerate(rows)]
        r = [y - sum(x[i] * mu[i] for i in range(p)) for y, x in rows]
        h = M.half()
        return (M.lgamma(a + n * h) - M.lgamma(a) + a * M.log(b)
                - n * h * M.log(2 * M.pi) - h * M.log(det(S))
                - (a + n * h) * M.log(b + quad(S, r) * h))

    def predictive(self, rows, y, x, hy=None):
        return self.marginal(rows + [(y, x)], hy) - self.marginal(rows, hy)


# kinds of inputs: list of None (a real) or the number of categories
class Model(object):
    def __init__(self, E, U, kinds, mu=None, V=None, rng=None):
        self.kinds = kinds
        self.inputs = [5, 3, 8][:len(kinds)]
        p = 1 + sum(1 if k is None else k for k in kinds)
        self.ref = Ref(E, p, mu(p) if mu else None, V(p) if V else None)
        self.E, self.U = E, U

    def build(self, rng=None, rows=()):
        L = self.U['regressions.linreg'].LinearRegression
        m = L(outputs=[0], inputs=list(self.inputs),
              hypers=self.ref.hypers(), rng=rng, distargs={'inputs': {
                  'stattypes': ['normal' if k is None else 'categorical'
                                for k in self.kinds],
                  'statargs': [None if k is None else {'k': k}
                               for k in self.kinds]}})
        for r, y, v in rows:
            m.incorporate(r, {0: y}, self.ins(v))
        return m

    def ins(self, v):
        # in the reverse of the declared order
        return dict(reversed(list(zip(self.inputs, v))))

    def draw(self, tag, fixed=None):
        E = self.E
        y = E.real('y' + tag, -4, 4)
        v = []
        for j, k in enumerate(self.kinds):
            if k is None:
                v.append(E.real('v%s_%d' % (tag, j), -4, 4)
                         if fixed is None else E.const(fixed) + 0)
            else:
                v.append(E.choose('c%s_%d' % (tag, j), k + 1)
                         if fixed is None else int(2 * fixed) % (k + 1))
        return y, v

    def code(self, v):
        """Bias, reals as they are, one indicator per category (the last
        index stands for an unknown category: no indicator)."""
        c = [1]
        for k, x in zip(self.kinds, v):
            if k is None:
                c.append(x)
            else:
                c += [int(x == i) for i in range(k)]
        return c

    def rows(self, data):
        return [(y, self.code(v)) for y, v in data]


def means(E):
    return lambda p: [E.real('m%d' % i, -2, 2) for i in range(p)]


def cov(E):
    def V(p):
        return [[E.const(2) if i == j else E.const('1/2') for j in range(p)]
                for i in range(p)]
    return V


def density(kinds, n, mu=False, V=False, fixed=False):
    """Scores and densities equal ratios of marginal likelihoods."""
    def h(E, U):
        m = Model(E, U, kinds, mu and means(E), V and cov(E))
        data = [m.draw(str(i), 0.5 if fixed and i else None)
                for i in range(n)]
        q = m.draw('q')
        s = m.build()
        rows = m.rows(data)
        E.check_eq(s.logpdf_score(), 0, 'score-of-no-data')
        for i, (y, v) in enumerate(data):
            s.incorporate(10 * i, {0: y}, m.ins(v))
            E.check(s.N == i + 1, 'count')
            if i < n - 1:
                E.check_eq(s.logpdf_score(), m.ref.marginal(rows[:i + 1]),
                           'score')
        E.check_eq(s.logpdf_score(), m.ref.marginal(rows), 'score')
        E.check_eq(s.logpdf(-1, {0: q[0]}, None, m.ins(q[1])),
                   m.ref.predictive(rows, q[0], m.code(q[1])), 'density')
        s2 = s.logpdf_score()
        lp = s.logpdf(None, {0: q[0]}, None, m.ins(q[1]))
        s.incorporate(99, {0: q[0]}, m.ins(q[1]))
        E.check_eq(s.logpdf_score() - s2, lp, 'density-is-score-increment')
    return h


def histories(kinds, steps):
    """Any order of additions and removals: only the rows held matter."""
    def h(E, U):
        m = Model(E, U, kinds, means(E))
        pool = {r: m.draw(str(r), r / 2. if r != 7 else None)
                for r in (7, 1, 4)}
        s = m.build()
        held = []
        for i in range(steps):
            r = E.choose('op%d' % i, [7, 1, 4])
            y, v = pool[r]
            if r in held:
                s.unincorporate(r)
                held.remove(r)
            else:
                s.incorporate(r, {0: y}, m.ins(v))
                held.append(r)
        E.check(s.N == len(held) and set(s.data.x) == set(held)
                and set(s.data.Y) == set(held), 'rows-held')
        rows = m.rows([pool[r] for r in sorted(held)])
        E.check_eq(s.logpdf_score(), m.ref.marginal(rows), 'score')
        y, v = m.draw('q', 1)
        E.check_eq(s.logpdf(-1, {0: y}, None, m.ins(v)),
                   m.ref.predictive(rows, y, m.code(v)), 'density')
    return h


def rejected(kinds):
    def h(E, U):
        m = Model(E, U, kinds)
        y, v = m.draw('0')
        s = m.build(rows=[(3, y, v)])
        good = m.ins(v)
        k = m.inputs[0]
        cat = [i for i, c in zip(m.inputs, kinds) if c is not None]
        bad = {
            'duplicate-row': (3, {0: y}, good, Exception),
            'missing-response': (4, {0: NAN}, good, ValueError),
            'no-response': (4, {}, good, ValueError),
            'other-response': (4, {1: y}, good, ValueError),
            'missing-input': (4, {0: y}, {}, ValueError),
            'extra-input': (4, {0: y}, dict(good, **{77: 1}), ValueError)
            if False else (4, {0: y}, dict(list(good.items()) + [(77, 1)]),
                           ValueError),
            'response-as-input': (4, {0: y}, dict(list(good.items())
                                                  + [(0, 1)]), ValueError),
        }
        if cat:
            c = cat[0]
            n = kinds[m.inputs.index(c)]
            bad['category-too-large'] = (4, {0: y}, dict(
                list(good.items()) + [(c, n + 1)]), ValueError)
            bad['category-negative'] = (4, {0: y}, dict(
                list(good.items()) + [(c, -1)]), ValueError)
            bad['category-fraction'] = (4, {0: y}, dict(
                list(good.items()) + [(c, .5)]), TypeError)
        name = E.choose('bad', sorted(bad))
        r, obs, ins, kind = bad[name]
        e = try_(lambda: s.incorporate(r, dict(obs), dict(ins)))
        E.check(isinstance(e, kind), 'rejected-' + name)
        if name != 'duplicate-row':
            e = try_(lambda: s.logpdf(-1, dict(obs), None, dict(ins)))
            E.check(isinstance(e, (ValueError, TypeError, AttributeError))
                    or not obs, 'query-rejected-' + name)
        e = try_(lambda: s.unincorporate(4))
        E.check(isinstance(e, ValueError), 'unknown-row')
        E.check(s.N == 1 and list(s.data.x) == [3] and list(s.data.Y) == [3],
                'unchanged')
        E.check_eq(s.logpdf_score(), m.ref.marginal(m.rows([(y, v)])),
                   'unchanged-score')
        s.unincorporate(3)
        E.check_eq(s.logpdf_score(), 0, 'empty-again')
    return h


def simulate(kinds, n, mu=False):
    """The compound of the draws is the Student predictive density."""
    def h(E, U):
        m = Model(E, U, kinds, mu and means(E))
        data = [m.draw(str(i), 0.5 if i else None) for i in range(n)]
        N = E.choose('N', [None, 1, 2])
        _, v = m.draw('q')
        x = m.code(v)
        M = m.ref.M

        def run(rng):
            s = m.build(rng, [(i, y, w) for i, (y, w) in enumerate(data)])
            return s.simulate([-1, None, 50][E.choose('row', 3)], [0],
                              None, m.ins(v), N)
        outs = E.enumerate_random(run)
        E.check(len(outs) == 1, 'single-outcome')
        o, = outs
        vals = [o.value] if N is None else o.value
        E.check(isinstance(vals, list) and len(vals) == (N or 1),
                'N-samples-shape')
        per = len(o.log) // len(vals)
        s = m.build(None, [(i, y, w) for i, (y, w) in enumerate(data)])
        for i, got in enumerate(vals):
            E.check(list(got) == [0], 'sample-shape')
            log = o.log[i * per:(i + 1) * per]
            E.check([d.family for d in log] == [
                'gamma', 'mvn', 'normal'], 'draws')
            g, w, z = log
            k, th = g.params
            mean, C = w.params
            E.check_eq(got[0], z.value, 'returns-drawn-value')
            E.check_eq(z.params[0], sum(a * b for a, b in zip(x, w.value)),
                       'location-is-the-drawn-line')
            E.check_eq(z.params[1] * z.params[1] * g.value, 1,
                       'precision-is-drawn')
            q = sum(x[i] * C[i][j] * x[j] for i in range(m.ref.p)
                    for j in range(m.ref.p)) * g.value
            E.check(free_of(E, q, g.value), 'spread-scales-with-precision')
            loc = sum(a * b for a, b in zip(x, mean))
            E.check_eq(student(M, z.value, 2 * k, loc, (1 + q) / (k * th)),
                       s.logpdf(-1, {0: z.value}, None, m.ins(v)),
                       'sample-density')
    return h


def stored(E, U):
    m = Model(E, U, [None, 2])
    data = [m.draw(str(i), 0.5) for i in range(2)]
    N = E.choose('N', [None, 1, 3])
    r = E.choose('row', 2)

    def run(rng):
        s = m.build(rng, [(i, y, w) for i, (y, w) in enumerate(data)])
        return s.simulate(r, [0], None, m.ins(data[r][1]), N)
    for o in E.enumerate_random(run):
        vals = [o.value] if N is None else o.value
        E.check(len(vals) == (N or 1), 'N-samples-shape')
        for x in vals:
            E.check_eq(x[0], data[r][0], 'observed-row-returns-stored-value')


def hyper(E, U):
    """set_hypers takes effect, get_hypers reports it."""
    m = Model(E, U, [None], means(E))
    data = [m.draw(str(i), 0.5 if i else None) for i in range(2)]
    s = m.build(None, [(i, y, w) for i, (y, w) in enumerate(data)])
    a, b = posreal(E, 'a2'), posreal(E, 'b2')
    s.set_hypers({'a': a, 'b': b})
    g = s.get_hypers()
    E.check_eq(g['a'], a, 'reported-hypers')
    E.check_eq(g['b'], b, 'reported-hypers')
    rows = m.rows(data)
    E.check_eq(s.logpdf_score(), m.ref.marginal(rows, (a, b)), 'score')
    y, v = m.draw('q', 1)
    E.check_eq(s.logpdf(-1, {0: y}, None, m.ins(v)),
               m.ref.predictive(rows, y, m.code(v), (a, b)), 'density')


def transition(which):
    """One redraw of a hyperparameter from its grid conditional."""
    def h(E, U):
        m = Model(E, U, [None])
        y, v = m.draw('0')
        rows = m.rows([(y, v)])
        M = m.ref.M
        L = U['regressions.linreg'].LinearRegression
        a, b = m.ref.a, m.ref.b
        alt = posreal(E, 'alt')
        grid = {'a': [a], 'b': [b]}
        grid[which] = [grid[which][0], alt]
        L.construct_hyper_grids = staticmethod(
            lambda X, n_grid=300: {k: list(x) for k, x in grid.items()})

        def run(rng):
            s = m.build(rng, [(0, y, v)])
            s.transition(N=1)
            return s
        outs = E.enumerate_random(run)
        score = [m.ref.marginal(rows, (a, b)), m.ref.marginal(
            rows, (alt, b) if which == 'a' else (a, alt))]
        E.check(len(outs) == 2, 'one-random-choice')
        w = {}
        for o in outs:
            i = o.script[0]
            w[i] = o.weight
            hy = o.value.get_hypers()
            E.check_eq(hy[which], grid[which][i], 'chosen-grid-point')
            other = 'b' if which == 'a' else 'a'
            E.check_eq(hy[other], grid[other][0], 'other-unchanged')
        E.check_eq(w[0] + w[1], 1, 'probabilities-sum-to-one')
        E.check_eq(M.log(w[0]) - M.log(w[1]), score[0] - score[1],
                   'grid-conditional')
    return h


def unsupported(E, U):
    """Inputs that cannot be coded are refused by name."""
    L = U['regressions.linreg'].LinearRegression
    ct, ca = [('bernoulli', None), ('bernoulli', {}), ('categorical', None),
              ('crp', None)][E.choose('kind', 4)]
    e = try_(lambda: L([0], [1, 2], distargs={'inputs': {
        'stattypes': ['normal', ct], 'statargs': [None, ca]}}))
    E.check(isinstance(e, ValueError) and
            not isinstance(e, UnboundLocalError), 'input-refused')


MODS = ['regressions.linreg', 'utils.data', 'mixtures.dim', 'utils.general']


def harnesses():
    def mk(name, fn, bounds, **k):
        return H(name, fn, modules=MODS, bounds=bounds, **k)
    R = None
    return [
        mk('density-one', density([R], 1, True, True),
           '1 row and a query, 1 real input, any prior mean'),
        mk('density-two', density([R], 2), '2 rows and a query, 1 real input'),
        mk('density-two-mean', density([R], 2, True, fixed=True),
           '2 rows (one with fixed input), any prior mean'),
        mk('density-two-inputs', density([R, R], 1),
           '1 row and a query, 2 real inputs'),
        mk('density-category', density([2], 2),
           '2 rows, 1 categorical input'),
        mk('density-mixed', density([2, R], 1), '1 row, both kinds of input'),
        mk('density-mixed-back', density([R, 2], 1),
           '1 row, both kinds of input'),
        mk('histories', histories([R], 3), '3 operations on 3 rows'),
        mk('histories-category', histories([2], 3), '3 operations on 3 rows'),
        mk('rejected', rejected([R, 2]), '1 row'),
        mk('rejected-real', rejected([R]), '1 row'),
        mk('simulate', simulate([R], 1, True), '1 row, 1 real input'),
        mk('simulate-prior', simulate([R, 2], 0), 'no rows'),
        mk('simulate-two', simulate([R], 2), '2 rows'),
        mk('simulate-category', simulate([2], 1), '1 row, categorical input'),
        mk('stored', stored, '2 rows'),
        mk('hypers', hyper, '2 rows'),
        mk('transition-a', transition('a'), '1 row, grid of 2'),
        mk('transition-b', transition('b'), '1 row, grid of 2'),
        mk('unsupported', unsupported, '4 kinds of input'),
        mk('density-three', density([R], 3, fixed=True), '3 rows',
           tier='thorough', thorough_seconds=1500),
        mk('density-two-real', density([R, R], 2, fixed=True),
           '2 rows, 2 real inputs', tier='thorough', thorough_seconds=1500),
        mk('histories-long', histories([R], 5), '5 operations on 3 rows',
           tier='thorough', thorough_seconds=1500, paths=5000),
    ]
