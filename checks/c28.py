"""C28: kernel density conditionals are joint over marginal.

References: the product kernel written out (Gaussian for numerical columns,
Aitchison-Aitken over the declared categories otherwise), averaged over the
held rows complete in the variables of the query."""
import copy
import types

import numpy as np

from vp.runner import H
from .c20 import same
from .lib import Mth
from .vlib import try_

ASSUMPTIONS = ['bandwidths in [1/8, 4] (numerical) and [1/32, 1/2] '
               '(categorical), values in [-2, 2]',
               'statsmodels kernels are those of its documentation '
               '(transcribed for symbolic execution, the library itself in '
               'the replays)']
NAN = float('nan')
NUM, CAT, CAT2 = ('numerical', None), ('categorical', 3), ('nominal', 2)
IDS = [6, 2, 9]


# ------------------------------------------------ statsmodels, symbolically

def kernel_aa(h, Xi, x, num_levels=None):
    Xi = list(np.ravel(Xi))
    if num_levels is None:
        num_levels = len(set(Xi))
    return np.array([(1 - h) if bool(v == x) else h / (num_levels - 1)
                     if num_levels != 1 else float('inf')
                     for v in Xi], dtype=object)


def kernel_gauss(E):
    def g(h, Xi, x):
        M = Mth(E())
        return np.array([M.exp(-(v - x) * (v - x) / (h * h * 2))
                         / M.sqrt(2 * M.pi) for v in np.ravel(Xi)],
                        dtype=object)
    return g


class Box(object):
    E = None
    fits = []
    give = None


def sm(symbolic):
    base = types.ModuleType('statsmodels.nonparametric')
    pk = types.ModuleType('statsmodels')
    pk.nonparametric = base
    d = {'statsmodels': pk, 'statsmodels.nonparametric': base}
    gauss = kernel_gauss(lambda: Box.E)

    def gpke(bw, data, data_predict, var_type, tosum=True, **k):
        data = np.asarray(data, dtype=object)
        p = 1
        for i, t in enumerate(var_type):
            p = p * (gauss(bw[i], data[:, i], data_predict[i]) / bw[i]
                     if t == 'c' else
                     kernel_aa(bw[i], data[:, i], data_predict[i]))
        return sum(p) if tosum else p

    class Joint(object):
        def __init__(self, data, var_type, bw=None, **k):
            Box.fits.append(([list(r) for r in data], var_type, bw))
            if len(data) <= len(var_type) and not isinstance(bw, str):
                raise ValueError('more observations than variables needed')
            self.data, self.t = data, var_type
            self.bw = np.array(Box.give, dtype=object) \
                if isinstance(bw, str) else bw

        def pdf(self, q):
            return gpke(self.bw, self.data, q, self.t) / len(self.data)

    class Cond(object):
        def __init__(self, endog, exog, dep_type, indep_type, bw, **k):
            self.a = np.column_stack((endog, exog))
            self.b, self.t, self.u, self.bw = exog, dep_type, indep_type, bw

        def pdf(self, q, c):
            return gpke(self.bw, self.a, list(q) + list(c),
                        self.t + self.u) / gpke(
                self.bw[len(self.t):], self.b, list(c), self.u)

    for n, x in (('kernels', {'aitchison_aitken': kernel_aa,
                              'gaussian': gauss}),
                 ('_kernel_base', {'gpke': gpke}),
                 ('kernel_density', {'KDEMultivariate': Joint,
                                     'KDEMultivariateConditional': Cond})):
        m = types.ModuleType('statsmodels.nonparametric.' + n)
        m.__dict__.update(x)
        setattr(base, n, m)
        d['statsmodels.nonparametric.' + n] = m
    if not symbolic:
        # the library itself, but a recorded bandwidth search
        from statsmodels.nonparametric import _kernel_base, kernels, \
            kernel_density
        base._kernel_base, base.kernels = _kernel_base, kernels
        kd = types.ModuleType('statsmodels.nonparametric.kernel_density')
        kd.__dict__.update({k: v for k, v in kernel_density.__dict__.items()
                            if not k.startswith('__')})

        class Real(kernel_density.KDEMultivariate):
            def __init__(self, data, var_type, bw=None, **k):
                if isinstance(bw, str):
                    Box.fits.append(([list(r) for r in data], var_type, bw))
                    self.bw = np.array([float(b) for b in Box.give])
                else:
                    kernel_density.KDEMultivariate.__init__(
                        self, data, var_type, bw=bw, **k)
        kd.KDEMultivariate = Real
        base.kernel_density = kd
        d['statsmodels.nonparametric.kernel_density'] = kd
        d['statsmodels.nonparametric.kernels'] = kernels
        d['statsmodels.nonparametric._kernel_base'] = _kernel_base
    return d


# ---------------------------------------------------------------- reference

class Kde(object):
    def __init__(self, E, kinds, free=True):
        Box.E = E
        Box.fits = []
        self.E, self.M, self.kinds = E, Mth(E), kinds
        self.ids = IDS[:len(kinds)]
        h = E.const('1/4')
        self.bw = {
            o: h * (i + 1) / (1 if k[1] is None else 2) if not free
            else E.real('h%d' % o, '1/8', 4) if k[1] is None
            else E.real('h%d' % o, '1/32', '1/2')
            for i, (o, k) in enumerate(zip(self.ids, kinds))}
        self.rows = {}

    def kind(self, o):
        return self.kinds[self.ids.index(o)]

    def distargs(self):
        return {'outputs': {
            'stattypes': [k[0] for k in self.kinds],
            'statargs': [{} if k[1] is None else {'k': k[1]}
                         for k in self.kinds]}}

    def build(self, U, rng=None, data=True):
        m = U['kde.mvkde'].MultivariateKde(
            list(self.ids), [], distargs=self.distargs(),
            params={'bw': [self.bw[o] for o in self.ids]}, rng=rng)
        if data:
            for r, x in self.rows.items():
                m.incorporate(r, dict(x))
        return m

    def cell(self, name, o, fixed=None):
        E, (_, k) = self.E, self.kind(o)
        if k is None:
            return E.real(name, -2, 2) if fixed is None \
                else E.const(fixed) + 0
        return E.choose(name, k) if fixed is None else int(2 * fixed) % k

    def fill(self, n, missing=(), fixed=()):
        """n rows; missing: cells that may be absent."""
        for j, r in enumerate([4, 0, 7, 5][:n]):
            x = {}
            for i, o in enumerate(self.ids):
                if (j, i) in missing and E_has(self.E, j, i):
                    continue
                f = ['1/2', -1, 1, '-1/2'][(i + j) % 4]
                x[o] = self.cell('x%d_%d' % (r, o), o, (
                    f if self.kind(o)[1] is None else j)
                    if (j, i) in fixed else None)
            if x:
                self.rows[r] = x

    def kernel(self, o, xi, x):
        h, (_, k) = self.bw[o], self.kind(o)
        if k is None:
            M = self.M
            return M.exp(-(x - xi) * (x - xi) / (2 * h * h)) \
                / (h * M.sqrt(2 * M.pi))
        return 1 - h if x == xi else h / (k - 1)

    def weight(self, row, a):
        w = 1
        for o, x in a.items():
            w = w * self.kernel(o, row[o], x)
        return w

    def members(self, variables):
        return [x for x in self.rows.values()
                if all(o in x for o in variables)]

    def pdf(self, t, c):
        m = self.members(list(t) + list(c))
        return sum(self.weight(x, {**t, **c}) for x in m) \
            / sum(self.weight(x, c) for x in m)


def E_has(E, j, i):
    return E.choose('miss%d_%d' % (j, i), 2)


def assignment(f, vs, tag, fixed=False):
    return {o: f.cell('%s%d' % (tag, o), o, '1/4' if fixed and
                      f.kind(o)[1] is None else None) for o in vs}


def density(kinds, n, nt, nc, missing=(), fixed=(), free=False):
    def h(E, U):
        from .c27 import pick
        f = Kde(E, kinds, free)
        f.fill(n, missing, fixed)
        t, c = pick(E, f.ids, nt, nc)
        t, c = assignment(f, t, 'q'), assignment(f, c, 'q', True)
        m = f.build(U)
        if not f.members(list(t) + list(c)):
            return
        got = m.logpdf([None, -1][E.choose('row', 2)], dict(t),
                       dict(c) or None)
        E.check_eq(f.M.exp(got), f.pdf(t, c), 'joint-over-marginal')
    return h


def total(kinds, n, missing=()):
    """Categorical targets: the reported densities sum to one over the
    declared categories, whichever of them occur."""
    def h(E, U):
        f = Kde(E, kinds, True)
        f.fill(n, missing)
        t = [o for o in f.ids if f.kind(o)[1] is not None]
        t = t[E.choose('t', len(t))]
        c = [o for o in f.ids if o != t][:E.choose('nc', len(f.ids))]
        ev = assignment(f, c, 'q', True)
        if not f.members([t] + c):
            return
        m = f.build(U)
        s = 0
        for v in range(f.kind(t)[1]):
            s = s + f.M.exp(m.logpdf(None, {t: v}, dict(ev) or None))
        E.check_eq(s, 1, 'sums-to-one')
    return h


def held(kinds, n, fixed=()):
    """A held row conditions on its own observed cells."""
    def h(E, U):
        f = Kde(E, kinds, False)
        f.fill(n, [(0, i) for i in range(len(kinds))], fixed)
        m = f.build(U)
        rows = list(f.rows) + [99]
        r = rows[E.choose('row', len(rows))]
        t = f.ids[E.choose('t', len(f.ids))]
        c = [o for o in f.ids if o != t]
        c = c[E.choose('c', len(c))] if E.choose('nc', 2) else None
        t = assignment(f, [t], 'q')
        c = assignment(f, [c] if c is not None else [], 'q', True)
        ev = {o: x for o, x in f.rows.get(r, {}).items()
              if o not in t and o not in c}
        ev.update(c)
        if not f.members(list(t) + list(ev)):
            return
        E.check_eq(f.M.exp(m.logpdf(r, dict(t), dict(c) or None)),
                   f.pdf(t, ev), 'conditions-on-its-own-cells')
    return h


def sampling(kinds, n, nt, nc, missing=(), fixed=(), N=None, held=False):
    """Discrete draws: a member with the probability of its weight, then each
    target from its kernel; together the law is the reported density."""
    def h(E, U):
        from .c27 import pick
        f = Kde(E, kinds, False)
        f.fill(n, missing, fixed)
        t, c = pick(E, f.ids, nt, nc)
        c = assignment(f, c, 'q', True)
        if not f.members(list(t) + list(c)):
            return
        row = list(f.rows)[0] if held else None
        ev = dict(c)
        if held:
            for o, x in f.rows[row].items():
                if o not in t:
                    ev.setdefault(o, x)
        outs = E.enumerate_random(lambda rng: f.build(U, rng).simulate(
            row, list(t), dict(c) or None, None, N))
        law = {}
        for o in outs:
            vals = [o.value] if N is None else list(o.value)
            E.check(len(vals) == (N or 1), 'one-per-sample')
            key = []
            dens = 1
            log = [d for d in o.log if d.family == 'normal']
            for v in vals:
                E.check(sorted(v) == sorted(t), 'assigns-the-targets')
                for q in t:
                    if f.kind(q)[1] is None:
                        d = log.pop(0)
                        E.check_eq(v[q], d.value, 'returns-the-drawn-value')
                        # density of the component drawn from, at a probe
                        p = E.const('1/3')
                        mu, s = d.params
                        dens = dens * f.M.exp(
                            -(p - mu) * (p - mu) / (2 * s * s)) \
                            / (s * f.M.sqrt(2 * f.M.pi))
                        key.append(None)
                    else:
                        key.append(int(v[q]))
            E.check(not log, 'one-draw-per-target')
            key = tuple(key)
            law[key] = law.get(key, 0) + o.weight * dens
        for key, w in law.items():
            want = 1
            k = list(key)
            for _ in range(N or 1):
                a = {q: (E.const('1/3') if f.kind(q)[1] is None
                         else k[i]) for i, q in enumerate(t)}
                k = k[len(t):]
                want = want * f.pdf(a, ev)
            E.check_eq(w, want, 'law-is-the-density')
        if all(f.kind(q)[1] is not None for q in t):
            E.check_eq(sum(law.values()), 1, 'law-is-complete')
    return h


def histories(ops):
    def h(E, U):
        f = Kde(E, [NUM, CAT])
        a, b = f.ids
        m = f.build(U)
        for k in range(ops):
            r = [3, 0][E.choose('r%d' % k, 2)]
            if E.choose('op%d' % k, 2) == 0:
                x = {a: E.const('1/2') * k, b: (k + r) % 3}
                if k % 2:
                    x.pop(b)
                e = try_(lambda: m.incorporate(r, dict(x)))
                E.check((e is not None) == (r in f.rows), 'add-iff-absent')
                if e is None:
                    f.rows[r] = x
            else:
                e = try_(lambda: m.unincorporate(r))
                E.check((e is not None) == (r not in f.rows),
                        'remove-iff-present')
                f.rows.pop(r, None)
            E.check(m.N == len(f.rows) and set(m.data) == set(f.rows),
                    'exact-rows')
        if f.members([a, b]):
            t, c = {b: E.choose('t', 3)}, {a: E.real('c', -2, 2)}
            E.check_eq(f.M.exp(m.logpdf(None, t, c)), f.pdf(t, c),
                       'depends-only-on-held-rows')
        if f.members([a]):
            t = {a: E.real('c', -2, 2)}
            e = []
            try:
                e.append(m.logpdf(None, t))
            except ValueError:
                # documented library minimum of observations
                E.check(len(f.rows) < 2, 'answers')
            if e:
                E.check_eq(f.M.exp(e[0]), f.pdf(t, {}),
                           'depends-only-on-held-rows')
    return h


def score(n, missing, kinds=(NUM, CAT2), every=False):
    def h(E, U):
        f = Kde(E, list(kinds))
        f.fill(n, missing, [(j, i) for j in range(n) for i in range(2)]
               if every else [(j, 0) for j in range(1, n)])
        m = f.build(U)
        if any(len(x) < 1 or not f.members(list(x)) for x in
               f.rows.values()) or len(f.rows) < n:
            return
        E.check_eq(f.M.exp(m.logpdf_score()), f.M.exp(0) * prod(
            f.pdf(x, {}) for x in f.rows.values()), 'product-of-rows')
    return h


def prod(xs):
    t = 1
    for x in xs:
        t = t * x
    return t


def learning(n, missing):
    """Learning looks at the complete rows, in the declared kinds, and later
    answers use the bandwidths it found."""
    def h(E, U):
        f = Kde(E, [NUM, CAT, NUM])
        f.fill(n, missing, [(j, i) for j in range(n) for i in range(3)])
        m = f.build(U)
        Box.fits = []
        g = Kde(E, [NUM, CAT, NUM], False)
        Box.give = [g.bw[o] for o in g.ids]
        if not f.members(f.ids):
            return
        m.transition()
        (data, types_, bw), = Box.fits
        want = [[x[o] for o in f.ids] for x in f.members(f.ids)]
        E.check(len(data) == len(want) and types_ == 'cuc',
                'complete-rows-in-kind')
        for x, y in zip(data, want):
            for u, v in zip(x, y):
                E.check_eq(u, v, 'complete-rows-in-kind')
        f.bw = g.bw
        t, c = {2: E.choose('t', 3)}, {6: E.const(0) + 0,
                                       9: E.real('c', -2, 2)}
        E.check_eq(f.M.exp(m.logpdf(None, t, c)), f.pdf(t, c),
                   'answers-use-the-learned-bandwidths')
        k = U['kde.mvkde'].MultivariateKde.from_metadata(m.to_metadata())
        E.check_eq(k.logpdf(None, t, c), m.logpdf(None, t, c),
                   'survives-saving')
    return h


def saved(E, U):
    f = Kde(E, [NUM, CAT2])
    f.fill(2, [(0, 1)], [(1, 0)])
    m = f.build(U)
    meta = m.to_metadata()
    whole = copy.deepcopy(meta)
    E.check(set(meta['factory']) == {'cgpm.kde.mvkde', 'MultivariateKde'},
            'factory')
    k = U['kde.mvkde'].MultivariateKde.from_metadata(meta)
    r = [None, 4, 0][E.choose('row', 3)]
    t = f.ids[E.choose('t', 2)]
    c = [o for o in f.ids if o != t]
    t, c = assignment(f, [t], 'q'), assignment(f, c, 'q')
    E.check_eq(k.logpdf(r, t, c), m.logpdf(r, t, c), 'same-densities')
    for x in (m, k):
        e = try_(lambda: x.incorporate(4, {f.ids[0]: E.const(1)}))
        E.check(e is not None, 'same-rows')
        x.unincorporate(4)
        E.check(x.N == 1, 'same-rows')
    same(E, meta, whole, 'metadata-is-a-snapshot')


def guards(E, U):
    f = Kde(E, [NUM, CAT])
    f.fill(2, (), [(0, 0), (0, 1), (1, 0), (1, 1)])
    m = f.build(U)
    a, b = f.ids
    one = E.const(1) + 0
    before = m.logpdf(None, {a: one}, {b: 1})
    K = U['kde.mvkde'].MultivariateKde
    d = f.distargs()
    empty = f.build(U, data=False)

    def without(*path):
        import copy
        x = copy.deepcopy(d)
        y = x
        for p in path[:-1]:
            y = y[p]
        del y[path[-1]]
        return x
    bad = [
        lambda: m.incorporate(4, {a: one}),
        lambda: m.incorporate(9, {99: one}),
        lambda: m.incorporate(9, {}),
        lambda: m.incorporate(9, {a: one}, {b: 1}),
        lambda: m.unincorporate(9),
        lambda: m.logpdf(None, {}),
        lambda: m.logpdf(None, {a: NAN}),
        lambda: m.logpdf(None, {99: one}),
        lambda: m.logpdf(None, {a: one}, {a: one}),
        lambda: m.logpdf(None, {a: one}, None, {b: 1}),
        lambda: m.simulate(None, []),
        lambda: m.simulate(None, [99]),
        lambda: m.simulate(None, [a], {a: one}),
        lambda: m.simulate(None, [a], None, {b: 1}),
        lambda: empty.logpdf(None, {a: one}),
        lambda: empty.simulate(None, [a]),
        lambda: K([0, 1], [3], distargs=d),
        lambda: K([], [], distargs={'outputs': {'stattypes': [],
                                                'statargs': []}}),
        lambda: K([1, 1], [], distargs=d),
        lambda: K([0, 1], []),
        lambda: K([0, 1], [], distargs=without('outputs', 'stattypes')),
        lambda: K([0, 1], [], distargs=without('outputs', 'statargs')),
        lambda: K([0, 1], [], distargs=without('outputs', 'statargs', 0)),
        lambda: K([0, 1], [], distargs=without('outputs', 'stattypes', 1)),
        lambda: K([0, 1], [], distargs=without('outputs', 'statargs', 1,
                                               'k')),
    ]
    i = E.choose('bad', len(bad))
    E.check(isinstance(try_(bad[i]), ValueError), 'rejected')
    E.check(sorted(m.data) == [0, 4] and m.N == 2, 'unchanged')
    E.check_eq(m.logpdf(None, {a: one}, {b: 1}), before, 'unchanged')


MODS = ['kde.mvkde', 'utils.general']


def mk(name, fn, bounds, tier='quick', **k):
    return H(name, fn, MODS, bounds, stubs=sm, tier=tier, **k)


def harnesses():
    every = [(0, 0), (0, 1), (1, 0), (1, 1)]
    return [
        mk('density-cat', density([CAT], 3, 1, 0, (), (), True),
           '3 rows of one categorical column, every code'),
        mk('density-num', density([NUM], 2, 1, 0, (), (), True),
           '2 rows of one numerical column'),
        mk('density-num-cat', density([NUM, CAT], 3, 1, 1, every,
                                      [(0, 0), (1, 0), (2, 0), (2, 1)]),
           '3 rows, every missing pattern of 2'),
        mk('joint-num-cat', density([NUM, CAT2], 3, 2, 0, every,
                                    [(1, 0), (2, 0), (2, 1)]),
           '3 rows, every missing pattern of 2'),
        mk('density-num-num', density([NUM, NUM], 2, 1, 1, every,
                                      [(1, 0), (0, 1)], True),
           '2 rows, every missing pattern'),
        mk('density-cat-cat', density([CAT, CAT2], 3, 1, 1, every[:2], (
            (2, 0), (2, 1)), True), '3 rows, every missing pattern of 2'),
        mk('density-three-given-one', density(
            [NUM, CAT2, NUM], 2, 2, 1, every,
            [(0, 0), (0, 2), (1, 0), (1, 2)]), '2 rows, 3 columns'),
        mk('density-three-given-two', density(
            [NUM, CAT2, NUM], 2, 1, 2, every,
            [(0, 0), (0, 2), (1, 0), (1, 2)]), '2 rows, 3 columns'),
        mk('density-three-deep', density(
            [NUM, CAT, NUM], 3, 1, 2, every, [(1, 0), (2, 0), (1, 2)]),
            '3 rows, 3 columns', 'thorough', paths=8000),
        mk('sums-to-one', total([CAT, NUM], 2, every), '2 rows'),
        mk('sums-to-one-cats', total([CAT, CAT2], 2, every),
           '2 rows, 2 categorical columns'),
        mk('held-rows', held([NUM, CAT], 2, [(0, 0), (1, 0)]), '2 rows'),
        mk('held-rows-three', held([NUM, CAT2, NUM], 2,
                                   [(j, i) for j in range(2)
                                    for i in range(3)]), '2 rows'),
        mk('sampling-cat', sampling([CAT], 3, 1, 0), '3 rows'),
        mk('sampling-cat-pair', sampling([CAT, CAT2], 2, 2, 0, every),
           '2 rows'),
        mk('sampling-cat-given', sampling(
            [CAT, NUM], 2, 1, 1, every, [(0, 1), (1, 1)]), '2 rows'),
        mk('sampling-three', sampling(
            [NUM, CAT2, NUM], 2, 2, 1, [(0, 0), (0, 1)],
            [(0, 0), (0, 2), (1, 0), (1, 2)]), '2 rows'),
        mk('sampling-many', sampling(
            [CAT2, NUM], 2, 1, 1, (), [(0, 1), (1, 1)], N=2), '2 rows, 2 '
           'samples'),
        mk('sampling-one-list', sampling(
            [CAT2, NUM], 1, 1, 1, (), [(0, 1), (1, 1)], N=1), '1 row'),
        mk('sampling-held', sampling(
            [CAT2, NUM, CAT2], 2, 1, 1, [(0, 0), (0, 1), (0, 2)],
            [(0, 1), (1, 1)], held=True), '2 rows'),
        mk('histories', histories(4), '4 operations on 2 rows'),
        mk('histories-long', histories(6), '6 operations on 2 rows',
           'thorough', paths=6000),
        mk('score', score(3, [(0, 0), (1, 1)]), '3 rows'),
        mk('score-cats', score(2, (), (CAT2, CAT2), True), '2 rows'),
        mk('learning', learning(3, [(0, 0), (1, 2)]), '3 rows'),
        mk('saved', saved, '2 rows'),
        mk('guards', guards, 'the malformed calls listed'),
    ]
