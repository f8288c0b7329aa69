"""C31: uncollapsed distributions report the densities of their parameters.

References: Beta(s b, s (1 - b)) with s ~ Exponential(mean 5), b ~ Beta(1, 1);
Normal(mu, sigma) truncated to [l, h] with mu ~ Uniform(l, h),
sigma ~ Gamma(shape 2, scale 2).  The sampler a parameter update uses is
replaced by a stand-in that records the target it was given (C30 decides that
the sampler leaves its target invariant)."""
import types

from vp.runner import H
from .c30 import Rng, Over
from .lib import Mth, posreal
from .vlib import try_

ASSUMPTIONS = ['data within [1/100, 99/100] (beta) or [l, h] (truncated '
               'normal), parameters within [1/8, 8]',
               'the normal distribution function is an uninterpreted positive '
               'increasing function']
NAN = float('nan')
INF = float('inf')


def sampler(symbolic):
    m = types.ModuleType('cgpm.utils.sampling')
    m.hook = None
    m.mh_sample = lambda x, f, jump_std, D, *a, **k: m.hook(x, f, D)
    return {'cgpm.utils.sampling': m}


class Beta(object):
    mod, cls = 'primitives.beta', 'Beta'
    names = ['strength', 'balance']

    def __init__(self, E):
        self.E, self.M = E, Mth(E)
        self.lo, self.hi = E.const(0) + 0, E.const(1) + 0
        self.distargs = None

    def params(self, tag=''):
        E = self.E
        return {'strength': posreal(E, 's' + tag, '1/8', 8),
                'balance': posreal(E, 'b' + tag, '1/16', '15/16')}

    def datum(self, name):
        return posreal(self.E, name, '1/100', '99/100')

    def outside(self):
        E = self.E
        return [E.const('-1/4') + 0, E.const('5/4') + 0]

    def domain(self, p):
        return (0, INF) if p == 'strength' else (0, 1)

    def draw_param(self, name, tag):
        return self.params(tag)[name]

    def lik(self, q, x):
        a = q['strength'] * q['balance']
        b = q['strength'] * (1 - q['balance'])
        M = self.M
        return (a - 1) * M.log(x) + (b - 1) * M.log(1 - x) - M.betaln(a, b)

    def prior(self, q):
        return -q['strength'] / 5 - self.M.log(5)

    def family(self, q):
        return 'beta', [q['strength'] * q['balance'],
                        q['strength'] * (1 - q['balance'])]

    priors = {'strength': ('exponential', (5,)), 'balance': ('beta', (1, 1))}


class Trunc(object):
    mod, cls = 'primitives.normal_trunc', 'NormalTrunc'
    names = ['mu', 'sigma']

    def __init__(self, E, l='-1/2', h=2):
        self.E, self.M = E, Mth(E)
        self.lo, self.hi = E.const(l) + 0, E.const(h) + 0
        self.distargs = {'l': self.lo, 'h': self.hi}

    def params(self, tag=''):
        E = self.E
        t = E.real('t' + tag, '1/100', '99/100')
        q = {'mu': self.lo + t * (self.hi - self.lo),
             'sigma': posreal(E, 'g' + tag, '1/8', 8)}
        self.known(q)
        return q

    def known(self, q):
        """What is assumed of the distribution function."""
        a, b = self.ends(q)
        self.E.assume(self.M.ndtr(b) > self.M.ndtr(a))

    def ends(self, q):
        return [(e - q['mu']) / q['sigma'] for e in (self.lo, self.hi)]

    def datum(self, name):
        t = self.E.real(name, 0, 1)
        return self.lo + t * (self.hi - self.lo)

    def outside(self):
        return [self.lo - 1, self.hi + 1]

    def domain(self, p):
        return (self.lo, self.hi) if p == 'mu' else (0, INF)

    def draw_param(self, name, tag):
        t = self.E.real('v' + tag, '1/100', '99/100')
        if name == 'mu':
            return self.lo + t * (self.hi - self.lo)
        return posreal(self.E, 'w' + tag, '1/8', 8)

    def lik(self, q, x):
        M = self.M
        z = (x - q['mu']) / q['sigma']
        a, b = self.ends(q)
        return -z * z / 2 - M.log(2 * M.pi) / 2 - M.log(q['sigma']) \
            - M.log(M.ndtr(b) - M.ndtr(a))

    def prior(self, q):
        M = self.M
        return M.log(q['sigma']) - q['sigma'] / 2 - 2 * M.log(2) \
            - M.log(self.hi - self.lo)

    def family(self, q):
        return 'normal', [q['mu'], q['sigma']]

    @property
    def priors(self):
        return {'sigma': ('gamma', (2, 2)),
                'mu': ('uniform', (self.lo, self.hi))}


def build(E, U, f, params, rng=None):
    C = getattr(U[f.mod], f.cls)
    return C([3], [], params=None if params is None else dict(params),
             distargs=f.distargs, rng=rng)


def density(fam):
    def h(E, U):
        f = fam(E)
        q = f.params()
        m = build(E, U, f, q)
        x, y = f.datum('x'), f.datum('y')
        E.check_eq(m.logpdf(0, {3: x}), f.lik(q, x), 'density-of-parameters')
        m.incorporate(4, {3: y})
        E.check_eq(m.logpdf(0, {3: x}), f.lik(q, x),
                   'density-of-parameters')
        for z in f.outside():
            E.check(m.logpdf(0, {3: z}) == -INF, 'zero-outside-the-support')
        p = m.get_params()
        for n in f.names:
            E.check_eq(p[n], q[n], 'keeps-its-parameters')
    return h


def fixed(E, U):
    """Given parameters need not lie where the prior draws them: a mean
    outside the limits truncates a tail."""
    f = Trunc(E)
    d = posreal(E, 'd', '1/100', 4)
    side = E.choose('side', ['below', 'above', 'low-end', 'high-end'])
    q = {'mu': {'below': f.lo - d, 'above': f.hi + d, 'low-end': f.lo,
                'high-end': f.hi}[side], 'sigma': posreal(E, 'g', '1/8', 8)}
    f.known(q)
    m = build(E, U, f, q)
    E.check(not m.is_collapsed(), 'has-parameters-of-its-own')
    x, y = f.datum('x'), f.datum('y')
    E.check_eq(m.logpdf(0, {3: x}), f.lik(q, x), 'density-of-parameters')
    m.incorporate(4, {3: y})
    E.check_eq(m.logpdf(0, {3: x}), f.lik(q, x), 'density-of-parameters')
    for z in f.outside():
        E.check(m.logpdf(0, {3: z}) == -INF, 'zero-outside-the-support')


def ends(E, U):
    """The limits belong to the support."""
    f = Trunc(E)
    q = f.params()
    m = build(E, U, f, q)
    for i, z in enumerate((f.lo, f.hi)):
        m.incorporate(i, {3: z})
        E.check_eq(m.logpdf(7, {3: z}), f.lik(q, z), 'density-at-a-limit')
    E.check_eq(m.logpdf_score(), f.prior(q) + f.lik(q, f.lo)
               + f.lik(q, f.hi), 'score-is-likelihood-and-prior')
    m.unincorporate(0)
    E.check_eq(m.logpdf_score(), f.prior(q) + f.lik(q, f.hi),
               'removal-restores-the-score')


def score(fam, n=2):
    """After a history of additions and removals."""
    def h(E, U):
        f = fam(E)
        q = f.params()
        m = build(E, U, f, q)
        rows = {}
        for k in range(n + 1):
            r = [5, 1][E.choose('r%d' % k, 2)]
            if r in rows:
                if E.choose('op%d' % k, 2):
                    e = try_(lambda: m.incorporate(r, {3: f.datum('z')}))
                    E.check(e is not None, 'duplicate-row-rejected')
                else:
                    m.unincorporate(r)
                    del rows[r]
            else:
                x = f.datum('x%d' % k)
                m.incorporate(r, {3: x})
                rows[r] = x
        want = f.prior(q)
        for x in rows.values():
            want = want + f.lik(q, x)
        E.check_eq(m.logpdf_score(), want, 'score-is-likelihood-and-prior')
        for r, x in rows.items():
            got = m.simulate(r, [3])
            E.check_eq(got[3], x, 'held-row-returns-its-value')
        if len(rows) < 2:
            for z in f.outside():
                e = try_(lambda: m.incorporate(9, {3: z}))
                E.check(isinstance(e, ValueError), 'outside-data-rejected')
            e = try_(lambda: m.incorporate(9, {3: NAN}))
            E.check(isinstance(e, ValueError), 'outside-data-rejected')
            E.check_eq(m.logpdf_score(), want, 'rejection-has-no-effect')
    return h


def boundary(E, U):
    """A value at (or within rounding of) an end of the unit interval is
    accepted, and removing it restores the density exactly."""
    f = Beta(E)
    q = f.params()
    m = build(E, U, f, q)
    x = f.datum('x')
    m.incorporate(1, {3: x})
    M = f.M
    kind = E.choose('kind', ['zero', 'one', 'near-zero', 'near-one', 'inside'])
    t = E.real('t', 0, '1/1000000000')
    y = {'zero': E.const(0) + 0, 'one': E.const(1) + 0, 'near-zero': t,
         'near-one': 1 - t, 'inside': f.datum('y')}[kind]
    m.incorporate(5, {3: y})
    now = m.logpdf_score()
    E.check_eq(m.logpdf(0, {3: x}), f.lik(q, x), 'density-unchanged')
    if kind == 'inside':
        E.check_eq(now, f.prior(q) + f.lik(q, x) + f.lik(q, y),
                   'score-is-likelihood-and-prior')
    m.unincorporate(5)
    E.check_eq(m.logpdf_score(), f.prior(q) + f.lik(q, x),
               'removal-restores-the-score')
    m.incorporate(6, {3: y})
    E.check_eq(m.logpdf_score(), now, 'adding-again-gives-the-same-score')
    m.unincorporate(1)
    m.unincorporate(6)
    E.check_eq(m.logpdf_score(), f.prior(q), 'empty-again')


def update(fam):
    """The targets of parameter updates differ from the log posterior by a
    constant, over the support of the parameter."""
    def h(E, U):
        f = fam(E)
        q = f.params()
        m = build(E, U, f, q)
        xs = [f.datum('x%d' % i) for i in range(E.choose('n', 3))]
        for i, x in enumerate(xs):
            m.incorporate(i, {3: x})
        new = f.params('n')

        def post(q):
            t = f.prior(q)
            for x in xs:
                t = t + f.lik(q, x)
            return t
        cur, todo = dict(q), list(f.names)

        def hook(x, g, D):
            # which parameter? the one whose domain and value these are
            ns = [n for n in todo if E.isclose(x, cur[n]) and all(
                d == w for d, w in zip(D, f.domain(n)))]
            E.check(len(ns) > 0, 'over-the-support-from-the-current-value')
            n = ns[0]
            todo.remove(n)
            pts = []
            for t in 'ab':
                p = dict(cur)
                p[n] = f.draw_param(n, n + t)
                if fam is Trunc:
                    f.known(p)
                pts.append(p)
            a, b = pts
            E.check_eq(g(a[n]) - g(b[n]), post(a) - post(b),
                       'targets-the-posterior')
            cur[n] = new[n]
            return new[n]
        U['utils.sampling'].hook = hook
        m.transition_params()
        E.check(not todo, 'each-parameter-once')
        got = m.get_params()
        for n in f.names:
            E.check_eq(got[n], new[n], 'adopts-the-sample')
    return h


def given(fam):
    """Parameters given are kept, whatever their value; otherwise they are
    drawn from the prior."""
    def h(E, U):
        f = fam(E)
        if fam is Trunc and E.choose('zero', 2):
            q = {'mu': E.const(0) + 0, 'sigma': f.params()['sigma']}
            f.known(q)
        else:
            q = f.params()
        outs = E.enumerate_random(lambda rng: build(E, U, f, q, rng)
                                  .get_params())
        for o in outs:
            for n in f.names:
                E.check_eq(o.value[n], q[n], 'given-parameters-kept')
        outs = E.enumerate_random(lambda rng: build(E, U, f, None, rng)
                                  .get_params())
        for o in outs:
            log = list(o.log)
            for n in f.names:
                fam_, ps = f.priors[n]
                d = [d for d in log if d.family == fam_ and E.isclose(
                    d.value if fam_ != 'uniform' else d.params[0] + d.value
                    * (d.params[1] - d.params[0]), o.value[n])]
                E.check(len(d) > 0, 'drawn-from-the-prior')
                if d:
                    E.check(len(d[0].params) == len(ps) and all(
                        E.isclose(a, b) for a, b in zip(d[0].params, ps)),
                        'drawn-from-the-prior', str(d[0]))
    return h


def sampling(fam):
    def h(E, U):
        f = fam(E)
        q = f.params()
        N = [None, 1, 2][E.choose('N', 3)]
        n = N or 1
        if fam is Beta:
            outs = E.enumerate_random(lambda rng: build(
                E, U, f, q, rng).simulate(None, [3], N=N))
            for o in outs:
                v = [o.value] if N is None else list(o.value)
                log = [d for d in o.log if d.family == 'beta']
                E.check(len(v) == n == len(log), 'one-draw-per-sample')
                for x, d in zip(v, log):
                    E.check_eq(x[3], d.value, 'samples-its-density')
                    for a, b in zip(d.params, f.family(q)[1]):
                        E.check_eq(a, b, 'samples-its-density')
            return
        # truncation by rejection: the first draw inside
        es = [E.real('e%d' % i, -6, 6) for i in range(n + 1)]
        rng = Rng(es)
        m = build(E, U, f, q, rng)
        try:
            got = m.simulate(None, [3], N=N)
        except Over:
            return
        zs = [q['mu'] + q['sigma'] * e for e in es]
        ok = [z for z in zs if f.lo <= z and z <= f.hi]
        got = [got] if N is None else list(got)
        E.check(len(got) == n, 'one-per-sample')
        for g, z in zip(got, ok):
            E.check_eq(g[3], z, 'samples-the-truncated-density')
            E.check(f.lo <= g[3], 'inside-the-support')
            E.check(g[3] <= f.hi, 'inside-the-support')
    return h


def harnesses():
    out = []
    for fam, tag in ((Beta, 'beta'), (Trunc, 'trunc')):
        mods = [fam.mod, 'utils.sampling']

        def mk(name, fn, bounds, tier='quick', **k):
            return H('%s-%s' % (tag, name), fn, mods, bounds, tier=tier,
                     assumes=ASSUMPTIONS, stubs=sampler, **k)
        out += [
            mk('density', density(fam), '1 query, 1 row'),
            mk('score', score(fam), '3 operations on 2 rows'),
            mk('score-long', score(fam, 3), '4 operations on 2 rows',
               'thorough'),
        ] + ([mk('boundary', boundary, '2 rows, one of them at an end')]
             if fam is Beta else [
                 mk('ends', ends, 'values at the limits'),
                 mk('fixed', fixed, '1 query, 1 row, a mean at or beyond a '
                    'limit')]) + [
            mk('update', update(fam), '<= 2 rows, one update of each'),
            mk('given', given(fam), 'given and absent parameters'),
            mk('sampling', sampling(fam), '<= 2 samples'),
        ]
    return out
