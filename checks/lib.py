"""Shared specification helpers: primitive distributions, their generators and
reference (oracle) densities written from the documented models."""
import itertools
import math

from vp import sym as S
from vp.sym import Sym


def is_sym(E):
    return E.symbolic


# ---------------------------------------------------------------- math over E

class Mth(object):
    """Reference arithmetic usable on both symbolic and concrete numbers."""

    def __init__(self, E):
        self.E = E
        self.pi = S.PI() if E.symbolic else math.pi

    def log(self, x):
        if isinstance(x, Sym) or self.E.symbolic:
            return S.s_log(x)
        return math.log(x)

    def exp(self, x):
        if not isinstance(x, Sym) and x == float('-inf'):
            return 0
        if isinstance(x, Sym) or self.E.symbolic:
            return S.s_exp(x)
        return math.exp(x)

    def lgamma(self, x):
        if isinstance(x, Sym) or self.E.symbolic:
            return S.lgamma(x)
        return math.lgamma(x)

    def betaln(self, a, b):
        return self.lgamma(a) + self.lgamma(b) - self.lgamma(a + b)

    def q(self, text):
        return self.E.const(text) if self.E.symbolic else float(
            eval(text.replace('/', '*1./')) if '/' in text else text)

    def half(self):
        return self.E.const('1/2') if self.E.symbolic else .5

    def logbessel0(self, x):
        if self.E.symbolic:
            return S.s_log(S.uf('i0', x))
        import scipy.special
        return math.log(scipy.special.i0e(x)) + abs(x)

    def sqrt(self, x):
        if isinstance(x, Sym):
            return S.s_sqrt(x)
        return math.sqrt(x)

    def cos(self, x):
        return S.s_cos(x) if self.E.symbolic else math.cos(x)

    def sin(self, x):
        return S.s_sin(x) if self.E.symbolic else math.sin(x)

    def ndtr(self, x):
        if self.E.symbolic:
            return S.uf('ndtr', x)
        import scipy.special
        return float(scipy.special.ndtr(x))

    def logsumexp(self, xs):
        xs = [x for x in xs if isinstance(x, Sym) or x != float('-inf')]
        if not xs:
            return float('-inf')
        if len(xs) == 1:
            return xs[0]
        if self.E.symbolic:
            return S.s_log(sum([S.s_exp(x) for x in xs], S.Sym.const(0)))
        m = max(xs)
        return m + math.log(sum(math.exp(x - m) for x in xs))


POS = ('1/16', 16)


def posreal(E, name, lo='1/16', hi=16):
    from fractions import Fraction as F
    return E.real(name, F(lo), F(hi))


class Prim(object):
    """Specification of one primitive."""
    module = cls = name = None
    distargs = None
    hyper_names = ()
    continuous = False
    bad = ()          # values outside the support
    support = ()      # all values, when few

    def hypers(self, E, tag=''):
        return {k: posreal(E, k + tag) for k in self.hyper_names}

    def make(self, U, outputs=(0,), hypers=None, rng=None, inputs=()):
        C = getattr(U['primitives.' + self.module], self.cls)
        return C(list(outputs), list(inputs), hypers=hypers,
                 distargs=self.distargs, rng=rng)

    def ok(self, h, xs, E):
        """Extra preconditions on (hypers, data)."""
        return True


class Bernoulli(Prim):
    module = name = 'bernoulli'
    cls = 'Bernoulli'
    hyper_names = ('alpha', 'beta')
    bad = (2, -1, .5, 1.5)

    def datum(self, E, name):
        return E.int(name, 0, 1, flt=False)

    def predictive(self, M, h, xs, x):
        n = len(xs)
        s = sum(xs)
        p1 = (s + h['alpha']) / (n + h['alpha'] + h['beta'])
        p0 = (n - s + h['beta']) / (n + h['alpha'] + h['beta'])
        return M.log(p1 if x == 1 else p0)

    support = (0, 1)


class Categorical(Prim):
    module = name = 'categorical'
    cls = 'Categorical'
    hyper_names = ('alpha',)
    distargs = {'k': 3}
    bad = (3, -1, .5, 7)

    def datum(self, E, name):
        return E.int(name, 0, 2, flt=False)

    def predictive(self, M, h, xs, x):
        n = len(xs)
        c = sum(1 for y in xs if y == x)
        return M.log((c + h['alpha']) / (n + 3 * h['alpha']))

    support = (0, 1, 2)


class Crp(Prim):
    module = name = 'crp'
    cls = 'Crp'
    hyper_names = ('alpha',)

    def datum(self, E, name):
        return E.int(name, 0, 2, flt=False)

    def predictive(self, M, h, xs, x):
        n = len(xs)
        c = sum(1 for y in xs if y == x)
        return M.log((c if c else h['alpha']) / (n + h['alpha']))


class Exponential(Prim):
    module = name = 'exponential'
    cls = 'Exponential'
    hyper_names = ('a', 'b')
    continuous = True
    bad = (-1, -.25)

    def datum(self, E, name):
        return E.real(name, 0, 32)

    def predictive(self, M, h, xs, x):
        # mu ~ Gamma(a, rate b): x is Lomax(an, bn).
        an = h['a'] + len(xs)
        bn = h['b'] + sum(xs)
        return M.log(an) + an * M.log(bn) - (an + 1) * M.log(bn + x)


class Geometric(Prim):
    module = name = 'geometric'
    cls = 'Geometric'
    hyper_names = ('a', 'b')
    bad = (-1, .5, 2.5)

    def datum(self, E, name):
        return E.int(name, 0, 4, flt=False)

    def predictive(self, M, h, xs, x):
        # p ~ Beta(a, b), P(x|p) = p (1-p)^x
        an = h['a'] + len(xs)
        bn = h['b'] + sum(xs)
        return M.betaln(an + 1, bn + x) - M.betaln(an, bn)


class Poisson(Prim):
    module = name = 'poisson'
    cls = 'Poisson'
    hyper_names = ('a', 'b')
    bad = (-1, .5, 2.5)

    def datum(self, E, name):
        return E.int(name, 0, 4, flt=False)

    def predictive(self, M, h, xs, x):
        an = h['a'] + sum(xs)
        bn = h['b'] + len(xs)
        return (M.lgamma(an + x) - M.lgamma(an) - M.lgamma(x + 1)
                + an * M.log(bn) - (an + x) * M.log(bn + 1))


def student(M, x, df, loc, scale2):
    return (M.lgamma((df + 1) / 2) - M.lgamma(df / 2)
            - (M.log(df) + M.log(M.pi) + M.log(scale2)) / 2
            - (df + 1) / 2 * M.log(1 + (x - loc) * (x - loc)
                                   / (df * scale2)))


def nig_posterior(h, xs):
    """Normal-gamma posterior: rho~Gamma(nu/2, s/2), mu~N(m, 1/(r rho))."""
    n = len(xs)
    rn = h['r'] + n
    nun = h['nu'] + n
    mn = (h['r'] * h['m'] + sum(xs)) / rn
    if n:
        xbar = sum(xs) / (n * (h['r'] / h['r']))
        ss = sum((x - xbar) * (x - xbar) for x in xs)
        sn = h['s'] + ss + h['r'] * n * (xbar - h['m']) * (
            xbar - h['m']) / rn
    else:
        sn = h['s']
    return mn, rn, sn, nun


class Normal(Prim):
    module = name = 'normal'
    cls = 'Normal'
    hyper_names = ('m', 'r', 's', 'nu')
    continuous = True

    def hypers(self, E, tag=''):
        h = {k: posreal(E, k + tag) for k in ('r', 's', 'nu')}
        h['m'] = E.real('m' + tag, -16, 16)
        return h

    def datum(self, E, name):
        return E.real(name, -16, 16)

    def predictive(self, M, h, xs, x):
        mn, rn, sn, nun = nig_posterior(h, xs)
        return student(M, x, nun, mn, sn * (rn + 1) / (rn * nun))


class Lognormal(Normal):
    module = name = 'lognormal'
    cls = 'Lognormal'
    bad = (0, -1, -.5)

    def datum(self, E, name):
        return posreal(E, name, '1/16', 16)

    def predictive(self, M, h, xs, x):
        lx = M.log(x)
        return Normal.predictive(self, M, h, [M.log(y) for y in xs], lx) - lx


class Vonmises(Prim):
    module = name = 'vonmises'
    cls = 'Vonmises'
    hyper_names = ('a', 'b', 'k')
    continuous = True
    bad = (-1, 7, -.25)

    def hypers(self, E, tag=''):
        h = {k: posreal(E, k + tag) for k in ('a', 'k')}
        h['b'] = posreal(E, 'b' + tag, '1/16', 6)
        return h

    def datum(self, E, name):
        return E.real(name, 0, 6)

    def conc(self, M, h, xs):
        pc = h['a'] * M.cos(h['b'])
        ps = h['a'] * M.sin(h['b'])
        for x in xs:
            pc = pc + h['k'] * M.cos(x)
            ps = ps + h['k'] * M.sin(x)
        return pc * pc + ps * ps

    def predictive(self, M, h, xs, x):
        an2 = self.conc(M, h, xs)
        am2 = self.conc(M, h, list(xs) + [x])
        return (-M.log(2 * M.pi) - M.logbessel0(h['k'])
                + M.logbessel0(M.sqrt(am2)) - M.logbessel0(M.sqrt(an2)))

    def ok(self, h, xs, E):
        # the posterior concentration of every prefix is bounded away from 0
        M = Mth(E)
        for i in range(len(xs) + 1):
            c = self.conc(M, h, xs[:i])
            E.assume(c >= M.q('1/1000'))
        return True


PRIMS = [Bernoulli(), Categorical(), Crp(), Exponential(), Geometric(),
         Poisson(), Normal(), Lognormal(), Vonmises()]
BYNAME = {p.name: p for p in PRIMS}
MODS = ['primitives.' + p.module for p in PRIMS]


def raises(E, fn, *types):
    """The exception raised by fn, or None."""
    try:
        fn()
    except types as e:
        return e
    return None
