"""C01: every primitive's predictive density is the posterior predictive of its
documented conjugate model and the ratio of its marginal likelihoods."""
from vp.runner import H
from .lib import PRIMS, Mth, MODS

ASSUMPTIONS = ['hyperparameters in [1/16, 16], data within the ranges listed '
               'per harness']


def seq(p, nmax):
    """Incorporate a history, compare every predictive with the oracle and with
    the increment of the marginal likelihood."""
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        n = E.choose('n', nmax + 1)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        x = p.datum(E, 'x')
        p.ok(hy, xs + [x], E)
        d = p.make(U, hypers=dict(hy))
        E.check_eq(d.logpdf_score(), 0, 'empty-score-zero')
        for i, y in enumerate(xs):
            d.incorporate(i, {0: y})
        s0 = d.logpdf_score()
        lp = d.logpdf(n + 7, {0: x})
        E.check_eq(lp, p.predictive(M, hy, xs, x), 'posterior-predictive')
        d.incorporate(n, {0: x})
        s1 = d.logpdf_score()
        E.check_eq(lp, s1 - s0, 'chain-rule')
        total = 0
        for i, y in enumerate(xs + [x]):
            total = total + p.predictive(M, hy, xs[:i], y)
        E.check_eq(s1, total, 'marginal-likelihood')
    return h


def hyper_change(p):
    """set_hypers takes effect: densities are those of the new hypers."""
    def h(E, U):
        M = Mth(E)
        h0 = p.hypers(E, 'o')
        h1 = p.hypers(E, 'n')
        xs = [p.datum(E, 'x0')]
        x = p.datum(E, 'x')
        p.ok(h0, xs + [x], E)
        p.ok(h1, xs + [x], E)
        d = p.make(U, hypers=dict(h0))
        d.incorporate(0, {0: xs[0]})
        d.set_hypers(dict(h1))
        got = d.get_hypers()
        for k in h1:
            E.check_eq(got[k], h1[k], 'get-set-hypers')
        E.check_eq(d.logpdf(5, {0: x}), p.predictive(M, h1, xs, x),
                   'predictive-new-hypers')
        E.check_eq(d.logpdf_score(), p.predictive(M, h1, [], xs[0]),
                   'score-new-hypers')
    return h


def concentrated(E, U):
    """Concentrations where the Bessel function overflows a double: the
    asymptotic log I0(t) = t - log(2 pi t)/2 + O(1/t) takes over."""
    E.huge_bessel = True
    M = Mth(E)
    a, k = E.real('a', 720, 3000), E.real('k', 720, 3000)
    d = U['primitives.vonmises'].Vonmises(
        [0], [], hypers={'a': a, 'b': E.const(0) + 0, 'k': k})

    def big(t):
        return t - M.log(2 * M.pi * t) / 2

    def near(got, want, label):
        E.check(got - want < E.const('1/1000'), label)
        E.check(want - got < E.const('1/1000'), label)
    n = E.choose('n', 3)
    x = E.const(0) + 0
    for i in range(n):
        d.incorporate(i, {0: x})
    near(d.logpdf(-1, {0: x}), -M.log(2 * M.pi) - big(k)
         + big(a + (n + 1) * k) - big(a + n * k), 'posterior-predictive')
    near(d.logpdf_score(), -n * (M.log(2 * M.pi) + big(k))
         + big(a + n * k) - big(a), 'marginal-likelihood')


def harnesses():
    hs = [H('concentrated', concentrated, modules=['primitives.vonmises'],
            bounds='von Mises with both concentrations in [720, 3000], up to '
            '2 observations at the prior mean', query_ms=20000)]
    for p in PRIMS:
        n = {'normal': 2, 'lognormal': 2, 'vonmises': 2}.get(p.name, 3)
        hs.append(H('history-%s' % p.name, seq(p, n),
                    modules=['primitives.' + p.module],
                    bounds='up to %d observations + query' % n,
                    paths=4000, seconds=200))
        hs.append(H('deep-history-%s' % p.name, seq(p, n + 1), tier='thorough',
                    modules=['primitives.' + p.module],
                    bounds='up to %d observations + query' % (n + 1)))
        hs.append(H('hypers-%s' % p.name, hyper_change(p),
                    modules=['primitives.' + p.module],
                    bounds='1 observation, two hyper settings'))
    return hs
