"""C04: densities are normalised and vanish outside the support."""
from vp.runner import H
from .lib import PRIMS, Mth, BYNAME


def build(p, U, hy, xs):
    d = p.make(U, hypers=dict(hy))
    for i, y in enumerate(xs):
        d.incorporate(i, {0: y})
    return d


def finite(p, nmax):
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        n = E.choose('n', nmax + 1)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        d = build(p, U, hy, xs)
        if p.name == 'crp':
            dom = sorted({int(x) for x in xs})
            dom = dom + [max(dom) + 1 + E.choose('gap', 3) if dom else 0]
        else:
            dom = p.support
        t = 0
        for v in dom:
            lp = d.logpdf(-1, {0: v})
            E.check(lp <= 0, 'probability-at-most-one')
            t = t + M.exp(lp)
        E.check_eq(t, 1, 'sums-to-one')
    return h


def geometric(p, nmax, K=4):
    """Telescoping: p(0)+...+p(k) = 1 - B(an, bn+k+1)/B(an, bn)."""
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        n = E.choose('n', nmax + 1)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        d = build(p, U, hy, xs)
        an, bn = hy['a'] + n, hy['b'] + sum(xs)
        t = 0
        for k in range(K):
            t = t + M.exp(d.logpdf(-1, {0: k}))
            tail = 1
            for i in range(k + 1):
                tail = tail * (bn + i) / (an + bn + i)
            E.check_eq(t + tail, 1, 'partial-sums-with-closed-tail')
    return h


def poisson(p, nmax, K=4):
    """p(0) = (bn/(bn+1))^an and p(k+1)/p(k) = (an+k)/((k+1)(bn+1)): the
    negative binomial series, which sums to one."""
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        n = E.choose('n', nmax + 1)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        d = build(p, U, hy, xs)
        an, bn = hy['a'] + sum(xs), hy['b'] + n
        l = d.logpdf(-1, {0: 0})
        E.check_eq(l, an * (M.log(bn) - M.log(bn + 1)), 'first-term')
        k = E.int('k', 0, 5, flt=False)
        r = d.logpdf(-1, {0: k + 1}) - d.logpdf(-1, {0: k})
        E.check_eq(r, M.log(an + k) - M.log(k + 1) - M.log(bn + 1),
                   'term-ratio')
    return h


def continuous(p, nmax):
    """Equal to a normalised textbook density at every point."""
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        n = E.choose('n', nmax + 1)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        x = p.datum(E, 'x')
        p.ok(hy, xs + [x], E)
        d = build(p, U, hy, xs)
        E.check_eq(d.logpdf(-1, {0: x}), p.predictive(M, hy, xs, x),
                   'normalised-density')
    return h


def support(p):
    def h(E, U):
        hy = p.hypers(E)
        n = E.choose('n', 2)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        p.ok(hy, xs, E)
        d = build(p, U, hy, xs)
        kinds = ['negative', 'fraction', 'beyond']
        kind = kinds[E.choose('kind', 3)]
        if kind == 'negative':
            if p.name == 'normal':
                return
            v = E.real('neg', -16, '-1/64')
        elif kind == 'fraction':
            if p.continuous:
                v = {'lognormal': 0, 'vonmises': 7}.get(p.name)
                if v is None:
                    return
            else:
                v = E.real('frac', 0, 2)
                E.assume(v > 0)
                E.assume(v < 2)
                E.assume(v != 1)
        else:
            if p.name in ('bernoulli', 'categorical'):
                v = E.real('big', 2 if p.name == 'bernoulli' else 3, 50)
            elif p.name == 'vonmises':
                v = E.real('big', '6.2832', 50)
            else:
                return
        E.check_eq(d.logpdf(-1, {0: v}), -float('inf'), 'outside-is-minus-inf')
        err = None
        try:
            d.incorporate(9, {0: v})
        except Exception as e:
            err = e
        E.check(isinstance(err, ValueError), 'outside-rejected-ValueError',
                repr(err))
        E.check(9 not in d.data, 'outside-not-stored')
    return h


def inside(p):
    """Every value in the support has a finite density and is accepted."""
    def h(E, U):
        hy = p.hypers(E)
        n = E.choose('n', 2)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        x = p.datum(E, 'x')
        p.ok(hy, xs + [x], E)
        d = build(p, U, hy, xs)
        lp = d.logpdf(-1, {0: x})
        E.check(lp > -float('inf') and lp < float('inf'), 'inside-finite')
        d.incorporate(9, {0: x})
        E.check_eq(d.data[9], x, 'inside-stored')
    return h


def harnesses():
    hs = []
    for p in PRIMS:
        m = ['primitives.' + p.module]
        n = {'vonmises': 1, 'lognormal': 1, 'normal': 2}.get(p.name, 3)
        if p.continuous:
            f = continuous(p, n)
        elif p.name == 'geometric':
            f = geometric(p, n)
        elif p.name == 'poisson':
            f = poisson(p, n)
        else:
            f = finite(p, n)
        hs.append(H('normalised-%s' % p.name, f, modules=m, seconds=200,
                    bounds='up to %d observations' % n))
        if p.name != 'crp':
            if p.name != 'normal':
                hs.append(H('outside-%s' % p.name, support(p), modules=m,
                            bounds='0 or 1 observations, any real value '
                            'outside the support in [-16, 50]'))
            hs.append(H('inside-%s' % p.name, inside(p), modules=m,
                        bounds='0 or 1 observations'))
    return hs


ASSUMPTIONS = ['infinite sums are reduced to a closed tail (geometric) or to '
               'the negative binomial series (poisson); continuous densities '
               'are compared with normalised textbook densities',
               'hyperparameters in [1/16, 16]']
