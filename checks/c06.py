"""C06: log-space and sampling utilities."""
from vp.runner import H
from .lib import Mth

NINF = -float('inf')
ASSUMPTIONS = ['log weights are reals in [-1500, 1500] or minus infinity']


def weights(E, nmax, lo=-40, hi=40, nmin=1, ninf=True, name='w'):
    """A list of log weights; at least one is finite."""
    n = nmin + E.choose('n' + name, nmax + 1 - nmin)
    out = []
    for i in range(n):
        if ninf and E.choose('inf%s%d' % (name, i), 2):
            out.append(NINF)
        else:
            out.append(E.real('%s%d' % (name, i), lo, hi))
    return out


def fin(xs):
    return [x for x in xs if not (isinstance(x, float) and x == NINF)]


def lse(nmax, lo, hi, ninf=True):
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        xs = weights(E, nmax, lo, hi, 0, ninf)
        f = fin(xs)
        got = gu.logsumexp(xs)
        if not f:
            E.check_eq(got, NINF, 'logsumexp-of-nothing')
        else:
            E.check_eq(got, M.logsumexp(f), 'logsumexp')
            c = E.real('c', -20, 20)
            E.check_eq(gu.logsumexp([x + c for x in xs]), got + c,
                       'logsumexp-shift')
            E.check_eq(gu.logsumexp(list(reversed(xs))), got,
                       'logsumexp-order')
        m = gu.logmeanexp(xs)
        if not f:
            E.check_eq(m, NINF, 'logmeanexp-of-nothing')
        else:
            E.check_eq(m, got - M.log(E.const(len(xs)) if E.symbolic
                                      else len(xs)), 'logmeanexp')
    return h


def weighted(nmax):
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        ws = weights(E, nmax)
        n = len(ws)
        xs = [NINF if E.choose('infa%d' % i, 2) else
              E.real('a%d' % i, -40, 40) for i in range(n)]
        fw = fin(ws)
        E.assume(len(fw) > 0)
        got = gu.logmeanexp_weighted(xs, ws)
        prods = [w + x for w, x in zip(ws, xs)]
        fp = fin(prods)
        if fp:
            E.check_eq(got, M.logsumexp(fp) - M.logsumexp(fw),
                       'weighted-mean')
        else:
            E.check_eq(got, NINF, 'weighted-mean-of-zeros')
        if n > 1:
            c = E.real('c', -20, 20)
            E.check_eq(gu.logmeanexp_weighted(xs, [w + c for w in ws]), got,
                       'weights-need-no-normalisation')
    return h


def normal(nmax):
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        xs = weights(E, nmax)
        f = fin(xs)
        E.assume(len(f) > 0)
        out = gu.log_normalize(xs)
        E.check(len(out) == len(xs), 'log_normalize-length')
        t = M.logsumexp(f)
        for a, b in zip(out, xs):
            E.check_eq(a, b - t, 'log_normalize')
        ps = [E.real('p%d' % i, 0, 9) for i in range(len(xs))]
        E.assume(sum(ps) > E.const('1/100'))
        q = gu.normalize(ps)
        for a, b in zip(q, ps):
            E.check_eq(a * sum(ps), b, 'normalize')
    return h


def flip(nmax):
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        kind = ['pflip', 'log_pflip'][E.choose('kind', 2)]
        if kind == 'pflip':
            n = 1 + E.choose('n', nmax)
            ws = [E.real('p%d' % i, 0, 9) for i in range(n)]
            E.assume(sum(ws) > E.const('1/100'))
            ps = list(ws)
        else:
            ws = weights(E, nmax)
            E.assume(len(fin(ws)) > 0)
            n = len(ws)
            ps = [M.exp(w) for w in ws]
        t = sum(ps)
        arr = [None, ['a', 'b', 'c', 'd'][:n]][E.choose('array', 2)]
        size = [None, 0, 1, 2][E.choose('size', 4)]
        items = arr or list(range(n))
        outs = E.enumerate_random(lambda rng: getattr(gu, kind)(
            list(ws), array=arr, size=size, rng=rng))
        tab = {}
        for o in outs:
            if size is None:
                k = (o.value,)
            else:
                E.check(len(o.value) == size, kind + '-size')
                k = tuple(o.value)
            k = tuple(int(x) if not isinstance(x, str) else x for x in k)
            for x in k:
                E.check(x in items, kind + '-from-array')
            tab[k] = tab.get(k, 0) + o.weight
        if size == 0:
            return
        import itertools
        for k in itertools.product(items, repeat=size or 1):
            w = 1
            for x in k:
                w = w * ps[items.index(x)] / t
            E.check_eq(tab.get(k, 0), w, kind + '-probability')
    return h


def linspace():
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        a = E.real('a', '1/16', 16)
        b = E.real('b', '1/16', 16)
        n = 2 + E.choose('n', 4)
        g = gu.log_linspace(a, b, n)
        E.check(len(g) == n, 'length')
        E.check_eq(g[0], a, 'first')
        E.check_eq(g[n - 1], b, 'last')
        for i in range(n):
            E.check(g[i] > 0, 'positive')
            E.check_eq((n - 1) * M.log(g[i]),
                       (n - 1 - i) * M.log(a) + i * M.log(b),
                       'equally-spaced-logs')
    return h


def binom():
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        n = E.int('n', 0, 9, flt=False)
        k = E.int('k', 0, 9, flt=False)
        E.assume(k <= n)
        got = gu.log_nCk(n, k)
        E.check_eq(got, M.lgamma(n + 1) - M.lgamma(k + 1)
                   - M.lgamma(n - k + 1), 'log-binomial')
    return h


def harnesses():
    m = ['utils.general']
    return [
        H('logsumexp', lse(3, -40, 40), modules=m,
          bounds='lists of up to 3 weights in [-40,40] or -inf'),
        H('logsumexp-large', lse(2, 1000, 1500, False), modules=m, replays=12,
          bounds='lists of up to 2 weights in [1000,1500]'),
        H('logsumexp-small', lse(2, -1500, -1000, False), modules=m,
          replays=12, bounds='lists of up to 2 weights in [-1500,-1000]'),
        H('logmeanexp-weighted', weighted(3), modules=m,
          bounds='up to 3 values and weights, finite or -inf'),
        H('normalize', normal(3), modules=m, bounds='up to 3 weights'),
        H('flips', flip(3), modules=m,
          bounds='up to 3 weights, samples of size none, 0, 1, 2'),
        H('log-linspace', linspace(), modules=m, bounds='2 to 5 points'),
        H('binomial', binom(), modules=m, bounds='0 <= k <= n <= 9'),
        H('logsumexp-4', lse(4, -40, 40), modules=m, tier='thorough',
          bounds='lists of up to 4 weights'),
        H('flips-4', flip(4), modules=m, tier='thorough',
          bounds='up to 4 weights'),
    ]
