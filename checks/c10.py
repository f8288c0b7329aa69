"""C10: a column mixes its clusters and accounts for every row."""
import types

from vp.runner import H
from .lib import BYNAME, Mth, posreal
from .c05 import marginal

NAN = float('nan')
ASSUMPTIONS = ['hyperparameters in [1/16, 16]']


def is_nan(x):
    return isinstance(x, float) and x != x


def make(U, p, hy, rng=None):
    return U['mixtures.dim'].Dim([0], [9], cctype=p.name, hypers=dict(hy),
                                 distargs=p.distargs, rng=rng)


def audit(E, p, d, hy, model, x, label, score=True):
    """model: {row: (cluster, value)}"""
    M = Mth(E)
    zr = {r: k for r, (k, v) in model.items() if not is_nan(v)}
    zi = {r: k for r, (k, v) in model.items() if is_nan(v)}
    E.check(dict(d.Zr) == zr, label + '-observed-rows')
    E.check(dict(d.Zi) == zi, label + '-missing-rows')
    ks = sorted({k for k, v in model.values()})
    vals = {k: [v for r, (kk, v) in sorted(model.items())
                if kk == k and not is_nan(v)] for k in ks}
    for k in ks + [55]:
        xs = vals.get(k, [])
        E.check_eq(d.logpdf(-1, {0: x}, None, {9: k}),
                   p.predictive(M, hy, xs, x), label + '-cluster-density')
        E.check_eq(d.logpdf(-1, {0: NAN}, None, {9: k}), 0,
                   label + '-missing-contributes-nothing')
    if score:
        E.check_eq(d.logpdf_score(),
                   marginal(p, M, hy, [vals[k] for k in ks]),
                   label + '-score')


def history(p, n, nrem):
    def h(E, U):
        hy = p.hypers(E)
        d = make(U, p, hy)
        x = p.datum(E, 'x')
        model = {}
        seen = 0
        for r in range(n):
            k = E.choose('k%d' % r, min(seen + 1, 2))
            seen = max(seen, k + 1)
            v = NAN if E.choose('nan%d' % r, 2) else p.datum(E, 'x%d' % r)
            d.incorporate(r, {0: v}, {9: 4 * k})
            model[r] = (4 * k, v)
        audit(E, p, d, hy, model, x, 'added')
        for i in range(nrem):
            rows = sorted(model)
            r = rows[E.choose('rm%d' % i, len(rows))]
            k, v = model.pop(r)
            d.unincorporate(r)
            audit(E, p, d, hy, model, x, 'removed')
            to = E.choose('back%d' % i, 3)
            if to < 2:
                d.incorporate(r, {0: v}, {9: 4 * to})
                model[r] = (4 * to, v)
                audit(E, p, d, hy, model, x, 'moved')
    return h


def rejected(p):
    def h(E, U):
        hy = p.hypers(E)
        d = make(U, p, hy)
        x = p.datum(E, 'x')
        model = {0: (0, p.datum(E, 'x0')), 1: (4, NAN)}
        for r, (k, v) in model.items():
            d.incorporate(r, {0: v}, {9: k})
        op = E.choose('op', 5)
        err = None
        try:
            if op == 0:
                d.incorporate(0, {0: x}, {9: 0})
            elif op == 1:
                d.incorporate(1, {0: x}, {9: 0})
            elif op == 2:
                d.unincorporate(7)
            elif op == 3:
                d.incorporate(5, {0: x}, {8: 0})
            else:
                d.logpdf(-1, {0: x}, None, {8: 0})
        except Exception as e:
            err = e
        E.check(isinstance(err, ValueError), 'rejected-with-ValueError',
                repr(err))
        audit(E, p, d, hy, model, x, 'after-rejection')
    return h


def sample(p, dom):
    """Samples for a cluster follow that cluster's density."""
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        n = 1 + E.choose('n', 2)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        z = [0] + [E.choose('z%d' % i, 2) for i in range(1, n)]
        k = E.choose('k', 3)
        mine = [x for x, c in zip(xs, z) if c == k]

        def run(rng):
            d = make(U, p, hy, rng)
            for i, x in enumerate(xs):
                d.incorporate(i, {0: x}, {9: z[i]})
            return d.simulate(-1, [0], None, {9: k})
        tab = {}
        for o in E.enumerate_random(run):
            v = int(o.value[0])
            tab[v] = tab.get(v, 0) + o.weight
        E.check(set(tab) <= set(dom), 'sample-in-support')
        for v in dom:
            E.check_eq(tab.get(v, 0), M.exp(p.predictive(M, hy, mine, v)),
                       'cluster-sample-law')
    return h


def conditional(E, U):
    """A row with a missing input of a conditional column is set aside."""
    D = U['mixtures.dim'].Dim
    d = D([0], [9, 3], cctype='linear_regression', hypers={},
          distargs={'inputs': {'stattypes': ['normal'],
                               'statargs': [{}], 'indexes': [3]}})
    rows = {}
    for r in range(3):
        y = NAN if E.choose('nan%d' % r, 2) else E.real('y%d' % r, -4, 4)
        w = NAN if E.choose('in%d' % r, 2) else E.real('w%d' % r, -4, 4)
        k = E.choose('k%d' % r, 2)
        d.incorporate(r, {0: y}, {9: k, 3: w})
        rows[r] = (k, y, w)
    good = {r: k for r, (k, y, w) in rows.items()
            if not is_nan(y) and not is_nan(w)}
    bad = {r: k for r, (k, y, w) in rows.items() if r not in good}
    E.check(dict(d.Zr) == good, 'complete-rows')
    E.check(dict(d.Zi) == bad, 'rows-with-missing-inputs')
    for k in set(good.values()):
        E.check(d.clusters[k].N == sum(1 for c in good.values() if c == k),
                'cluster-count')
        for r in good:
            E.check((r in d.clusters[k].data.x) == (good[r] == k),
                    'cluster-holds-its-rows')
    r = E.choose('rm', 3)
    d.unincorporate(r)
    good.pop(r, None)
    bad.pop(r, None)
    E.check(dict(d.Zr) == good and dict(d.Zi) == bad, 'removed')
    for k in d.clusters:
        E.check(d.clusters[k].N == sum(1 for c in good.values() if c == k),
                'cluster-count-after-removal')


def parameters(nrows, nops):
    """Each cluster of an uncollapsed column keeps one set of parameters while
    it has rows; a cluster emptied of rows gives them up, and one formed again
    under its label has parameters drawn for it."""
    def h(E, U):
        M = Mth(E)
        x = posreal(E, 'x', '1/100', '99/100')
        rng = Fresh(E)
        z = [0] + [E.choose('z%d' % i, 2) for i in range(1, nrows)]
        vals = ['1/5', '1/3', '3/4'][:nrows]
        vals = [E.const(v) + 0 for v in vals]
        v = U['mixtures.view'].View(
            {0: list(vals)}, outputs=[9, 0], alpha=E.const(1),
            cctypes=['beta'], distargs=[None], hypers=[{}], Zr=list(z),
            rng=rng)
        Z = dict(enumerate(z))

        def lik(q):
            s, b = q
            a, b = s * b, s * (1 - b)
            return (a - 1) * M.log(x) + (b - 1) * M.log(1 - x) \
                - M.betaln(a, b)

        def of(k):
            """Which of the draws the density in cluster k has."""
            got = v.dims[0].logpdf(-1, {0: x}, None, {9: k})
            own = [i for i, q in enumerate(rng.pairs())
                   if E.isclose(got, lik(q))]
            E.check(len(own) == 1, 'density-of-drawn-parameters')
            return own[0] if own else None
        own = {k: of(k) for k in set(Z.values())}
        E.check(len(set(own.values())) == len(own), 'own-parameters')
        used = set(own.values())
        for i in range(nops):
            rows = sorted(Z)
            r = rows[E.choose('rm%d' % i, len(rows))]
            k = Z.pop(r)
            v.unincorporate(r)
            if k not in Z.values():
                del own[k]
                E.check(of(k) not in used, 'emptied-cluster-is-new')
            if len(Z) < nrows:
                k = E.choose('to%d' % i, 3)
                if k < 2:
                    v.incorporate(r, {0: vals[r], 9: k})
                    Z[r] = k
                    if k not in own:
                        own[k] = of(k)
                        E.check(own[k] not in used, 'formed-again-is-new')
                        used.add(own[k])
            for k in set(Z.values()):
                E.check(of(k) == own[k], 'keeps-its-parameters')
            if not Z:
                break
    return h


class Fresh(object):
    """Distinct symbolic draws of parameters."""

    def __init__(self, E):
        self.E, self.s, self.b = E, [], []

    def exponential(self, scale=1., size=None):
        n = len(self.s)
        self.s.append(self.E.const('%d/2' % (2 * n + 1)) + self.E.real(
            's%d' % n, 0, '1/8'))
        return self.s[-1]

    def beta(self, a, b, size=None):
        n = len(self.b)
        self.b.append(posreal(self.E, 'b%d' % n, '1/16', '15/16'))
        return self.b[-1]

    def pairs(self):
        return list(zip(self.s, self.b))

    def choice(self, a, *k, **kw):
        return list(a)[0]


def staying(symbolic):
    """A sampler whose moves are all rejected (an outcome it can have)."""
    m = types.ModuleType('cgpm.utils.sampling')
    m.mh_sample = lambda x, f, jump_std, D, *a, **k: x
    return {'cgpm.utils.sampling': m}


def harnesses():
    hs = [H('parameters', parameters(2, 2), modules=[
        'mixtures.view', 'mixtures.dim', 'primitives.beta'], stubs=staying,
        bounds='2 rows in up to 2 clusters, 2 removals or moves')]
    hs.append(H('parameters-long', parameters(3, 3), tier='thorough', modules=[
        'mixtures.view', 'mixtures.dim', 'primitives.beta'], stubs=staying,
        bounds='3 rows in up to 2 clusters, 3 removals or moves'))
    for name, n, r in (('bernoulli', 2, 1), ('categorical', 2, 1),
                       ('normal', 2, 1), ('exponential', 3, 1),
                       ('poisson', 3, 1), ('geometric', 3, 1)):
        p = BYNAME[name]
        m = ['mixtures.dim', 'primitives.' + p.module]
        hs.append(H('history-%s' % name, history(p, n, r), modules=m,
                    paths=6000, seconds=200,
                    bounds='%d rows in up to 2 clusters, present or missing, '
                    '%d removals or moves' % (n, r)))
        hs.append(H('history-long-%s' % name, history(p, n + 1, 2), modules=m,
                    tier='thorough', thorough_seconds=1200,
                    bounds='%d rows, 2 removals or moves' % (n + 1)))
        hs.append(H('rejected-%s' % name, rejected(p), modules=m,
                    bounds='2 rows, one rejected operation'))
    for name in ('bernoulli', 'categorical'):
        p = BYNAME[name]
        hs.append(H('sample-%s' % name, sample(p, p.support),
                    modules=['mixtures.dim', 'primitives.' + name],
                    bounds='up to 2 rows in up to 2 clusters'))
    hs.append(H('conditional', conditional,
                modules=['mixtures.dim', 'regressions.linreg'],
                bounds='3 rows, each value and input present or missing'))
    return hs
