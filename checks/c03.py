"""C03: simulate follows exactly the density reported by logpdf."""
from vp.runner import H
from .lib import PRIMS, Mth
from .laws import law
from vp.rng import tabulate


def discrete(p, nmax):
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        n = E.choose('n', nmax + 1)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        rowid = [-1, n, 50, None][E.choose('rowid', 4)]
        if p.name == 'crp':
            dom = sorted({int(x) for x in xs})
            dom = dom + [dom[-1] + 1 if dom else 0]
        else:
            dom = list(p.support)

        def build(rng):
            d = p.make(U, hypers=dict(hy), rng=rng)
            for i, y in enumerate(xs):
                d.incorporate(i, {0: y})
            return d
        outs = E.enumerate_random(lambda rng: build(rng).simulate(
            rowid, [0]))
        tab = {}
        for o in outs:
            E.check(list(o.value) == [0], 'sample-shape')
            v = int(o.value[0])
            tab[v] = tab.get(v, 0) + o.weight
        E.check(set(tab) <= set(dom), 'sample-in-support')
        d = build(None)
        for v in dom:
            lp = d.logpdf(-1, {0: v})
            E.check_eq(tab.get(v, 0), M.exp(lp), 'sample-probability')
        # N samples: a list of N independent draws
        outs = E.enumerate_random(lambda rng: build(rng).simulate(
            rowid, [0], N=2))
        joint = {}
        for o in outs:
            E.check(isinstance(o.value, list) and len(o.value) == 2,
                    'N-samples-shape')
            k = tuple(int(s[0]) for s in o.value)
            joint[k] = joint.get(k, 0) + o.weight
        for a in dom:
            for b in dom:
                E.check_eq(joint.get((a, b), 0), tab.get(a, 0) * tab.get(b, 0),
                           'N-samples-independent')
    return h


def compound(p, nmax):
    def h(E, U):
        M = Mth(E)
        hy = p.hypers(E)
        n = E.choose('n', nmax + 1)
        xs = [p.datum(E, 'x%d' % i) for i in range(n)]
        p.ok(hy, xs, E)
        N = [None, 1, 2][E.choose('N', 3)]

        def build(rng):
            d = p.make(U, hypers=dict(hy), rng=rng)
            for i, y in enumerate(xs):
                d.incorporate(i, {0: y})
            return d
        outs = E.enumerate_random(
            lambda rng: build(rng).simulate(n + 3, [0], N=N))
        E.check(len(outs) == 1, 'single-outcome')
        o = outs[0]
        vals = [o.value] if N is None else o.value
        E.check(isinstance(vals, list) and len(vals) == (N or 1),
                'N-samples-shape')
        per = len(o.log) // len(vals)
        E.check(per * len(vals) == len(o.log), 'draws-per-sample')
        d = build(None)
        for i, v in enumerate(vals):
            E.check(list(v) == [0], 'sample-shape')
            v = v[0]
            log = o.log[i * per:(i + 1) * per]
            if p.name == 'vonmises':
                p.ok(hy, xs + [v], E)
            lp = d.logpdf(-1, {0: v})
            E.check_eq(law(E, M, log, v), lp, 'sample-density')
    return h


def observed(p):
    def h(E, U):
        hy = p.hypers(E)
        xs = [p.datum(E, 'x%d' % i) for i in range(2)]
        p.ok(hy, xs, E)
        r = E.choose('row', 2)
        N = [None, 1, 3][E.choose('N', 3)]

        def run(rng):
            d = p.make(U, hypers=dict(hy), rng=rng)
            for i, y in enumerate(xs):
                d.incorporate(i, {0: y})
            return d.simulate(r, [0], N=N)
        for o in E.enumerate_random(run):
            vals = [o.value] if N is None else o.value
            E.check(len(vals) == (N or 1), 'N-samples-shape')
            for v in vals:
                E.check_eq(v[0], xs[r], 'observed-row-returns-stored-value')
    return h


def harnesses():
    hs = []
    for p in PRIMS:
        disc = p.name in ('bernoulli', 'categorical', 'crp')
        n = {'vonmises': 1, 'lognormal': 2, 'normal': 2,
             'categorical': 2}.get(p.name, 3)
        hs.append(H('law-%s' % p.name, (discrete if disc else compound)(p, n),
                    modules=['primitives.' + p.module], seconds=250,
                    paths=6000,
                    bounds='up to %d observations; N in none, 1, 2' % n))
        hs.append(H('observed-%s' % p.name, observed(p),
                    modules=['primitives.' + p.module],
                    bounds='2 observations'))
    return hs


ASSUMPTIONS = ['the random source draws exactly from the family and '
               'parameters requested (numpy contract)',
               'hyperparameters in [1/16, 16]']
