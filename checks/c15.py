"""C15: column reassignment samples the exact Gibbs conditional."""
import types

import numpy as np

from vp.runner import H
from .lib import Mth, posreal
from .slib import (BASE, BERN, CAT, EXPO, STable, check_state,
                   partition_choice, small_grids)
from .c05 import marginal

ASSUMPTIONS = ['hyperparameters in [1/16, 16]',
               'hyperparameter grids of one point']


def part(Z):
    d = {}
    for r in sorted(Z):
        d.setdefault(Z[r], []).append(r)
    return tuple(sorted(tuple(b) for b in d.values()))


def colpart(zv):
    return part(zv)


def gibbs(ncols, n, m=1, zvs=None, types=(BERN, CAT, BERN), Ci=(),
          missing=()):
    def h(E, U):
        small_grids(U)
        cols = [(c, types[c % len(types)]) for c in range(ncols)]
        if zvs is None:
            z = partition_choice(E, ncols, 'v', kmax=ncols)
            zv = {c: z[c] for c in range(ncols)}
        else:
            zv = E.choose('zv', zvs)
        zrv = {}
        for i, v in enumerate(sorted(set(zv.values()))):
            lab = [(0, 1), (3, 0)][i % 2]
            zrv[v] = [lab[0]] + [lab[E.choose('z%d_%d' % (v, r), 2)]
                                 for r in range(1, n)]
        t = STable(E, cols, n, zv, zrv, missing,
                   free=[(0, c) for c in zv][:2])
        M = t.M
        col = E.choose('col', sorted(zv))
        p = t.cols[col]
        hy = t.views[zv[col]].hy[col]
        xs = t.X[col]

        def datalogp(Z):
            ks = sorted(set(Z.values()))
            return marginal(p, M, hy, [
                [xs[r] for r in sorted(Z) if Z[r] == k and xs[r] == xs[r]]
                for k in ks])

        def run(rng):
            s = t.build(U, rng, Ci=[tuple(q) for q in Ci] or None)
            before = {v: (dict(w.Zr()), w.alpha())
                      for v, w in s.views.items()}
            s.transition_dims(cols=[col], m=m)
            return s, before
        others = {}
        for c, v in zv.items():
            if c != col:
                others[v] = others.get(v, 0) + 1
        avoid = [a for q in Ci if col in q for a in q if a != col]
        single = zv[col] not in others
        alpha = t.alpha
        outs = E.enumerate_random(run)
        # outcomes grouped by the row partitions proposed for fresh views
        groups = {}
        for o in outs:
            draws = [d for d in o.log]
            key = tuple(o.script[:-1])
            groups.setdefault(key, []).append(o)
        nfresh = m - 1 if single else m
        for key, os_ in groups.items():
            # weight of the final draw given the proposals
            W = {}
            tot = 0
            for o in os_:
                tot = tot + o.weight
            for o in os_:
                s, before = o.value
                check_state(E, s, 'after', (), Ci)
                E.check({c: v for c, v in s.Zv().items() if c != col}
                        == {c: v for c, v in zv.items() if c != col},
                        'only-that-column-moved')
                v = s.Zv(col)
                for w in before:
                    if w in s.views:
                        E.check(dict(s.views[w].Zr()) == before[w][0],
                                'row-partitions-unchanged')
                Z = dict(s.views[v].Zr())
                if v in others:
                    prior = M.log(others[v])
                else:
                    prior = M.log(alpha) - M.log(E.const(m))
                W[v] = (o.weight, prior + datalogp(Z))
                d = s.dim_for(col)
                E.check_eq(d.logpdf_score(), datalogp(Z), 'column-score-after')
            vs = sorted(W)
            want = {v for v in others
                    if not any(zv[a] == v for a in avoid)}
            E.check(want <= set(vs), 'every-view-possible')
            fresh = [v for v in vs if v not in others]
            E.check(len(fresh) == m, 'fresh-views-possible', repr(fresh))
            E.check(not any(zv[a] in vs for a in avoid),
                    'never-into-conflict')
            if single:
                E.check(zv[col] in vs, 'own-view-reused')
            for v in vs[1:]:
                E.check_eq(M.log(W[v][0]) - M.log(W[vs[0]][0]),
                           W[v][1] - W[vs[0]][1], 'gibbs-conditional')
    return h


def fresh_view(n):
    """A fresh view is proposed from the prior over row partitions."""
    def h(E, U):
        small_grids(U)
        t = STable(E, [(0, BERN), (1, BERN)], n, {0: 0, 1: 0},
                   {0: [0] * n})
        M = t.M

        def run(rng):
            s = t.build(U, rng)
            s.transition_dims(cols=[1])
            return s
        from .vlib import crp_score
        tab = {}
        lp = {}
        for o in E.enumerate_random(run):
            s = o.value
            key = tuple(o.script[:-1])
            tab.setdefault(key, []).append(o)
        seen = {}
        for key, os_ in tab.items():
            w = sum(o.weight for o in os_)
            for o in os_:
                s = o.value
                if s.Zv(1) != 0:
                    Z = dict(s.views[s.Zv(1)].Zr())
                    cnt = {}
                    for k in Z.values():
                        cnt[k] = cnt.get(k, 0) + 1
                    a = s.views[s.Zv(1)].alpha()
                    E.check_eq(M.log(w), crp_score(M, a, cnt.values()),
                               'row-partition-prior')
                    seen[part(Z)] = 1
        E.check(len(seen) == {2: 2, 3: 5}[n], 'every-row-partition-possible')
    return h


def drawing(symbolic):
    """A parameter sampler that moves to another point with each call."""
    m = types.ModuleType('cgpm.utils.sampling')
    m.hook = None
    m.rng = None

    def mh_sample(x, f, jump_std, D, num_samples=1, burn=1, lag=1, rng=None):
        m.rng = rng
        return m.hook(D)
    m.mh_sample = mh_sample
    return {'cgpm.utils.sampling': m}


def uncollapsed(zvs):
    """A column with parameters of its own is scored where it is under those
    it has and elsewhere under those proposed, which go with it."""
    def h(E, U):
        small_grids(U)
        M = Mth(E)
        S = U['crosscat.state'].State
        calls = [0]

        def hook(D):
            calls[0] += 1
            i = calls[0]
            return E.const('%d/%d' % (2 * i + 1, 2 * i + 3)) \
                if D[1] == 1 else E.const(2 * i + 1) / 2
        U['utils.sampling'].hook = hook
        zv = E.choose('zv', zvs)
        vals = [E.const('1/5'), E.const('3/4')]
        A = np.empty((2, 2), dtype=object)
        A[:] = [[vals[0], 0], [vals[1], 1]]
        zrv = {v: [3, E.choose('z%d' % v, [3, 0])]
               for v in sorted(set(zv.values()))}
        alpha = posreal(E, 'alpha')
        first = {}
        for k in sorted(set(zrv[zv[0]])):
            first[k] = (E.const('7/3') + k, E.const('2/9'))

        def score(d):
            out = 0
            for k, c in d.clusters.items():
                s, b = c.strength, c.balance
                a, b = s * b, s * (1 - b)
                out = out - s / 5 - M.log(5)
                for x in c.data.values():
                    out = out + (a - 1) * M.log(x) \
                        + (b - 1) * M.log(1 - x) - M.betaln(a, b)
            return out

        def run(rng):
            s = S(A, outputs=[0, 1], cctypes=['beta', 'bernoulli'],
                  hypers=[{}, {'alpha': E.const(1), 'beta': E.const(2)}],
                  alpha=alpha, Zv=zv, Zrv=zrv,
                  view_alphas={v: E.const(1) for v in zrv}, rng=rng)
            for k, c in s.dim_for(0).clusters.items():
                c.strength, c.balance = first[k]
            calls[0] = 0
            s.transition_dims(cols=[0])
            return s
        groups = {}
        for o in E.enumerate_random(run):
            groups.setdefault(tuple(o.script[:-1]), []).append(o)
        for os_ in groups.values():
            W = {}
            for o in os_:
                s = o.value
                check_state(E, s, 'after')
                v, d = s.Zv(0), s.dim_for(0)
                if v == zv[0]:
                    E.check(sorted(d.clusters) == sorted(first),
                            'clusters-stay')
                    for k, c in d.clusters.items():
                        E.check(E.isclose(c.strength, first[k][0])
                                and E.isclose(c.balance, first[k][1]),
                                'parameters-stay')
                E.check_eq(d.logpdf_score(), score(d), 'column-score-after')
                rest = [c for c in (1,) if zv[c] == v]
                W[v] = (o.weight, score(d) + M.log(
                    E.const(1) if rest else alpha))
            vs = sorted(W)
            E.check(len(vs) == 2, 'every-view-possible')
            for v in vs[1:]:
                E.check_eq(M.log(W[v][0]) - M.log(W[vs[0]][0]),
                           W[v][1] - W[vs[0]][1], 'gibbs-conditional')
    return h


def proposals(E, U):
    """The parameters proposed with each view are drawn for that view, and
    nothing else is decided by the same draws."""
    small_grids(U)
    M = Mth(E)
    S = U['crosscat.state'].State
    points = [E.const('3/2'), E.const('7/2')]

    def hook(D):
        if D[1] == 1:
            return E.const('2/5')
        return points[int(U['utils.sampling'].rng.choice(2))]
    U['utils.sampling'].hook = hook
    n = 3
    zv = E.choose('zv', [{0: 0, 1: 4}, {0: 0, 1: 4, 2: 7}])
    A = np.empty((2, n), dtype=object)
    A[:] = [[E.const('1/5'), 0, 1], [E.const('3/4'), 1, 1]]
    alpha = posreal(E, 'alpha')

    def run(rng):
        s = S(A[:,:len(zv)], outputs=sorted(zv),
              cctypes=['beta', 'bernoulli', 'bernoulli'][:len(zv)],
              hypers=([{}] + [{'alpha': E.const(1), 'beta': E.const(2)}] * 2
                      )[:len(zv)],
              alpha=alpha, Zv=zv, Zrv={v: [3, 3] for v in zv.values()},
              view_alphas={v: E.const(1) for v in zv.values()}, rng=rng)
        c = s.dim_for(0).clusters[3]
        c.strength, c.balance = E.const('7/3'), E.const('2/9')
        begun[0] = len(rng.taken)
        s.transition_dims(cols=[0])
        return s
    begun = [0]
    where = sorted(v for v in zv.values() if v)
    total, law = {}, {}
    for o in E.enumerate_random(run):
        before = tuple(o.script[:begun[0]])
        if any(before):
            continue
        key = tuple(o.script[:-1])
        total.setdefault(key, []).append(o)
    E.check(len(total) == 2 ** len(where), 'one-draw-for-each-proposal')
    seen = set()
    for os_ in total.values():
        got = {}
        W = {}
        for o in os_:
            s = o.value
            c = s.dim_for(0).clusters[3]
            v = s.Zv(0)
            E.check(v == 0 or any(E.isclose(c.strength, q) for q in points),
                    'parameters-are-those-proposed')
            got[v] = [i for i in (0, 1) if E.isclose(c.strength, points[i])]
            lp = -c.strength / 5 - M.log(5)
            a, b = c.strength * c.balance, c.strength * (1 - c.balance)
            for x in A[:,0]:
                lp = lp + (a - 1) * M.log(x) + (b - 1) * M.log(1 - x) \
                    - M.betaln(a, b)
            W[v] = (o.weight, lp + M.log(alpha if v == 0 else E.const(1)))
        E.check(sorted(W) == [0] + where, 'every-view-possible')
        seen.add(tuple(tuple(got.get(v, ())) for v in where))
        for v in where:
            if v in W and 0 in W:
                E.check_eq(M.log(W[v][0]) - M.log(W[0][0]),
                           W[v][1] - W[0][1], 'gibbs-conditional')
    E.check(len(seen) == 2 ** len(where), 'proposals-are-independent')


def sweep(E, U):
    """A sweep moves every column once, in the drawn order."""
    small_grids(U)
    t = STable(E, [(0, BERN), (1, BERN)], 2, {0: 0, 1: 0}, {0: [0, 1]})
    perm = E.choose('order', [(0, 1), (1, 0)])

    def law(steps):
        def run(rng):
            s = t.build(U, rng)
            for cols in steps:
                s.transition_dims(cols=cols)
            return s
        tab = {}
        for o in E.enumerate_random(run, perm=perm):
            s = o.value
            check_state(E, s, 'after')
            key = (part(s.Zv()),
                   tuple(part(s.views[s.Zv(c)].Zr()) for c in (0, 1)))
            tab[key] = tab.get(key, 0) + o.weight
        return tab
    a = law([None])
    b = law([[c] for c in perm])
    E.check(set(a) == set(b), 'sweep-outcomes')
    for k in a:
        E.check_eq(a[k], b.get(k, 0), 'sweep-law')


MODS = ['crosscat.state', 'mixtures.view', 'mixtures.dim', 'primitives.crp',
        'primitives.bernoulli', 'primitives.categorical', 'utils.general']


def harnesses():
    return [
        H('two', gibbs(2, 2), modules=MODS,
          bounds='2 columns, 2 rows, every column and row partition'),
        H('three', gibbs(3, 2, 1, [{0: 0, 1: 0, 2: 1}, {0: 0, 1: 1, 2: 1},
                                   {0: 0, 1: 0, 2: 0},
                                   {0: 0, 1: 1, 2: 2}]), modules=MODS,
          bounds='3 columns, 2 rows'),
        H('labels', gibbs(2, 2, 1, [{0: 8, 1: 1}, {0: 1, 1: 8}, {0: 9, 1: 0},
                                    {0: 4, 1: 4}]), modules=MODS,
          bounds='2 columns, 2 rows, gaps and disorder in view labels'),
        H('auxiliary', gibbs(2, 2, 2), modules=MODS,
          bounds='2 columns, 2 rows, 2 fresh proposals'),
        H('missing', gibbs(2, 2, 1, [{0: 0, 1: 0}, {0: 0, 1: 1}],
                           missing=[(0, 0)]), modules=MODS,
          bounds='2 columns, 2 rows, a missing cell'),
        H('independent', gibbs(3, 2, 1, [{0: 0, 1: 1, 2: 0},
                                         {0: 0, 1: 1, 2: 1},
                                         {0: 2, 1: 0, 2: 5}],
                               (BERN, BERN, BERN), ((0, 1),)), modules=MODS,
          bounds='3 columns, 2 rows, one independence constraint'),
        H('independent-of-two', gibbs(3, 2, 1, [{0: 0, 1: 1, 2: 4},
                                                {0: 6, 1: 2, 2: 2},
                                                {0: 0, 1: 5, 2: 1}],
                                      (BERN, BERN, BERN),
                                      ((0, 1), (2, 0))), modules=MODS,
          bounds='3 columns, 2 rows, two independence constraints'),
        H('exponential', gibbs(2, 2, 1, [{0: 0, 1: 1}, {0: 0, 1: 0}],
                               (BERN, EXPO)),
          modules=MODS + ['primitives.exponential'],
          bounds='2 columns, 2 rows, real data'),
        H('fresh-view', fresh_view(3), modules=MODS,
          bounds='3 rows, all partitions of the fresh view'),
        H('uncollapsed', uncollapsed([{0: 0, 1: 0}, {0: 0, 1: 4}]),
          modules=MODS + ['primitives.beta'], stubs=drawing,
          bounds='a beta and a bernoulli column, 2 rows'),
        H('proposals', proposals, modules=MODS + ['primitives.beta'],
          stubs=drawing, bounds='a beta column and <= 2 others, 2 rows, '
          'one cluster, two values proposed'),
        H('sweep', sweep, modules=MODS, bounds='2 columns, 2 rows'),
        H('three-rows', gibbs(2, 3), modules=MODS, tier='thorough',
          thorough_seconds=1500, bounds='2 columns, 3 rows'),
    ]
