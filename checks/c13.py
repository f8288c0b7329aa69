"""C13: row reassignment samples the exact Gibbs conditional."""
import itertools
import types

from vp.runner import H
from .lib import BYNAME, Mth, posreal
from .vlib import Table, partition_choice

ASSUMPTIONS = ['hyperparameters in [1/16, 16]']
Z = 30
BERN, CAT, NORM, EXPO, POIS = [BYNAME[n] for n in (
    'bernoulli', 'categorical', 'normal', 'exponential', 'poisson')]


def blocks(Zr):
    d = {}
    for r, k in Zr.items():
        d.setdefault(k, []).append(r)
    return tuple(sorted(tuple(sorted(b)) for b in d.values()))


def moved(t, r):
    """All tables that differ by the place of row r, one per partition."""
    out = []
    seen = set()
    others = sorted({k for x, k in t.Z.items() if x != r})
    for k in others + [max(others + [-1]) + 1]:
        u = t.copy()
        u.Z[r] = k
        b = blocks(u.Z)
        if b not in seen:
            seen.add(b)
            out.append((b, u))
    return out


def setup(E, cols, n, kmax=2, missing=False, labels=None):
    z = partition_choice(E, n, kmax=kmax, labels=labels)
    miss = [(0, cols[0][0])] if missing else []
    return Table(E, Z, cols, n, z, miss, free=((0, cols[0][0]),
                                               (n - 1, cols[-1][0])))


def single(cols, n, kmax=2, missing=False, labels=None):
    def h(E, U):
        t = setup(E, cols, n, kmax, missing, labels)
        M = t.M
        r = E.choose('row', list(range(n)))

        def run(rng):
            v = t.view(U, rng)
            v.transition_rows(rows=[r])
            return v
        cand = moved(t, r)
        L = [u.score() for b, u in cand]
        w = {}
        for o in E.enumerate_random(run):
            b = blocks(o.value.Zr())
            E.check(b not in w, 'one-outcome-per-partition')
            w[b] = o.weight
            u = dict(cand).get(b)
            E.check(u is not None, 'only-that-row-moved')
            if u is None:
                continue
            a = u.copy()
            a.Z = dict(o.value.Zr())
            a.audit(o.value, 'after', numbers=(b == cand[-1][0]))
        E.check(set(w) == {b for b, u in cand}, 'every-cluster-and-a-fresh-one')
        tot = sum(w.values())
        E.check_eq(tot, 1, 'probabilities-sum-to-one')
        b0 = cand[0][0]
        for (b, u), l in zip(cand[1:], L[1:]):
            if b in w and b0 in w:
                E.check_eq(M.log(w[b]) - M.log(w[b0]), l - L[0],
                           'gibbs-conditional')
    return h


def sweep(cols, n):
    """A full sweep visits every row exactly once, in some order."""
    def h(E, U):
        t = setup(E, cols, n)
        M = t.M

        def run(rng):
            v = t.view(U, rng)
            v.transition_rows()
            return v

        def step(dist, r):
            out = {}
            for b, (u, w) in dist.items():
                cand = moved(u, r)
                L = [x.score() for _, x in cand]
                den = M.logsumexp(L)
                for (bb, x), l in zip(cand, L):
                    p = w * M.exp(l - den)
                    if bb in out:
                        out[bb] = (x, out[bb][1] + p)
                    else:
                        out[bb] = (x, p)
            return out
        tab = {}
        orders = list(itertools.permutations(range(n)))
        i = E.choose('order', len(orders))
        for o in E.enumerate_random(run, perm=Fixed(orders[i])):
            b = blocks(o.value.Zr())
            tab[b] = tab.get(b, 0) + o.weight
        dist = {blocks(t.Z): (t, E.const(1))}
        for r in orders[i]:
            dist = step(dist, r)
        for b, (u, w) in dist.items():
            E.check_eq(tab.get(b, 0), w, 'sweep-law')
        E.check(set(tab) <= set(dist), 'no-other-partition')
    return h


def staying(symbolic):
    """A parameter sampler whose moves are all rejected."""
    m = types.ModuleType('cgpm.utils.sampling')
    m.mh_sample = lambda x, f, jump_std, D, *a, **k: x
    return {'cgpm.utils.sampling': m}


def inside(E, rng):
    """Parameters drawn from continuous priors are interior, with
    probability one: given ones, all different."""
    drawn = []

    def draw(base, step):
        def one(*args, **kwargs):
            drawn.append(1)
            return E.const(base) + E.const(step) * len(drawn)
        return one
    rng.exponential = draw('5/3', '1')
    rng.beta = draw('2/7', '1/50')


def uncollapsed(n):
    """Clusters of a column with parameters of its own are scored with those
    they have, and keep them."""
    def h(E, U):
        M = Mth(E)
        z = [0] + [E.choose('z%d' % i, [0, 3]) for i in range(1, n)]
        r = E.choose('row', n)
        x = [E.const(q) for q in ('1/5', '3/4', '1/3')][:n]
        y = [0, 1, 1][:n]
        alpha = posreal(E, 'alpha')
        first = {k: (E.const('7/3') + k, E.const('2/9'))
                 for k in sorted(set(z))}

        def run(rng):
            inside(E, rng)
            v = U['mixtures.view'].View(
                {3: list(x), 5: list(y)}, outputs=[Z, 3, 5], alpha=alpha,
                cctypes=['beta', 'bernoulli'], distargs=[None, None],
                hypers=[{}, {'alpha': E.const(1), 'beta': E.const(2)}],
                Zr=list(z), rng=rng)
            for k, c in v.dims[3].clusters.items():
                c.strength, c.balance = first[k]
            v.transition_rows(rows=[r])
            return v

        def lik(q, x):
            a, b = q[0] * q[1], q[0] * (1 - q[1])
            return (a - 1) * M.log(x) + (b - 1) * M.log(1 - x) \
                - M.betaln(a, b)
        others = {k: [i for i in range(n) if i != r and z[i] == k]
                  for k in set(z)}
        W = {}
        for o in E.enumerate_random(run):
            v = o.value
            k = v.Zr(r)
            E.check(all(v.Zr(i) == z[i] for i in range(n) if i != r),
                    'only-that-row-moved')
            got = {j: (c.strength, c.balance)
                   for j, c in v.dims[3].clusters.items()}
            E.check(set(got) == set(v.Zr().values()), 'clusters-have-rows')
            for j in got:
                if j in first:
                    E.check(E.isclose(got[j][0], first[j][0])
                            and E.isclose(got[j][1], first[j][1]),
                            'parameters-stay')
            at = others.get(k, [])
            ones = sum(y[i] for i in at)
            p = E.const(1 + ones) / (3 + len(at))
            W[k] = (o.weight, M.log(E.const(len(at)) if at else alpha)
                    + lik(got[k], x[r]) + M.log(p if y[r] else 1 - p))
        ks = sorted(W)
        E.check(len(ks) == 1 + sum(1 for c in others.values() if c),
                'every-cluster-and-a-fresh-one')
        for k in ks[1:]:
            E.check_eq(M.log(W[k][0]) - M.log(W[ks[0]][0]),
                       W[k][1] - W[ks[0]][1], 'gibbs-conditional')
    return h


class Fixed(tuple):
    """A given permutation of the rows."""


MODS = ['mixtures.view', 'mixtures.dim', 'primitives.crp',
        'primitives.bernoulli', 'primitives.categorical', 'utils.general']


def harnesses():
    BC = [(3, BERN), (5, CAT)]
    B = [(3, BERN)]
    return [
        H('single', single(BC, 3, 3), modules=MODS,
          bounds='3 rows, 2 columns, every partition and row'),
        H('single-missing', single(BC, 3, 2, True), modules=MODS,
          bounds='3 rows, 2 columns, one missing cell'),
        H('single-labels', single(B, 3, 2, False, (5, 1)), modules=MODS,
          bounds='3 rows, labels 5 and 1'),
        H('single-exponential', single([(3, EXPO)], 2),
          modules=MODS + ['primitives.exponential'],
          bounds='2 rows, real data'),
        H('single-poisson', single([(3, POIS), (5, BERN)], 2),
          modules=MODS + ['primitives.poisson'],
          bounds='2 rows, a poisson and a bernoulli column'),
        H('single-four', single(B, 4, 2), modules=MODS,
          bounds='4 rows, 1 column'),
        H('uncollapsed', uncollapsed(2), modules=MODS + ['primitives.beta'],
          stubs=staying, bounds='2 rows, a beta and a bernoulli column'),
        H('uncollapsed-three', uncollapsed(3), modules=MODS + [
            'primitives.beta'], stubs=staying, tier='thorough',
          thorough_seconds=1500,
          bounds='3 rows, a beta and a bernoulli column'),
        H('sweep', sweep(B, 2), modules=MODS,
          bounds='2 rows, every visiting order'),
        H('sweep-three', sweep(B, 3), modules=MODS, tier='thorough',
          thorough_seconds=1500, bounds='3 rows, every visiting order'),
        H('single-five', single(BC, 5, 3), modules=MODS, tier='thorough',
          thorough_seconds=1500, bounds='5 rows, 2 columns'),
    ]
