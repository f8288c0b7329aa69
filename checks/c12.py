"""C12: view densities and samples are those of the cluster mixture."""
from vp.runner import H
from .lib import BYNAME
from .vlib import NAN, Table, is_nan, partition_choice

ASSUMPTIONS = ['hyperparameters in [1/16, 16]']
Z = 30
BERN, CAT, NORM, EXPO, POIS = [BYNAME[n] for n in (
    'bernoulli', 'categorical', 'normal', 'exponential', 'poisson')]


def setup(E, cols, n, missing=False, labels=(0, 1), free=None):
    z = partition_choice(E, n, labels=list(labels))
    miss = []
    if missing:
        miss = [(0, cols[0][0])]
    return Table(E, Z, cols, n, z, miss,
                 free=free if free is not None else ((0, cols[0][0]),))


def roles(E, cols, cluster=True, fixed=None):
    """Assign each column (and the cluster) to target/constraint/absent."""
    role = {}
    for c in cols:
        role[c] = E.choose('role%d' % c, ['t', 'c', '-'])
    zr = E.choose('rolez', ['-', 't', 'c']) if cluster else '-'
    return role, zr


def density(cols, n, missing=False):
    def h(E, U):
        t = setup(E, cols, n, missing)
        M = t.M
        v = t.view(U)
        role, zr = roles(E, t.order)
        T, C = {}, {}
        for c in t.order:
            x = t.cols[c].datum(E, 'q%d' % c) if role[c] != '-' else None
            if role[c] == 't':
                T[c] = x
            elif role[c] == 'c':
                C[c] = x
        k = None
        if zr != '-':
            k = E.choose('k', t.labels() + [t.fresh()])
            (T if zr == 't' else C)[Z] = k
        if not T:
            return
        row = E.choose('row', [-1, n])
        tt = {c: x for c, x in T.items() if c != Z}
        cc = {c: x for c, x in C.items() if c != Z}
        allc = dict(list(tt.items()) + list(cc.items()))
        if zr == 'c':
            want = t.row(tt, k)
        else:
            want = t.mixture(allc, k) - (t.mixture(cc) if cc else 0)
        got = v.logpdf(row, dict(T), dict(C) or None)
        E.check_eq(got, want, 'density-' + {
            'c': 'given-cluster', 't': 'with-cluster', '-': 'mixture'}[zr])
        t.audit(v, 'unchanged', numbers=False)
    return h


def observed(cols, n):
    """An observed row stands for a new row in the same cluster."""
    def h(E, U):
        t = setup(E, cols, n, True)
        v = t.view(U)
        r = E.choose('row', list(range(n)))
        T = {}
        for c in t.order:
            if E.choose('t%d' % c, 2):
                T[c] = t.cols[c].datum(E, 'q%d' % c)
        C = {}
        for c in t.order:
            if c not in T and is_nan(t.X[c][r]) and E.choose('c%d' % c, 2):
                C[c] = t.cols[c].datum(E, 'q%d' % c)
        if not T:
            return
        E.check_eq(v.logpdf(r, dict(T), dict(C) or None),
                   t.row(T, t.Z[r]), 'observed-row-density')
    return h


def vals(p):
    return list(p.support)


def laws(E, t, targets, given, k, expose):
    """{tuple of values (+cluster)}: probability under the mixture."""
    M = t.M
    combos = [{}]
    for c in targets:
        combos = [dict(list(d.items()) + [(c, x)])
                  for d in combos for x in vals(t.cols[c])]
    out = {}
    ks = [k] if k is not None else t.labels() + [t.fresh()]
    den = M.exp(t.mixture(given)) if k is None and given else 1
    for d in combos:
        for j in ks:
            a = dict(list(d.items()) + list(given.items()))
            if k is not None:
                w = M.exp(t.row(d, j))
            else:
                w = M.exp(t.mixture(a, j)) / den
            key = tuple(d[c] for c in targets)
            if expose:
                key += (j,)
            out[key] = out[key] + w if key in out else w
    return out


def sampling(cols, n, N=None, missing=False, labels=(0, 1)):
    def h(E, U):
        t = setup(E, cols, n, missing, labels)
        M = t.M
        role, zr = roles(E, t.order)
        targets = [c for c in t.order if role[c] == 't']
        given = {}
        for c in t.order:
            if role[c] == 'c':
                given[c] = vals(t.cols[c])[E.choose('v%d' % c,
                                                    len(vals(t.cols[c])))]
        k = None
        if zr == 'c':
            k = E.choose('k', t.labels() + [t.fresh()])
        if not targets:
            return
        if N and len(targets) > 1:
            return
        T = list(targets) + ([Z] if zr == 't' else [])
        C = dict(given)
        if k is not None:
            C[Z] = k
        keys = T

        def run(rng):
            return t.view(U, rng).simulate(-1, list(T), dict(C) or None, N=N)
        law = laws(E, t, targets, given, k, zr == 't')
        tab = {}
        for o in E.enumerate_random(run):
            s = o.value
            if N:
                E.check(isinstance(s, list) and len(s) == N,
                        'number-of-samples')
            else:
                s = [s]
            for d in s:
                E.check(set(d) == set(keys), 'exactly-the-targets')
            key = tuple(tuple(int(d[c]) for c in keys) for d in s)
            tab[key] = tab.get(key, 0) + o.weight
        if N is None:
            for key, w in law.items():
                E.check_eq(tab.pop((key,), 0), w, 'sample-law')
        else:
            # independent draws
            for a in law:
                for b in law:
                    E.check_eq(tab.pop((a, b), 0), law[a] * law[b],
                               'independent-samples')
        for key, w in tab.items():
            E.check_eq(w, 0, 'no-other-samples')
    return h


def sampling_observed(cols, n):
    def h(E, U):
        t = setup(E, cols, n, True)
        r = E.choose('row', list(range(n)))
        T = [c for c in t.order if E.choose('t%d' % c, 2)]
        if not T:
            return
        tab = {}
        for o in E.enumerate_random(
                lambda rng: t.view(U, rng).simulate(r, list(T))):
            key = tuple(int(o.value[c]) for c in T)
            tab[key] = tab.get(key, 0) + o.weight
        law = laws(E, t, T, {}, t.Z[r], False)
        for key, w in law.items():
            E.check_eq(tab.get(key, 0), w, 'observed-row-sample-law')
    return h


MODS = ['mixtures.view', 'mixtures.dim', 'primitives.crp',
        'primitives.bernoulli', 'primitives.categorical',
        'network.importance', 'network.helpers', 'utils.general']


def harnesses():
    BB = [(3, BERN), (5, BERN)]
    BC = [(3, BERN), (5, CAT)]
    return [
        H('density', density(BC, 2), modules=MODS,
          bounds='2 rows, 2 columns, up to 2 clusters and the fresh one, '
          'every role for each column and the cluster'),
        H('density-three', density([(3, CAT)], 3), modules=MODS,
          bounds='3 rows, 1 column, up to 2 clusters and the fresh one'),
        H('density-missing', density(BB, 2, True), modules=MODS,
          bounds='2 rows, 2 columns, one missing cell'),
        H('density-exponential', density([(3, EXPO)], 2),
          modules=MODS + ['primitives.exponential'],
          bounds='2 rows, 1 exponential column, all real data'),
        H('density-poisson', density([(3, POIS), (5, BERN)], 2),
          modules=MODS + ['primitives.poisson'],
          bounds='2 rows, a poisson and a bernoulli column'),
        H('observed', observed(BB, 2), modules=MODS,
          bounds='2 rows, 2 columns, one missing cell'),
        H('sample', sampling(BB, 2), modules=MODS,
          bounds='2 rows, 2 columns, every role, all random outcomes'),
        H('sample-missing', sampling(BB, 2, None, True), modules=MODS,
          bounds='2 rows, 2 columns, one missing cell'),
        H('sample-many', sampling([(3, BERN)], 2, 2), modules=MODS,
          bounds='2 rows, 1 column, 2 samples'),
        H('sample-labels', sampling([(3, BERN)], 3, None, False, (4, 2)),
          modules=MODS, bounds='3 rows, 1 column, labels 4 and 2'),
        H('sample-observed', sampling_observed(BB, 2), modules=MODS,
          bounds='2 rows, 2 columns, one missing cell'),
        H('sample-three', sampling([(3, BERN), (5, CAT)], 3), modules=MODS,
          tier='thorough', thorough_seconds=1500,
          bounds='3 rows, a binary and a three-valued column'),
        H('density-four', density(BC, 4), modules=MODS, tier='thorough',
          thorough_seconds=1500, bounds='4 rows'),
    ]
