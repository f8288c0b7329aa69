"""C23: dependence, row similarity and relevance match the partitions."""
import itertools

from vp.runner import H
from .c22 import ancestors, joint, network
from .elib import engine_of
from .slib import BERN, CAT, EXPO, NAN, STable, is_nan, \
    partition_choice, small_grids, state_rng, try_
from .vlib import Table, Mth

ASSUMPTIONS = ['hyperparameters in [1/16, 16]',
               'composed models are discrete with arbitrary positive '
               'conditional probability tables']
Z = 30


def state(E, U, ncols, n=1, kmax=None, labels=None, zr=None, missing=(),
          types=(BERN, CAT), rng=None, free=()):
    small_grids(U)
    z = partition_choice(E, ncols, 'v', kmax=kmax or ncols, labels=labels)
    zv = {c: z[c] for c in range(ncols)}
    zrv = {v: (zr or (lambda v: [0] * n))(v) for v in sorted(set(z))}
    t = STable(E, [(c, types[c % len(types)]) for c in range(ncols)], n, zv,
               zrv, missing, free=free)
    return t, t.build(U, rng)


# ------------------------------------------------------------- dependence

def columns(ncols, labels=None):
    def h(E, U):
        t, s = state(E, U, ncols, labels=labels)
        for a in t.order:
            for b in t.order:
                E.check(s.dependence_probability(a, b)
                        == (1 if t.zv[a] == t.zv[b] else 0),
                        'one-exactly-for-one-view')
        subs = [None] + [p for k in (1, 2, ncols) for p in
                         itertools.permutations(t.order, k)]
        sub = subs[E.choose('cols', len(subs))]
        D = s.dependence_probability_pairwise(
            *([] if sub is None else [list(sub)]))
        sub = t.order if sub is None else sub
        E.check(tuple(D.shape) == (len(sub),) * 2, 'matrix-shape')
        for i, a in enumerate(sub):
            for j, b in enumerate(sub):
                E.check(D[i, j] == (1 if t.zv[a] == t.zv[b] else 0),
                        'matrix-entry')
    return h


class Stand(object):
    """A composed model, known by its wiring only."""

    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = list(outputs), list(inputs)


# the wiring of composed models over state columns 0, 1, 2 (90: outside)
WIRES = {
    'siblings': [([10], [0]), ([11], [1])],
    'chain': [([10], [0]), ([11], [10]), ([12], [2])],
    'roots': [([10], []), ([11], [10]), ([12], [1])],
    'two-outputs': [([10, 11], []), ([12], [10]), ([13], [11])],
    'two-outputs-child': [([10, 11], [0]), ([12], [10]), ([13], [1])],
    'collider': [([10], [0, 1]), ([11], [10]), ([12], [2])],
    'mixed': [([10], [0, 20]), ([20], []), ([21], [20, 2])],
    'apart': [([10], []), ([11], []), ([12], [11])],
    'outside': [([10], [90]), ([11], [91]), ([12], [10])],
}


def composed(wire):
    def h(E, U):
        t, s = state(E, U, 3)
        spec = WIRES[wire]
        k = list(range(len(spec)))
        perms = list(itertools.permutations(k))
        if len(perms) > 2:
            perms = [perms[0], perms[-1], perms[3]]
        for i in perms[E.choose('order', len(perms))]:
            e = try_(lambda: s.compose_cgpm(Stand(*spec[i])))
            E.check(e is None, 'composed')
        roots = [([c for c in t.order if t.zv[c] == v], [])
                 for v in sorted(set(t.zv.values()))]
        full = roots + spec
        vs = sorted({v for o, _ in full for v in o})
        pairs = list(itertools.combinations(vs, 2))
        a, b = pairs[E.choose('pair', len(pairs))]
        d = s.dependence_probability(a, b)
        E.check(d in (0, 1), 'zero-or-one')
        E.check(s.dependence_probability(b, a) == d, 'symmetric')
        E.check(s.dependence_probability(a, a) == 1, 'itself')
        D = s.dependence_probability_pairwise([b, a])
        E.check(D[0, 1] == d and D[1, 0] == d and D[0, 0] == 1,
                'matrix-entry')

        def sources(v):
            up = ancestors(full, [v])
            return {i for i, (o, _) in enumerate(full) if set(o) & up} | \
                {x for x in up if x >= 90}
        apart = not (sources(a) & sources(b))
        if apart:
            E.check(d == 0, 'no-common-source')
        if d == 0:
            # then they are independent whatever the probabilities
            E.check(apart, 'no-dependence-although-a-source-is-shared')
            use = sorted(sources(a) | sources(b))
            net = network(E, t.M, [full[i] for i in use if i < 90])
            ext = {x: 1 for x in (90, 91)}
            pa = joint(net, {a: 1}, ext)
            pb = joint(net, {b: 1}, ext)
            E.check_eq(joint(net, {a: 1, b: 1}, ext), pa * pb,
                       'independent-when-reported-so')
        # removing the models restores the view partition
        toks = list(s.hooked_cgpms)
        for tok in toks:
            s.decompose_cgpm(tok)
        for x, y in itertools.product(t.order, repeat=2):
            E.check(s.dependence_probability(x, y)
                    == (1 if t.zv[x] == t.zv[y] else 0), 'after-removal')
    return h


# ------------------------------------------------------------- similarity

def similarity(ncols, n, labels=None):
    def h(E, U):
        t, s = state(
            E, U, ncols, n, labels=labels,
            zr=lambda v: [0] + [2 * E.choose('z%d_%d' % (v, r), 2)
                                for r in range(1, n)])
        subs = [None] + [p for k in range(1, ncols + 1) for p in
                         itertools.permutations(t.order, k)]
        sub = subs[E.choose('cols', len(subs))]
        vs = {t.zv[c] for c in (t.order if sub is None else sub)}
        args = [] if sub is None else [list(sub)]

        def want(a, b):
            same = sum(1 for v in vs if t.views[v].Z[a] == t.views[v].Z[b])
            return same / float(len(vs))
        S = s.row_similarity_pairwise(*args)
        E.check(tuple(S.shape) == (n, n), 'matrix-shape')
        for a in range(n):
            for b in range(n):
                got = s.row_similarity(a, b, *args)
                E.check(abs(got - want(a, b)) < 1e-12,
                        'share-of-views-in-common-cluster')
                E.check(abs(S[a, b] - want(a, b)) < 1e-12, 'matrix-entry')
    return h


# -------------------------------------------------------- state relevance

def relevance(E, U):
    n = 3
    t, s = state(E, U, 2, n, types=(BERN, BERN),
                 zr=lambda v: [1] + [1 + E.choose('z%d_%d' % (v, r), 2)
                                     for r in range(1, n)])
    col = 1
    z = t.views[t.zv[col]].Z
    T = E.choose('target', n)
    subs = [(), (0,), (1,), (2,), (0, 1), (2, 1), (0, 2)]
    Q = list(subs[E.choose('query', len(subs))])
    got = s.relevance_probability(T, list(Q), col)
    E.check(got == (1 if Q and all(z[q] == z[T] for q in Q) else 0),
            'all-in-the-cluster-of-the-target')
    for h in ('nan', 'other'):
        other = [c for c in t.order if t.zv[c] != t.zv[col]]
        if h == 'nan':
            H_ = [{col: NAN}]
        elif not other:
            continue
        else:
            H_ = [{other[0]: 1}]
        E.check(s.relevance_probability(T, list(Q), col, H_) == got,
                'row-without-value-in-the-view-ignored')
    t.audit(s, 'after')


def hypothetical(n, miss=False):
    """The probability that a hypothetical row joins the target."""
    def h(E, U):
        zz = {}

        def zr(v):
            zz[v] = [0] + [E.choose('z%d_%d' % (v, r), 2)
                           for r in range(1, n)]
            return zz[v]
        t, s0 = state(E, U, 2, n, types=(BERN, CAT), zr=zr,
                      missing=((0, 1),) if miss else ())
        col = E.choose('col', 2)
        T = E.choose('target', n)
        Q = E.choose('query', [None] + list(range(n)))
        Q = [] if Q is None else [Q]
        w = t.views[t.zv[col]]
        z = w.Z
        x = {col: E.choose('x', [0, 1])}
        if E.choose('both', 2):
            x[1 - col] = 1
        mine = {c: v for c, v in x.items() if t.zv[c] == t.zv[col]}
        p1 = 0
        for o in E.enumerate_random(lambda rng: run(t, U, rng, T, Q, col, x)):
            got, s = o.value
            E.check(got in (0, 1), 'zero-or-one')
            t.audit(s, 'after')
            if got == 1:
                p1 = p1 + o.weight
        lab = z[T]
        if all(z[q] == lab for q in Q):
            p = t.M.exp(w.mixture(mine, lab) - w.mixture(mine))
        else:
            p = 0
        E.check_eq(p1, p, 'hypothetical-row-assigned-given-its-values')
    return h


def run(t, U, rng, T, Q, col, x):
    s = t.build(U, rng)
    return s.relevance_probability(T, list(Q), col, [dict(x)]), s


def rejected(E, U):
    """A hypothetical row with an impossible value changes nothing."""
    t, s = state(E, U, 2, 2, types=(CAT, CAT), rng=state_rng(E),
                 zr=lambda v: [0, E.choose('z%d' % v, 2)])
    col = E.choose('col', 2)
    bad = E.choose('bad', [{0: 7, 1: 7}, {0: 0, 1: 7}, {0: 7, 1: 0}])
    rows = [dict(bad)]
    if E.choose('after-good', 2):
        rows = [{0: 1, 1: 1}] + rows
    e = try_(lambda: s.relevance_probability(0, [1], col, rows))
    view = [c for c in t.order if t.zv[c] == t.zv[col]]
    if any(bad[c] == 7 for c in view):
        E.check(isinstance(e, ValueError), 'impossible-value-rejected')
    else:
        E.check(e is None, 'values-outside-the-view-unused')
    t.audit(s, 'after-rejection')


def ensembles(E, U):
    """Each ensemble query is the list of the per-state answers."""
    small_grids(U)
    ts = []
    for i in range(3):
        z = E.choose('part%d' % i, 2) if i else 0
        zv = {0: 0, 1: z}
        zrv = {v: [0, 3 * E.choose('z%d_%d' % (i, v), 2)]
               for v in sorted(set(zv.values()))}
        ts.append(STable(E, [(0, BERN), (1, BERN)], 2, zv, zrv,
                         tag='_e%d' % i))
    e = engine_of(U, ts)
    S = list(e.states)
    sel = E.choose('states', [None, [1], [2, 0], [0, 1, 2]])
    use = [S[i] for i in (range(3) if sel is None else sel)]
    kw = {} if sel is None else {'statenos': sel}
    E.check(list(e.dependence_probability(0, 1, **kw))
            == [s.dependence_probability(0, 1) for s in use], 'dependence')
    got = e.dependence_probability_pairwise(
        multiprocess=0, **kw)
    E.check([x.tolist() for x in got]
            == [s.dependence_probability_pairwise().tolist() for s in use],
            'dependence-matrices')
    for cols in (None, [1]):
        E.check(list(e.row_similarity(0, 1, cols, **kw))
                == [s.row_similarity(0, 1, cols) for s in use], 'similarity')
        got = e.row_similarity_pairwise(cols, multiprocess=0, **kw)
        E.check([x.tolist() for x in got]
                == [s.row_similarity_pairwise(cols).tolist() for s in use],
                'similarity-matrices')
    E.check(list(e.relevance_probability(0, [1], 1, multiprocess=0, **kw))
            == [s.relevance_probability(0, [1], 1) for s in use],
            'relevance')


# --------------------------------------------------------- view relevance

def oracle(t, T, Q):
    """Pr[zT = zQ | xT, xQ, one cluster for all of Q], other rows fixed."""
    M = t.M
    rest = t.copy()
    for r in [T] + Q:
        del rest.Z[r]
    tables = rest.labels()
    new = max(tables + [-1]) + 1

    def cells(r):
        return {c: t.X[c][r] for c in t.cols if not is_nan(t.X[c][r])}
    num, den = [], []
    for k in tables + [new]:
        u = rest.copy()
        lp = 0
        for q in Q:
            lp = lp + u.mixture(cells(q), k)
            u.Z = dict(u.Z)
            u.Z[q] = k
        num.append(lp + u.mixture(cells(T), k))
        den.append(lp + u.mixture(cells(T)))
    return M.exp(M.logsumexp(num) - M.logsumexp(den))


def view_relevance(cols, n, kmax=2, labels=None, missing=(), free=None,
                   maxq=2):
    def h(E, U):
        small_grids(U)
        z = partition_choice(E, n, kmax=kmax, labels=labels)
        t = Table(E, Z, cols, n, z, missing,
                  free=((0, cols[0][0]),) if free is None else free)
        v = t.view(U)
        T = E.choose('target', n)
        subs = [q for k in range(1, maxq + 1) for q in
                itertools.combinations(range(n), k)]
        Q = list(subs[E.choose('query', len(subs))])
        q0 = list(Q)
        got = v.relevance_probability(T, Q, cols[0][0])
        if T in Q:
            E.check_eq(got, 1, 'certain-of-itself')
        else:
            E.check_eq(got, oracle(t, T, q0), 'posterior-of-common-cluster')
        E.check(Q == q0, 'query-unchanged')
        t.audit(v, 'after', numbers=False)
        E.check_eq(v.logpdf_score(), t.score(), 'after-score')
    return h


def view_rejected(E, U):
    small_grids(U)
    t = Table(E, Z, [(3, BERN)], 2, [0, E.choose('z', 2)], ())
    v = t.view(U)
    E.check(isinstance(try_(lambda: v.relevance_probability(0, [], 3)),
                       ValueError), 'empty-query')
    E.check(isinstance(try_(lambda: v.relevance_probability(0, [1], 9)),
                       ValueError), 'unknown-column')
    E.check(try_(lambda: v.relevance_probability(7, [1], 3)) is not None,
            'unknown-target')
    E.check(try_(lambda: v.relevance_probability(0, [7], 3)) is not None,
            'unknown-query-row')
    t.audit(v, 'after-rejection')


def tables_helper(E, U):
    """Labels of target and query when they are in different clusters."""
    rel = U['mixtures.relevance']
    labels = sorted({a for a in (0, 1, 4, 6) if E.choose('l%d' % a, 2)})
    new = max(labels + [-1]) + 1
    T, Q = rel.get_tables_different(list(labels))
    E.check(list(T) == labels + [new], 'target-clusters')
    for a, qs in zip(T, Q):
        want = [x for x in labels + [new] if x != a]
        if a == new:
            want.append(new + 1)
        E.check(list(qs) == want, 'query-clusters')


MODS = ['crosscat.state', 'crosscat.engine', 'mixtures.view',
        'mixtures.relevance', 'mixtures.dim', 'primitives.crp',
        'primitives.bernoulli', 'primitives.categorical', 'utils.general',
        'network.helpers']


def harnesses():
    def mk(name, fn, bounds, **k):
        return H(name, fn, modules=MODS, bounds=bounds, **k)
    BC = [(3, BERN), (5, CAT)]
    B = [(3, BERN)]
    hs = [mk('columns-3', columns(3), 'all partitions of 3 columns, all '
             'column lists'),
          mk('columns-labels', columns(3, labels=(7, 2, 0)),
             'view labels 7, 2, 0'),
          mk('columns-4', columns(4), 'all partitions of 4 columns',
             tier='thorough', thorough_seconds=900, paths=20000)]
    for w in sorted(WIRES):
        hs.append(mk('composed-' + w, composed(w), '3 columns in any '
                     'partition, models %s in any order, all pairs' % w))
    return hs + [
        mk('similarity', similarity(2, 3), '2 columns, 3 rows'),
        mk('similarity-labels', similarity(3, 2, labels=(4, 1, 0)),
           '3 columns, 2 rows'),
        mk('relevance', relevance, '2 columns, 3 rows, up to 2 query rows'),
        mk('hypothetical', hypothetical(2), '2 columns, 2 rows, one '
           'hypothetical row'),
        mk('hypothetical-missing', hypothetical(2, True),
           'one missing cell'),
        mk('hypothetical-3', hypothetical(3), '3 rows', tier='thorough',
           thorough_seconds=1500),
        mk('rejected', rejected, '2 columns, 2 rows, 2 hypothetical rows'),
        mk('ensembles', ensembles, '3 states'),
        mk('view-rejected', view_rejected, '2 rows'),
        mk('view-two', view_relevance(BC, 2), '2 rows, 2 columns'),
        mk('view-three', view_relevance(B, 3), '3 rows, 1 column'),
        mk('view-three-missing', view_relevance(
            BC, 3, missing=((0, 3), (1, 5))), '3 rows, 2 missing cells'),
        mk('view-labels', view_relevance(B, 3, labels=(6, 2)),
           'labels 6 and 2'),
        mk('view-four', view_relevance(B, 4, free=(), maxq=2),
           '4 rows of fixed data'),
        mk('view-four-free', view_relevance(B, 4, kmax=3),
           '4 rows, 3 clusters', tier='thorough', thorough_seconds=900),
        mk('view-real', view_relevance([(3, EXPO)], 3, maxq=1),
           '3 rows of real data'),
        mk('view-five', view_relevance(BC, 5, kmax=3, maxq=3),
           '5 rows, up to 3 query rows', tier='thorough',
           thorough_seconds=2000, paths=20000),
        mk('tables', tables_helper, 'labels among 0, 1, 4, 6'),
    ]
