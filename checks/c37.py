"""C37: external inference back ends get the state and give back partitions.

The two external libraries (lovecat, loom) are replaced by models that record
what they are handed and answer with partitions that are structural choices;
cells, hyperparameters and concentrations are symbolic."""
import csv
import os
import shutil
import tempfile
import types
from fractions import Fraction

from vp.runner import H

from .lib import posreal
from .slib import (BERN, CAT, NORM, POIS, NAN, STable, check_state, is_nan,
                   partition_choice, small_grids, try_)
from .vlib import choose_rng

ASSUMPTIONS = ['the libraries answer with the partitions of a state of the '
               'same shape', 'hyperparameters in [1/16, 16]']
IDS = [12, 4, 7]


def first_rng(E):
    """Random outcomes are always the first."""
    base = choose_rng(E)

    class First(type(base)):
        def _outcome(self, weights):
            from vp.rng import _is_zero
            ok = [j for j, w in enumerate(weights) if not _is_zero(w)]
            return (ok or [0])[0]

        def randint(self, low, high=None, size=None):
            return 5

        def gamma(self, *a, **k):
            return E.const('3/4')
    return First(E, None, 'u', 'identity')


def blocks(z):
    """The partition as a set of sets of positions."""
    d = {}
    for i, k in enumerate(z):
        d.setdefault(k, set()).add(i)
    return {frozenset(x) for x in d.values()}


def table(E, types_, n, missing, ncols, labels=None):
    cols = [(IDS[i], types_[i % len(types_)]) for i in range(ncols)]
    zl = E.choose('view labels', labels or [[0, 1, 2]])
    z = partition_choice(E, ncols, 'v', kmax=2, labels=zl)
    zv = {c: k for (c, p), k in zip(cols, z)}
    zrv = {}
    for v in sorted(set(z)):
        lab = [0, 3] if v == zl[0] else [2, 0]
        zrv[v] = [lab[0]] + [lab[E.choose('z%d_%d' % (v, r), 2)]
                             for r in range(1, n)]
    free = [(r, c) for r in range(n) for c, p in cols if p is NORM]
    return STable(E, cols, n, zv, zrv, missing, free=free)


# ------------------------------------------------------------ lovecat

def love_stubs(symbolic):
    crosscat = types.ModuleType('crosscat')
    le = types.ModuleType('crosscat.LocalEngine')
    ut = types.ModuleType('crosscat.utils')
    gu = types.ModuleType('crosscat.utils.general_utils')

    class LocalEngine(object):
        analyst = None

        def __init__(self, seed=None):
            self.seed = seed

        def analyze(self, *a, **k):
            return LocalEngine.analyst(self.seed, *a, **k)
    le.LocalEngine = LocalEngine

    def get_scc_from_tuples(pairs):
        d = {}
        for a, b in pairs:
            d.setdefault(a, set()).add(b)
            d.setdefault(b, set()).add(a)
        return d
    gu.get_scc_from_tuples = get_scc_from_tuples
    crosscat.LocalEngine = le
    crosscat.utils = ut
    ut.general_utils = gu
    return {'crosscat': crosscat, 'crosscat.LocalEngine': le,
            'crosscat.utils': ut, 'crosscat.utils.general_utils': gu}


def love_engine(U):
    return U.ext['crosscat.LocalEngine'].LocalEngine


def expect_love(E, t, M_c, T, X_L, X_D, Cd=(), Ci=()):
    """What was handed over is the state t."""
    ids = t.order
    n, X = t.n, t.X
    E.check(len(T) == n and all(len(r) == len(ids) for r in T),
            'table-shape')
    names = [M_c['idx_to_name'][str(i)] for i in range(len(ids))]
    E.check(len(set(names)) == len(ids) and
            all(M_c['name_to_idx'][x] == i for i, x in enumerate(names)) and
            len(M_c['name_to_idx']) == len(ids), 'column-names')
    for i, c in enumerate(ids):
        md = M_c['column_metadata'][i]
        cat = t.cols[c] is CAT
        E.check(md['modeltype'] == ('symmetric_dirichlet_discrete' if cat
                                    else 'normal_inverse_gamma'), 'model-type')
        seen = sorted({int(X[c][r]) for r in range(n)
                       if not is_nan(X[c][r])}) if cat else []
        for r in range(n):
            a, b = T[r][i], X[c][r]
            if is_nan(b):
                E.check(is_nan(a), 'missing-cell')
                continue
            if cat:
                # (the two tables of codes are named the wrong way round)
                E.check(a == int(a) and 0 <= a < len(seen) and
                        int(md['value_to_code'][str(int(a))]) == b and
                        md['code_to_value'][str(int(b))] == a,
                        'category-code')
            else:
                E.check(not is_nan(a), 'cell')
                E.check_eq(a, b, 'cell')
        h = X_L['column_hypers'][i]
        hy = t.views[t.zv[c]].hy[c]
        if cat:
            E.check(h['K'] == len(seen), 'number-of-categories')
            E.check_eq(h['dirichlet_alpha'], hy['alpha'], 'hyperparameters')
        else:
            for a, b in (('mu', 'm'), ('nu', 'nu'), ('r', 'r'), ('s', 's')):
                E.check_eq(h[a], hy[b], 'hyperparameters')
    E.check(len(X_L['column_hypers']) == len(ids) ==
            len(M_c['column_metadata']), 'columns')
    zc = X_L['column_partition']['assignments']
    E.check(len(zc) == len(ids) and
            blocks(zc) == blocks([t.zv[c] for c in ids]), 'column-partition')
    nv = len(set(t.zv.values()))
    E.check(sorted(set(zc)) == list(range(nv)), 'view-codes')
    E.check(list(X_L['column_partition']['counts']) ==
            [list(zc).count(v) for v in range(nv)], 'view-sizes')
    E.check_eq(X_L['column_partition']['hypers']['alpha'], t.alpha, 'alpha')
    E.check(len(X_D) == len(X_L['view_state']) == nv, 'views')
    for i, c in enumerate(ids):
        view = t.views[t.zv[c]]
        zr, vs = X_D[zc[i]], X_L['view_state'][zc[i]]
        E.check(blocks(zr) == blocks([view.Z[r] for r in range(n)]) and
                len(zr) == n, 'row-partition')
        k = len(set(zr))
        E.check(sorted(set(zr)) == list(range(k)), 'cluster-codes')
        E.check(list(vs['row_partition_model']['counts']) ==
                [list(zr).count(j) for j in range(k)], 'cluster-sizes')
        E.check_eq(vs['row_partition_model']['hypers']['alpha'], view.alpha,
                   'view-alpha')
        mine = [names[ids.index(x)] for x in ids if t.zv[x] == t.zv[c]]
        E.check(sorted(vs['column_names']) == sorted(mine), 'view-columns')
        E.check(len(vs['column_component_suffstats']) == len(mine) and
                all(len(x) == k for x in vs['column_component_suffstats']),
                'component-places')
    ens = X_L.get('col_ensure') or {}
    for key, want in (('dependent', Cd), ('independent', Ci)):
        got = {int(a): {int(x) for x in b} - {int(a)}
               for a, b in (ens.get(key) or {}).items()}
        exp = {}
        for block in want:
            for a in block:
                exp.setdefault(ids.index(a), set()).update(
                    ids.index(b) for b in block if b != a)
        E.check({k: v for k, v in got.items() if v} == exp,
                'constraints-' + key)


def answer(E, X_D, X_L, n, ncols, alpha, valphas, z=None):
    """A result of the library: partitions chosen by the engine."""
    zc = z if z is not None else partition_choice(E, ncols, 'nv', kmax=2)
    nv = max(zc) + 1
    D = []
    for v in range(nv):
        zr = partition_choice(E, n, 'nz%d_' % v, kmax=2)
        D.append(zr)
    L = {'column_partition': {
            'assignments': list(zc),
            'counts': [zc.count(v) for v in range(nv)],
            'hypers': {'alpha': alpha}},
         'view_state': [{'row_partition_model': {
             'counts': [D[v].count(k) for k in range(max(D[v]) + 1)],
             'hypers': {'alpha': valphas[v]}}} for v in range(nv)],
         'column_hypers': X_L['column_hypers'],
         'col_ensure': X_L.get('col_ensure')}
    return L, D


def expect_adopted(E, t, s, zc, rows, label):
    ids = t.order
    zv = dict(s.Zv())
    E.check(blocks([zv[c] for c in ids]) == blocks(zc),
            label + '-column-partition')
    for i, c in enumerate(ids):
        w = s.views[zv[c]]
        E.check(blocks([w.Zr(r) for r in range(t.n)]) == blocks(rows[zc[i]]),
                label + '-row-partition')
    check_state(E, s, label)


def h_love_send(types_, ncols, n, missing, labels=None):
    def h(E, U):
        t = table(E, types_, n, missing, ncols, labels)
        s = t.build(U, rng=first_rng(E))
        lc, LE = U['crosscat.lovecat'], love_engine(U)
        got = []

        def analyst(seed, M_c, T, X_L, X_D, seed2, **k):
            got.append((M_c, T, X_L, X_D))
            expect_love(E, t, M_c, T, X_L, X_D)
            return X_L, X_D
        LE.analyst = staticmethod(analyst)
        lc.transition(s, N=1)
        E.check(len(got) == 1, 'one-analysis')
        zc = got[0][2]['column_partition']['assignments']
        t2 = t
        expect_adopted(E, t2, s, zc, got[0][3], 'unchanged')
        t2.adopt(s)
        t2.audit(s, 'same', numbers=True)
        E.check_eq(s.alpha(), t.alpha, 'same-alpha')
    return h


def h_love_send_moved(E, U):
    """The state handed over after its rows were reassigned."""
    small_grids(U)
    n = 3
    cols = [(IDS[0], CAT), (IDS[1], CAT)]
    z = E.choose('views', [{12: 0, 4: 0}, {12: 0, 4: 1}])
    zrv = {v: [0] + [E.choose('z%d_%d' % (v, r), 2) for r in range(1, n)]
           for v in sorted(set(z.values()))}
    t = STable(E, cols, n, z, zrv, free=[])

    class Any(type(choose_rng(E))):
        def _outcome(self, weights):
            return E.choose('outcome', len(weights))
    s = t.build(U, rng=Any(E, None, 'u', 'identity'))
    row = E.choose('row', n)
    s.transition_view_rows(rows=[row])
    t.adopt(s)
    s.rng = first_rng(E)
    lc, LE = U['crosscat.lovecat'], love_engine(U)
    got = []

    def analyst(seed, M_c, T, X_L, X_D, seed2, **k):
        got.append(X_D)
        expect_love(E, t, M_c, T, X_L, X_D)
        return X_L, X_D
    LE.analyst = staticmethod(analyst)
    lc.transition(s, N=1)
    E.check(len(got) == 1, 'one-analysis')
    t.adopt(s)
    t.audit(s, 'same', numbers=True)


def h_love_send_moved_column(E, U):
    """The state handed over after a column was reassigned."""
    small_grids(U)
    n = 2
    cols = [(c, CAT) for c in IDS]
    z = partition_choice(E, 3, 'v', kmax=2, labels=[3, 1])
    zv = {c: k for (c, p), k in zip(cols, z)}
    zrv = {v: E.choose('z%d' % v, [[0, 2], [1, 1]])
           for v in sorted(set(z))}
    t = STable(E, cols, n, zv, zrv, free=[])

    class Any(type(choose_rng(E))):
        def _outcome(self, weights):
            return E.choose('outcome', len(weights))
    s = t.build(U, rng=Any(E, None, 'u', 'identity'))
    s.transition_dims(cols=[IDS[E.choose('moved', 3)]])
    t.adopt(s)
    s.rng = first_rng(E)
    lc, LE = U['crosscat.lovecat'], love_engine(U)
    got = []

    def analyst(seed, M_c, T, X_L, X_D, seed2, **k):
        got.append(X_D)
        expect_love(E, t, M_c, T, X_L, X_D)
        return X_L, X_D
    LE.analyst = staticmethod(analyst)
    lc.transition(s, N=1)
    E.check(len(got) == 1, 'one-analysis')
    t.adopt(s)
    t.audit(s, 'same', numbers=True)


def h_love_adopt(types_, ncols, n, missing):
    def h(E, U):
        t = table(E, types_, n, missing, ncols)
        s = t.build(U, rng=first_rng(E))
        lc, LE = U['crosscat.lovecat'], love_engine(U)
        alpha = posreal(E, 'new_alpha')
        va = [posreal(E, 'new_va0'), E.const('5/2')]
        new = {}

        def analyst(seed, M_c, T, X_L, X_D, seed2, **k):
            L, D = answer(E, X_D, X_L, n, ncols, alpha, va)
            new.update(L=L, D=D)
            return L, D
        LE.analyst = staticmethod(analyst)
        twice = E.choose('twice', 2) if ncols * n <= 4 else 0
        lc.transition(s, N=2)
        if twice:
            # the state handed over the second time is the one adopted
            def analyst2(seed, M_c, T, X_L, X_D, seed2, **k):
                u = t
                zc = new['L']['column_partition']['assignments']
                E.check(blocks(X_L['column_partition']['assignments']) ==
                        blocks(zc), 'second-column-partition')
                for i in range(ncols):
                    v = X_L['column_partition']['assignments'][i]
                    E.check(blocks(X_D[v]) == blocks(new['D'][zc[i]]),
                            'second-row-partition')
                    E.check_eq(X_L['view_state'][v]['row_partition_model']
                               ['hypers']['alpha'], va[zc[i]], 'second-alpha')
                return X_L, X_D
            LE.analyst = staticmethod(analyst2)
            lc.transition(s, N=2)
        zc = new['L']['column_partition']['assignments']
        expect_adopted(E, t, s, zc, new['D'], 'adopted')
        E.check_eq(s.alpha(), alpha, 'adopted-alpha')
        for i, c in enumerate(t.order):
            E.check_eq(s.view_for(c).alpha(), va[zc[i]], 'adopted-view-alpha')
        t.alpha = alpha
        t.adopt(s)
        t.audit(s, 'adopted', numbers=True)
    return h


def fixed(E):
    return STable(E, [(c, NORM) for c in IDS], 2, {12: 0, 4: 1, 7: 0},
                  {0: [0, 1], 1: [0, 0]})


def h_love_options(E, U):
    """Options reach the library as documented."""
    t = fixed(E)
    s = t.build(U, rng=first_rng(E))
    lc, LE = U['crosscat.lovecat'], love_engine(U)
    N, S, kernels, cols, rowids, seed, ck, progress = \
        2, None, None, None, None, None, None, None
    part = E.choose('options', ['length', 'scope', 'record'])
    ck = E.choose('checkpoint', [None, 2])
    if part == 'length':
        N = E.choose('N', [None, 1, 4])
        S = E.choose('S', [None, 3])
    elif part == 'scope':
        cols = E.choose('cols', [None, [7], [4, 12]])
        rowids = E.choose('rowids', [None, [1]])
        kernels = E.choose('kernels',
                           [None, ('column_partition_assignments',)])
    else:
        seed = E.choose('seed', [None, 9])
        progress = E.choose('progress', [None, False, True])
    got = []

    def analyst(seed1, M_c, T, X_L, X_D, seed2, kernel_list=None, n_steps=None,
                max_time=None, c=None, r=None, progress=None,
                do_diagnostics=False, diagnostics_every_N=None):
        got.append((seed1, seed2, tuple(kernel_list), n_steps, max_time,
                    list(c), list(r), progress, do_diagnostics,
                    diagnostics_every_N))
        if do_diagnostics:
            return X_L, X_D, {}
        return X_L, X_D
    LE.analyst = staticmethod(analyst)
    e = try_(lambda: lc.transition(
        s, N=N, S=S, kernels=kernels, cols=cols, rowids=rowids, seed=seed,
        checkpoint=ck, progress=progress))
    E.check(e is None and len(got) == 1, 'every combination is accepted')
    g = got[0]
    E.check(g[0] == g[1] and (seed is None or g[0] == seed), 'seed')
    E.check(g[2] == tuple(kernels or ()), 'kernels')
    if N is not None:
        E.check(g[3] == N, 'steps')
    elif S is None:
        E.check(g[3] == 1, 'one step by default')
    else:
        E.check(g[3] >= 1000, 'as many steps as the time allows')
    E.check(g[4] == (-1 if S is None else S), 'time')
    E.check(g[5] == [s.outputs.index(c) for c in cols or []], 'columns')
    E.check(g[6] == (rowids or []), 'rows')
    E.check(bool(g[7]) == (progress is not False), 'progress')
    E.check(bool(g[8]) == (ck is not None) and g[9] == ck, 'checkpoint')


def h_love_diagnostics(E, U):
    """The trace of an analysis is stored against the right columns."""
    import numpy as np
    t = fixed(E)
    s = t.build(U, rng=first_rng(E))
    lc, LE = U['crosscat.lovecat'], love_engine(U)
    n = E.choose('records', [1, 2])
    trace = [[E.choose('a%d_%d' % (i, k), 2) for k in range(n)]
             for i in range(3)]
    have = E.choose('has', [0, 1])
    E.assume(not have or n == 1)
    ls = [float(i) + 0.5 for i in range(n)]

    def analyst(seed, M_c, T, X_L, X_D, seed2, **k):
        d = {'logscore': np.array([[x] for x in ls]),
             'column_crp_alpha': np.array([[x + 1] for x in ls]),
             'column_partition_assignments': np.array(
                 [[[trace[i][k]] for k in range(n)] for i in range(3)])}
        return X_L, X_D, d
    LE.analyst = staticmethod(analyst)
    times = 2 if have else 1
    for _ in range(times):
        lc.transition(s, N=n, checkpoint=1)
    d = s.diagnostics
    E.check(list(d['logscore']) == ls * times, 'scores')
    E.check(list(d['column_crp_alpha']) == [x + 1 for x in ls] * times,
            'concentrations')
    E.check(len(d['column_partition']) == n * times, 'partitions')
    for j in range(times):
        for k in range(n):
            E.check(dict(map(tuple, d['column_partition'][j * n + k])) ==
                    {c: trace[i][k] for i, c in enumerate(t.order)},
                    'partition-by-column')


def h_love_constraints(E, U):
    """Dependence constraints are stated in the columns of the table."""
    ids = E.choose('columns', [[0, 1, 2], IDS, [2, 0, 1]])
    kind = E.choose('constraints', ['none', 'Cd', 'Ci', 'Ci2', 'both'])
    a, b, c = ids
    Cd = [[a, c]] if kind in ('Cd', 'both') else []
    Ci = {'Ci': [(a, b)], 'Ci2': [(a, b), (c, b)], 'both': [(a, b)]}.get(
        kind, [])
    zv = {a: 0, b: 1, c: 0}
    t = STable(E, [(x, NORM) for x in ids], 2, zv, {0: [0, 1], 1: [0, 0]},
               free=[(0, a)])
    s = t.build(U, rng=first_rng(E), Cd=Cd, Ci=Ci)
    lc, LE = U['crosscat.lovecat'], love_engine(U)

    def analyst(seed, M_c, T, X_L, X_D, seed2, **k):
        expect_love(E, t, M_c, T, X_L, X_D, Cd, Ci)
        return X_L, X_D
    LE.analyst = staticmethod(analyst)
    lc.transition(s, N=1)


def h_love_state(E, U):
    """State.transition_lovecat: what is refused, and what is left."""
    small_grids(U)
    kind = E.choose('second column', [NORM, CAT, BERN, POIS])
    cols = [(IDS[0], NORM), (IDS[1], kind)]
    z = E.choose('views', [{12: 0, 4: 0}, {12: 0, 4: 1}])
    zrv = {v: [0, v] for v in sorted(set(z.values()))}
    t = STable(E, cols, 2, z, zrv, free=[(0, 12)])
    s = t.build(U, rng=first_rng(E))
    LE = love_engine(U)
    new = {}
    N = E.choose('N', [None, 2])

    def analyst(seed, M_c, T, X_L, X_D, seed2, **k):
        E.check(k['n_steps'] == (N or 1), 'steps')
        L, D = answer(E, X_D, X_L, 2, 2, E.const('1'),
                      [E.const('1'), E.const('2')])
        new.update(L=L, D=D)
        return L, D
    LE.analyst = staticmethod(analyst)
    e = try_(lambda: s.transition_lovecat(N=N))
    ok = kind in (NORM, CAT)
    E.check(isinstance(e, ValueError) if not ok else e is None,
            'only normal and categorical columns')
    if not ok:
        E.check(not new, 'nothing is handed over')
        t.audit(s, 'refused', numbers=True)
        return
    zc = new['L']['column_partition']['assignments']
    expect_adopted(E, t, s, zc, new['D'], 'adopted')
    for v in s.views.values():
        for d in v.dims.values():
            for c in d.clusters.values():
                h = c.get_hypers()
                E.check(set(h) == set(d.hypers), 'cluster-hypers')
                for k in h:
                    E.check_eq(h[k], d.hypers[k], 'cluster-hypers')


# --------------------------------------------------------------- loom

class Loom(object):
    """The files of loom projects: what was written, and the samples."""

    def __init__(self):
        self.projects = {}
        self.features = None     # order of feature names in the encoding
        self.answers = {}        # (root, sample) -> (zc by name, rows)
        self.infer = None


def loom_stubs(symbolic):
    world = Loom()
    loom = types.ModuleType('loom')
    cleanse = types.ModuleType('loom.cleanse')
    tasks = types.ModuleType('loom.tasks')
    schema = types.ModuleType('loom.schema_pb2')
    cformat = types.ModuleType('loom.cFormat')
    dist = types.ModuleType('distributions')
    dio = types.ModuleType('distributions.io')
    stream = types.ModuleType('distributions.io.stream')

    def force_ascii(a, b):
        shutil.copy(a, b)
    cleanse.force_ascii = force_ascii

    def transform(root, schema_csv, rows_csv):
        world.projects[root] = dict(schema=schema_csv, rows=rows_csv)
    tasks.transform = transform

    def ingest(root):
        p = world.projects[root]
        with open(p['schema']) as f:
            p['types'] = [tuple(x) for x in csv.reader(f)][1:]
        names = sorted(os.listdir(p['rows']))
        assert len(names) == 1
        with open(os.path.join(p['rows'], names[0])) as f:
            p['data'] = [list(x) for x in csv.reader(f)]
    tasks.ingest = ingest

    def infer_one(root, seed=0, config=None, **k):
        world.infer(root, [seed], config)
    tasks.infer_one = infer_one

    def infer(root, sample_count=10, config=None, **k):
        world.infer(root, list(range(sample_count)), config)
    tasks.infer = infer

    def where(path):
        root = path.split(os.sep + 'samples' + os.sep)[0]
        sample = int(path.split('sample.')[1].split(os.sep)[0])
        return root, sample

    class Handle(object):
        def __init__(self, path, mode='rb'):
            self.path = path

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def read(self):
            return self.path
    stream.open_compressed = Handle

    def json_load(path):
        root = path.split(os.sep + 'ingest' + os.sep)[0]
        assert root in world.projects
        return [{'name': x} for x in world.features(root)]
    stream.json_load = json_load

    class Kind(object):
        pass

    class CrossCat(object):
        def ParseFromString(self, path):
            root, sample = where(path)
            zc, rows = world.answers[root, sample]
            self.kinds = []
            names = world.features(root)
            for k in range(len(rows)):
                kind = Kind()
                kind.featureids = [i for i, x in enumerate(names)
                                   if zc[x] == k]
                self.kinds.append(kind)
    schema.CrossCat = CrossCat

    class Assignment(object):
        def __init__(self, rowid, ks):
            self.rowid, self.ks = rowid, ks

        def groupids(self, k):
            return self.ks[k]

    def assignment_stream_load(path):
        root, sample = where(path)
        zc, rows = world.answers[root, sample]
        order = list(range(len(rows[0])))
        for r in world.stream(order):
            yield Assignment(r, [z[r] for z in rows])
    cformat.assignment_stream_load = assignment_stream_load
    loom.cleanse, loom.tasks, loom.schema_pb2 = cleanse, tasks, schema
    loom.cFormat = cformat
    loom.world = world
    dist.io = dio
    dio.stream = stream
    return {'csv': Csv(), 'loom': loom, 'loom.cleanse': cleanse, 'loom.tasks': tasks,
            'loom.schema_pb2': schema, 'loom.cFormat': cformat,
            'distributions': dist, 'distributions.io': dio,
            'distributions.io.stream': stream}


class Csv(types.ModuleType):
    """csv on files opened in binary mode, as in Python 2."""

    def __init__(self):
        types.ModuleType.__init__(self, 'csv')
        for k in dir(csv):
            if not k.startswith('__') and not hasattr(self, k):
                setattr(self, k, getattr(csv, k))

    @staticmethod
    def _text(f):
        class Text(object):
            def write(self, x):
                try:
                    return f.write(x)
                except TypeError:
                    return f.write(x.encode('ascii'))
        return Text()

    def writer(self, f, *a, **k):
        return csv.writer(self._text(f), *a, **k)

    def DictWriter(self, f, *a, **k):
        return csv.DictWriter(self._text(f), *a, **k)


def loom_world(U):
    # (numpy and pandas know the type by its identity)
    U['crosscat.loomcat'].int = int
    return U.ext['loom'].world


class Store(object):
    """A scratch loom store."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vp-loom-')
        self.old = os.environ.get('CGPM_LOOM_STORE')
        os.environ['CGPM_LOOM_STORE'] = self.path
        return self.path

    def __exit__(self, *a):
        if self.old is None:
            del os.environ['CGPM_LOOM_STORE']
        else:
            os.environ['CGPM_LOOM_STORE'] = self.old
        shutil.rmtree(self.path)
        return False


KINDS = {'bernoulli': 'boolean', 'categorical': 'categorical',
         'poisson': 'count', 'normal': 'real'}


def expect_loom(E, t, p):
    """The project written holds the table of t; returns {name: column}."""
    ids, X = t.order, t.X
    names = p['data'][0]
    E.check(len(names) == len(ids) == len(set(names)), 'loom-columns')
    E.check([x for x, k in p['types']] == names, 'loom-schema-columns')
    for (x, k), c in zip(p['types'], ids):
        E.check(k == KINDS[t.cols[c].name], 'loom-types')
    E.check(len(p['data']) == t.n + 1, 'loom-rows')
    for r in range(t.n):
        for text, c in zip(p['data'][r + 1], ids):
            v = X[c][r]
            E.check((text == '') == is_nan(v), 'loom-missing-cell')
            if text:
                E.check(decode(t, text) == v, 'loom-cell')
    return dict(zip(names, ids))


def decode(t, text):
    return t.codec[text] if text in t.codec else float(Fraction(text))


def loom_table(E, ncols, n, missing=(), types_=(NORM, CAT, POIS),
               symbolic=True):
    cols = [(IDS[i], types_[i]) for i in range(ncols)]
    z = E.choose('views', [[0, 0, 0], [0, 1, 0]][:ncols])
    zv = {c: k for (c, p), k in zip(cols, z)}
    zrv = {v: [0] + [E.choose('z%d_%d' % (v, r), 2)
                     if ncols == 2 and symbolic else 1 for r in range(1, n)]
           for v in sorted(set(zv.values()))}
    t = STable(E, cols, n, zv, zrv, missing)
    t.codec = {}
    for c, p in cols:
        x = t.views[zv[c]].X[c]
        for r in range(n):
            if is_nan(x[r]):
                continue
            if p is NORM and symbolic and r == 0:
                # (no integer: those are written in another form)
                x[r] = E.real('h%d' % r)
                E.assume(x[r] > E.const('1/8'))
                E.assume(x[r] < E.const('7/8'))
                t.codec[str(x[r])] = x[r]
            elif p is NORM:
                x[r] = E.const('%d/4' % (5 + 2 * r))
                t.codec[str(x[r])] = x[r]
            elif p is POIS:
                x[r] = float(3 + r) if not E.symbolic else E.const(str(3 + r))
                t.codec[str(x[r])] = x[r]
    return t


def setup_loom(E, W, t, n, ncols, N=1, slot='', pick=None):
    got = []
    perm = E.choose('feature order' + slot, [[0, 1, 2], [2, 0, 1], [1, 0, 2]]
                    if ncols == 3 else [[0, 1], [1, 0]])
    W.features = lambda root: [W.projects[root]['data'][0][i] for i in perm]
    W.stream = lambda order: order if perm[0] == 0 else order[::-1]

    def infer(root, samples, config):
        name = expect_loom(E, t, W.projects[root])
        E.check(config == {'schedule': {'extra_passes': N}}, 'loom-passes')
        for k in samples:
            zc = pick or partition_choice(
                E, ncols, 'n%s%d_v' % (slot, len(got)), kmax=2)
            rows = [[0, 1]] * (max(zc) + 1) if pick else [partition_choice(E, t.n, 'n%s%d_%d_' % (
                slot, len(got), v), kmax=2) for v in range(max(zc) + 1)]
            byid = dict(zip(t.order, zc))
            W.answers[root, k] = ({x: byid[c] for x, c in name.items()}, rows)
            got.append((zc, rows))
    W.infer = infer
    return got


def h_loom_state(ncols, n, missing=()):
    def h(E, U):
        t = loom_table(E, ncols, n, missing)
        s = t.build(U, rng=first_rng(E))
        W = loom_world(U)
        N, seed = E.choose('N', [(None, None), (3, 2)]) if ncols == 2 \
            else (1, 0)
        got = setup_loom(E, W, t, n, ncols, N or 1)
        with Store():
            U['crosscat.loomcat'].transition(s, N=N, seed=seed)
        E.check(len(got) == 1, 'one inference')
        expect_adopted(E, t, s, got[0][0], got[0][1], 'loom')
        t.adopt(s)
        t.audit(s, 'loom', numbers=True)
    return h


def h_loom_again(E, U):
    """Data recorded between two runs is part of the second."""
    small_grids(U)
    t = loom_table(E, 2, 2, ((1, 4),), symbolic=False)
    s = t.build(U, rng=first_rng(E))
    W = loom_world(U)
    with Store():
        got = setup_loom(E, W, t, 2, 2, pick=E.choose(
            'first answer', [[0, 0], [0, 1]]))
        U['crosscat.loomcat'].transition(s)
        t.adopt(s)
        edit = E.choose('edit', ['none', 'incorporate', 'unincorporate',
                                 'force', 'drop column', 'add column',
                                 'type'])
        if edit == 'incorporate':
            row = {12: E.const('7/4'), 4: 1}
            s.incorporate(2, dict(row))
        elif edit == 'unincorporate':
            s.unincorporate(1)
        elif edit == 'drop column':
            s.unincorporate_dim(4)
        elif edit == 'add column':
            s.incorporate_dim([E.const('1/4'), E.const('9/4')], outputs=[7],
                              cctype='normal', v=None)
        elif edit == 'type':
            s.update_cctype(4, 'poisson')
        elif edit == 'force':
            s.force_cell(1, {4: 2})
        seen = []

        def infer(root, samples, config):
            p = W.projects[root]
            names = p['data'][0]
            E.check([k for x, k in p['types']] ==
                    [KINDS[k] for k in s.cctypes()], 'types handed over')
            E.check(len(p['data']) == s.n_rows() + 1, 'rows handed over')
            E.check(len(names) == len(s.outputs), 'columns handed over')
            for j, c in enumerate(s.outputs):
                for r in range(s.n_rows()):
                    text, v = p['data'][r + 1][j], s.X[c][r]
                    E.check((text == '') == is_nan(v) and
                            (not text or bool(decode(t, text) == v)),
                            'cells handed over')
            for k in samples:
                W.answers[root, k] = (
                    {x: 0 for x in names}, [[0] * s.n_rows()])
            seen.append(1)
        W.infer = infer
        W.features = lambda root: W.projects[root]['data'][0]
        U['crosscat.loomcat'].transition(s)
    E.check(seen == [1], 'one inference')
    check_state(E, s, 'again')


def h_loom_engine(E, U):
    """Every state of an engine adopts its own sample."""
    small_grids(U)
    t = loom_table(E, 2, 2, symbolic=False)
    m = E.choose('states', [1, 2])
    lc = U['crosscat.loomcat']
    ss = [t.build(U, rng=first_rng(E)) for _ in range(m)]
    lc.parallel_map = lambda f, xs, *a: [f(x) for x in xs]
    W = loom_world(U)
    N = E.choose('N', [None, 2]) if m == 1 else 2
    got = setup_loom(E, W, t, 2, 2, N or 1)
    done = []

    class Eng(object):
        states = list(ss)

        def num_states(self):
            return len(self.states)

        def transition(self, N=None, S=None, kernels=None, **k):
            done.append((N, tuple(kernels)))
    eng = Eng()
    with Store():
        e = try_(lambda: lc.transition_engine(eng, N=N))
    E.check(e is None, 'accepted')
    E.check(len(got) == m and len(eng.states) == m, 'one sample per state')
    for s, (zc, rows) in zip(eng.states, got):
        expect_adopted(E, t, s, zc, rows, 'engine')
    E.check(len(done) == 1 and 'rows' not in done[0][1] and
            'columns' not in done[0][1], 'the rest is transitioned')


def h_loom_refuse(E, U):
    t = loom_table(E, 2, 2)
    s = t.build(U, rng=first_rng(E))
    W = loom_world(U)
    kw = E.choose('option', [dict(S=3), dict(kernels=['alpha']),
                             dict(progress=True), dict(checkpoint=2)])
    W.infer = None
    e = try_(lambda: s.transition_loom(N=1, **kw))
    E.check(isinstance(e, ValueError), 'unsupported options are refused')
    t.audit(s, 'refused', numbers=True)


LOVE = ['crosscat.lovecat', 'crosscat.state']
LOOM = ['crosscat.loomcat', 'crosscat.state']


def harnesses():
    def L(name, fn, bounds, **k):
        return H('lovecat-' + name, fn, LOVE, bounds, stubs=love_stubs,
                 assumes=ASSUMPTIONS, **k)

    def O(name, fn, bounds, **k):
        return H('loom-' + name, fn, LOOM, bounds, stubs=loom_stubs,
                 assumes=ASSUMPTIONS, **k)
    return [
        L('send-normal', h_love_send((NORM,), 2, 2, (), [[0, 1], [5, 2]]),
          '2 normal columns, 2 rows, all partitions'),
        L('send-mixed', h_love_send((NORM, CAT), 3, 2, ((1, 4),)),
          '3 columns, 2 rows, one cell missing'),
        L('send-rows', h_love_send((CAT, NORM), 2, 3, ((0, 4),)),
          '2 columns, 3 rows, one cell missing'),
        L('send-moved', h_love_send_moved, '2 columns, 3 rows, one of which '
          'was reassigned before', paths=6000),
        L('send-moved-column', h_love_send_moved_column, '3 columns, 2 rows, '
          'one column of which was reassigned before', paths=6000),
        L('adopt-two', h_love_adopt((NORM, CAT), 2, 2, ()),
          '2 columns, 2 rows: all pairs of partitions', paths=6000),
        L('adopt-three', h_love_adopt((NORM, CAT, CAT), 3, 2, ()),
          '3 columns, 2 rows: all pairs of partitions', tier='thorough',
          paths=20000, seconds=600),
        L('options', h_love_options, 'every combination of the options',
          paths=6000),
        L('diagnostics', h_love_diagnostics, '3 columns, up to 2 records'),
        L('constraints', h_love_constraints, '3 columns, 3 numberings'),
        L('state', h_love_state, '2 columns of 4 types, 2 rows', paths=6000),
        O('state', h_loom_state(2, 2), '2 columns, 2 rows, all partitions',
          paths=6000),
        O('missing', h_loom_state(3, 2, ((0, 4), (1, 7))), '3 columns, 2 '
          'rows, 2 cells missing, all partitions', paths=8000),
        O('again', h_loom_again, '2 columns, 2 rows, one edit between 2 '
          'runs'),
        O('engine', h_loom_engine, 'up to 2 states, 2 columns, 2 rows',
          paths=6000),
        O('refused', h_loom_refuse, '4 unsupported options'),
    ]
