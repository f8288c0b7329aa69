"""C20: serialising and restoring a model preserves every answer."""
import copy
import types

from vp.runner import H
from .lib import posreal
from .slib import (BERN, CAT, EXPO, NAN, NORM, POIS, STable, Table,
                   check_state, is_nan, small_grids, state_rng, try_)
from .c16 import hook, start
from .c18 import EDITS
from .elib import ensemble

ASSUMPTIONS = ['hyperparameters in [1/16, 16]',
               'hyperparameter grids of one point']


def jsonify(x):
    """What a JSON round trip does to the metadata."""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else str(k): jsonify(v)
                for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonify(v) for v in x]
    if getattr(x, 'ndim', 0):
        raise TypeError('array is not JSON serializable')
    return x


def passthru(E, md):
    """The metadata as stored: itself, or through JSON."""
    return jsonify(md) if E.choose('json', 2) else md


def rebuild(U, md, rng=None):
    """Restore through the factory the metadata names."""
    mod, name = md['factory']
    assert mod.startswith('cgpm.')
    return getattr(U[mod[5:]], name).from_metadata(md, rng=rng)


def queries(E, t, s, label):
    """Densities of the restored state against the reference table."""
    cs = list(t.order)
    v = {c: (t.cols[c].support[-1] if t.cols[c].support
             else t.cols[c].datum(E, 'q%d' % c)) for c in cs}
    E.check_eq(s.logpdf(-1, dict(v)), t.logjoint(v), label + '-joint')
    if len(cs) > 1:
        a, b = {cs[0]: v[cs[0]]}, {cs[1]: v[cs[1]]}
        E.check_eq(s.logpdf(None, dict(a), dict(b)), t.logcond(a, b),
                   label + '-conditional')
    for r in range(t.n):
        m = {c: v[c] for c in cs if is_nan(t.X[c][r])}
        if m:
            E.check_eq(s.logpdf(r, dict(m)), t.logrow(r, m),
                       label + '-row')


def roundtrip(E, U, t, s, json=False):
    md = (jsonify(s.to_metadata()) if json
          else passthru(E, s.to_metadata()))
    keep = copy.copy(md)
    s2 = rebuild(U, md)
    t.audit(s2, 'restored', True)
    queries(E, t, s2, 'restored')
    # once more from the same metadata, or from the restored state's
    if len(s.views) > 1:
        s3 = rebuild(U, keep)
        t.audit(s3, 'restored-again', True)
    else:
        s3 = rebuild(U, s2.to_metadata())
        t.audit(s3, 'restored-twice', True)
    t.audit(s, 'original')
    # editing the copy does not reach the original
    if t.n > 1:
        s3.unincorporate(t.n - 1)
        t.audit(s, 'original')
    return s2


def state(types_, zvs, zrs, n, missing, names=(0, 1), free=()):
    def h(E, U):
        small_grids(U)
        zv = E.choose('zv', zvs)
        zrv = {v: E.choose('zr%d' % v, zrs) for v in sorted(set(zv.values()))}
        t = STable(E, list(zip(names, types_)), n, zv, zrv, missing,
                   free=free)
        roundtrip(E, U, t, t.build(U))
    return h


def edited(zv, *seq):
    def h(E, U):
        small_grids(U)
        t = start(E, 2, 2, (BERN, BERN), [zv], [(1, 0)])
        s = t.build(U, state_rng(E))
        for op in seq:
            EDITS[op](E, U, t, s)
        roundtrip(E, U, t, s, json=True)
    return h


def moved(E, U):
    """Rows and columns moved by inference before saving."""
    small_grids(U)
    zv = E.choose('zv', [{0: 0, 1: 0}, {0: 3, 1: 1}])
    t = STable(E, [(0, BERN), (1, CAT)], 3, zv,
               {v: [0, 1, 0] for v in set(zv.values())}, [(1, 1)],
               free=[(0, 0)])
    s = t.build(U, state_rng(E))
    v = E.choose('view', sorted(s.views))
    r = E.choose('row', 3)
    s.transition_view_rows(views=[v], rows=[r])
    t.adopt(s)
    roundtrip(E, U, t, s, json=True)


def moved_view(E, U):
    t = Table(E, 50, [(3, CAT)], 3, [0, 1, 0], [], free=[(0, 3)])
    v = t.view(U, state_rng(E))
    v.transition_rows(rows=[E.choose('row', 3)])
    t.Z = dict(v.Zr())
    v2 = rebuild(U, v.to_metadata())
    t.audit(v2, 'view-restored', True)


def constraints(E, U):
    small_grids(U)
    kind = E.choose('kind', ['dep', 'indep', 'both'])
    zv = {'dep': {0: 1, 1: 1, 2: 0}, 'indep': {0: 0, 1: 1, 2: 0},
          'both': {0: 0, 1: 0, 2: 1}}[kind]
    Cd = [] if kind == 'indep' else [[0, 1]]
    Ci = [] if kind == 'dep' else [(0, 1)] if kind == 'indep' else [(0, 2)]
    t = STable(E, [(0, BERN), (1, BERN), (2, CAT)], 2, zv,
               {v: [0, 1] for v in set(zv.values())})
    s = t.build(U, Cd=Cd or None, Ci=Ci or None)
    md = passthru(E, s.to_metadata())
    s2 = rebuild(U, md)
    check_state(E, s2, 'constrained', Cd, Ci)
    E.check([list(b) for b in s2.Cd] == Cd, 'dependences-kept')
    E.check([tuple(b) for b in s2.Ci] == Ci, 'independences-kept')
    queries(E, t, s2, 'constrained')
    if not Ci:
        E.check_eq(s2.logpdf_score(), s.logpdf_score(), 'constrained-score')
    # the restored constraints bind later transitions
    def run(rng):
        s3 = rebuild(U, md, rng)
        s3.transition_dims(cols=[2])
        return s3
    if kind == 'indep':
        for o in E.enumerate_random(run):
            check_state(E, o.value, 'constrained-transition', Cd, Ci)


def composite(E, U):
    """States with hooked models."""
    small_grids(U)
    t = start(E, 2, 2, (BERN, BERN), [{0: 0, 1: 0}, {0: 0, 1: 1}])
    s = t.build(U)
    tok = hook(U, s, (0,), 100)
    tok2 = None
    shape = E.choose('shape', ['one', 'chain', 'siblings', 'dropped'])
    if shape in ('chain', 'siblings'):
        tok2 = hook(U, s, (100,) if shape == 'chain' else (1,), 200)
    if shape == 'dropped':
        tok2 = hook(U, s, (1,), 200)
        s.decompose_cgpm(tok)
    md = passthru(E, s.to_metadata())
    s2 = rebuild(U, md)
    s3 = rebuild(U, s2.to_metadata())
    outs = {'one': [100], 'dropped': [200]}.get(shape, [100, 200])
    for i, z in enumerate((s2, s3)):
        t.audit(z, 'composite-restored', i == 0)
        E.check(bool(z.is_composite()), 'composite-flag')
        E.check(sorted(o for c in z.hooked_cgpms.values()
                       for o in c.outputs) == outs, 'hooked-outputs')
        q = {0: 1, 1: 0}
        q.update({o: E.choose('y%d' % o, 2) for o in outs} if not i else
                 {o: 1 for o in outs})
        E.check_eq(z.logpdf(-1, dict(q)), s.logpdf(-1, dict(q)),
                   'composite-density')
    if shape == 'one':
        s2.decompose_cgpm(list(s2.hooked_cgpms)[0])
        E.check(not s2.is_composite(), 'composite-flag')
        queries(E, t, s2, 'decomposed')


def conditional(E, U):
    """A state with a regression column."""
    small_grids(U)
    S = U['crosscat.state'].State
    import numpy as np
    A = np.empty((3, 2), dtype=object)
    y = [E.real('y%d' % r, -2, 2) for r in range(3)]
    A[:] = [[0, y[0]], [NAN, y[1]], [1, y[2]]]
    a, b = posreal(E, 'a', '1', 4), posreal(E, 'b', '1', 4)
    s = S(A, outputs=[0, 1], cctypes=['categorical', 'linear_regression'],
          hypers=[{'alpha': E.const(1)}, {'a': a, 'b': b}],
          distargs=[{'k': 2},
                    {'inputs': {'stattypes': ['categorical'],
                                'statargs': [{'k': 2}], 'indexes': [0]}}],
          Zv={0: 0, 1: 0}, Zrv={0: [0, 0, 0]},
          alpha=E.const(1), view_alphas={0: E.const(1)})
    s2 = rebuild(U, passthru(E, s.to_metadata()))
    check_state(E, s2, 'regression')
    E.check(bool(s2.is_composite()), 'regression-composite')
    d, e = s.dim_for(1), s2.dim_for(1)
    E.check(d.Zr == e.Zr and d.Zi == e.Zi, 'regression-rows')
    E.check(list(e.inputs[1:]) == [0], 'regression-inputs')
    E.check_eq(s2.logpdf_score(), s.logpdf_score(), 'regression-score')
    q = {0: E.choose('x', 2), 1: E.const('1/2')}
    E.check_eq(s2.logpdf(-1, dict(q)), s.logpdf(-1, dict(q)),
               'regression-density')


def view(E, U):
    t = Table(E, 50, [(3, CAT), (1, BERN)], 3,
              E.choose('z', [[0, 0, 1], [5, 2, 2], [1, 0, 4]]),
              [(1, 1)], free=[(0, 1), (2, 3)])
    v = t.view(U)
    # an edit, so that the labels have gaps
    if E.choose('edit', 2):
        v.unincorporate(2)
        for c in t.order:
            t.X[c].pop()
            v.X[c].pop()
        del t.Z[2]
    md = v.to_metadata()
    v2 = rebuild(U, md)
    t.audit(v2, 'view-restored', True)
    # the same through the library's own restoring function
    v3 = U['utils.general'].build_cgpm(v2.to_metadata(), None)
    for m in (v2, v3):
        for x in CAT.support:
            E.check_eq(m.logpdf(-1, {3: x, 1: 1}), t.mixture({3: x, 1: 1}),
                       'view-density')
        E.check_eq(m.logpdf_score(), t.score(), 'view-score')


def same(E, a, b, label):
    """Two pieces of metadata say the same."""
    if isinstance(a, dict) or isinstance(b, dict):
        E.check(isinstance(a, dict) and isinstance(b, dict) and
                sorted(a, key=str) == sorted(b, key=str), label)
        for k in a:
            if k in b:
                same(E, a[k], b[k], label)
    elif isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        E.check(len(a) == len(b), label)
        for x, y in zip(a, b):
            same(E, x, y, label)
    elif any(x is None or isinstance(x, (str, bytes)) for x in (a, b)):
        E.check(a == b, label)
    elif is_nan(a) or is_nan(b):
        E.check(is_nan(a) and is_nan(b), label)
    else:
        E.check_eq(a, b, label)


def separate(E, U):
    """Metadata describes the model at the time it was made, and a model made
    from it is another one: inference in one does not reach the other."""
    small_grids(U)
    kind = E.choose('kind', ['state', 'engine', 'view'])
    t = STable(E, [(0, BERN), (1, CAT)], 2, {0: 3, 1: 3}, {3: [2, 0]})
    rng = state_rng(E)
    if kind == 'view':
        t.owner = t.build(U, rng)
        v = t.owner.views[3]
        whole = copy.deepcopy(v.to_metadata())
        md = v.to_metadata()
        u = rebuild(U, md, rng)
        a, b = (v, u) if E.choose('act', 2) else (u, v)
        before = copy.deepcopy(b.to_metadata())
        what = E.choose('what', ['hypers', 'rows', 'alpha', 'cell'])
        if what == 'cell' and a is not v:
            return
        {'hypers': a.transition_dim_hypers, 'alpha': a.transition_crp_alpha,
         'rows': lambda: a.transition_rows(rows=[1]),
         'cell': lambda: t.owner.incorporate(2, {0: 1, 1: 1})}[what]()
        same(E, md, whole, 'metadata-is-a-snapshot')
        same(E, b.to_metadata(), before, 'inference-stays-in-one-model')
        return
    s = t.build(U, rng)
    s.transition(N=1, kernels=['alpha'], progress=False, checkpoint=1)
    owner = s
    if kind == 'engine':
        owner = U['crosscat.engine'].Engine([[0, 0]], num_states=0,
                                            multiprocess=0)
        owner.states = [s]
    md = owner.to_metadata()
    whole = copy.deepcopy(md)
    if kind == 'engine':
        u = type(owner).from_metadata(md, multiprocess=0).states[0]
        u.rng = rng
    else:
        u = rebuild(U, md, rng)
    a, b = (s, u) if E.choose('act', 2) else (u, s)
    before = copy.deepcopy(b.to_metadata())
    what = E.choose('what', ['column_hypers', 'alpha', 'view_alphas', 'cell'])
    if what == 'cell':
        a.unincorporate(1)
        a.unincorporate_dim(0)
    else:
        a.transition(N=1, kernels=[what], progress=False, checkpoint=1)
    same(E, md, whole, 'metadata-is-a-snapshot')
    same(E, b.to_metadata(), before, 'inference-stays-in-one-model')


def pickled(symbolic):
    """Pickling stores a deep copy of the object in the file object."""
    m = types.ModuleType('cPickle')

    def dump(obj, f, protocol=None):
        f.stored = copy.deepcopy(obj)

    def load(f):
        return copy.deepcopy(f.stored)
    m.dump, m.load = dump, load
    return {'cPickle': m}


class File(object):
    pass


def state_pickle(E, U):
    small_grids(U)
    t = start(E, 2, 2, (BERN, CAT), [{0: 0, 1: 0}, {0: 2, 1: 1}], [(1, 0)])
    s = t.build(U)
    f = File()
    s.to_pickle(f)
    s2 = type(s).from_pickle(f)
    t.audit(s2, 'unpickled', True)
    queries(E, t, s2, 'unpickled')


def engine(E, U):
    e, ts = ensemble(E, U)
    edit = E.choose('edit', ['none', 'row', 'drop', 'col'])
    if edit == 'row':
        obs = {BASE_(t, v): 0 for t in ts for v in t.views}
        for s, t in zip(e.states, ts):
            full = {0: 1, 1: 2}
            for v, w in t.views.items():
                full[s.views[v].outputs[0]] = 1
                w.Z[2] = 1
                for c in w.cols:
                    w.X[c].append(full[c])
            s.incorporate(2, full)
            t.n += 1
    elif edit == 'drop':
        e.unincorporate(1, multiprocess=0)
        for t in ts:
            t.n = 1
            for w in t.views.values():
                del w.Z[1]
                for c in w.cols:
                    w.X[c].pop()
    elif edit == 'col':
        for s, t in zip(e.states, ts):
            EDITS['drop-dim'](PickOne(E), U, t, s)
    md = passthru(E, e.to_metadata())
    first = type(e).from_metadata(md, multiprocess=0)
    second = type(e).from_metadata(
        md if E.choose('same', 2) else first.to_metadata(), multiprocess=0)
    for f in (first, second):
        E.check(f.num_states() == len(ts), 'engine-states')
        for t, s in zip(ts, f.states):
            t.audit(s, 'engine-restored', f is first)
            queries(E, t, s, 'engine-restored')


def BASE_(t, v):
    return t.views[v].zid


class PickOne(object):
    """Drops column 0 of every state."""

    def __init__(self, E):
        self.E = E

    def choose(self, name, opts):
        return opts[0]


def uncollapsed(E, U):
    """Parameters of an uncollapsed column survive a round trip."""
    small_grids(U)
    # the sampler is not the matter here: it stays where it is
    U['utils.sampling'].mh_sample = lambda x, *a, **k: x
    S = U['crosscat.state'].State
    import numpy as np
    A = np.empty((1, 1), dtype=object)
    A[0, 0] = E.const('1/2')
    s = S(A, outputs=[0], cctypes=['beta'], Zv={0: 0}, Zrv={0: [0]},
          alpha=E.const(1), view_alphas={0: E.const(1)})
    d = s.dim_for(0).clusters[0]
    d.strength, d.balance = E.const(3), E.const('1/4')
    try:
        c = rebuild(U, s.to_metadata()).dim_for(0).clusters[0]
    except AssertionError:      # drew parameters on the boundary
        E.check(False, 'uncollapsed-parameters')
    E.check(c.strength == d.strength and c.balance == d.balance,
            'uncollapsed-parameters')


# -- single models

def regression(E, U):
    """Linear regression, including its regression prior."""
    L = U['regressions.linreg'].LinearRegression
    h = {'a': posreal(E, 'a', '1', 4), 'b': posreal(E, 'b', '1', 4)}
    if E.choose('prior', 2):
        h['mu'] = [E.real('m%d' % i, -2, 2) for i in range(2)]
        h['V'] = [[E.const(2), E.const('1/2')], [E.const('1/2'), E.const(1)]]
    d = {'inputs': {'stattypes': ['normal'], 'statargs': [None]}}
    m = L([0], [1], hypers=h, distargs=d)
    for r in (4, 2):
        m.incorporate(r, {0: E.real('x%d' % r, -2, 2)},
                      {1: E.real('y%d' % r, -2, 2)})
    if E.choose('drop', 2):
        m.unincorporate(4)
    md = m.to_metadata()
    whole = copy.deepcopy(md)
    md = passthru(E, md)
    m2 = rebuild(U, md)
    m3 = rebuild(U, m2.to_metadata())
    x, y = E.real('qx', -2, 2), E.real('qy', -2, 2)
    for z in (m2, m3):
        E.check_eq(z.logpdf(-1, {0: x}, None, {1: y}),
                   m.logpdf(-1, {0: x}, None, {1: y}), 'regression-density')
        E.check_eq(z.logpdf_score(), m.logpdf_score(), 'regression-score')
        E.check(list(z.data.x) == list(m.data.x)
                and list(z.data.Y) == list(m.data.Y), 'regression-rows')
    n = len(m.data.x)
    m2.unincorporate(2)
    E.check(len(m.data.x) == n, 'regression-copy-independent')
    if not any(isinstance(r, str) for r in md['data']['x']):
        # not through JSON: what was written is a snapshot
        m2.incorporate(9, {0: x}, {1: y})
        m.incorporate(7, {0: x}, {1: y})
        same(E, md, whole, 'metadata-is-a-snapshot')
        E.check_eq(rebuild(U, md).logpdf_score(), m3.logpdf_score(),
                   'restored-again')


def dummy(name):
    def h(E, U):
        out, inp, mk = {
            'twoway': ([0], [1], lambda C: C([0], [1])),
            'fourway': ([0], [1, 2], lambda C: C([0], [1, 2])),
            'piecewise': ([0, 1], [2], lambda C: C(
                [0, 1], [2], sigma=posreal(E, 's'), flip=E.real(
                    'f', '1/8', '7/8'))),
            'trollnormal': ([0], [1], lambda C: C([0], [1, 2])),
            'barebones': ([0], [1], lambda C: C([0], [1])),
        }[name]
        cls = {'twoway': 'TwoWay', 'fourway': 'FourWay',
               'piecewise': 'PieceWise', 'trollnormal': 'TrollNormal',
               'barebones': 'BareBonesCGpm'}[name]
        m = mk(getattr(U['dummy.' + name], cls))
        m2 = rebuild(U, passthru(E, m.to_metadata()))
        m3 = rebuild(U, m2.to_metadata())
        Q = {'twoway': [({0: a}, {1: b}) for a in (0, 1) for b in (0, 1)],
             'fourway': [({0: a}, {1: b, 2: c}) for a in range(4)
                         for b in (0, 1) for c in (0, 1)],
             'piecewise': [({0: E.real('x', -2, 2), 1: 1},
                            {2: E.real('y', -2, 2)})],
             'trollnormal': [({0: E.real('x', -2, 2)}, {1: E.real('m', -2, 2), 2: 1})],
             'barebones': []}[name]
        for z in (m2, m3):
            E.check(list(z.outputs) == list(m.outputs)
                    and list(z.inputs) == list(m.inputs), 'variables')
            for T, I in Q:
                E.check_eq(z.logpdf(-1, dict(T), None, dict(I)),
                           m.logpdf(-1, dict(T), None, dict(I)), 'density')
    return h


SM = ['crosscat.state', 'crosscat.sampling', 'mixtures.view',
      'mixtures.dim', 'primitives.crp']


def harnesses():
    P = [[0, 0], [0, 1], [4, 1]]
    ZV = [{0: 0, 1: 0}, {0: 0, 1: 1}, {0: 7, 1: 3}]
    return [
    ] + [
        H('state-%d' % i, state((BERN, CAT), [zv], P, 2, [(0, 1)],
                                free=[(1, 0)]),
          modules=SM, bounds='2 columns, 2 rows, one cell missing')
        for i, zv in enumerate(ZV)
    ] + [
        H('state-names', state((CAT, BERN), [{9: 0, 4: 0}, {9: 1, 4: 0}], P,
                               2, [], (9, 4), [(0, 9)]),
          modules=SM, bounds='2 columns in non-sorted order, 2 rows'),
        H('state-real', state((EXPO, POIS), ZV[1:2], P[1:2], 2, [(1, 0)]),
          modules=SM + ['primitives.exponential', 'primitives.poisson'],
          bounds='2 columns, 2 rows, real and count data'),
        H('state-normal', state((NORM, BERN), ZV[:1], P[1:2], 2, [(1, 0)]),
          modules=SM + ['primitives.normal'],
          bounds='2 columns, 2 rows, real data'),
    ] + [
        H('edited-%s-%d' % ('+'.join(seq), i), edited(zv, *seq), modules=SM,
          bounds='2 columns, 2 rows, %d edits' % len(seq))
        for seq in [('add-row',), ('drop-row',), ('force',), ('type',),
                    ('add-dim', 'drop-dim')]
        for i, zv in enumerate([{0: 0, 1: 0}, {0: 0, 1: 1}])
    ] + [
        H('moved', moved, modules=SM,
          bounds='2 columns, 3 rows, one row reassigned before saving'),
        H('moved-view', moved_view, modules=['mixtures.view', 'mixtures.dim'],
          bounds='1 column, 3 rows, one row reassigned before saving'),
        H('constraints', constraints, modules=SM,
          bounds='3 columns, 2 rows, one constraint of each kind'),
        H('composite', composite, modules=SM + ['dummy.twoway'],
          bounds='2 columns, up to 2 hooked models'),
        H('conditional', conditional, modules=SM + ['regressions.linreg'],
          bounds='3 rows, one regression column with a missing input'),
        H('view', view, modules=['mixtures.view', 'mixtures.dim'],
          bounds='2 columns, 3 rows'),
        H('separate', separate, modules=SM + ['crosscat.engine'],
          bounds='2 columns, 2 rows, one inference step on either side'),
        H('pickle', state_pickle, modules=SM, stubs=pickled,
          bounds='2 columns, 2 rows'),
        H('engine', engine, modules=SM + ['crosscat.engine'],
          bounds='2 states, 2 columns, 2 rows, an optional edit'),
        H('uncollapsed', uncollapsed, modules=SM + ['primitives.beta'],
          bounds='one row'),
        H('regression', regression, modules=['regressions.linreg'],
          bounds='2 rows, one numeric input'),
    ] + [H('model-' + n, dummy(n), modules=['dummy.' + n],
           bounds='all queries')
         for n in ('twoway', 'fourway', 'piecewise', 'trollnormal',
                   'barebones')]
