"""C18: crosscat data edits behave like building the edited table."""
from vp.runner import H
from .lib import posreal
from .slib import (BASE, BERN, CAT, EXPO, NAN, STable, Table, check_state,
                   crp_score, is_nan, small_grids, state_rng, try_)
from .c16 import start

ASSUMPTIONS = ['hyperparameters in [1/16, 16]',
               'hyperparameter grids of one point']
UP = {'bernoulli': CAT, 'categorical': BERN}


def value(E, t, c, name):
    p = t.cols[c]
    if p.support:
        return p.support[E.choose(name, len(p.support))]
    return p.datum(E, name)


def e_add_row(E, U, t, s, bulk=False):
    n = t.n
    obs = {}
    for c in t.order:
        if E.choose('has%d' % c, 2):
            obs[c] = value(E, t, c, 'new%d' % c)
    full = dict(obs)
    for v, w in t.views.items():
        full[s.views[v].outputs[0]] = k = E.choose('cl%d' % v, [0, 2] if len(t.views) > 1 else [0, 1, 2])
        w.Z[n] = k
        for c in w.cols:
            w.X[c].append(obs.get(c, NAN))
    t.n += 1
    if bulk:
        s.incorporate_bulk([n], [full])
    else:
        s.incorporate(n, full)


def e_bulk_row(E, U, t, s):
    e_add_row(E, U, t, s, True)


def e_drop_row(E, U, t, s):
    s.unincorporate(t.n - 1)
    t.n -= 1
    for w in t.views.values():
        del w.Z[t.n]
        for c in w.cols:
            w.X[c].pop()


def e_force(E, U, t, s):
    cells = [(r, c) for c in t.order for r in range(t.n)
             if is_nan(t.X[c][r])]
    rows = sorted({r for r, c in cells})
    if not rows:
        return
    r = E.choose('frow', rows)
    obs = {}
    for rr, c in cells:
        if rr == r and (not obs or E.choose('both', 2)):
            obs[c] = value(E, t, c, 'f%d' % c)
    way = E.choose('bulk', 3 if len(obs) > 1 else 2)
    if way == 2:
        # one query for each cell
        s.force_cell_bulk([r] * len(obs), [{c: x} for c, x in obs.items()])
    elif way:
        s.force_cell_bulk([r], [dict(obs)])
    else:
        s.force_cell(r, dict(obs))
    for c, x in obs.items():
        t.views[t.zv[c]].X[c][r] = x


def e_add_dim(E, U, t, s):
    c = max(t.order) + 1
    v = E.choose('v', sorted(t.views) + [max(t.views) + 3])
    T = [(r + 1) % 2 for r in range(t.n)]
    if E.choose('nan', 2):
        T[0] = NAN
    s.incorporate_dim(list(T), [c], cctype='bernoulli', v=v)
    if v not in t.views:
        w = next(iter(t.views.values())).copy()
        w.zid, w.order, w.cols, w.hy, w.X = BASE + v, [], {}, {}, {}
        w.Z = dict(s.views[v].Zr())
        w.alpha = s.views[v].alpha()
        t.views[v] = w
    w = t.views[v]
    t.order.append(c)
    t.cols[c] = BERN
    t.zv[c] = v
    w.order.append(c)
    w.cols[c] = BERN
    w.hy[c] = dict(s.dim_for(c).hypers)
    w.X[c] = T


def e_drop_dim(E, U, t, s):
    if len(t.order) < 2:
        return
    c = E.choose('dcol', list(t.order))
    s.unincorporate_dim(c)
    v = t.zv.pop(c)
    t.order.remove(c)
    del t.cols[c]
    w = t.views[v]
    w.order.remove(c)
    del w.cols[c], w.hy[c], w.X[c]
    if not w.cols:
        del t.views[v]


def e_type(E, U, t, s):
    c = E.choose('tcol', list(t.order))
    new = UP[t.cols[c].name]
    if any(not is_nan(x) and x > 1 for x in t.X[c]):
        return
    s.update_cctype(c, new.name, new.distargs)
    w = t.views[t.zv[c]]
    t.cols[c] = w.cols[c] = new
    w.hy[c] = dict(s.dim_for(c).hypers)


EDITS = {'add-row': e_add_row, 'drop-row': e_drop_row, 'force': e_force,
         'bulk-row': e_bulk_row, 'add-dim': e_add_dim,
         'drop-dim': e_drop_dim, 'type': e_type}


def edits(seqs, zvs, n=2, missing=(), types=(BERN, BERN)):
    def h(E, U):
        small_grids(U)
        t = start(E, 2, n, types, zvs, missing)
        s = t.build(U, state_rng(E))
        for op in E.choose('seq', seqs):
            EDITS[op](E, U, t, s)
            t.audit(s, 'after-' + op)
        t.audit(s, 'edited', True)
        # a query on the edited table
        q = {c: value(E, t, c, 'q%d' % c) for c in t.order[:1]}
        E.check_eq(s.logpdf(-1, q), t.logjoint(q), 'edited-density')
    return h


def seating(E, U):
    """A row added without clusters is seated by its conditional."""
    small_grids(U)
    t = start(E, 2, 2, (BERN, BERN), [{0: 0, 1: 0}, {0: 0, 1: 1}])
    M = t.M
    obs = {0: E.choose('new0', 2)}
    if E.choose('has1', 2):
        obs[1] = E.choose('new1', 2)

    def run(rng):
        s = t.build(U, rng)
        s.incorporate(2, dict(obs))
        return s
    tab = {}
    for o in E.enumerate_random(run):
        s = o.value
        key = tuple(s.views[v].Zr(2) for v in sorted(t.views))
        tab[key] = tab.get(key, 0) + o.weight
        E.check(all({r: k for r, k in s.views[v].Zr().items() if r < 2}
                    == t.views[v].Z for v in t.views), 'others-stay')
    by = t.by_view(obs)
    want = {(): E.const(1)}
    for v in sorted(t.views):
        w = t.views[v]
        ks = w.labels() + [w.fresh()]
        L = {k: w.mixture(by.get(v, {}), k) for k in ks}
        den = M.logsumexp(list(L.values()))
        want = {a + (k,): p * M.exp(L[k] - den)
                for a, p in want.items() for k in ks}
    # a fresh cluster may carry any unused label
    def canon(key):
        return tuple(k if k in t.views[v].labels() else 'fresh'
                     for k, v in zip(key, sorted(t.views)))
    a, b = {}, {}
    for k, w in tab.items():
        a[canon(k)] = a.get(canon(k), 0) + w
    for k, w in want.items():
        b[canon(k)] = b.get(canon(k), 0) + w
    E.check(set(a) == set(b), 'seatings')
    for k in b:
        E.check_eq(a.get(k, 0), b[k], 'seating-law')


def rejected(E, U):
    small_grids(U)
    t = start(E, 2, 2, (BERN, CAT), [{0: 0, 1: 0}, {0: 0, 1: 1}],
              [(1, 0), (1, 1)])
    s = t.build(U, state_rng(E))
    n, z0 = 2, s.views[t.zv[0]].outputs[0]
    bad = {
        'row-value': lambda: s.incorporate(n, {0: 1, 1: 7}),
        'row-value-cluster': lambda: s.incorporate(n, {0: -1, 1: 0, z0: 1}),
        'row-value-fresh': lambda: s.incorporate(n, {0: 7, 1: 0, z0: 5}),
        'row-exists': lambda: s.incorporate(1, {0: 1}),
        'row-gap': lambda: s.incorporate(n + 1, {0: 1}),
        'row-unknown-column': lambda: s.incorporate(n, {0: 1, 9: 1}),
        'row-nan': lambda: s.incorporate(n, {0: NAN}),
        'row-nan-and-value': lambda: s.incorporate(n, {0: 1, 1: NAN}),
        'row-inputs': lambda: s.incorporate(n, {0: 1}, {9: 1}),
        'drop-inner': lambda: s.unincorporate(0),
        'drop-unknown': lambda: s.unincorporate(n),
        'force-observed': lambda: s.force_cell(0, {0: 1}),
        'force-mixed': lambda: s.force_cell(1, {0: 1, 1: 9}),
        'force-value': lambda: s.force_cell(1, {0: 3}),
        'force-unknown': lambda: s.force_cell(n, {0: 1}),
        'force-column': lambda: s.force_cell(1, {9: 1}),
        'dim-exists': lambda: s.incorporate_dim([0, 0], [0],
                                                cctype='bernoulli'),
        'dim-short': lambda: s.incorporate_dim([0], [5], cctype='bernoulli'),
        'dim-value': lambda: s.incorporate_dim(
            [0, 4], [5], cctype='bernoulli', v=E.choose('bv', [0, 9])),
        'dim-type': lambda: s.incorporate_dim([0, 1], [5], cctype='nope',
                                              v=9),
        'dim-unknown': lambda: s.unincorporate_dim(9),
        'type-value': lambda: s.update_cctype(1, 'bernoulli'),
        'type-unknown': lambda: s.update_cctype(0, 'nope'),
        'type-column': lambda: s.update_cctype(9, 'bernoulli'),
    }
    kind = E.choose('bad', sorted(bad))
    if kind == 'type-value' and t.X[1][0] <= 1:
        return
    e = try_(bad[kind])
    E.check(e is not None, 'rejected', kind)
    t.audit(s, 'after-rejection', True)


def partly(E, U):
    """Overwriting is all or nothing: every cell named has to be missing."""
    small_grids(U)
    t = start(E, 2, 2, (BERN, CAT), [{0: 0, 1: 0}, {0: 0, 1: 1}],
              [(1, E.choose('gap', 2))])
    s = t.build(U, state_rng(E))
    obs = {c: E.choose('f%d' % c, 2)
           for c in E.choose('names', [[0], [1], [0, 1], [1, 0]])}
    r = E.choose('row', 2)
    fits = all(is_nan(t.X[c][r]) for c in obs)
    e = try_(lambda: s.force_cell(r, dict(obs)))
    E.check((e is None) == fits, 'rejected-unless-missing')
    if e is None:
        for c in obs:
            t.views[t.zv[c]].X[c][r] = obs[c]
    t.audit(s, 'after-forcing', True)


def conditional(E, U):
    """Overwriting a missing input completes the rows of a regression."""
    small_grids(U)
    S = U['crosscat.state'].State
    import numpy as np
    A = np.empty((3, 2), dtype=object)
    y = [E.real('y%d' % r, -2, 2) for r in range(3)]
    A[:] = [[0, y[0]], [NAN, y[1]], [1, y[2]]]
    s = S(A, outputs=[0, 1], cctypes=['categorical', 'linear_regression'],
          hypers=[{'alpha': E.const(1)}, {}],
          distargs=[{'k': 2},
                    {'inputs': {'stattypes': ['categorical'],
                                'statargs': [{'k': 2}], 'indexes': [0]}}],
          Zv={0: 0, 1: 0}, Zrv={0: [0, E.choose('z1', 2), 0]},
          alpha=E.const(1), view_alphas={0: E.const(1)})
    d = s.dim_for(1)
    E.check(sorted(d.Zr) == [0, 2] and sorted(d.Zi) == [1],
            'row-without-input-set-aside')
    s.force_cell(1, {0: 1})
    E.check(sorted(s.dim_for(0).Zr) == [0, 1, 2], 'input-stored')
    E.check(sorted(d.Zr) == [0, 1, 2] and not d.Zi, 'row-completed')
    tot = sum(d.clusters[k].N for k in d.clusters)
    E.check(tot == 3, 'row-counted')


def needed(E, U):
    """A column that a regression needs is not removed under it."""
    small_grids(U)
    S = U['crosscat.state'].State
    import numpy as np
    A = np.empty((2, 4), dtype=object)
    A[:] = [[0, E.const('1/2'), 1, 1], [1, E.const('1/4'), 0, 1]]
    order = E.choose('order', [[0, 1, 2], [1, 0, 2], [0, 2, 1]])
    reg = {'inputs': {'stattypes': ['bernoulli', 'bernoulli'],
                      'statargs': [{'k': 2}, {'k': 2}],
                      'indexes': E.choose('inputs', [[0, 2], [2, 0]])}}
    types = ['bernoulli', 'linear_regression', 'bernoulli', 'bernoulli']
    hy = {'alpha': E.const(1), 'beta': E.const(1)}
    cols = order + [3]
    s = S(A[:, cols], outputs=cols, cctypes=[types[c] for c in cols],
          hypers=[{} if c == 1 else hy for c in cols],
          distargs=[reg if c == 1 else None for c in cols],
          Zv={0: 0, 1: 0, 2: 0, 3: E.choose('z3', [0, 4])},
          alpha=E.const(1), view_alphas={0: E.const(1), 4: E.const(1)},
          rng=state_rng(E))
    y = {1: E.const('1/8'), 0: 1, 2: 1}
    was = s.logpdf_likelihood(), s.logpdf(-1, y)
    c = E.choose('col', [0, 2])
    E.check(isinstance(try_(lambda: s.unincorporate_dim(c)), ValueError),
            'needed-column-kept')
    E.check(list(s.outputs) == cols and sorted(s.X) == [0, 1, 2, 3]
            and sorted(s.view_for(1).dims) == [
                d for d in range(4) if s.Zv(d) == 0], 'refused-unchanged')
    E.check_eq(s.logpdf_likelihood(), was[0], 'refused-unchanged')
    E.check_eq(s.logpdf(-1, y), was[1], 'refused-unchanged')
    if E.choose('other', 2):
        # a column nothing needs
        s.unincorporate_dim(3)
        E.check_eq(s.logpdf(-1, y), was[1], 'others-kept')
    else:
        s.unincorporate_dim(1)
        s.unincorporate_dim(c)
        check_state(E, s, 'regression-removed-first')


CONS = [([(0, 1)], []), ([(0, 1, 2)], []), ([(0, 2)], []),
        ([], [(0, 1)]), ([], [(0, 2), (1, 2)]), ([(0, 1)], [(1, 2)])]


def constrained(E, U):
    """Removing a column removes it from the constraints, and only it."""
    small_grids(U)
    Cd, Ci = E.choose('cons', CONS)
    zvs = [dict(enumerate(z)) for z in ((0, 0, 0), (0, 0, 3), (0, 3, 0),
                                        (3, 0, 0), (0, 3, 4))
           if all(len({z[c] for c in b}) == 1 for b in Cd)
           and all(z[a] != z[b] for a, b in Ci)]
    zv = E.choose('zv', zvs)
    cols = [(c, BERN) for c in range(3)]
    t = STable(E, cols, 2, zv, {v: [0, 1] for v in set(zv.values())})
    s = t.build(U, state_rng(E), Cd=[list(b) for b in Cd],
                Ci=[tuple(p) for p in Ci])
    e_drop_dim(E, U, t, s)
    gone = ({0, 1, 2} - set(t.order)).pop()
    Cd = [[c for c in b if c != gone] for b in Cd]
    Cd = [b for b in Cd if len(b) > 1]
    Ci = [p for p in Ci if gone not in p]
    restored = U['crosscat.state'].State.from_metadata(
        s.to_metadata(), rng=state_rng(E))
    for m, label in ((s, 'after'), (restored, 'restored')):
        check_state(E, m, label, Cd, Ci)
        if Ci:
            E.check(try_(m.logpdf_score) is not None, label + '-unscored')
            continue
        d, seen = {}, set()
        for c in t.order:
            if c not in seen:
                seen.update([c], *[b for b in Cd if c in b])
                d[t.zv[c]] = d.get(t.zv[c], 0) + 1
        want = crp_score(t.M, t.alpha, d.values())
        for w in t.views.values():
            want = want + w.score()
        E.check_eq(m.logpdf_score(), want, label + '-score')
    if not Cd:
        s.transition_dims(cols=[E.choose('moved', list(t.order))])
        check_state(E, s, 'after-move', Cd, Ci)


def given(E, U):
    """A column given as any sequence is copied into the table."""
    import numpy as np
    small_grids(U)
    t = start(E, 2, 2, (BERN, BERN), [{0: 0, 1: 0}], ())
    s = t.build(U, state_rng(E))
    make = E.choose('as', ['list', 'tuple', 'array'])
    T = {'list': list, 'tuple': tuple, 'array': np.array}[make]([1, 0])
    s.incorporate_dim(T, [2], cctype='bernoulli', v=E.choose('v', [0, 3]))
    check_state(E, s, 'added')
    op = E.choose('then', ['row', 'rows', 'drop', 'caller'])
    want = [1, 0]
    if op == 'row':
        s.incorporate(2, {0: 1, 2: 1})
        want = [1, 0, 1]
    elif op == 'rows':
        s.incorporate_bulk([2, 3], [{2: 1}, {2: 0}])
        want = [1, 0, 1, 0]
    elif op == 'drop':
        s.unincorporate(1)
        want = [1]
    elif make != 'tuple':
        T[0] = 0
    E.check(list(s.X[2]) == want, 'column-data')
    check_state(E, s, 'after')
    E.check(list(T) == ([0, 0] if op == 'caller' and make != 'tuple'
                        else [1, 0]), 'given-column-kept')


MODS = ['crosscat.state', 'crosscat.sampling', 'mixtures.view',
        'mixtures.dim', 'primitives.crp', 'primitives.bernoulli',
        'primitives.categorical', 'utils.general', 'utils.validation']


def harnesses():
    zz = [{0: 0, 1: 0}, {0: 0, 1: 1}]
    return [
        H('rows-1', edits([('add-row', 'drop-row'), ('bulk-row',),
                           ('drop-row', 'add-row')], zz[:1]), modules=MODS,
          bounds='2 columns in 1 view, 2 rows, 2 edits'),
        H('rows-2', edits([('add-row', 'drop-row'), ('bulk-row',)], zz[1:]),
          modules=MODS, bounds='2 columns in 2 views, 2 rows, 2 edits'),
        H('rows-3', edits([('drop-row', 'add-row')], zz[1:]),
          modules=MODS, bounds='2 columns in 2 views, 2 rows, 2 edits'),
        H('cells', edits([('force',), ('force', 'drop-row')], zz, 2,
                         [(1, 0), (1, 1)]),
          modules=MODS, bounds='2 columns, 2 rows, two missing cells'),
        H('columns', edits([('add-dim', 'drop-dim'), ('drop-dim', 'add-dim')],
                           zz), modules=MODS,
          bounds='2 columns, 2 rows, 2 edits'),
        H('types', edits([('type',), ('type', 'drop-row'),
                          ('type', 'type')], zz),
          modules=MODS, bounds='2 columns, 2 rows, 2 edits'),
        H('mixed', edits([('add-dim', 'add-row')], [{0: 0, 1: 0}], 1),
          modules=MODS, bounds='2-3 columns, 1-2 rows, 2 edits'),
        H('exponential', edits([('add-row',), ('drop-row',)],
                               [{0: 0, 1: 0}], 2, (), (EXPO, BERN)),
          modules=MODS + ['primitives.exponential'],
          bounds='2 columns, 2 rows, real data'),
        H('seating', seating, modules=MODS,
          bounds='2 columns, 2 rows and one added; all random outcomes'),
        H('rejected', rejected, modules=MODS,
          bounds='2 columns, 2 rows, 24 malformed edits'),
        H('partly', partly, modules=MODS,
          bounds='2 columns, 2 rows, one missing cell; every set of cells '
                 'of a row named for overwriting'),
        H('constrained', constrained, modules=MODS,
          bounds='3 columns, 2 rows, 6 sets of constraints, every column '
          'removed'),
        H('given', given, modules=MODS,
          bounds='2 columns, 2 rows; a third column given as 3 kinds of '
          'sequence, then 4 edits'),
        H('needed', needed, modules=MODS + ['regressions.linreg'],
          bounds='2 rows, a regression on 2 of 3 binary columns'),
        H('conditional', conditional, modules=MODS + ['regressions.linreg'],
          bounds='3 rows, a regression column with a missing input'),
        H('long', edits([(a, b, c) for a in ('add-row', 'type', 'add-dim')
                         for b in ('force', 'drop-dim', 'drop-row')
                         for c in ('add-row', 'type')], zz, 2, [(1, 0)]),
          modules=MODS, tier='thorough', thorough_seconds=2400,
          bounds='2 columns, 2 rows, 3 edits'),
    ]
