"""C14: the column partition and view contents stay consistent."""
import numpy as np

from vp.runner import H
from .c15 import drawing
from .slib import (BERN, CAT, NAN, STable, check_state, is_nan,
                   partition_choice, small_grids,
                   state_rng, try_)

ASSUMPTIONS = ['hyperparameters in [1/16, 16]',
               'hyperparameter grids of one point']


def start(E, U, ncols=2, n=2, zv=None, rows=True, perm='identity',
          types=(BERN, BERN, CAT),
          missing=(), **kw):
    cols = [(c, types[c % len(types)]) for c in range(ncols)]
    if zv is None:
        z = partition_choice(E, ncols, 'v', kmax=ncols)
        zv = {c: z[c] for c in range(ncols)}
    zrv = {}
    for v in sorted(set(zv.values())):
        lab = (3, 0) if v % 2 else (0, 1)
        zrv[v] = [lab[0]] + [
            lab[E.choose('z%d_%d' % (v, r), 2) if rows else r % 2]
            for r in range(1, n)]
    t = STable(E, cols, n, zv, zrv, missing)
    small_grids(U)
    s = t.build(U, state_rng(E, perm), **kw)
    return t, s


def o_transition_dims(E, U, s):
    s.transition_dims()


def o_transition_dim(E, U, s):
    s.transition_dims(cols=[E.choose('col', list(s.outputs))],
                      m=1 + E.choose('m', 2))


def o_rows(E, U, s):
    s.transition_view_rows(rows=[E.choose('row', s.n_rows())])


def o_add_dim(E, U, s):
    c = max(s.outputs) + 1
    v = E.choose('v', [None] + list(s.views) + [max(s.views) + 3])
    ty = E.choose('type', [BERN, CAT])
    T = [(r + 1) % 2 for r in range(s.n_rows())]
    if E.choose('nan', 2):
        T[0] = NAN
    s.incorporate_dim(T, [c], cctype=ty.name, distargs=ty.distargs, v=v)
    E.check(c in s.outputs, 'column-present')
    if v is not None:
        E.check(s.Zv(c) == v, 'column-in-requested-view')


def o_remove_dim(E, U, s):
    if s.n_cols() < 2:
        E.check(isinstance(try_(lambda: s.unincorporate_dim(s.outputs[0])),
                           ValueError), 'last-column-kept')
        return
    c = E.choose('col', list(s.outputs))
    s.unincorporate_dim(c)
    E.check(c not in s.outputs and c not in s.Zv(), 'column-absent')


def o_add_row(E, U, s):
    n = s.n_rows()
    obs = {c: 1 for c in s.outputs if E.choose('has%d' % c, 2)}
    for v in list(s.views)[:1]:
        k = E.choose('cl', 3)
        if k < 2:
            obs[s.views[v].outputs[0]] = k
    s.incorporate(n, obs)
    E.check(s.n_rows() == n + 1, 'row-present')


def o_remove_row(E, U, s):
    n = s.n_rows()
    if n < 2:
        return
    s.unincorporate(n - 1)
    E.check(s.n_rows() == n - 1, 'row-absent')


def o_type(E, U, s):
    c = E.choose('col', list(s.outputs))
    new = CAT if s.dim_for(c).cctype == 'bernoulli' else BERN
    if any(not is_nan(x) and x > 1 for x in s.X[c]):
        return
    s.update_cctype(c, new.name, new.distargs)
    E.check(s.dim_for(c).cctype == new.name, 'type-changed')


def o_all(E, U, s):
    s.transition(N=1, progress=False, kernels=[
        'alpha', 'view_alphas', 'column_params', 'column_hypers',
        'rows', 'columns'])


def o_bad(E, U, s):
    n = s.n_rows()
    bad = {
        'dim-exists': lambda: s.incorporate_dim(
            [0] * n, [s.outputs[0]], cctype='bernoulli'),
        'dim-rows': lambda: s.incorporate_dim(
            [0] * (n + 1), [77], cctype='bernoulli'),
        'dim-inputs': lambda: s.incorporate_dim(
            [0] * n, [77], inputs=[0], cctype='bernoulli'),
        'dim-multi': lambda: s.incorporate_dim(
            [0] * n, [77, 78], cctype='bernoulli'),
        'dim-unknown': lambda: s.unincorporate_dim(77),
        'dim-value': lambda: s.incorporate_dim(
            [-1] * n, [77], cctype='bernoulli',
            v=E.choose('bv', [None, 0, 9])),
        'dim-type': lambda: s.incorporate_dim(
            [0] * n, [77], cctype='no-such-type', v=9),
        'type-value': lambda: s.update_cctype(
            s.outputs[0], 'categorical', {'k': 1}),
        'force-observed': lambda: s.force_cell(0, {s.outputs[0]: 1}),
        'force-unknown': lambda: s.force_cell(n, {s.outputs[0]: 1}),
        'force-value': lambda: s.force_cell(
            0, {s.outputs[-1]: -1}),
        'row-exists': lambda: s.incorporate(0, {s.outputs[0]: 0}),
        'row-gap': lambda: s.incorporate(n + 1, {s.outputs[0]: 0}),
        'row-unknown': lambda: s.incorporate(n, {77: 0}),
        'row-nan': lambda: s.incorporate(n, {s.outputs[0]: NAN}),
        'row-value': lambda: s.incorporate(n, {s.outputs[-1]: -1}),
        'row-value-0': lambda: s.incorporate(n, {s.outputs[0]: -1}),
        'row-remove': lambda: s.unincorporate(n),
        'row-remove-inner': lambda: s.unincorporate(-1),
    }
    k = E.choose('bad', sorted(bad))
    E.check(try_(bad[k]) is not None, 'rejected', k)
    E.check(s.n_rows() == n, 'rejected-row-count', k)


OPS = {'dims': o_transition_dims, 'dim': o_transition_dim, 'rows': o_rows,
       'add-dim': o_add_dim, 'remove-dim': o_remove_dim,
       'add-row': o_add_row, 'remove-row': o_remove_row, 'type': o_type,
       'all': o_all, 'bad': o_bad}


def history(seqs, **kw):
    def h(E, U):
        t, s = start(E, U, **kw)
        t.audit(s, 'built')
        for op in E.choose('seq', seqs):
            OPS[op](E, U, s)
            check_state(E, s, 'after-' + op)
    return h


def built_random(cons):
    """Partitions drawn by the constructor, under constraints."""
    def h(E, U):
        cols = [(c, BERN) for c in range(3)]
        small_grids(U)
        t = STable(E, cols, 2, {c: 0 for c in range(3)}, {0: [0, 0]})
        Cd, Ci = E.choose('cons', cons)
        s = t.build(U, state_rng(E), Zv=None, Zrv=None, view_alphas=None,
                    Cd=[list(b) for b in Cd], Ci=[tuple(p) for p in Ci])
        check_state(E, s, 'built', Cd, Ci)
        if not Cd:
            s.transition_dims(cols=[E.choose('col', 3)])
            check_state(E, s, 'after-transition', Cd, Ci)
            s.transition_dims(cols=[E.choose('col', 3)])
            check_state(E, s, 'after-two-transitions', Cd, Ci)
        else:
            try_(lambda: s.transition_dims(cols=[E.choose('col', 3)]))
            check_state(E, s, 'after-transition', Cd, Ci)
            try_(lambda: s.incorporate_dim([0, 1], [7], cctype='bernoulli'))
            check_state(E, s, 'after-new-column', Cd, Ci)
    return h


def labels(E, U):
    """Any labels may name the views."""
    zv = E.choose('labels', [{0: 1, 1: 8}, {0: 8, 1: 1}, {0: 5, 1: 0},
                             {0: 3, 1: 3}, {0: 0, 1: 2, 2: 1}])
    t, s = start(E, U, ncols=len(zv), zv=zv, rows=False)
    t.audit(s, 'built')
    for op in ['dim', 'dim'] if len(zv) == 2 else ['dim']:
        OPS[op](E, U, s)
        check_state(E, s, 'after-' + op)


def uncollapsed(E, U):
    """Columns with parameters of their own move like the others."""
    small_grids(U)
    calls = [0]

    def hook(D):
        calls[0] += 1
        return E.const('%d/%d' % (calls[0], calls[0] + 2)) \
            if D[1] == 1 else E.const(calls[0]) / 2
    U['utils.sampling'].hook = hook
    zv = E.choose('zv', [{0: 0, 1: 1}, {0: 1, 1: 0}, {0: 4, 1: 4},
                         {0: 0, 1: 0, 2: 3}])
    cols = sorted(zv)
    A = np.empty((2, len(cols)), dtype=object)
    for j in cols:
        A[:, j] = [E.const('1/5'), E.const('3/4')] if j != 1 else [0, 1]
    z = E.choose('z', [3, 0])
    zrv = {v: [3, z if v != 1 else 0] for v in sorted(set(zv.values()))}
    s = U['crosscat.state'].State(
        A, outputs=cols,
        cctypes=['bernoulli' if j == 1 else 'beta' for j in cols],
        hypers=[{'alpha': E.const(1), 'beta': E.const(2)} if j == 1 else {}
                for j in cols],
        alpha=E.const('3/2'), Zv=zv, Zrv=zrv,
        view_alphas={v: E.const(1) for v in zrv}, rng=state_rng(E))
    for c in cols:
        if c != 1:
            for d in s.dim_for(c).clusters.values():
                d.strength, d.balance = E.const('7/3'), E.const('2/9')
    check_state(E, s, 'built')
    for i in range(4 - len(cols)):
        c = E.choose('col%d' % i, cols)
        s.transition_dims(cols=[c], m=2 if len(cols) > 2 else 1)
        check_state(E, s, 'after-moving')
    s.unincorporate_dim(cols[0])
    check_state(E, s, 'afterwards')


MODS = ['crosscat.state', 'mixtures.view', 'mixtures.dim', 'primitives.crp',
        'primitives.bernoulli', 'primitives.categorical', 'utils.general']


def harnesses():
    two = dict(ncols=2, n=2)
    L = '2 columns, 2 rows, every partition; every random outcome'
    return [
        H('dims', history([('dim', 'dim')], rows=False, **two), modules=MODS,
          bounds=L + '; two column moves'),
        H('dims-three', history([('dims',)], ncols=3, n=2, rows=False),
          modules=MODS, bounds='3 columns, 2 rows, a sweep over the columns'),
        H('rows', history([('rows', 'dim'), ('add-row', 'remove-row'),
                           ('remove-row', 'dim')], **two), modules=MODS,
          bounds=L),
        H('columns', history([('add-dim', 'remove-dim'),
                              ('remove-dim', 'add-dim')],
                             rows=False, **two), modules=MODS, bounds=L),
        H('columns-moved', history([('dim', 'add-dim', 'dim')], ncols=1,
                                   n=2, rows=False),
          modules=MODS, tier='thorough', bounds='1-2 columns, 2 rows'),
        H('columns-then-moved', history([('add-dim', 'dim')], ncols=1, n=2,
                                        rows=False),
          modules=MODS, bounds='1-2 columns, 2 rows'),
        H('types', history([('type', 'dim')], rows=False, **two),
          modules=MODS, bounds=L),
        H('all', history([('all',)], ncols=2, n=2, rows=False,
                         zv={0: 0, 1: 0}), modules=MODS, bounds=L),
        H('rejections', history([('bad', 'add-row'), ('bad', 'remove-dim')],
                                rows=False, zv={0: 0, 1: 1}, **two),
          modules=MODS, bounds=L),
        H('constraints', built_random([
            ((), ((0, 1),)), ((), ((0, 2), (1, 2))),
            (((0, 1),), ()), (((0, 2),), ((0, 1),)),
            (((0, 1, 2),), ())]), modules=MODS,
          bounds='3 columns, 2 rows, 5 constraint sets; all seatings'),
        H('labels', labels, modules=MODS,
          bounds='2 or 3 columns, gaps and disorder in view labels'),
        H('uncollapsed', uncollapsed, modules=MODS + ['primitives.beta'],
          stubs=drawing, paths=6000, bounds='one or two beta columns and a '
          'bernoulli one, 2 rows, one or two column moves'),
        H('long', history([(a, b, c) for a in ('dim', 'add-row', 'add-dim')
                           for b in ('dim', 'remove-dim', 'rows')
                           for c in ('dim', 'remove-row', 'bad')],
                          rows=False, **two), modules=MODS, tier='thorough',
          thorough_seconds=2400, bounds=L + ', 3 operations'),
    ]
