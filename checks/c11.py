"""C11: a view keeps rows, clusters and columns consistent."""
from vp.runner import H
from .lib import BYNAME
from .vlib import NAN, Table, choose_rng, is_nan, partition_choice, try_

ASSUMPTIONS = ['hyperparameters in [1/16, 16]']
Z = 30
BERN, CAT, NORM, EXPO = [BYNAME[n] for n in (
    'bernoulli', 'categorical', 'normal', 'exponential')]


def start(E, U, cols, n, missing=0, perm='identity', free=((0, 3),)):
    z = partition_choice(E, n, labels=[3, 0] if n == 2 else [0, 1])
    miss = []
    if missing:
        m = E.choose('missing', [None] + [(r, c) for r in range(n)
                                          for c, p in cols])
        miss = [m] if m is not None else []
    t = Table(E, Z, cols, n, z, miss, free=free)
    rng = choose_rng(E, perm)
    v = t.view(U, rng)
    return t, v, rng


def adopt(t, v):
    """Take over the assignment a random move chose."""
    t.Z = dict(v.Zr())


def op_remove(E, U, t, v):
    rows = sorted(t.Z)
    r = E.choose('row', rows)
    v.unincorporate(r)
    del t.Z[r]
    return 'removed'


def op_readd(E, U, t, v, clusters=3):
    gone = [r for r in range(len(t.X[t.order[0]])) if r not in t.Z]
    if not gone:
        return None
    r = E.choose('row', gone)
    obs = {c: t.X[c][r] for c in t.order}
    k = E.choose('cluster', clusters + 1)
    if k < clusters:
        obs[Z] = k
    v.incorporate(r, obs)
    if k < clusters:
        t.Z[r] = k
    else:
        E.check(sorted(v.Zr()) == sorted(list(t.Z) + [r]), 'row-added')
        adopt(t, v)
    return 'added'


def op_move(E, U, t, v):
    r = E.choose('row', sorted(t.Z))
    if len(t.Z) != len(t.X[t.order[0]]):
        return None
    before = dict(t.Z)
    v.transition_rows(rows=[r])
    adopt(t, v)
    E.check({k: x for k, x in t.Z.items() if k != r}
            == {k: x for k, x in before.items() if k != r},
            'only-that-row-moved')
    return 'moved'


def op_dim_add(E, U, t, v):
    c = 7
    if c in t.cols:
        return None
    p = CAT
    n = len(t.X[t.order[0]])
    hy = p.hypers(E, '_7')
    t.cols[c] = p
    t.order.append(c)
    t.hy[c] = hy
    t.X[c] = [NAN if (r == 0 and E.choose('newmiss', 2))
              else p.support[r % 3] for r in range(n)]
    v.X[c] = list(t.X[c])
    d = U['mixtures.dim'].Dim([c], [99], cctype=p.name, hypers=dict(hy),
                              distargs=p.distargs, rng=v.rng)
    if E.choose('preloaded', 2):
        # a column coming from another view with another partition
        for r in range(n):
            if r in t.Z:
                d.incorporate(r, {c: t.X[c][r]}, {99: 5 * r})
    s = v.incorporate_dim(d)
    E.check_eq(s, t.col_score(c), 'reported-column-score')
    return 'column-added'


def op_dim_remove(E, U, t, v):
    if len(t.order) < 2:
        return None
    c = E.choose('col', t.order)
    s = v.unincorporate_dim(v.dims[c])
    E.check_eq(s, t.col_score(c), 'reported-column-score')
    t.order.remove(c)
    del t.cols[c], t.hy[c]
    del v.X[c]
    return 'column-removed'


def op_force(E, U, t, v):
    cells = [(r, c) for c in t.order for r in sorted(t.Z)
             if is_nan(t.X[c][r])]
    if not cells:
        return None
    r, c = cells[0]
    x = t.cols[c].datum(E, 'forced')
    t.X[c][r] = x
    v.X[c][r] = x
    v.force_cell(r, {c: x})
    return 'cell-forced'


def op_type(E, U, t, v):
    c = t.order[0]
    new = CAT if t.cols[c] is BERN else BERN
    if new is BERN and any(not is_nan(x) and x > 1 for x in t.X[c]):
        return None
    v.update_cctype(c, new.name, new.distargs)
    t.cols[c] = new
    t.hy[c] = dict(v.dims[c].aux_model.get_hypers())
    return 'type-changed'


def op_rejected(E, U, t, v):
    obs = {c: t.X[c][0] for c in t.order}
    rows = sorted(t.Z)
    n = len(t.X[t.order[0]])
    kinds = ['unknown', 'duplicate', 'duplicate-k']
    gone = [r for r in range(n) if r not in t.Z]
    if gone:
        kinds += ['bad-value', 'bad-value-k', 'missing-column']
    kind = E.choose('kind', kinds)
    if kind == 'unknown':
        e = try_(lambda: v.unincorporate(n + 3))
    elif kind == 'duplicate':
        e = try_(lambda: v.incorporate(rows[0], obs))
    elif kind == 'duplicate-k':
        e = try_(lambda: v.incorporate(rows[0], dict(list(obs.items()) + [(Z, 1)])))
    else:
        obs = {c: t.X[c][gone[0]] for c in t.order}
        last = E.choose('which', t.order)
        if kind == 'missing-column':
            del obs[last]
        else:
            obs[last] = -1
        if kind != 'bad-value':
            obs[Z] = E.choose('cluster', 3)
        e = try_(lambda: v.incorporate(gone[0], obs))
    E.check(e is not None, 'rejected')
    return 'rejected'


def op_hypers(E, U, t, v):
    for c in t.order:
        v.dims[c].hyper_grids = {
            k: [t.hy[c][k], g] for k, g in
            t.cols[c].hypers(E, '_g%s' % c).items()}
    v.crp.hyper_grids = {'alpha': [t.alpha, t.alpha + 1]}
    c = t.order[-1]
    v.transition_dim_hypers(cols=[c])
    v.crp.transition_hypers()
    t.hy[c] = dict(v.dims[c].hypers)
    t.alpha = v.alpha()
    return 'hypers-changed'


OPS = {'remove': op_remove, 'readd': op_readd, 'move': op_move,
       'dim-add': op_dim_add, 'dim-remove': op_dim_remove,
       'force': op_force, 'type': op_type, 'rejected': op_rejected,
       'hypers': op_hypers}


def history(cols, n, seqs, missing=0, perm='identity'):
    def h(E, U):
        t, v, rng = start(E, U, cols, n, missing, perm)
        t.audit(v, 'built', numbers=False)
        seq = E.choose('seq', seqs)
        for i, op in enumerate(seq):
            lab = OPS[op](E, U, t, v)
            if lab is None:
                continue
            t.audit(v, lab, numbers=(i == len(seq) - 1))
        E.check_eq(v.logpdf_score(), t.score(), 'view-score')
    return h


def built(cols, n):
    def h(E, U):
        t, v, rng = start(E, U, cols, n, 1)
        t.audit(v, 'built')
        E.check_eq(v.logpdf_score(), t.score(), 'view-score')
        E.check_eq(v.logpdf_prior() + v.logpdf_likelihood(), t.score(),
                   'view-score-parts')
    return h


def built_random(cols, n):
    """Without a partition the constructor seats the rows itself."""
    def h(E, U):
        t = Table(E, Z, cols, n, [0] * n)
        V = U['mixtures.view'].View
        M = t.M

        def run(rng):
            return V({c: list(x) for c, x in t.X.items()},
                     outputs=[Z] + t.order, alpha=t.alpha,
                     cctypes=[t.cols[c].name for c in t.order],
                     distargs=[t.cols[c].distargs for c in t.order],
                     hypers=[dict(t.hy[c]) for c in t.order], rng=rng)
        tot = 0
        seen = set()
        for o in E.enumerate_random(run):
            adopt(t, o.value)
            t.audit(o.value, 'seated')
            from .vlib import crp_score
            E.check_eq(M.log(o.weight),
                       crp_score(M, t.alpha, t.counts().values()),
                       'seating-law')
            seen.add(tuple(t.Z[r] for r in range(n)))
        E.check(len(seen) == {1: 1, 2: 2, 3: 5}[n], 'every-seating-possible',
                repr(seen))
    return h


MODS = ['mixtures.view', 'mixtures.dim', 'primitives.crp',
        'primitives.bernoulli', 'primitives.categorical']


def harnesses():
    B = [(3, BERN)]
    BC = [(3, BERN), (5, CAT)]
    hs = [
        H('built', built(BC, 3), modules=MODS,
          bounds='3 rows, 2 columns, any partition into up to 2 clusters, '
          'one cell possibly missing'),
        H('built-random', built_random(B, 3), modules=MODS,
          bounds='3 rows, all seatings'),
        H('rows', history(BC, 3, [('remove', 'readd'),
                                  ('remove', 'remove'),
                                  ('remove', 'rejected')]),
          modules=MODS, seconds=200, paths=20000,
          bounds='3 rows, 2 columns, 2 row operations, any order of rows'),
        H('rows-missing', history(B, 3, [('remove', 'readd'),
                                     ('move', 'remove')], 1),
          modules=MODS, seconds=200, paths=20000,
          bounds='3 rows, 1 column with one missing cell, 2 operations'),
        H('moves', history(B, 3, [('move', 'move'), ('move', 'remove')]),
          modules=MODS, seconds=200, paths=20000,
          bounds='3 rows, 2 moves with every outcome'),
        H('columns', history(BC, 2, [('dim-add', 'dim-remove'),
                                     ('dim-remove', 'dim-add'),
                                     ('dim-add', 'move'),
                                     ('remove', 'dim-add')]),
          modules=MODS, seconds=200, paths=20000,
          bounds='2 rows, 2-3 columns, column additions (fresh or from '
          'another partition) and removals'),
        H('types', history(BC, 2, [('type', 'move'), ('type', 'remove')]),
          modules=MODS, seconds=200, paths=20000,
          bounds='2 rows, change of column type and one more operation'),
        H('cells', history(BC, 2, [('force', 'move'), ('force', 'remove'),
                                   ('move', 'force')], 1),
          modules=MODS, seconds=200, paths=20000,
          bounds='2 rows, one missing cell overwritten'),
        H('hypers', history(B, 2, [('hypers', 'move'),
                                   ('hypers', 'remove', 'readd')]),
          modules=MODS, seconds=200, paths=20000,
          bounds='2 rows, 1 column, hyperparameter transitions'),
        H('rejections', history(BC, 2, [('rejected', 'move'),
                                        ('remove', 'rejected', 'readd')]),
          modules=MODS, seconds=200, paths=20000,
          bounds='2 rows, rejected operations then an accepted one'),
        H('long', history(BC, 3, [
            (a, b, c) for a in ('remove', 'move', 'dim-add')
            for b in ('move', 'readd', 'dim-remove', 'remove')
            for c in ('readd', 'move', 'rejected')], 1),
          modules=MODS, tier='thorough', thorough_seconds=1800,
          bounds='3 rows, 2 columns, 3 operations'),
    ]
    return hs
