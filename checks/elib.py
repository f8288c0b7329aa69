"""Ensembles of crosscat states over one table."""
from .slib import BERN, CAT, STable, small_grids

PARTS = [({0: 0, 1: 0}, {0: [0, 1]}),
         ({0: 0, 1: 1}, {0: [0, 0], 1: [1, 0]}),
         ({0: 4, 1: 2}, {2: [3, 0], 4: [0, 1]})]


def ensemble(E, U, n=2, rng=None, parts=None, types=(BERN, CAT),
             missing=((1, 0),), light=True):
    """An engine of n states with different partitions, and their
    reference tables."""
    small_grids(U)
    import numpy as np
    ts = []
    for i in range(n):
        k = (parts[i] if parts else E.choose('part%d' % i, 3) if i else 0)
        zv, zrv = PARTS[k]
        ts.append(STable(E, list(enumerate(types)), 2, zv, zrv,
                         list(missing), tag='_e%d' % i))
    # symbolic hyperparameters in the first state only
    if light:
        for i, t in enumerate(ts[1:], 1):
            t.alpha = E.const(i)
            for v, w in t.views.items():
                w.alpha = E.const('3/2') + i
                for j, h in enumerate(w.hy.values()):
                    for k, a in enumerate(sorted(h)):
                        h[a] = E.const('1/2') * (1 + i + j + 2 * k)
    return engine_of(U, ts, rng), ts


def engine_of(U, ts, rng=None):
    import numpy as np
    cols = ts[0].order
    A = np.empty((ts[0].n, len(cols)), dtype=object)
    for r in range(ts[0].n):
        for j, c in enumerate(cols):
            A[r, j] = ts[0].X[c][r]
    e = U['crosscat.engine'].Engine(
        A, num_states=0, multiprocess=0, outputs=list(cols), rng=rng,
        cctypes=[ts[0].cols[c].name for c in cols],
        distargs=[ts[0].cols[c].distargs for c in cols])
    e.states = [t.build(U, rng) for t in ts]
    return e
