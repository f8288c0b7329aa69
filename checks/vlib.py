"""Reference model of a view: a table, a row partition and hyperparameters."""
from .lib import BYNAME, Mth, posreal
from .c05 import marginal

NAN = float('nan')


def is_nan(x):
    return isinstance(x, float) and x != x


def lfact_rising(M, a, n):
    """log of a(a+1)...(a+n-1)"""
    t = 0
    for i in range(n):
        t = t + M.log(a + i)
    return t


def crp_score(M, alpha, counts):
    t = 0
    for n in counts:
        t = t + M.log(alpha)
        for i in range(1, n):
            t = t + M.log(i)
    return t - lfact_rising(M, alpha, sum(counts))


class Table(object):
    """cols: {c: prim}; hy: {c: hypers}; X: {c: {row: value}};
    Z: {row: label}."""

    def __init__(self, E, zid, cols, n, z, missing=(), alpha=None, tag='',
                 free=None):
        self.E = E
        self.M = Mth(E)
        self.zid = zid
        self.cols = dict(cols)
        self.order = [c for c, p in cols]
        self.hy = {c: p.hypers(E, '_%s%s' % (c, tag)) for c, p in cols}
        self.alpha = posreal(E, 'al' + tag) if alpha is None else alpha
        # discrete cells outside `free` hold a fixed value per row
        self.X = {c: [NAN if (r, c) in missing
                      else p.support[(r + 1) % len(p.support)]
                      if p.support and free is not None
                      and (r, c) not in free
                      else p.datum(E, 'x%s_%d%s' % (c, r, tag))
                      for r in range(n)] for c, p in cols}
        self.Z = dict(enumerate(z))

    def copy(self):
        t = object.__new__(Table)
        t.__dict__.update(self.__dict__)
        t.cols = dict(self.cols)
        t.order = list(self.order)
        t.hy = {c: dict(h) for c, h in self.hy.items()}
        t.X = {c: list(v) for c, v in self.X.items()}
        t.Z = dict(self.Z)
        return t

    def view(self, U, rng=None):
        V = U['mixtures.view'].View
        return V({c: list(v) for c, v in self.X.items()},
                 outputs=[self.zid] + self.order, alpha=self.alpha,
                 cctypes=[self.cols[c].name for c in self.order],
                 distargs=[self.cols[c].distargs for c in self.order],
                 hypers=[dict(self.hy[c]) for c in self.order],
                 Zr=[self.Z[r] for r in sorted(self.Z)], rng=rng)

    # -- quantities
    def labels(self):
        return sorted(set(self.Z.values()))

    def counts(self):
        d = {}
        for k in self.Z.values():
            d[k] = d.get(k, 0) + 1
        return d

    def fresh(self):
        return max(self.labels() + [-1]) + 1

    def values(self, c, k, skip=()):
        return [self.X[c][r] for r in sorted(self.Z)
                if self.Z[r] == k and r not in skip
                and not is_nan(self.X[c][r])]

    def pred(self, c, k, x, skip=()):
        if is_nan(x):
            return 0
        return self.cols[c].predictive(self.M, self.hy[c],
                                       self.values(c, k, skip), x)

    def row(self, cells, k, skip=()):
        t = 0
        for c, x in cells.items():
            t = t + self.pred(c, k, x, skip)
        return t

    def logcrp(self, k, skip=()):
        """log P(next row in k), k possibly fresh."""
        n = [r for r in self.Z if r not in skip]
        m = sum(1 for r in n if self.Z[r] == k)
        return self.M.log((m if m else self.alpha) / (len(n) + self.alpha))

    def mixture(self, cells, k=None, skip=()):
        """log P(cells[, cluster k]) for a new row."""
        if k is not None:
            return self.logcrp(k, skip) + self.row(cells, k, skip)
        return self.M.logsumexp([self.logcrp(j, skip)
                                 + self.row(cells, j, skip)
                                 for j in self.labels() + [self.fresh()]])

    def col_score(self, c):
        return marginal(self.cols[c], self.M, self.hy[c],
                        [self.values(c, k) for k in self.labels()])

    def score(self):
        t = crp_score(self.M, self.alpha, self.counts().values())
        for c in self.cols:
            t = t + self.col_score(c)
        return t

    # -- consistency of a real view with this table
    def audit(self, v, label, numbers=True):
        E, M = self.E, self.M
        E.check(dict(v.Zr()) == self.Z, label + '-row-assignment')
        E.check(dict(v.Nk()) == self.counts(), label + '-cluster-sizes')
        E.check(sorted(v.outputs[1:]) == sorted(self.cols)
                and v.outputs[0] == self.zid
                and sorted(v.dims) == sorted(self.cols), label + '-columns')
        for c in self.cols:
            d = v.dims[c]
            zr = {r: k for r, k in self.Z.items()
                  if not is_nan(self.X[c][r])}
            zi = {r: k for r, k in self.Z.items() if is_nan(self.X[c][r])}
            E.check(dict(d.Zr) == zr, label + '-column-rows')
            E.check(dict(d.Zi) == zi, label + '-column-missing-rows')
            E.check(d.index == c and d.cctype == self.cols[c].name,
                    label + '-column-identity')
            E.check(set(d.clusters) - set(self.Z.values()) == set(),
                    label + '-no-stale-clusters')
            for k in self.labels():
                if k in d.clusters:
                    E.check(d.clusters[k].N == len(self.values(c, k)),
                            label + '-cluster-row-count')
        if not numbers:
            return
        for c in self.cols:
            d = v.dims[c]
            E.check_eq(d.logpdf_score(), self.col_score(c),
                       label + '-column-score')
            for x in self.cols[c].support or [
                    self.cols[c].datum(E, 'q%s' % c)]:
                for k in self.labels():
                    E.check_eq(d.logpdf(-1, {c: x}, None, {self.zid: k}),
                               self.pred(c, k, x),
                               label + '-cluster-density')
        E.check_eq(v.crp.logpdf_score(),
                   crp_score(M, self.alpha, self.counts().values()),
                   label + '-cluster-process-score')


def partition_choice(E, n, name='z', kmax=2, labels=None):
    """A set partition of n rows into at most kmax blocks, with labels."""
    z, seen = [], 0
    for i in range(n):
        k = E.choose('%s%d' % (name, i), min(seen + 1, kmax))
        seen = max(seen, k + 1)
        z.append(k)
    if labels:
        z = [labels[k] for k in z]
    return z


def choose_rng(E, perm='identity'):
    """A random source whose discrete outcomes are structural choices."""
    from vp.rng import ScriptRng, _is_zero

    class ChooseRng(ScriptRng):
        def _outcome(self, weights):
            ok = [j for j, w in enumerate(weights) if not _is_zero(w)]
            i = ok[E.choose('outcome', len(ok))] if len(ok) > 1 else \
                (ok or [0])[0]
            self.weight = self.weight * weights[i]
            return i
    return ChooseRng(E, None, 'u', perm)


def try_(fn):
    try:
        fn()
    except Exception as e:
        return e
    return None
