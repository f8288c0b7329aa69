"""Reference model of a crosscat state: views over one table."""
from .lib import BYNAME, Mth, posreal
from .vlib import NAN, Table, choose_rng, crp_score, is_nan, \
    partition_choice, try_

BERN, CAT, NORM, EXPO, POIS = [BYNAME[n] for n in (
    'bernoulli', 'categorical', 'normal', 'exponential', 'poisson')]
BASE = 10 ** 7


class STable(object):
    """cols: [(c, prim)]; zv: {c: view label}; zrv: {v: [row labels]}."""

    def __init__(self, E, cols, n, zv, zrv, missing=(), free=(), tag=''):
        self.E = E
        self.M = Mth(E)
        self.n = n
        self.order = [c for c, p in cols]
        self.cols = dict(cols)
        self.zv = dict(zv)
        self.alpha = posreal(E, 'cal' + tag)
        self.views = {}
        first = True
        for v in sorted(set(zv.values())):
            vc = [(c, p) for c, p in cols if zv[c] == v]
            # the first view has symbolic concentration
            self.views[v] = Table(
                E, BASE + v, vc, n, zrv[v], missing,
                alpha=None if first else E.const('3/2'),
                tag='_v%d%s' % (v, tag), free=free)
            first = False

    @property
    def X(self):
        return {c: self.views[self.zv[c]].X[c] for c in self.order}

    def build(self, U, rng=None, **kw):
        S = U['crosscat.state'].State
        X = self.X
        rows = [[X[c][r] for c in self.order] for r in range(self.n)]
        import numpy as np
        A = np.empty((self.n, len(self.order)), dtype=object)
        for r in range(self.n):
            for j in range(len(self.order)):
                A[r, j] = rows[r][j]
        hy = [dict(self.views[self.zv[c]].hy[c]) for c in self.order]
        args = dict(
            outputs=list(self.order),
            cctypes=[self.cols[c].name for c in self.order],
            distargs=[self.cols[c].distargs for c in self.order],
            hypers=hy, alpha=self.alpha, Zv=dict(self.zv),
            Zrv={v: [t.Z[r] for r in range(self.n)]
                 for v, t in self.views.items()},
            view_alphas={v: t.alpha for v, t in self.views.items()},
            rng=rng)
        args.update(kw)
        return S(A, **args)

    def by_view(self, cells):
        d = {}
        for c, x in cells.items():
            d.setdefault(self.zv[c], {})[c] = x
        return d

    def logjoint(self, cells):
        t = 0
        for v, xs in self.by_view(cells).items():
            t = t + self.views[v].mixture(xs)
        return t

    def logcond(self, T, C):
        """Mixture-of-views density of T given C for a new row."""
        out = 0
        bt, bc = self.by_view(T), self.by_view(C)
        for v in bt:
            c = bc.get(v, {})
            both = dict(list(bt[v].items()) + list(c.items()))
            out = out + self.views[v].mixture(both)
            if c:
                out = out - self.views[v].mixture(c)
        return out

    def logrow(self, r, T):
        """Density of missing cells of an existing row."""
        out = 0
        for v, xs in self.by_view(T).items():
            out = out + self.views[v].row(xs, self.views[v].Z[r])
        return out

    def colcrp(self):
        d = {}
        for c in self.order:
            d[self.zv[c]] = d.get(self.zv[c], 0) + 1
        return d

    def score(self):
        t = crp_score(self.M, self.alpha, self.colcrp().values())
        for v in self.views.values():
            t = t + v.score()
        return t

    def adopt(self, s):
        """Take over the partitions a random transition chose."""
        zv = dict(s.Zv())
        X, cols, hy = self.X, self.cols, {}
        for t in self.views.values():
            hy.update(t.hy)
        views = {}
        for v in sorted(set(zv.values())):
            old = next(iter(self.views.values()))
            t = old.copy()
            t.zid = BASE + v
            t.order = [c for c in self.order if zv[c] == v]
            t.cols = {c: cols[c] for c in t.order}
            t.hy = {c: hy[c] for c in t.order if c in hy}
            t.X = {c: X[c] for c in t.order}
            real = s.views[v]
            t.Z = dict(real.Zr())
            t.alpha = real.alpha()
            views[v] = t
        self.zv = zv
        self.views = views

    # -- consistency of a real state with this one
    def audit(self, s, label, numbers=False):
        E = self.E
        check_state(E, s, label)
        E.check(list(s.outputs) == self.order
                and s.n_cols() == len(self.order)
                and s.n_rows() == self.n, label + '-shape')
        E.check(dict(s.Zv()) == self.zv, label + '-column-assignment')
        X = self.X
        for c in self.order:
            E.check(len(s.X[c]) == self.n, label + '-stored-rows')
            for r in range(self.n):
                a, b = s.X[c][r], X[c][r]
                if is_nan(a) or is_nan(b):
                    E.check(is_nan(a) and is_nan(b), label + '-stored-cell')
                else:
                    E.check_eq(a, b, label + '-stored-cell')
        for v, t in self.views.items():
            if v in s.views:
                t.audit(s.views[v], label, numbers)
        if numbers:
            E.check_eq(s.logpdf_score(), self.score(), label + '-score')


def check_state(E, s, label, Cd=(), Ci=()):
    """Internal agreement of partitions and contents, whatever they are."""
    zv = dict(s.Zv())
    E.check(sorted(zv) == sorted(s.outputs), label + '-every-column-assigned')
    E.check(set(s.views) == set(zv.values()), label + '-no-empty-view')
    E.check(set(s.X) == set(s.outputs), label + '-data-columns')
    E.check(s.outputs_set == set(s.outputs)
            and all(s.has_output(c) for c in s.outputs),
            label + '-output-lookup')
    cnt = {}
    for v in zv.values():
        cnt[v] = cnt.get(v, 0) + 1
    E.check(dict(s.Nv()) == cnt, label + '-view-sizes')
    n = s.n_rows()
    for v in s.views:
        w = s.views[v]
        cols = sorted(c for c in zv if zv[c] == v)
        E.check(sorted(w.dims) == cols and sorted(w.outputs[1:]) == cols,
                label + '-view-holds-its-columns')
        E.check(sorted(w.Zr()) == list(range(n)), label + '-view-holds-all-rows')
        ks = {}
        for k in w.Zr().values():
            ks[k] = ks.get(k, 0) + 1
        E.check(dict(w.Nk()) == ks, label + '-cluster-sizes')
        for c in w.dims:
            d = w.dims[c]
            E.check(d.index == c and d.inputs[0] == w.outputs[0],
                    label + '-column-in-view')
            z = dict(d.Zr)
            z.update(d.Zi)
            E.check(z == dict(w.Zr()) and not set(d.Zr) & set(d.Zi),
                    label + '-column-follows-view')
            E.check(s.view_for(c) is w and s.dim_for(c) is d,
                    label + '-column-lookup')
            E.check(not (set(d.clusters) - set(ks)),
                    label + '-no-stale-cluster')
    E.check([d.index for d in s.dims()] == list(s.outputs),
            label + '-columns-in-order')
    zids = [s.views[v].outputs[0] for v in s.views]
    E.check(len(set(zids)) == len(zids) and not set(zids) & set(s.outputs),
            label + '-distinct-cluster-variables')
    for block in Cd:
        E.check(len({zv[c] for c in block}) == 1, label + '-dependence')
    for a, b in Ci:
        E.check(zv[a] != zv[b], label + '-independence')


def small_grids(U, n=1):
    """Hyperparameter grids of n points (a bound on the real ones, which
    C05 covers)."""
    D = U['mixtures.dim'].Dim
    real = getattr(D, '_vp_grids', None) or D.transition_hyper_grids
    D._vp_grids = real

    def transition_hyper_grids(self, X, n_grid=30):
        return D._vp_grids(self, X, n)
    D.transition_hyper_grids = transition_hyper_grids


def state_rng(E, perm='identity'):
    """Random outcomes are structural choices."""
    return choose_rng(E, perm)
