"""C21: an ensemble answers queries as a likelihood-weighted mixture."""
import copy
import types

from vp.rng import ScriptRng
from vp.runner import H
from .c16 import hook
from .c17 import combos
from .c18 import EDITS
from .elib import ensemble
from .slib import BERN, CAT, NAN, STable, check_state, is_nan, small_grids

ASSUMPTIONS = ['hyperparameters in [1/16, 16]',
               'hyperparameter grids of one point',
               'the parallel map is replaced by one that copies what it '
               'passes to and from the workers (C34 covers the real one)']
STATENOS = [None, [0, 1, 2], [1], [2, 0], [1, 2]]


def copying(symbolic):
    """Workers get copies of their arguments and return copies."""
    m = types.ModuleType('cgpm.utils.parallel_map')

    def parallel_map(f, l, parallelism=None):
        return [copy.deepcopy(f(copy.deepcopy(x))) for x in l]
    m.parallel_map = parallel_map
    return {'cgpm.utils.parallel_map': m}


def pick(E, t, name='q'):
    """Targets and conditions over the two columns."""
    kind = E.choose('shape', ['0', '1', '01', '0|1', '1|0'])
    q = {c: E.choose('%s%d' % (name, c), 2) for c in (0, 1)}
    a, _, b = kind.partition('|')
    return ({int(c): q[int(c)] for c in a}, {int(c): q[int(c)] for c in b})


def dens(t, row, T, C):
    return t.logcond(T, C) if row == -1 else t.logrow(row, T)


def densities(E, U):
    e, ts = ensemble(E, U, 3, parts=[0, 1, 2])
    nos = E.choose('states', STATENOS)
    mp = E.choose('mp', 2)
    sel = ts if nos is None else [ts[i] for i in nos]
    T, C = pick(E, ts[0])
    got = e.logpdf(-1, dict(T), dict(C) or None, statenos=nos,
                   multiprocess=mp)
    E.check(len(got) == len(sel), 'one-answer-per-state')
    for g, t in zip(got, sel):
        E.check_eq(g, dens(t, -1, T, C), 'state-density')
    if C:
        return
    got = e.logpdf_bulk([-1, 1], [dict(T), {0: 1}], statenos=nos,
                        multiprocess=mp)
    E.check(len(got) == len(sel), 'one-answer-per-state')
    for g, t in zip(got, sel):
        E.check_eq(g[0], t.logjoint(T), 'bulk-density')
        E.check_eq(g[1], t.logrow(1, {0: 1}), 'bulk-density')


def scores(E, U):
    e, ts = ensemble(E, U, 3, parts=[0, 1, 2])
    nos = E.choose('states', STATENOS)
    mp = E.choose('mp', 2)
    sel = ts if nos is None else [ts[i] for i in nos]
    a = e.logpdf_score(statenos=nos, multiprocess=mp)
    b = e.logpdf_likelihood(statenos=nos, multiprocess=mp)
    d = e.dependence_probability(0, 1, statenos=nos, multiprocess=mp)
    D = e.dependence_probability_pairwise(statenos=nos, multiprocess=mp)
    s = e.row_similarity(0, 1, statenos=nos, multiprocess=mp)
    S = e.row_similarity_pairwise(statenos=nos, multiprocess=mp)
    c = e.row_similarity(0, 1, [1], statenos=nos, multiprocess=mp)
    r = e.relevance_probability(0, [1], 1, statenos=nos, multiprocess=mp)
    for x in (a, b, d, D, s, S, c, r):
        E.check(len(x) == len(sel), 'one-answer-per-state')
    for i, t in enumerate(sel):
        E.check_eq(a[i], t.score(), 'state-score')
        lik = sum(w.col_score(j) for w in t.views.values() for j in w.cols)
        E.check_eq(b[i], lik, 'state-likelihood')
        dep = 1 if t.zv[0] == t.zv[1] else 0
        E.check(d[i] == dep and D[i][0][1] == dep and D[i][1][0] == dep
                and D[i][0][0] == 1, 'state-dependence')
        same = {v: int(w.Z[0] == w.Z[1]) for v, w in t.views.items()}
        sim = E.const(sum(same.values())) / len(same)
        E.check_eq(E.const(1) * s[i], sim, 'state-similarity')
        E.check_eq(E.const(1) * S[i][0][1], sim, 'state-similarity')
        E.check(c[i] == same[t.zv[1]], 'state-similarity')
        E.check(r[i] == same[t.zv[1]], 'state-relevance')


def integrate(E, U):
    """The ensemble density of targets given conditions is
    sum_s p_s(T, C) / sum_s p_s(C)."""
    e, ts = ensemble(E, U, 3, parts=[0, 1, 2])
    nos = E.choose('states', STATENOS)
    sel = ts if nos is None else [ts[i] for i in nos]
    M = ts[0].M
    row = E.choose('row', [-1, 1])
    if row == -1:
        T, C = pick(E, ts[0])
    else:
        T, C = {0: E.choose('q0', 2)}, {}
    lp = e.logpdf(row, dict(T), dict(C) or None, statenos=nos,
                  multiprocess=0)
    got = e._likelihood_weighted_integrate(
        lp, row, dict(C) or None, statenos=nos,
        multiprocess=E.choose('mp', 2))
    num = M.logsumexp([dens(t, row, dict(T, **{}), {}) if not C else
                       t.logjoint({**T, **C}) for t in sel])
    den = (M.logsumexp([t.logjoint(C) for t in sel]) if C
           else M.log(E.const(len(sel))))
    E.check_eq(got, num - den, 'ensemble-density')


def rowweight(E, U):
    """On an observed row the conditions are weighted given that row."""
    e, ts = ensemble(E, U, 2, parts=[0, 1], missing=[(1, 0), (1, 1)])
    M = ts[0].M
    T, C = pick(E, ts[0])
    lp = e.logpdf(1, dict(T), dict(C) or None, multiprocess=0)
    got = e._likelihood_weighted_integrate(lp, 1, dict(C) or None,
                                           multiprocess=0)
    num = M.logsumexp([t.logrow(1, T) + t.logrow(1, C) for t in ts])
    den = M.logsumexp([t.logrow(1, C) for t in ts])
    E.check_eq(got, num - den, 'ensemble-density')


def inputs(E, U):
    """Inputs of hooked models are inputs, not conditions."""
    e, ts = ensemble(E, U, 2, parts=[0, 2])
    M = ts[0].M
    for s in e.states:
        hook(U, s, (77,))
    P = e.states[0].hooked_cgpms[list(e.states[0].hooked_cgpms)[0]]
    w = E.choose('w', 2)
    y = E.choose('y', 2)
    p = E.const(repr(P.probabilities[w][y]))
    T, C = pick(E, ts[0])
    if not C:
        return
    which = E.choose('child', ['target', 'condition'])
    if which == 'target':
        T = dict(T)
        T[100] = y
        base = dict(T)
        del base[100]
    else:
        base, C = T, dict(C)
        C[100] = y
    lp = e.logpdf(-1, dict(T), dict(C), {77: w}, multiprocess=0)
    got = e._likelihood_weighted_integrate(lp, -1, dict(C), {77: w},
                                           multiprocess=0)
    C = {c: x for c, x in C.items() if c != 100}
    num = M.logsumexp([t.logjoint({**base, **C}) for t in ts])
    den = M.logsumexp([t.logjoint(C) for t in ts])
    want = num - den
    if which == 'target':
        want = want + M.log(p)
    E.check_eq(got, want, 'ensemble-density-with-inputs')


def simulate(E, U):
    """Each state samples from its own density."""
    E_, ts = None, None
    nos = E.choose('states', [None, [1], [1, 0]])
    parts = [0, E.choose('p', [1, 2])]
    e, ts = ensemble(E, U, 2, parts=parts)
    T, C = E.choose('q', [((0,), {}), ((1,), {0: 1})])
    C = dict(C)
    bulk = E.choose('bulk', 2)
    from . import elib

    def run(rng):
        e = elib.engine_of(U, ts, rng)
        if bulk:
            r = e.simulate_bulk([-1], [list(T)], [dict(C)], Ns=[1],
                                statenos=nos, multiprocess=0)
            return [x[0] for x in r]
        return e.simulate(-1, list(T), dict(C) or None, N=1, statenos=nos,
                          multiprocess=0)
    sel = ts if nos is None else [ts[i] for i in nos]
    M = ts[0].M
    tab = {}
    for o in E.enumerate_random(run):
        E.check(len(o.value) == len(sel) and
                all(len(x) == 1 and set(x[0]) == set(T) for x in o.value),
                'one-list-of-samples-per-state')
        k = tuple(tuple(int(x[0][c]) for c in T) for x in o.value)
        tab[k] = tab.get(k, 0) + o.weight
    law = {(): E.const(1)}
    for t in sel:
        law = {k + (v,): w * M.exp(t.logcond(dict(zip(T, v)), C))
               for k, w in law.items() for v in combos(t, T)}
    for k, w in law.items():
        E.check_eq(tab.pop(k, 0), w, 'sample-law')
    for w in tab.values():
        E.check_eq(w, 0, 'no-other-samples')


def resample(E, U):
    """Pooled samples come from states in proportion to the likelihood of
    the conditions under each, and from the samples of that state."""
    e, ts = ensemble(E, U, 3, parts=[0, 1, 2])
    M = ts[0].M
    nos = E.choose('states', [None, [1], [2, 0]])
    sel = ts if nos is None else [ts[i] for i in nos]
    N = E.choose('N', [1, 2])
    C = E.choose('c', [{}, {0: 1}, {1: 0, 0: 0}])
    samples = [[{5: (i, j)} for j in range(N)] for i in range(len(sel))]
    from . import elib

    def run(rng):
        x = elib.engine_of(U, ts, rng)
        return x._likelihood_weighted_resample(
            samples, -1, dict(C) or None, statenos=nos, multiprocess=0)
    den = (M.logsumexp([t.logjoint(C) for t in sel]) if C
           else M.log(E.const(len(sel))))
    p = [M.exp((t.logjoint(C) if C else 0) - den) for t in sel]
    tab, uses = {}, {}
    for o in E.enumerate_random(run):
        got = [d[5] for d in o.value]
        E.check(len(got) == N, 'number-of-samples')
        E.check(len(set(got)) == N, 'no-sample-twice')
        k = tuple(sorted(i for i, j in got))
        tab[k] = tab.get(k, 0) + o.weight
        for ij in got:
            uses[ij] = uses.get(ij, 0) + o.weight
    for i in range(len(sel)):
        if N == 1:
            E.check_eq(tab.get((i,), 0), p[i], 'state-weight')
        else:
            for j in range(i, len(sel)):
                E.check_eq(tab.get((i, j), 0),
                           p[i] * p[j] * (1 if i == j else 2),
                           'state-weight')
            E.check_eq(uses.get((i, 0), 0), uses.get((i, 1), 0),
                       'samples-of-a-state-alike')


class Seeded(ScriptRng):
    """Records seeding."""

    def __init__(self, E, name):
        ScriptRng.__init__(self, E, None, name)
        self.seeds = []

    def seed(self, s=None):
        self.seeds.append(int(s))


class Seeder(ScriptRng):
    """Never hands out a seed twice."""
    count = 100

    def randint(self, low, high=None, size=None):
        out = []
        for _ in range(1 if size is None else int(size)):
            self.count += 1
            out.append(self.count)
        return out[0] if size is None else out


def seeding(E, U):
    """Queries that sample reseed every state, each differently and
    differently each time, so that no two answers share randomness."""
    e, ts = ensemble(E, U, 2, parts=[0, 1])
    e.rng = Seeder(E)
    rngs = [Seeded(E, 's%d' % i) for i in range(2)]
    for s, r in zip(e.states, rngs):
        s.rng = r
    ask = {'simulate': lambda: e.simulate(-1, [0], N=1, multiprocess=0),
           'bulk': lambda: e.simulate_bulk([-1], [[0]], Ns=[1],
                                           multiprocess=0),
           'mi': lambda: e.mutual_information([0], [1], N=1,
                                              multiprocess=0)}
    for k in E.choose('seq', [('simulate', 'simulate'), ('bulk', 'simulate'),
                              ('mi', 'bulk')]):
        ask[k]()
    s = [x for r in rngs for x in r.seeds]
    E.check(len(rngs[0].seeds) >= 2 and len(rngs[1].seeds) >= 2,
            'states-reseeded')
    E.check(len(set(s)) == len(s), 'seeds-differ')


def edits(op):
    """Every edit reaches every state, in the caller's copy."""
    def h(E, U):
        e, ts = ensemble(E, U, 2, parts=[0, E.choose('p', [1, 2])])
        mp = E.choose('mp', 2)
        kept = [list(map(id, e.states))]
        if op == 'row':
            obs = {}
            for c in (0, 1):
                if E.choose('has%d' % c, 2):
                    obs[c] = E.choose('n%d' % c, 2)
            full = dict(obs)
            for t in ts:
                for v, w in t.views.items():
                    full[w.zid] = 0
            # cluster labels differ between states: seat by state
            if E.choose('bulk', 2):
                e.incorporate_bulk([2], [obs], multiprocess=mp)
            else:
                e.incorporate(2, dict(obs), multiprocess=mp)
            for s, t in zip(e.states, ts):
                for v, w in t.views.items():
                    w.Z[2] = s.views[v].Zr(2)
                    for c in w.cols:
                        w.X[c].append(obs.get(c, NAN))
                t.n += 1
        elif op == 'drop':
            e.unincorporate(1, multiprocess=mp)
            for t in ts:
                t.n = 1
                for w in t.views.values():
                    del w.Z[1]
                    for c in w.cols:
                        w.X[c].pop()
        elif op == 'force':
            x = E.choose('x', 2)
            if E.choose('bulk', 2):
                e.force_cell_bulk([1], [{0: x}], multiprocess=mp)
            else:
                e.force_cell(1, {0: x}, multiprocess=mp)
            for t in ts:
                t.X[0][1] = x
        elif op == 'type':
            e.update_cctype(0, 'categorical', {'k': 3}, multiprocess=mp)
            for s, t in zip(e.states, ts):
                w = t.views[t.zv[0]]
                t.cols[0] = w.cols[0] = CAT
                w.hy[0] = dict(s.dim_for(0).hypers)
        elif op == 'drop-dim':
            e.unincorporate_dim(0, multiprocess=mp)
            for s, t in zip(e.states, ts):
                v = t.zv.pop(0)
                t.order.remove(0)
                del t.cols[0]
                w = t.views[v]
                w.order.remove(0)
                del w.cols[0], w.hy[0], w.X[0]
                if not w.cols:
                    del t.views[v]
        elif op == 'add-dim':
            col = [1, NAN]
            e.incorporate_dim(col, [6], cctype='bernoulli',
                              multiprocess=mp)
            for s, t in zip(e.states, ts):
                E.check(list(s.outputs) == [0, 1, 6]
                        and s.X[6][0] == 1 and is_nan(s.X[6][1])
                        and s.dim_for(6).cctype == 'bernoulli',
                        'column-added')
                check_state(E, s, 'column-added')
            if E.choose('more', 2):
                # each state has its own copy of the new column
                e.force_cell(1, {6: 1}, multiprocess=mp)
                for s in e.states:
                    E.check(s.X[6] == [1, 1], 'column-of-each-state')
                    check_state(E, s, 'column-forced')
            else:
                e.incorporate(2, {6: 0, 1: 1}, multiprocess=mp)
                for s in e.states:
                    E.check(s.n_rows() == 3 and len(s.X[6]) == 3
                            and s.X[6][2] == 0, 'column-of-each-state')
                    check_state(E, s, 'column-extended')
            E.check(len(col) == 2 and col[0] == 1 and is_nan(col[1]),
                    'given-column-kept')
            return
        elif op == 'compose':
            T = U['dummy.twoway'].TwoWay
            kids = [T([100 + i], [i]) for i in range(2)]
            e.compose_cgpm(kids, multiprocess=mp)
            for i, s in enumerate(e.states):
                got = list(s.hooked_cgpms.values())
                E.check(len(got) == 1 and list(got[0].outputs) == [100 + i]
                        and list(got[0].inputs) == [i], 'model-hooked')
                E.check(bool(s.is_composite()), 'model-hooked')
        elif op == 'alter':
            nos = E.choose('nos', [None, [1]])

            def f(s):
                s.crp.set_hypers({'alpha': E.const(3)})
                return s

            def g(s):
                s.crp.set_hypers({'alpha': s.alpha() * 2})
                return s
            e.alter([f, g], statenos=nos, multiprocess=mp)
            for i, t in enumerate(ts):
                if nos is None or i in nos:
                    t.alpha = E.const(6)
        for t, s in zip(ts, e.states):
            t.audit(s, op, True)
        E.check(e.num_states() == 2, 'number-of-states')
    return h


def transition(E, U):
    """Inference on some states changes those only."""
    e, ts = ensemble(E, U, 3, parts=[0, 1, 2])
    nos = E.choose('states', [None, [1], [2, 0]])
    mp = E.choose('mp', 2)
    e.transition(N=1, kernels=['rows'], rowids=[1], progress=False,
                 statenos=nos, multiprocess=mp)
    for i, (t, s) in enumerate(zip(ts, e.states)):
        if nos is None or i in nos:
            E.check(s.diagnostics['iterations'].get('rows') == 1,
                    'states-transitioned')
            check_state(E, s, 'transitioned')
        else:
            E.check(not s.diagnostics['iterations'].get('rows'),
                    'other-states-kept')
            t.audit(s, 'kept')


def members(E, U):
    """Adding and dropping states."""
    e, ts = ensemble(E, U, 2, parts=[0, 2])
    mp = E.choose('mp', 2)
    op = E.choose('op', ['add', 'drop', 'add-given', 'add-two'])
    if op == 'drop':
        i = E.choose('i', 2)
        e.drop_state(i)
        E.check(e.num_states() == 1, 'number-of-states')
        ts[1 - i].audit(e.get_state(0), 'remaining')
        return
    kw = {}
    if op == 'add-given':
        kw = dict(Zv={0: 3, 1: 5}, alpha=E.const(2))
    n = 2 if op == 'add-two' else 1
    e.add_state(count=n, multiprocess=mp, **kw)
    E.check(e.num_states() == 2 + n, 'number-of-states')
    for i, t in enumerate(ts):
        t.audit(e.get_state(i), 'kept')
    for i in range(2, 2 + n):
        s = e.get_state(i)
        check_state(E, s, 'added')
        E.check(list(s.outputs) == [0, 1] and
                [d.cctype for d in s.dims()] == ['bernoulli', 'categorical']
                and s.dim_for(1).distargs == {'k': 3}
                and s.n_rows() == 2, 'added-schema')
        for c in (0, 1):
            for r in range(2):
                x, y = s.X[c][r], ts[0].X[c][r]
                if is_nan(y):
                    E.check(is_nan(x), 'added-data')
                else:
                    E.check_eq(x, y, 'added-data')
        if kw:
            E.check(dict(s.Zv()) == {0: 3, 1: 5}, 'added-as-asked')
            E.check_eq(s.alpha(), 2, 'added-as-asked')


MODS = ['crosscat.engine', 'crosscat.state', 'crosscat.sampling',
        'mixtures.view', 'mixtures.dim', 'utils.general']


def harnesses():
    def mk(name, fn, bounds, **k):
        return H(name, fn, modules=MODS, bounds=bounds, stubs=copying, **k)
    two = '2 states, 2 columns, 2 rows'
    three = '3 states, 2 columns, 2 rows, 5 selections of states'
    return [
        mk('densities', densities, three),
        mk('scores', scores, three),
        mk('integrate', integrate, three),
        mk('rowweight', rowweight, two),
        mk('inputs', inputs, two + ', one hooked model'),
        mk('simulate', simulate, two + ', all random outcomes'),
        mk('resample', resample,
           '3 states, up to 2 samples, all random outcomes'),
        mk('seeding', seeding, two),
        mk('transition', transition, three),
        mk('members', members, two),
    ] + [mk('edit-' + op, edits(op), two)
         for op in ('row', 'drop', 'force', 'type', 'add-dim', 'drop-dim',
                    'compose', 'alter')]
