"""C39: inference runs exactly the requested kernels, on the requested parts
of the model, within its budget of sweeps or of time.

The elementary transitions (a concentration, the rows of a view, the
parameters or hyperparameters of a column, a hooked model) are replaced by
recorders where only the schedule is at stake; the number of sweeps, the time
budget and the times kernels take are symbolic."""
import copy
import types

from vp.runner import H

from .c21 import copying
from .c37 import blocks
from .elib import ensemble
from .lib import posreal
from .slib import BERN, CAT, STable, check_state, small_grids, state_rng, try_
from .vlib import choose_rng

ASSUMPTIONS = ['the clock does not run backwards and moves while kernels '
               'run',
               'at least one sweep or a positive time budget is asked for']
IDS = [12, 4, 7]
ZV = {12: 0, 4: 3, 7: 0}
ORDER = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
         'columns']
SPECS = [['alpha'], ['rows', 'alpha'], ['column_hypers', 'alpha'],
         ['view_alphas', 'column_params'], ['alpha', 'alpha'], None]


class Runaway(Exception):
    """More work than any budget within the bounds allows for."""


class Events(object):
    def __init__(self, limit=60):
        self.all = []
        self.limit = limit

    def add(self, *e):
        self.all.append(e)
        if len(self.all) > self.limit:
            raise Runaway(str(len(self.all)))


def model(E, U, ev, n=2):
    """Three columns in two views, elementary transitions recorded."""
    cols = [(c, BERN) for c in IDS]
    small_grids(U)
    t = STable(E, cols, n, dict(ZV),
               {0: [0] + [1] * (n - 1), 3: [5] * n})
    s = t.build(U, choose_rng(E))
    record(s, ev)
    return t, s


def record(s, ev):
    s.crp.transition_hypers = lambda: ev.add('alpha', None)
    s.transition_dims = lambda cols=None, m=1: ev.add('columns', None, cols)
    for v in s.views:
        w = s.views[v]
        w.transition_crp_alpha = lambda v=v: ev.add('view_alphas', v)
        w.transition_rows = lambda rows=None, v=v: ev.add('rows', v, rows)
    for c in s.outputs:
        d = s.dim_for(c)
        d.transition_hypers = lambda c=c: ev.add('column_hypers', c)
        d.transition_params = lambda c=c: ev.add('column_params', c)


def parts(kernel, cols=None, views=None):
    """What one run of the kernel must touch."""
    if kernel in ('alpha', 'columns'):
        return [None]
    if kernel in ('column_params', 'column_hypers'):
        return sorted(cols or IDS)
    if views is not None:
        return sorted(views)
    return sorted({ZV[c] for c in (cols or IDS)})


def runs(E, ev, kernels, label, cols=None, views=None):
    """Group the events into kernel runs, which must follow the cycle;
    returns [(kernel, index of the first event)]."""
    out = []
    e = [(i, x) for i, x in enumerate(ev) if x[0] != 'clock']
    at = 0
    while at < len(e):
        k = kernels[len(out) % len(kernels)]
        want = parts(k, cols, views)
        got = e[at:at + len(want)]
        E.check(all(x[0] == k for _, x in got), label + '-order')
        E.check(sorted([x[1] for _, x in got], key=repr)
                == sorted(want, key=repr), label + '-parts')
        out.append((k, got[0][0]))
        at += len(want)
    return out


def counters(E, s, rs, label):
    want = {}
    for k, _ in rs:
        if k != 'columns':
            want[k] = want.get(k, 0) + 1
    E.check(dict(s.diagnostics['iterations']) == want, label + '-counters')


def sweeps(E, U):
    """N sweeps of the kernels in order (one by default)."""
    ev = Events()
    t, s = model(E, U, ev)
    spec = E.choose('kernels', SPECS)
    N = E.int('N', 1, 3, flt=False) if E.choose('n', 2) else None
    e = try_(lambda: s.transition(N=N, kernels=copy.copy(spec),
                                  progress=False))
    E.check(e is None, 'sweeps-finish', repr(e))
    ks = spec or ORDER
    rs = runs(E, ev.all, ks, 'sweeps')
    E.check(len(rs) == (1 if N is None else N) * len(ks), 'sweeps-number')
    counters(E, s, rs, 'sweeps')
    # and again: the counters accumulate
    e = try_(lambda: s.transition(N=1, kernels=copy.copy(spec),
                                  progress=False))
    rs = runs(E, ev.all, ks, 'again')
    counters(E, s, rs, 'again')


class Clock(object):
    """Time passes while elementary transitions run and not otherwise: the
    first ones take symbolic times, and after `jump` of them the budget has
    passed."""

    def __init__(self, E, ev, S, jump):
        self.E, self.ev, self.S, self.jump = E, ev, S, jump
        self.n = self.idle = 0
        self.start = self.t = E.real('t0', 0, 100)
        self.began = []

    def event(self):
        """An elementary transition runs."""
        self.began.append(self.t)
        self.n += 1
        self.idle = 0
        self.t = self.t + (
            self.S if self.n == self.jump else
            0 if self.n > self.jump else
            self.E.real('dt%d' % self.n, 0, 4))

    def time(self):
        self.idle += 1
        if self.idle > 50:
            raise Runaway('the clock is read without end')
        return self.t

    __call__ = time

    def __getattr__(self, name):
        if name in ('clock', 'perf_counter', 'monotonic'):
            return self.time
        raise AttributeError(name)


class Timed(Events):
    clock = None

    def add(self, *e):
        self.clock.event()
        Events.add(self, *e)


def budget(E, U, both):
    ev = Timed()
    t, s = model(E, U, ev)
    ks = E.choose('kernels', [['alpha'], ['alpha', 'column_hypers'],
                              ['rows', 'alpha', 'view_alphas'],
                              ['alpha', 'alpha', 'alpha']])
    S = E.real('S', '1/8', 8)
    N = E.int('N', 1, 2, flt=False) if both else None
    clock = ev.clock = Clock(E, ev, S, 4)
    mod = U['crosscat.state']
    old, mod.time = mod.time, clock
    foreign = E.choose('foreign', 2)
    if foreign:
        for out in range(77, 77 + len(ks)):
            s.compose_cgpm(Hooked(ev, out, [IDS[0]]))
    try:
        if foreign:
            e = try_(lambda: s.transition_foreign(
                N=N, S=S, progress=False))
        else:
            e = try_(lambda: s.transition(N=N, S=S, kernels=list(ks),
                                          progress=False))
    finally:
        mod.time = old
    E.check(e is None, 'budget-finishes', repr(e))
    if foreign:
        rs = [(x[0], i) for i, x in enumerate(ev.all)]
    else:
        rs = runs(E, ev.all, ks, 'budget')
        counters(E, s, rs, 'budget')
    for k, i in rs:
        E.check(clock.began[i] - clock.start < S, 'budget-not-exceeded')
    if N is not None:
        E.check(len(rs) <= N * len(ks), 'budget-sweeps')
    if N is None or len(rs) < N * len(ks):
        E.check(clock.t - clock.start >= S, 'budget-used')


class Hooked(object):
    """A model composed with the state."""

    def __init__(self, ev, out, inputs):
        self.ev = ev
        self.outputs = [out] if isinstance(out, int) else list(out)
        self.inputs = list(inputs)

    def transition(self, *a, **k):
        self.ev.add('foreign', self.outputs[0])


def foreign(E, U):
    """Only the hooked models of the variables asked for."""
    ev = Events()
    t, s = model(E, U, ev)
    toks = {}
    for out in ([77], [88, 89]):
        toks[out[0]] = s.compose_cgpm(Hooked(ev, out, [IDS[0]]))
    cols = E.choose('cols', [None, [77], [89], [88, 77], [12], [77, 4]])
    N = E.int('N', 1, 3, flt=False) if E.choose('n', 2) else None
    before = dict(s.diagnostics['iterations'])
    e = try_(lambda: s.transition_foreign(N=N, cols=copy.copy(cols),
                                          progress=False))
    if cols and set(cols) & set(IDS):
        E.check(isinstance(e, ValueError), 'foreign-refused')
        E.check(not ev.all and s.diagnostics['iterations'] == before,
                'foreign-refused-unchanged')
        return
    E.check(e is None, 'foreign-finishes', repr(e))
    want = [o for o, vs in ((77, [77]), (88, [88, 89]))
            if cols is None or set(vs) & set(cols)]
    n = 1 if N is None else N
    E.check(all(x[0] == 'foreign' for x in ev.all), 'foreign-only')
    E.check(len(ev.all) == n * len(want), 'foreign-number')
    for i in range(0, len(ev.all), len(want)):
        E.check(sorted(x[1] for x in ev.all[i:i + len(want)]) == want,
                'foreign-sweep')
    it = s.diagnostics['iterations']
    for o, tok in toks.items():
        E.check(it.get('foreign-%s' % (tok,), 0) == (n if o in want else 0),
                'foreign-counters')


def selection(E, U):
    """Columns, views and rows selected are the only ones touched."""
    ev = Events()
    t, s = model(E, U, ev)
    cols = E.choose('cols', [None, [12], [4], [7, 12], [12, 4]])
    views = E.choose('views', [None, [0], [3], [3, 0]])
    rows = E.choose('rows', [None, [0], [1, 0]])
    spec = E.choose('kernels', [
        ['view_alphas'], ['column_params'], ['column_hypers'], ['rows'],
        ['rows', 'view_alphas', 'columns', 'column_hypers', 'alpha']])
    e = try_(lambda: s.transition(
        N=2, kernels=list(spec), rowids=copy.copy(rows),
        cols=copy.copy(cols), views=copy.copy(views), progress=False))
    E.check(e is None, 'selection-finishes', repr(e))
    rs = runs(E, ev.all, spec, 'selection', cols, views)
    E.check(len(rs) == 2 * len(spec), 'selection-number')
    counters(E, s, rs, 'selection')
    for x in ev.all:
        if x[0] == 'columns':
            E.check((x[2] is None) == (cols is None)
                    and (cols is None or sorted(x[2]) == sorted(cols)),
                    'selection-columns')
        if x[0] == 'rows':
            E.check((x[2] is None) == (rows is None)
                    and (rows is None or sorted(x[2]) == sorted(rows)),
                    'selection-rows')


def direct(E, U):
    """The kernels called one at a time."""
    ev = Events()
    t, s = model(E, U, ev)
    cols = E.choose('cols', [None, [12], [4], [7, 4]])
    views = E.choose('views', [None, [3]])
    k = E.choose('kernel', ['alpha', 'view_alphas', 'column_params',
                            'column_hypers', 'rows'])
    if k == 'alpha':
        s.transition_crp_alpha()
    elif k == 'view_alphas':
        s.transition_view_alphas(views=views, cols=cols)
    elif k == 'column_params':
        s.transition_dim_params(cols=cols)
    elif k == 'column_hypers':
        s.transition_dim_hypers(cols=cols)
    else:
        s.transition_view_rows(views=views, cols=cols, rows=[1])
    rs = runs(E, ev.all, [k], 'direct', cols, views)
    E.check(len(rs) == 1, 'direct-number')
    counters(E, s, rs, 'direct')


def one_row(E, U):
    """A single row has no cluster to move to: its view is left alone."""
    ev = Events()
    t, s = model(E, U, ev, n=1)
    e = try_(lambda: s.transition(N=1, kernels=['rows'], progress=False))
    E.check(e is None, 'one-row-finishes')
    E.check(not ev.all or all(x[0] == 'rows' for x in ev.all), 'one-row')
    check_state(E, s, 'one-row')


def refusals(E, U):
    """A call that cannot be carried out does nothing."""
    ev = Events()
    t, s = model(E, U, ev)
    kind = E.choose('kind', ['unknown column', 'hooked column',
                             'unknown kernel', 'no kernel'])
    if kind == 'hooked column':
        s.compose_cgpm(Hooked(ev, 77, [IDS[0]]))
    call = {
        'unknown column': dict(cols=[12, 99]),
        'hooked column': dict(cols=[77]),
        'unknown kernel': dict(kernels=['alpha', 'no-such-kernel']),
        'no kernel': dict(kernels=[]),
    }[kind]
    e = try_(lambda: s.transition(N=1, progress=False, **call))
    E.check(e is not None, 'refused', kind)
    E.check(not ev.all, 'refused-nothing-run', kind)
    E.check(not s.diagnostics['iterations'], 'refused-not-counted', kind)
    t.audit(s, 'refused')


def checkpoints(E, U):
    """Records are taken after every `every` sweeps, of the state then."""
    small_grids(U)
    t = STable(E, [(12, BERN), (4, BERN)], 2, {12: 0, 4: 2},
               {0: [0, 0], 2: [1, 0]})
    s = t.build(U, state_rng(E))
    seen = []
    count = [0]

    def last_kernel():
        if count[0] > 6:
            raise Runaway()
        s.crp.set_hypers({'alpha': posreal(E, 'al%d' % count[0])})
        count[0] += 1
        seen.append((s.logpdf_score(), s.alpha(), sorted(s.Zv().items())))
    s.crp.transition_hypers = last_kernel
    every = E.choose('every', [None, 1, 2, 3])
    N = E.choose('N', [1, 2, 3, 4])
    ks = ['columns', 'alpha'] if N < 4 else ['column_params', 'alpha']
    e = try_(lambda: s.transition(
        N=N, kernels=ks, cols=[4] if N < 4 else None, progress=False,
        checkpoint=every))
    E.check(e is None, 'checkpoint-finishes', repr(e))
    E.check(len(seen) == N, 'checkpoint-sweeps')
    want = [x for i, x in enumerate(seen, 1) if every and i % every == 0]
    d = s.diagnostics
    E.check(len(d['logscore']) == len(d['column_crp_alpha'])
            == len(d['column_partition']) == len(want), 'checkpoint-number')
    for i, (score, al, z) in enumerate(want):
        E.check_eq(d['logscore'][i], score, 'checkpoint-score')
        E.check_eq(d['column_crp_alpha'][i], al, 'checkpoint-concentration')
        E.check(sorted(tuple(x) for x in d['column_partition'][i]) == z,
                'checkpoint-partition')


def subset_columns(E, U):
    """Real reassignment of some columns leaves the others together."""
    cols = [(c, BERN) for c in (0, 1, 2)]
    small_grids(U)
    zv = E.choose('zv', [{0: 0, 1: 0, 2: 0}, {0: 0, 1: 0, 2: 5},
                         {0: 4, 1: 2, 2: 2}, {0: 1, 1: 3, 2: 6}])
    t = STable(E, cols, 2, zv, {v: [0, v % 2] for v in set(zv.values())})
    s = t.build(U, state_rng(E, E.choose('order', ['identity', 'reverse'])))
    pick = E.choose('cols', [[0], [1], [2]])
    hy = {c: dict(s.dim_for(c).hypers) for c in s.outputs}
    keep = [c for c in s.outputs if c not in pick]
    rows = {v: dict(s.views[v].Zr()) for v in s.views}
    N = E.choose('N', [1, 2])
    s.transition(N=N, kernels=['columns'], cols=pick, progress=False)
    E.check(dict(s.diagnostics['iterations']) == {'columns': N},
            'columns-counters')
    check_state(E, s, 'columns')
    z = s.Zv()
    E.check(all((z[a] == z[b]) == (zv[a] == zv[b])
                for a in keep for b in keep), 'other-columns-kept')
    for c in keep:
        E.check(blocks([s.view_for(c).Zr(r) for r in range(2)])
                == blocks([rows[zv[c]][r] for r in range(2)]),
                'other-columns-rows-kept')
    for c in s.outputs:
        for h in hy[c]:
            E.check_eq(s.dim_for(c).hypers[h], hy[c][h],
                       'columns-keep-hyperparameters')


def subset_rows(E, U):
    """Real reassignment of some rows of some views leaves the others."""
    cols = [(0, BERN), (1, CAT)]
    small_grids(U)
    zrv = {0: [0, 0, 3], 2: [4, 1, 1]}
    t = STable(E, cols, 3, {0: 0, 1: 2}, zrv, missing=((1, 0),))
    s = t.build(U, state_rng(E, E.choose('order', ['identity', 'reverse'])))
    rows = E.choose('rows', [[0], [2], [1]])
    how = E.choose('select', [dict(views=[0]), dict(views=[2]),
                              dict(cols=[0]), dict(cols=[1])])
    s.transition(N=1, kernels=['rows'], rowids=rows, progress=False, **how)
    check_state(E, s, 'rows')
    v = how['views'][0] if 'views' in how else {0: 0, 1: 2}[how['cols'][0]]
    for w in s.views:
        z = s.views[w].Zr()
        keep = [r for r in range(3) if w != v or r not in rows]
        E.check(all((z[a] == z[b]) == (zrv[w][a] == zrv[w][b])
                    for a in keep for b in keep), 'other-rows-kept')
    E.check(dict(s.Zv()) == {0: 0, 1: 2}, 'rows-keep-columns')


def view_sweeps(E, U):
    """View.transition(N): N sweeps of everything in the view."""
    ev = Events()
    t, s = model(E, U, ev)
    w = s.views[0]
    N = E.choose('N', [0, 1, 2, 3])
    w.transition(N)
    want = [('rows', 0), ('view_alphas', 0), ('column_hypers', 7),
            ('column_hypers', 12)]
    E.check(len(ev.all) == N * len(want), 'view-number')
    for i in range(0, len(ev.all), len(want)):
        E.check(sorted(x[:2] for x in ev.all[i:i + len(want)])
                == sorted(want), 'view-sweep')
    del ev.all[:]
    cols = E.choose('cols', [None, [7], [12, 7]])
    w.transition_dim_hypers(cols=cols)
    E.check(sorted(x[1] for x in ev.all) == sorted(cols or [7, 12])
            and all(x[0] == 'column_hypers' for x in ev.all),
            'view-columns')


def view_rows(E, U):
    """transition_rows visits each row once, those asked for or all."""
    small_grids(U)
    t = STable(E, [(0, BERN)], 2, {0: 0}, {0: [0, 2]})
    s = t.build(U, state_rng(E))
    w = s.views[0]
    rows = E.choose('rows', [None, [0], [1]])
    w.transition_rows(rows=rows) if rows else w.transition_rows()
    check_state(E, s, 'view-rows')


def report(E, U):
    """Progress reports change nothing and never exceed the whole."""
    ev = Events()
    t, s = model(E, U, ev)
    told = []
    tm = U['utils.timer']
    old, tm.progress = tm.progress, lambda p, out: told.append(p)
    ks = E.choose('kernels', [['alpha'], ['rows', 'alpha']])
    N = E.choose('N', [1, 2, 3])
    p = E.choose('progress', [True, None])
    import io
    import sys
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        e = try_(lambda: s.transition(N=N, kernels=ks, progress=p))
    finally:
        sys.stdout = out
        tm.progress = old
    E.check(e is None, 'progress-finishes', repr(e))
    rs = runs(E, ev.all, ks, 'progress')
    E.check(len(rs) == N * len(ks), 'progress-number')
    E.check(all(0 <= x <= 1 for x in told)
            and told == sorted(told), 'progress-reported')


class Recorder(object):
    """Stands for a state of an ensemble."""

    def __init__(self, tag):
        self.tag = tag
        self.got = []

    def transition(self, N=None, S=None, kernels=None, rowids=None,
                   cols=None, views=None, progress=True, checkpoint=None):
        self.got.append(('transition', dict(
            N=N, S=S, kernels=kernels, rowids=rowids, cols=cols,
            views=views, progress=progress, checkpoint=checkpoint)))

    def transition_lovecat(self, N=None, S=None, kernels=None, rowids=None,
                           cols=None, progress=None, checkpoint=None):
        self.got.append(('transition_lovecat', dict(
            N=N, S=S, kernels=kernels, rowids=rowids, cols=cols,
            progress=progress, checkpoint=checkpoint)))

    def transition_foreign(self, N=None, S=None, cols=None, progress=None):
        self.got.append(('transition_foreign', dict(
            N=N, S=S, cols=cols, progress=progress)))


def passed_on(E, U):
    """An ensemble hands every option to each selected state, once."""
    e = U['crosscat.engine'].Engine([[0]], num_states=0, multiprocess=0)
    e.states = [Recorder(i) for i in range(3)]
    nos = E.choose('states', [None, [1], [2, 0]])
    mp = E.choose('mp', 2)
    m = E.choose('method', ['transition', 'transition_lovecat',
                            'transition_foreign'])
    full = dict(N=E.int('N', 1, 9, flt=False), S=E.real('S', 1, 9),
                cols=[5, 6], progress=False)
    if m != 'transition_foreign':
        full.update(kernels=['rows'], rowids=[3, 1], checkpoint=4)
    if m == 'transition':
        full.update(views=[8])
    given = E.choose('given', [list(full), ['cols', 'N'], ['S'],
                               ['rowids', 'progress'],
                               ['checkpoint', 'kernels'], ['views']])
    kw = {k: full[k] for k in given if k in full}
    x = try_(lambda: getattr(e, m)(statenos=nos, multiprocess=mp, **kw))
    E.check(x is None, 'passed-on', repr(x))
    E.check([s.tag for s in e.states] == [0, 1, 2], 'states-in-place')
    for i, s in enumerate(e.states):
        if nos is not None and i not in nos:
            E.check(not s.got, 'others-left-alone')
            continue
        E.check(len(s.got) == 1 and s.got[0][0] == m, 'run-once')
        for k, v in s.got[0][1].items():
            if k in ('N', 'S') and k in kw:
                E.check_eq(v, kw[k], 'option-' + k)
            elif k in kw:
                E.check(v == kw[k], 'option-' + k)
            elif k != 'progress':
                E.check(v is None, 'default-' + k)


MODS = ['crosscat.state', 'crosscat.engine', 'mixtures.view',
        'mixtures.dim']


def harnesses():
    def mk(name, fn, bounds, **k):
        return H(name, fn, modules=MODS, bounds=bounds, stubs=copying,
                 assumes=ASSUMPTIONS, **k)
    three = '3 columns in 2 views, 2 rows'
    return [
        mk('sweeps', sweeps, three + ', 6 kernel lists, N <= 3 symbolic'),
        mk('seconds', lambda E, U: budget(E, U, False),
           three + ', symbolic budget, 3 symbolic durations'),
        mk('seconds-or-sweeps', lambda E, U: budget(E, U, True),
           three + ', symbolic budget, N <= 2, 3 symbolic durations'),
        mk('foreign', foreign, '2 hooked models, N <= 3 symbolic'),
        mk('selection', selection, three + ', 2 sweeps'),
        mk('direct', direct, three),
        mk('one-row', one_row, '1 row'),
        mk('refusals', refusals, three),
        mk('checkpoints', checkpoints, '2 columns, 4 sweeps'),
        mk('subset-columns', subset_columns,
           '3 columns, 2 rows, 2 sweeps, all random outcomes'),
        mk('subset-rows', subset_rows,
           '2 columns, 3 rows, 1 sweep, all random outcomes'),
        mk('view-sweeps', view_sweeps, '2 columns, 3 sweeps'),
        mk('view-rows', view_rows, '1 column, 2 rows'),
        mk('progress', report, three + ', 3 sweeps'),
        mk('ensemble', passed_on, '3 states, 3 selections'),
    ]
