BUGS = [
dict(id='seconds-between-sweeps', property='C39',
     needs='a time limit that runs out in the middle of a sweep over several '
           'kernels',
     breaks='the time limit is only looked at between sweeps, so kernels are '
            'started after the time has passed',
     edits=[('crosscat/state.py',
             """            for kernel in kernels:
                p = _proportion_done(N, S, iters, start)
                if progress:
                    self._progress(p)
                if p >= 1.:
                    break
                kernel()
            else:
""",
             """            p = _proportion_done(N, S, iters, start)
            if progress:
                self._progress(p)
            for kernel in kernels:
                if p >= 1.:
                    break
                kernel()
            else:
""")],
     demo='''
m = U['crosscat.state']
gu = U['utils.general']


class Clock(object):
    now = 0.

    def time(self):
        return self.now


clock = Clock()
m.time = clock
s = m.State(np.array([[0, 1], [1, 0.]]), cctypes=['bernoulli'] * 2,
            rng=gu.gen_rng(1))
done = []


def slow(name):
    def kernel(*a, **k):
        done.append(name)
        clock.now += 10.
    return kernel


s.transition_crp_alpha = slow('alpha')
s.transition_view_alphas = slow('view_alphas')
s.transition_dim_hypers = slow('column_hypers')
s.transition(S=15, kernels=['alpha', 'view_alphas', 'column_hypers'],
             progress=False)
assert done == ['alpha', 'view_alphas'], done
'''),
dict(id='states-by-position', property='C21',
     needs='an ensemble operation on a subset of the states that does not '
           'start at the first',
     breaks='the results of altering a subset of the states are stored at '
            'their position in the subset, overwriting states that were not '
            'asked for',
     edits=[('crosscat/engine.py',
             """        args = [(funcs, self.states[s]) for s in statenos]
        states = mapper(_alter, args)
        for s, state in zip(statenos, states):
            self.states[s] = state
""",
             """        args = [(funcs, self.states[s]) for s in statenos]
        states = mapper(_alter, args)
        for s, state in enumerate(states):
            self.states[s] = state
""")],
     demo='''
E = U['crosscat.engine'].Engine
gu = U['utils.general']
e = E(np.array([[0, 1], [1, 0.]]), num_states=3, cctypes=['bernoulli'] * 2,
      rng=gu.gen_rng(1), multiprocess=0)


def mark(state):
    state.mark = 1
    return state


e.alter([mark], statenos=[2, 1], multiprocess=0)
before = list(e.states)
e.alter([lambda s: s], statenos=[2, 1], multiprocess=0)
assert all(a is b for a, b in zip(before, e.states))
assert len(set(map(id, e.states))) == 3
'''),
dict(id='smallest-class-skipped', property='C38',
     needs='a class with exactly one sample more than the number of '
           'neighbours',
     breaks='a class with just enough samples is treated as too small and '
            'given the overall entropy',
     edits=[('utils/entropy_estimators.py',
             "    if k <= len(xgiveny) - 1:",
             "    if k < len(xgiveny) - 1:")],
     demo='''
ee = U['utils.entropy_estimators']
np.random.seed(1)
x = [[0.1], [0.32], [5.5], [7.1], [9.6], [9.9]]
y = [0, 0, 1, 1, 1, 1]
got = ee.micd(x, y, k=1)
want = ee.entropy(x, 1, 2) - ee.entropy(x[:2], 1, 2) * 2. / 6 \\
    - ee.entropy(x[2:], 1, 2) * 4. / 6
close(got, want, 1e-6)
'''),
dict(id='column-partition-order', property='C37',
     needs='columns that moved between views before the state is handed to '
           'lovecat',
     breaks='the column partition is sent in the order the columns were last '
            'assigned instead of the order of the table',
     edits=[('crosscat/lovecat.py',
             "    views_remapped = [views_to_code[state.Zv(o)] "
             "for o in state.outputs]",
             "    views_remapped = [views_to_code[v] for v in "
             "view_assignments]")],
     demo='''
import types
import sys
cc = types.ModuleType('crosscat')
le = types.ModuleType('crosscat.LocalEngine')
got = []


class LocalEngine(object):
    def __init__(self, seed=None):
        pass

    def analyze(self, M_c, T, X_L, X_D, seed, **k):
        got.append(X_L['column_partition']['assignments'])
        return X_L, X_D


le.LocalEngine = LocalEngine
cc.LocalEngine = le
U.ext['crosscat'] = cc
U.ext['crosscat.LocalEngine'] = le
sys.modules['crosscat'] = cc
sys.modules['crosscat.LocalEngine'] = le
S = U['crosscat.state'].State
gu = U['utils.general']
X = np.array([[0., 1, 2], [1, 0, 3], [1, 2, 8]])
for seed in range(20):
    s = S(X, cctypes=['normal'] * 3, Zv={0: 0, 1: 1, 2: 0},
          rng=gu.gen_rng(seed))
    s.transition_dims()
    want = [s.Zv(c) for c in range(3)]
    del got[:]
    U['crosscat.lovecat'].transition(s, N=1)
    z = [list(g) for g in got][0]
    for i in range(3):
        for j in range(3):
            assert (z[i] == z[j]) == (want[i] == want[j]), (z, want)
'''),
dict(id='stale-column-lookup', property='C14',
     needs='a column that is removed, and its number then used by a model '
           'that is composed with the state',
     breaks='the set behind the optimised membership test still has the '
            'removed column',
     edits=[('crosscat/state.py',
             "        self.set_outputs([i for i in self.outputs if i != col])",
             "        self.outputs.remove(col)")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0, 1, 1], [1, 0, 1.]]), cctypes=['bernoulli'] * 3,
      Zv={0: 0, 1: 0, 2: 1}, rng=gu.gen_rng(1))
s.unincorporate_dim(1)
assert s.has_output(0) and not s.has_output(1)
'''),
dict(id='singleton-kept-in-place', property='C13',
     needs='a row that is alone in its cluster',
     breaks='a row alone in its cluster is scored against the predictive '
            'that already includes it',
     edits=[('mixtures/view.py',
             "        if self.Zr(rowid) == k:\n            dim.unincorporate(rowid)",
             "        if self.Zr(rowid) == k and self.Nk(k) > 1:\n            dim.unincorporate(rowid)")],
     demo='''
V = U['mixtures.view'].View
gu = U['utils.general']
got = []
orig = gu.log_pflip


def spy(logp, array=None, size=None, rng=None):
    got.append((list(array), list(logp)))
    return orig(logp, array=array, size=size, rng=rng)


v = V({0: [0., 1., 1.]}, outputs=[100, 0], cctypes=['bernoulli'],
      hypers=[{'alpha': 1., 'beta': 1.}], Zr=[0, 1, 1], alpha=1.,
      rng=gu.gen_rng(1))
gu.log_pflip = spy
v.transition_rows(rows=[0])
K, lp = got[0]
d = dict(zip(K, lp))
# joining the two ones: 2/3 * 1/4; alone: 1/3 * 1/2
close(d[1] - d[0], log((2. / 3 * 1 / 4) / (1. / 3 * 1 / 2)))
'''),
dict(id='clusters-by-position', property='C17',
     needs='cluster labels with a gap',
     breaks='clusters are drawn by position and taken for labels, so with a '
            'gap in the labels samples come from the wrong cluster',
     edits=[('crosscat/sampling.py',
             "    ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)",
             "    ks = log_pflip(lp_cluster, size=N, rng=view.rng)")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0], [0], [1], [1.]]), cctypes=['bernoulli'],
      hypers=[{'alpha': 1e-6, 'beta': 1e-6}], Zv={0: 0},
      Zrv={0: [0, 0, 3, 3]}, alpha=1., view_alphas={0: 1e-3},
      rng=gu.gen_rng(1))
x = [r[0] for r in s.simulate(-1, [0], N=400)]
assert 120 < sum(x) < 280, sum(x)
'''),
dict(id='inputs-of-a-held-row', property='C36',
     needs='a query at a row that is held, with inputs that contradict those '
           'it was recorded with',
     breaks='the inputs are only compared where both have them as the same '
            'set of names, and a contradicting value is used silently',
     edits=[('venturescript/vscgpm.py',
             "        if exists and inputs != self.obs[rowid]['inputs']:",
             "        if exists and set(inputs) != set(self.obs[rowid]['inputs']):")],
     demo='''
import types
import sys
vs = types.ModuleType('venture.shortcuts')
ven = types.ModuleType('venture')
ven.shortcuts = vs


class Ripl(object):
    def set_mode(self, m):
        pass

    def evaluate(self, e):
        return 1 if 'size' in e else None

    def sample(self, e):
        return [0]

    def infer(self, e):
        pass

    def predict(self, e, label=None):
        return 0.5

    def forget(self, l):
        pass


vs.make_lite_ripl = lambda seed=None: Ripl()
for k, m in (('venture', ven), ('venture.shortcuts', vs)):
    U.ext[k] = m
    sys.modules[k] = m
C = U['venturescript.vscgpm'].VsCGpm
c = C(outputs=[0], inputs=[1], rng=U['utils.general'].gen_rng(1))
c.incorporate(3, {0: 1.}, {1: 2.})
c.simulate(3, [0], None, {1: 2.})
assert raises(lambda: c.simulate(3, [0], None, {1: 5.}), ValueError)
'''),
dict(id='default-noise-of-zero', property='C33',
     needs='a model built with an explicit probability of zero',
     breaks='an explicit probability of zero is replaced with the default',
     edits=[('dummy/piecewise.py',
             "        if flip is None:\n            flip = .5",
             "        flip = flip or .5")],
     demo='''
P = U['dummy.piecewise'].PieceWise
p = P([0, 1], [2], sigma=1., flip=0.)
close(p.logpdf(-1, {1: 1}, None, {2: 3.}), 0.)
'''),
dict(id='negative-category', property='C32',
     needs='a negative category code',
     breaks='negative codes are accepted and coded like the last ones',
     edits=[('utils/data.py',
             "        if not 0 <= val < k:",
             "        if not val < k:")],
     demo='''
d = U['utils.data']
assert d.dummy_code([1., 3], {1: 5}) == [1., 0, 0, 0, 1]
assert raises(lambda: d.dummy_code([1., -1], {1: 5}), ValueError)
'''),
dict(id='rounding-noise-tolerated', property='C04',
     needs='a value within a hundredth of a count',
     breaks='values that are nearly whole are given the density of a count, '
            'so the model puts mass outside its support',
     edits=[('primitives/geometric.py',
             """        if not (x % 1 == 0 and x >= 0):
            return -float('inf')""",
             """        if not (x % 1 < 1e-2 and x >= 0):
            return -float('inf')""")],
     demo='''
G = U['primitives.geometric'].Geometric
g = G([0], [], hypers={'a': 1., 'b': 1.}, rng=U['utils.general'].gen_rng(1))
assert g.logpdf(-1, {0: 2.005}) == -inf
'''),
dict(id='early-approximation', property='C01',
     needs='a concentrated posterior over the direction',
     breaks='the approximation for huge arguments is used from 30 on, where '
            'it is off by half a percent',
     edits=[('primitives/vonmises.py',
             "    if isinf(besa):\n",
             "    if x > 30:\n")],
     demo='''
V = U['primitives.vonmises'].Vonmises
gu = U['utils.general']
v = V([0], [], hypers={'a': 8., 'b': 1., 'k': 16.}, rng=gu.gen_rng(1))
v.incorporate(0, {0: 1.})
v.incorporate(1, {0: 1.})
from numpy import i0
close(v.logpdf_score(), -2 * (log(2 * pi) + log(i0(16.)))
      + log(i0(40.)) - log(i0(8.)), 1e-6)
'''),
dict(id='one-contradiction-allowed', property='C19',
     needs='two conditions on an observed row, of which one agrees with the '
           'row and one contradicts it',
     breaks='a contradicting condition is only refused when every condition '
            'contradicts the row',
     edits=[('crosscat/state.py',
             "                    and any(not good_constraint(rowid, e) for e in constraints):",
             "                    and not any(good_constraint(rowid, e) for e in constraints):")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0, 1, nan], [1, 0, 0.]]), cctypes=['bernoulli'] * 3,
      rng=gu.gen_rng(1))
s.logpdf(0, {2: 1}, {0: 0, 1: 1})
assert raises(lambda: s.logpdf(0, {2: 1}, {0: 1}), ValueError)
assert raises(lambda: s.logpdf(0, {2: 1}, {0: 0, 1: 0}), ValueError)
'''),
]
