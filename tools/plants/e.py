BUGS = [
dict(id='rejected-count-kept', property='C02',
     needs='an invalid value offered before further observations',
     breaks='a value that is rejected is still counted, so all later answers '
            'are those of a larger sample',
     edits=[('primitives/geometric.py',
             """        if not (x % 1 == 0 and x >= 0):
            raise ValueError('Invalid Geometric: %s' % str(x))
        self.N += 1
""",
             """        self.N += 1
        if not (x % 1 == 0 and x >= 0):
            raise ValueError('Invalid Geometric: %s' % str(x))
""")],
     demo='''
G = U['primitives.geometric'].Geometric
g = G([0], [], hypers={'a': 2., 'b': 3.})
g.incorporate(0, {0: 2})
a = g.logpdf(-1, {0: 1})
assert raises(lambda: g.incorporate(1, {0: -1}))
close(g.logpdf(-1, {0: 1}), a)
'''),
dict(id='one-draw-repeated', property='C03',
     needs='several samples asked for in one call',
     breaks='one draw is returned N times instead of N independent draws',
     edits=[('utils/general.py',
             """        return [simulate(*args, **kwargs) for _i in xrange(N)]
""",
             """        return [simulate(*args, **kwargs)] * N
""")],
     demo='''
G = U['primitives.normal'].Normal
g = G([0], [], rng=U['utils.general'].gen_rng(1))
assert len(set(s[0] for s in g.simulate(-1, [0], N=5))) == 5
'''),
dict(id='angle-below-zero', property='C04',
     needs='a density asked for at a negative angle',
     breaks='negative angles have positive density although they are outside '
            'the support, so the density integrates to more than one',
     edits=[('primitives/vonmises.py',
             """        if not (0 <= x <= 2*pi):
            return -float('inf')
""",
             """        if not (abs(x) <= 2*pi):
            return -float('inf')
""")],
     demo='''
G = U['primitives.vonmises'].Vonmises
g = G([0], [])
assert g.logpdf(-1, {0: -1.}) == -np.inf
'''),
dict(id='condition-lost-with-cluster', property='C12',
     needs='a query of the cluster and other columns under conditions on '
           'further columns',
     breaks='the joint density of a cluster and columns is not conditioned '
            'properly: the conditions are left out of the numerator',
     edits=[('mixtures/view.py',
             """            targets_numer = merged(targets_nz, constraints)
""",
             """            targets_numer = targets_nz or constraints
""")],
     demo='''
V = U['mixtures.view'].View
v = V({0: [0, 1, 1], 1: [1, 1, 0]}, outputs=[9, 0, 1],
      cctypes=['bernoulli'] * 2, Zr=[0, 0, 1], alpha=1.)
t = sum(exp(v.logpdf(-1, {9: k, 0: x}, {1: 1}))
        for k in (0, 1, 2) for x in (0, 1))
close(t, 1)
'''),
dict(id='lone-row-sees-itself', property='C13',
     needs='reassigning a row that is alone in its cluster',
     breaks='a row alone in its cluster is scored there with its own data '
            'still counted',
     edits=[('mixtures/view.py',
             """        if self.Zr(rowid) == k:
            dim.unincorporate(rowid)
""",
             """        if self.Zr(rowid) == k and self.Nk(k) > 1:
            dim.unincorporate(rowid)
"""), ('mixtures/view.py',
             """            dim.incorporate(rowid, targets, inputs)
        else:
""",
             """            dim.incorporate(rowid, targets, inputs)
        elif self.Zr(rowid) == k:
            logp = dim.logpdf(-1, targets, None, inputs)
        else:
""")],
     demo='''
V = U['mixtures.view'].View
gu = U['utils.general']
n = 0
for seed in range(300):
    v = V({0: [0., 1.]}, outputs=[9, 0], cctypes=['bernoulli'],
          hypers=[{'alpha': .05, 'beta': .05}], Zr=[0, 1], alpha=.1,
          rng=gu.gen_rng(seed))
    v.transition_rows(rows=[0])
    n += v.Zr(0) == v.Zr(1)
p = (.05 / 1.1) / (.05 / 1.1 + .1 * .5)
assert abs(n / 300. - p) < .1, (n, p)
'''),
dict(id='one-cluster-per-batch', property='C17',
     needs='several samples asked for in one call on a view with more than '
           'one cluster',
     breaks='all samples of one call come from the same cluster',
     edits=[('crosscat/sampling.py',
             """    ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
""",
             """    ks = [log_pflip(lp_cluster, array=K, rng=view.rng)] * N
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0., 0], [0, 1], [50, 0], [50, 1]]), cctypes=['normal'] * 2,
      Zv={0: 0, 1: 0}, Zrv={0: [0, 0, 1, 1]}, rng=gu.gen_rng(2))
for _ in range(5):
    s.transition_dim_hypers()
mixed = 0
for _ in range(20):
    x = [q[0] for q in s.simulate(None, [0], N=10)]
    mixed += any(q < 25 for q in x) and any(q > 25 for q in x)
assert mixed > 10, mixed
'''),
dict(id='one-shared-column', property='C19',
     needs='a query of a view whose targets and conditions share one column',
     breaks='a query with a column both asked for and given is answered',
     edits=[('mixtures/view.py',
             """        if len(set.intersection(set(targets), set(constraints))) > 0:
""",
             """        if len(set.intersection(set(targets), set(constraints))) > 1:
""")],
     demo='''
V = U['mixtures.view'].View
v = V({0: [0, 1, 1], 1: [1, 1, 0]}, outputs=[9, 0, 1],
      cctypes=['bernoulli'] * 2, Zr=[0, 0, 1], alpha=1.)
assert raises(lambda: v.logpdf(-1, {0: 1}, {0: 0}), ValueError)
assert raises(lambda: v.simulate(-1, [0, 1], {0: 0}), ValueError)
'''),
dict(id='weight-of-queried-component', property='C22',
     needs='a sample of some outputs of a component given others of the same '
           'component, downstream of simulated inputs',
     breaks='conditions on a component that is also queried do not weight the '
            'particle',
     edits=[('network/importance.py',
             """            inputs=cgpm_inputs) if cgpm_constraints else 0
""",
             """            inputs=cgpm_inputs) \\
            if cgpm_constraints and not cgpm_targets else 0
""")],
     demo='''
I = U['network.importance'].ImportanceNetwork
B = U['primitives.bernoulli'].Bernoulli
gu = U['utils.general']


class Both(U['cgpm'].CGpm):
    outputs, inputs = [1, 2], [0]

    def __init__(self):
        pass

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        p = .99 if inputs[0] else .01
        return sum(log(p if x else 1 - p) for x in targets.values())

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        return {t: inputs[0] for t in targets}


net = I([B([0], [], hypers={'alpha': 1., 'beta': 1.}, rng=gu.gen_rng(3)),
         Both()], accuracy=20, rng=gu.gen_rng(4))
n = sum(net.simulate(-1, [0, 2], {1: 1})[0] for _ in range(60))
assert n > 50, n
'''),
dict(id='condition-ignored-when-averaging', property='C24',
     needs='conditional mutual information with both a value and a variable '
           'to average over',
     breaks='the variables averaged over are drawn without the given values',
     edits=[('crosscat/state.py',
             """        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
""",
             """        m_samples = self.simulate(None, m_constraints, None, N=T)
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0, 0, 0, 0], [1, 1, 1, 1.]] * 4), cctypes=['bernoulli'] * 4,
      Zv={i: 0 for i in range(4)}, Zrv={0: [0, 1] * 4}, rng=gu.gen_rng(2))
real, seen = s.simulate, []


def simulate(rowid, targets, constraints=None, inputs=None, N=None, **kw):
    if list(targets) == [2]:
        seen.append(constraints)
    return real(rowid, targets, constraints, inputs, N, **kw)


s.simulate = simulate
s.mutual_information([0], [1], {2: None, 3: 1}, T=2, N=2)
assert seen == [{3: 1}], seen
'''),
dict(id='first-factor-only', property='C27',
     needs='a factor analysis with more than one latent dimension',
     breaks='only the first factor enters the covariance of the outputs',
     edits=[('factor/factor.py',
             """            np.column_stack((self.W, np.dot(self.W, self.W.T) + self.Psi))
""",
             """            np.column_stack((
                self.W, np.outer(self.W[:,0], self.W[:,0]) + self.Psi))
""")],
     demo='''
F = U['factor.factor'].FactorAnalysis
gu = U['utils.general']
rng = gu.gen_rng(1)
f = F([0, 1, 2, 3, 10, 11], None, L=2,
      distargs={'outputs': {'stattypes': ['numerical'] * 6}}, rng=rng) \
    if False else F([0, 1, 2, 3, 10, 11], [], L=2, rng=rng)
W = rng.normal(size=(4, 2))
for i in range(40):
    x = W.dot(rng.normal(size=2)) + .1 * rng.normal(size=4)
    f.incorporate(i, dict(zip(range(4), x)))
f.transition()
_, c = f.joint_parameters()
A, B, D = c[2:, :2], c[2:, 2:], f.Psi
assert np.allclose(B, A.dot(A.T) + np.asarray(D)), B
'''),
dict(id='locality-of-k', property='C29',
     needs='a neighbourhood size that differs from the number of neighbours',
     breaks='local models use K instead of M rows',
     edits=[('knn/mvknn.py',
             """query(D_code[neighbors], k=min(self.M, len(D)))
""",
             """query(D_code[neighbors], k=min(self.K, len(D)))
""")],
     demo='''
K = U['knn.mvknn'].MultivariateKnn
k = K([0, 1], [], K=1, M=3,
      distargs={'outputs': {'stattypes': ['numerical'] * 2,
                            'statargs': [{}, {}]}},
      rng=U['utils.general'].gen_rng(1))
for i, r in enumerate([(0., 0.), (4., .1), (8., .2)]):
    k.incorporate(i, dict(enumerate(r)))
m, s = 4., np.std([0., 4., 8.])
close(k.logpdf(-1, {0: 1.}, {1: 0.}),
      -.5 * log(2 * pi) - log(s) - .5 * ((1 - m) / s)**2)
'''),
dict(id='lost-task', property='C34',
     needs='more tasks than workers',
     breaks='a task is lost when the first batch is handed out, and the map '
            'waits for its result for ever',
     edits=[('utils/parallel_map.py',
             """        for j, i in zip(xrange(ncpu), iterator):
            inq[j][1].send(i)
""",
             """        for i, j in zip(iterator, xrange(ncpu)):
            inq[j][1].send(i)
""")],
     demo='''
import signal


def late(*args):
    raise RuntimeError('no answer')


signal.signal(signal.SIGALRM, late)
signal.alarm(20)
pm = U['utils.parallel_map'].parallel_map
assert pm(abs, [1, -2, 3, -4, 5], parallelism=2) == [1, 2, 3, 4, 5]
'''),
dict(id='shift-by-magnitude', property='C06',
     needs='log weights of which one is far below the others',
     breaks='the sum of log weights is shifted by the one of largest '
            'magnitude, which overflows when another is much larger',
     edits=[('utils/general.py',
             """    m = max(array)

    # m = +inf means addends are all +inf, hence so are sum and log.
""",
             """    m = max(array, key=abs)

    # m = +inf means addends are all +inf, hence so are sum and log.
""")],
     demo='''
gu = U['utils.general']
close(gu.logsumexp([-2000., 1.]), 1.)
'''),
dict(id='slice-shrinks-from-zero', property='C30',
     needs='a slice sampler whose proposal is rejected at a point on the '
           'other side of zero',
     breaks='the interval shrinks relative to zero instead of the current '
            'point and can lose it',
     edits=[('utils/sampling.py',
             """                if x_prime > x:
                    b = x_prime
""",
             """                if x_prime > 0:
                    b = x_prime
""")],
     demo='''
su = U['utils.sampling']


class R(object):
    def __init__(self):
        self.u = [.5, .5]
        self.v = [.3, .7]

    def rand(self):
        return self.u.pop(0)

    def uniform(self, a, b):
        assert a <= 1. <= b, (a, b)
        return self.v.pop(0) if self.v else 1.


f = lambda x: 0. if .9 < x < 1.1 else -50.
su.slice_sample(lambda: 1., f, (-10., 10.), w=1., rng=R())
'''),
dict(id='uniform-noise-of-seen', property='C26',
     needs='a random forest asked about a class it has not observed',
     breaks='the uniform part of the mixture is spread over the observed '
            'classes only, so the probabilities do not sum to one',
     edits=[('regressions/forest.py',
             """        logp_uniform = -np.log(len(counts))
""",
             """        logp_uniform = -np.log(
            sum(1 for c in counts if c > 0) or len(counts))
""")],
     demo='''
F = U['regressions.forest'].RandomForest
f = F([0], [1], distargs={'k': 3, 'inputs': {'stattypes': ['normal']}},
      rng=U['utils.general'].gen_rng(1))
f.incorporate(0, {0: 0}, {1: .5})
f.incorporate(1, {0: 2}, {1: 1.5})
close(sum(exp(f.logpdf(-1, {0: x}, None, {1: 1.})) for x in range(3)), 1)
'''),
dict(id='view-alpha-not-sent', property='C37',
     needs='a state whose views have concentrations of their own',
     breaks='the views are handed to lovecat with the concentration of the '
            'columns instead of their own',
     edits=[('crosscat/lovecat.py',
             """                unicode('hypers'): {unicode('alpha'): view.alpha()}
""",
             """                unicode('hypers'): {unicode('alpha'): state.alpha()}
""")],
     demo='''
S = U['crosscat.state'].State
L = U['crosscat.lovecat']
s = S(np.array([[0., 1], [1, 0], [2, 2]]), cctypes=['normal'] * 2,
      Zv={0: 0, 1: 1}, alpha=.5, view_alphas={0: 3., 1: 4.},
      rng=U['utils.general'].gen_rng(1))
M_c = L._crosscat_M_c(s)
X_D = L._crosscat_X_D(s, M_c)
X_L = L._crosscat_X_L(s, M_c, X_D)
got = [v['row_partition_model']['hypers']['alpha'] for v in X_L['view_state']]
assert got == [3., 4.], got
'''),
dict(id='boundary-counted', property='C38',
     needs='mutual information of continuous samples',
     breaks='the neighbour at the boundary of the ball is counted, so the '
            'estimate is biased',
     edits=[('utils/entropy_estimators.py',
             """query_ball_point(points[i], dist-1e-15,
""",
             """query_ball_point(points[i], dist+1e-15,
""")],
     demo='''
E = U['utils.entropy_estimators']
from scipy.special import digamma
x = [[0.], [1.], [3.]]
a = E.avgdigamma(x, [1., 1., 2.])
close(a, digamma(1))
'''),
dict(id='concentration-not-set', property='C01',
     needs='a von Mises component whose hyperparameters are changed',
     breaks='the concentration of the data is left as it was when the '
            'hyperparameters are set',
     edits=[('primitives/vonmises.py',
             """        self.b = hypers['b']
        self.k = hypers['k']
""",
             """        self.b = hypers['b']
""")],
     demo='''
G = U['primitives.vonmises'].Vonmises
g = G([0], [])
g.set_hypers({'a': 2., 'b': 1., 'k': 3.})
h = G([0], [], hypers={'a': 2., 'b': 1., 'k': 3.})
close(g.logpdf(-1, {0: 1.}), h.logpdf(-1, {0: 1.}))
'''),
]
