BUGS = [
dict(id='lazy-cluster-relevance', property='C23',
     needs='a cluster all of whose cells in some column are missing',
     breaks='clusters are only created for observed cells, while relevance '
            'still looks each cluster up in every column, so it fails where '
            'a column has nothing but missing cells in a cluster',
     edits=[('mixtures/dim.py',
             "        if k not in self.clusters:\n            self.clusters[k] = self.aux_model",
             "        if valid and k not in self.clusters:\n            self.clusters[k] = self.aux_model"),
            ('mixtures/view.py',
             "                del dim.clusters[k]     # XXX Abstract me!",
             "                dim.clusters.pop(k, None)   # XXX Abstract me!")],
     demo='''
V = U['mixtures.view'].View
gu = U['utils.general']
X = {0: [0, 1, 1, 0, 1], 1: [0, nan, nan, 1, nan]}
v = V(X, outputs=[100, 0, 1], cctypes=['bernoulli'] * 2,
      hypers=[{'alpha': 1., 'beta': 1.}] * 2, Zr=[0, 1, 1, 0, 1], alpha=1.,
      rng=gu.gen_rng(1))
v.relevance_probability(0, [3], 0)
p = v.relevance_probability(0, [4], 0)
assert 0 < p < 1
'''),
dict(id='emptied-uncollapsed-cluster', property='C10',
     needs='an uncollapsed column and a cluster emptied and formed again '
           'under the same label',
     breaks='the parameters of an emptied cluster survive, so a new cluster '
            'with the same label starts from them and not from the prior',
     edits=[('mixtures/view.py',
             "            for dim in self.dims.itervalues():\n                del dim.clusters[k]     # XXX Abstract me!",
             "            for dim in self.dims.itervalues():\n                if dim.is_collapsed():\n                    del dim.clusters[k]     # XXX Abstract me!")],
     demo='''
V = U['mixtures.view'].View
gu = U['utils.general']
v = V({0: [.2, .3, .9]}, outputs=[100, 0], cctypes=['beta'], Zr=[0, 0, 1],
      alpha=1., rng=gu.gen_rng(1))
v.dims[0].clusters[1].strength = 77.
v.unincorporate(2)
assert list(v.dims[0].clusters) == [0]
v.incorporate(2, {100: 1, 0: .9})
assert v.dims[0].clusters[1].get_params()['strength'] != 77.
'''),
dict(id='view-label-gap', property='C15',
     needs='view labels with a gap, after an inner view emptied, and a column '
           'that moves to a view labelled beyond the number of views',
     breaks='an existing view with a high label is taken for a fresh one and '
            'replaced by an empty proposal, so its columns are lost',
     edits=[('crosscat/state.py',
             "            if v_sampled > max(self.views):",
             "            if v_sampled >= len(self.views):")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
for seed in range(40):
    s = S(np.array([[0, 0, 1], [1, 0, 0], [1, 1, 1.]]),
          cctypes=['bernoulli'] * 3, Zv={0: 0, 1: 4, 2: 4},
          hypers=[{'alpha': 1., 'beta': 1.}] * 3,
          Zrv={0: [0, 0, 1], 4: [0, 1, 1]}, alpha=1., rng=gu.gen_rng(seed))
    s.transition_dims(cols=[0])
    assert sorted(d.index for d in s.dims()) == [0, 1, 2]
    assert sorted(c for v in s.views.values() for c in v.dims) == [0, 1, 2]
'''),
dict(id='best-particle', property='C22',
     needs='more than one importance particle and evidence that does not '
           'determine the sample',
     breaks='the heaviest particle is returned instead of one drawn in '
            'proportion to the weights, so samples are biased',
     edits=[('network/importance.py',
             "            gu.log_pflip(weights, rng=self.rng)",
             "            max(xrange(len(weights)), key=lambda i: weights[i])")],
     demo='''
N = U['network.importance'].ImportanceNetwork


class A(object):
    outputs, inputs = [0], []
    rng = np.random.RandomState(3)

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        return {0: int(self.rng.rand() < .5)}

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return log(.5)


class B(object):
    outputs, inputs = [1], [0]

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return log(.6 if inputs[0] else .4)


n = N([A(), B()], accuracy=20, rng=np.random.RandomState(1))
xs = [n.simulate(None, [0], {1: 1})[0] for _ in range(300)]
assert .5 < np.mean(xs) < .72, np.mean(xs)
'''),
dict(id='row-partition-order', property='C20',
     needs='a state in which a row has moved between clusters before saving',
     breaks='the saved row partition lists clusters in the order rows were '
            'last seated rather than by row, so a restored state permutes '
            'its row assignments',
     edits=[('crosscat/state.py',
             "            rowids = sorted(view.Zr())\n",
             "            rowids = view.Zr().keys()\n")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0.], [1], [1], [0]]), cctypes=['bernoulli'], Zv={0: 0},
      Zrv={0: [0, 1, 1, 0]}, alpha=1., rng=gu.gen_rng(1))
v = s.views[0]
v.unincorporate(1)
v.incorporate(1, {0: 1., v.outputs[0]: 1})
t = S.from_metadata(s.to_metadata())
assert dict(t.views[0].Zr()) == dict(v.Zr()), (t.views[0].Zr(), v.Zr())
'''),
dict(id='zero-condition-dropped', property='C24',
     needs='a fixed condition whose value is zero next to one that is '
           'marginalised',
     breaks='a condition fixed at zero is dropped when others are '
            'marginalised, so the estimate is of another quantity',
     edits=[('crosscat/state.py',
             "        e_constraints = {e:x for e,x in constraints.iteritems() if x is not None}",
             "        e_constraints = {e:x for e,x in constraints.iteritems() if x}")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0., 0, 0, 0], [1, 1, 1, 1], [1, 0, 1, 0]]),
      cctypes=['bernoulli'] * 4, Zv=dict.fromkeys(range(4), 0),
      rng=gu.gen_rng(1))
seen = []
f = s.simulate


def spy(rowid, targets, constraints=None, *args, **kwds):
    seen.append(constraints)
    return f(rowid, targets, constraints, *args, **kwds)


s.simulate = spy
s.mutual_information([0], [1], constraints={2: 0, 3: None}, T=2, N=2)
assert seen and all(c and c.get(2) == 0 for c in seen), seen
'''),
dict(id='prior-mean-quadratic', property='C25',
     needs='a regression prior with nonzero mean and at least one row',
     breaks='the posterior scale ignores the prior mean',
     edits=[('regressions/linreg.py',
             "            np.dot(np.transpose(mu), np.dot(V_inv, mu))\n            + np.dot(np.transpose(x), x)",
             "            np.dot(np.transpose(x), x)")],
     demo='''
L = U['regressions.linreg'].LinearRegression
mk = lambda: L([0], [1], distargs={
    'inputs': {'stattypes': ['normal'], 'statargs': [None]}},
    hypers={'mu': np.array([1., 2.])}, rng=np.random.RandomState(1))
# with mean mu and data on the prior line nothing is left to explain
from scipy.stats import t
m = mk()
p = m.logpdf(9, {0: 3.}, None, {1: 1.})
close(p, t.logpdf(0, 2, scale=sqrt(3.)))
'''),
dict(id='forest-class-gap', property='C26',
     needs='a fitted forest that has seen some category but not a smaller one',
     breaks='probabilities are looked up by category rather than by position '
            'among the fitted ones, so categories swap probabilities',
     edits=[('regressions/forest.py',
             "            index = list(regressor.classes_).index(x)\n",
             "            index = min(int(x), len(regressor.classes_) - 1)\n")],
     demo='''
F = U['regressions.forest'].RandomForest


class R(object):
    classes_ = np.array([1, 2])

    def predict_log_proba(self, y):
        return np.log([[.8, .2]])


p = lambda x: exp(F.calc_predictive_logp(x, [0.], R(), [0, 2, 1], .3))
close(p(1), .1 + .7 * .8)
close(p(2), .1 + .7 * .2)
close(p(0), .1)
'''),
dict(id='factor-query-order', property='C27',
     needs='a joint query whose variables are not listed in the order of the '
           'model',
     breaks='means and covariances are taken in sorted order while the values '
            'keep the order of the query',
     edits=[('factor/factor.py',
             "            self.mu, self.cov, targets_r.keys(), constraints_r)",
             "            self.mu, self.cov, sorted(targets_r), constraints_r)")],
     demo='''
from collections import OrderedDict
F = U['factor.factor'].FactorAnalysis
f = F([0, 1, 2, 3], [], L=1, params={
    'mux': [1., 5., -3.], 'Psi': np.diag([1., 2., 3.]),
    'W': [[1.], [2.], [.5]]})
a = f.logpdf(None, OrderedDict([(0, 1.), (1, 4.5)]))
b = f.logpdf(None, OrderedDict([(1, 4.5), (0, 1.)]))
close(a, b)
'''),
dict(id='kde-other-bandwidth', property='C28',
     needs='variables of different bandwidth and a query that lists them out '
           'of order',
     breaks='a sampled numerical value is spread by the bandwidth of the '
            'variable at its position in the query',
     edits=[('kde/mvkde.py',
             "        return {q: f(q, v) for f, q, v in zip(funcs, targets, row)}",
             "        return {q: f(o, v) for f, q, o, v in\n"
             "            zip(funcs, targets, sorted(targets), row)}")],
     demo='''
K = U['kde.mvkde'].MultivariateKde
k = K([0, 1], [], distargs={'outputs': {
    'stattypes': ['numerical'] * 2, 'statargs': [{}, {}]}},
    params={'bw': [.001, 5.]}, rng=np.random.RandomState(1))
k.incorporate(0, {0: 1., 1: 2.})
xs = k.simulate(None, [1, 0], N=30)
assert max(abs(x[0] - 1) for x in xs) < .1
assert max(abs(x[1] - 2) for x in xs) > .5
'''),
dict(id='knn-complete-rows', property='C29',
     needs='a row that misses a variable the query does not mention',
     breaks='rows with any missing value are left out of every query, so '
            'nearer neighbours are ignored',
     edits=[('knn/mvknn.py',
             "        X = np.asarray(self.data.values())[:,indexes]\n"
             "        return X[~np.any(np.isnan(X), axis=1)]",
             "        X = np.asarray(self.data.values())\n"
             "        return X[~np.any(np.isnan(X), axis=1)][:,indexes]")],
     demo='''
K = U['knn.mvknn'].MultivariateKnn
k = K([0, 1, 2], [], K=1, distargs={'outputs': {
    'stattypes': ['numerical'] * 3, 'statargs': [{}, {}, {}]}},
    rng=np.random.RandomState(1))
k.incorporate(0, {0: 0., 1: 0.})
k.incorporate(1, {0: 9., 1: 9., 2: 1.})
xs = k.simulate(None, [1], {0: 0.}, N=5)
assert all(abs(x[1]) < 1 for x in xs), xs
'''),
dict(id='slice-stops-at-edge', property='C30',
     needs='a domain with an end, a first interval that starts outside it, '
           'and a slice reaching beyond the other side',
     breaks='once the interval was cut at the lower end of the domain its '
            'upper end is no longer stepped out, so moves are not reversible',
     edits=[('utils/sampling.py',
             "    if b > D[1]:\n        b = D[1]\n    else:",
             "    if b > D[1]:\n        b = D[1]\n    elif a > D[0]:")],
     demo='''
f = U['utils.sampling']._find_slice_interval
a, b = f(lambda x: 0. if 0 <= x <= 4.2 else -50., .5, .2, -1., (0., 1e9), w=1.)
assert a == 0 and b > 4.2, (a, b)
'''),
dict(id='beta-clamped-removal', property='C31',
     needs='a value of exactly zero or one added and then removed',
     breaks='the value is stored as observed although its clamped form was '
            'counted, so removal takes out something else',
     edits=[('primitives/beta.py',
             "        self.data[rowid] = x\n",
             "        self.data[rowid] = observation[self.outputs[0]]\n"),
            ('primitives/beta.py',
             "        x = self.data.pop(rowid)\n",
             "        x = min(max(self.data.pop(rowid), .0001), .9999)\n")],
     demo='''
B = U['primitives.beta'].Beta
b = B([0], [], params={'strength': 2., 'balance': .4})
b.incorporate(0, {0: .3})
s = b.logpdf_score()
b.incorporate(1, {0: 0.})
b.unincorporate(1)
close(b.logpdf_score(), s)
'''),
dict(id='completion-order', property='C34',
     needs='workers that finish out of order',
     breaks='results are stored in the order in which workers finish',
     edits=[('utils/parallel_map.py',
             "        fl[i] = fx\n",
             "        fl[len(fl) - ctr[0]] = fx\n")],
     demo='''
import time
pm = U['utils.parallel_map'].parallel_map


def f(x):
    time.sleep(.5 if x == 0 else .01)
    return x * x


assert pm(f, [0, 1, 2, 3], parallelism=2) == [0, 1, 4, 9]
'''),
]
