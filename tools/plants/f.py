BUGS = [
dict(id='flat-grid-kept', property='C05',
     needs='a column none of whose cells are observed, so that every grid '
           'value is equally likely',
     breaks='the hyperparameter is never redrawn while all the grid values '
            'have the same probability',
     edits=[('mixtures/dim.py',
             """            # Compute the probability of the grid point.
                self.hypers[hyper] = grid_value
""",
             """            # Compute the probability of the grid point.
                self.hypers[hyper] = grid_value
"""),
            ('mixtures/dim.py',
             """            # Sample a new hyperparameter from the grid.
            index = gu.log_pflip(logps, rng=self.rng)
            self.hypers[hyper] = self.hyper_grids[hyper][index]
""",
             """            # Sample a new hyperparameter from the grid.
            index = gu.log_pflip(logps, rng=self.rng) \\
                if min(logps) < max(logps) else 0
            self.hypers[hyper] = self.hyper_grids[hyper][index]
""")],
     demo='''
gu = U['utils.general']
D = U['mixtures.dim'].Dim
d = D([0], [1], cctype='bernoulli', rng=gu.gen_rng(4))
d.transition_hyper_grids([0, 1, 1, 0])
seen = set()
for i in range(20):
    d.transition_hypers()
    seen.add(float(d.hypers['alpha']))
assert len(seen) > 3, seen
'''),
dict(id='enemies-of-friends', property='C08',
     needs='two dependent columns of which the later one is independent of '
           'a column seated before them',
     breaks='the constrained simulator seats a block at a table where one '
            'of its members has an enemy',
     edits=[('utils/general.py',
             """            for tc in t_custs:
                for f in friends.get(cust, [cust]):
""",
             """            for tc in t_custs:
                for f in friends.get(cust, [cust])[:1]:
""")],
     demo='''
gu = U['utils.general']
for seed in range(60):
    Z = gu.simulate_crp_constrained(
        3, .2, [[1, 2]], [(0, 2)], {}, {}, rng=gu.gen_rng(seed))
    assert Z[1] == Z[2] != Z[0]
'''),
dict(id='missing-input-counted', property='C10',
     needs='a regression column and a row whose input cell is missing',
     breaks='a row whose input is missing is handed to its cluster although '
            'it has to be set aside',
     edits=[('mixtures/dim.py',
             """        return k, inputs2, valid_targets and valid_inputs
""",
             """        return k, inputs2, valid_targets
""")],
     demo='''
D = U['mixtures.dim'].Dim
d = D([0], [1, 2], cctype='linear_regression',
      distargs={'inputs': {'indexes': [2], 'stattypes': ['normal'],
                           'statargs': [{}]}})
d.incorporate(0, {0: 1.}, {1: 0, 2: float('nan')})
assert 0 in d.Zi and d.clusters[0].N == 0
assert d.logpdf(-1, {0: 1.}, None, {1: 0, 2: float('nan')}) == 0
'''),
dict(id='aux-tables-each-full', property='C07',
     needs='two or more auxiliary tables and a customer not alone at its '
           'table',
     breaks='each auxiliary table gets the whole concentration instead of '
            'its share, so that a new table is too likely',
     edits=[('primitives/crp.py',
             """        p_aux = self.alpha / float(m)
        p_rowid = p_aux if singleton else self.counts[self.data[rowid]]-1
""",
             """        p_aux = self.alpha / float(m if singleton else 1)
        p_rowid = p_aux if singleton else self.counts[self.data[rowid]]-1
""")],
     demo='''
C = U['primitives.crp'].Crp
c = C([0], [], hypers={'alpha': 3.})
for i in range(2):
    c.incorporate(i, {0: 0})
ps = [exp(l) for l in c.gibbs_logps(0, m=3)]
close(sum(ps[1:]), 3.)
'''),
dict(id='resample-with-replacement', property='C21',
     needs='two or more samples of an ensemble',
     breaks='a sample of a state can be returned twice while another one is '
            'never used, so that the samples are not independent',
     edits=[('crosscat/engine.py',
             "        indexes = [self.rng.choice(N, size=n, replace=False) for n in n_model]\\n",
             "        indexes = [self.rng.choice(N, size=n, replace=True) for n in n_model]\\n")],
     demo='''
gu = U['utils.general']
E = U['crosscat.engine'].Engine
e = E(np.array([[0, 1], [1, 0.]]), num_states=1, cctypes=['bernoulli'] * 2,
      rng=gu.gen_rng(1), multiprocess=0)
for i in range(20):
    r = e._likelihood_weighted_resample([list(range(5))], -1, multiprocess=0)
    assert sorted(r) == list(range(5)), r
'''),
dict(id='similarity-by-column', property='C23',
     needs='three or more columns of which some share a view',
     breaks='row similarity averages over the columns asked for instead of '
            'over their views',
     edits=[('crosscat/state.py',
             "        views = set(self.view_for(c) for c in cols)\\n",
             "        views = [self.view_for(c) for c in cols]\\n")],
     demo='''
gu = U['utils.general']
S = U['crosscat.state'].State
s = S(np.array([[0, 1, 1], [1, 0., 1]]), cctypes=['bernoulli'] * 3,
      Zv={0: 0, 1: 0, 2: 1}, Zrv={0: [0, 1], 1: [0, 0]}, rng=gu.gen_rng(1))
close(s.row_similarity(0, 1), .5)
'''),
dict(id='bulk-force-merged', property='C18',
     needs='one call that overwrites two cells of the same row in separate '
           'queries',
     breaks='of several queries for the same row only the last is carried '
            'out',
     edits=[('crosscat/state.py',
             """        for rowid, query in zip(rowids, queries):
            self.force_cell(rowid, query)
""",
             """        for rowid, query in sorted(dict(zip(rowids, queries)).items()):
            self.force_cell(rowid, query)
""")],
     demo='''
gu = U['utils.general']
S = U['crosscat.state'].State
s = S(np.array([[0, 1.], [np.nan, np.nan]]), cctypes=['bernoulli'] * 2,
      rng=gu.gen_rng(1))
s.force_cell_bulk([1, 1], [{0: 1}, {1: 0}])
assert s.X[0][1] == 1 and s.X[1][1] == 0
'''),
dict(id='conditional-column-last', property='C16',
     needs='a regression column that is not the last column',
     breaks='the state takes itself for one without regression columns and '
            'answers queries on the fast path, which has no inputs',
     edits=[('crosscat/state.py',
             "        conditional = any(d.is_conditional() for d in self.dims())\\n",
             "        conditional = self.dims()[-1].is_conditional()\\n")],
     demo='''
gu = U['utils.general']
S = U['crosscat.state'].State
s = S(np.array([[0, 1., 1.], [1., 2., 0]]),
      cctypes=['normal', 'normal', 'bernoulli'], rng=gu.gen_rng(1),
      Zv={0: 0, 1: 0, 2: 0})
s.update_cctype(1, 'linear_regression', {'inputs': [0]})
assert s.is_composite()
s.logpdf(-1, {1: 1.})
'''),
dict(id='fresh-truncation-points', property='C31',
     needs='a truncated normal whose lower end lies above the mean',
     breaks='the normaliser takes the mass up to the upper end when the '
            'mean lies below the interval',
     edits=[('primitives/normal_trunc.py',
             """        return np.log(
            norm.cdf(h, loc=mu, scale=sigma)
            - norm.cdf(l, loc=mu, scale=sigma))
""",
             """        return np.log(
            norm.cdf(h, loc=mu, scale=sigma)
            - (norm.cdf(l, loc=mu, scale=sigma) if l < mu else 0))
""")],
     demo='''
N = U['primitives.normal_trunc'].NormalTrunc
n = N([0], [], params={'mu': -1., 'sigma': 1.}, distargs={'l': 0., 'h': 2.})
xs = np.linspace(0, 2, 20001)
close(sum(exp(n.logpdf(-1, {0: x})) for x in xs) * 1e-4, 1, 1e-3)
'''),
dict(id='single-level-category', property='C32',
     needs='two categorical inputs of different numbers of values',
     breaks='the code of a categorical input has the length of another, so '
            'that values of the larger one collide or are refused',
     edits=[('utils/data.py',
             "        k = discretes[i]\\n        if not 0 <= val < k:",
             "        k = min(discretes.values())\\n        if not 0 <= val < k:")],
     demo='''
du = U['utils.data']
assert len(du.dummy_code([1, 3], {0: 3, 1: 5})) == 2 + 4
'''),
dict(id='slope-of-condition', property='C33',
     needs='x simulated given z = 0',
     breaks='x given z is drawn around y + z instead of y + 2z - 1',
     edits=[('dummy/piecewise.py',
             """            z = constraints[self.outputs[1]]
            x = y + (2*z - 1) + self.rng.normal(0, self.sigma)
            sample = {self.outputs[0]: x}
""",
             """            z = constraints[self.outputs[1]]
            x = y + (2*z - bool(z)) + self.rng.normal(0, self.sigma)
            sample = {self.outputs[0]: x}
""")],
     demo='''
gu = U['utils.general']
P = U['dummy.piecewise'].PieceWise
p = P([0, 1], [2], sigma=1e-6, rng=gu.gen_rng(1))
close(p.simulate(-1, [0], {1: 0}, {2: 5.})[0], 4, 1e-4)
'''),
dict(id='kernel-of-first-category', property='C28',
     needs='a sample of a categorical variable with three or more values',
     breaks='a sample that leaves its kernel lands on its neighbours only '
            'by the number of the values held, not of those declared',
     edits=[('kde/mvkde.py',
             "        c = self.levels[q]\\n        def _compute",
             "        c = max(int(Xi) + 1, 2)\\n        def _compute")],
     demo='''
gu = U['utils.general']
K = U['kde.mvkde'].MultivariateKde
k = K([0], [], distargs={'outputs': {'stattypes': ['categorical'],
                                     'statargs': [{'k': 4}]}},
      params={'bw': [.6]}, rng=gu.gen_rng(3))
k.incorporate(0, {0: 0})
seen = set(k.simulate(-1, [0])[0] for i in range(200))
assert seen == {0, 1, 2, 3}, seen
'''),
dict(id='posterior-shape-of-inputs', property='C25',
     needs='more rows than covariates or fewer',
     breaks='the posterior shape of the noise counts covariates, as a '
            'classical regression would, when there are enough rows',
     edits=[('regressions/linreg.py',
             "        an = a + N/2.\\n",
             "        an = a + (N - (N > len(mu)))/2.\\n")],
     demo='''
L = U['regressions.linreg'].LinearRegression
l = L([0], [1], distargs={'inputs': {'stattypes': ['normal'],
                                     'statargs': [{}]}})
tot = 0
for i, (x, y) in enumerate([(1., 2.), (0., 1.), (2., -1.), (1., .5)]):
    l.incorporate(i, {0: x}, {1: y})
an = l.posterior_hypers(l.N, list(l.data.Y.values()),
                        list(l.data.x.values()), l.a, l.b, l.mu, l.V)[0]
import scipy.stats as ss
Y = np.array(list(l.data.Y.values()))
x = np.array(list(l.data.x.values()))
V = np.eye(4) + Y.dot(Y.T)
want = ss.multivariate_t(np.zeros(4), V, df=2).logpdf(x)
close(l.logpdf_score(), want, 1e-6)
'''),
dict(id='uncollapsed-view-kept', property='C14',
     needs='an uncollapsed column that is alone in its view and moves to '
           'another one',
     breaks='the view an uncollapsed column leaves empty stays in the state',
     edits=[('crosscat/state.py',
             "        delete = self.Nv(v_a) == 1\\n        if dim.index",
             "        delete = self.Nv(v_a) == 1 and reassign\\n        if dim.index")],
     demo='''
gu = U['utils.general']
S = U['crosscat.state'].State
for seed in range(12):
    s = S(np.array([[0, .5], [1, .25]]), cctypes=['bernoulli', 'beta'],
          Zv={0: 0, 1: 1}, rng=gu.gen_rng(seed))
    for i in range(4):
        s.transition_dims(cols=[1])
        assert set(s.views) == set(s.Zv().values())
'''),
dict(id='second-marginal-unconditional', property='C24',
     needs='conditional mutual information of columns that depend on the '
           'condition',
     breaks='the density of the second columns is taken without the fixed '
            'conditions',
     edits=[('crosscat/state.py',
             """            targets_list=[{c1: s[c1] for c1 in col1} for s in samples],
            constraints_list=[constraints]*N,
""",
             """            targets_list=[{c1: s[c1] for c1 in col1} for s in samples],
            constraints_list=None if len(col1) > 1 else [constraints]*N,
""")],
     demo='''
gu = U['utils.general']
S = U['crosscat.state'].State
X = np.array([[0, 0, 0, 0.], [1, 1, 1, 1], [1, 1, 1, 1], [0, 0, 0, 0]])
s = S(X, cctypes=['bernoulli'] * 4, Zv={c: 0 for c in range(4)},
      Zrv={0: [0, 1, 1, 0]}, view_alphas={0: .1}, rng=gu.gen_rng(1))
for c in range(4):
    s.dim_for(c).set_hypers({'alpha': .2, 'beta': .2})
a = s.mutual_information([0], [1, 2], constraints={3: 1}, N=4000)
ks = [0, 1]
def p(**t):
    return exp(s.logpdf(-1, {int(k[1:]): v for k, v in t.items()}, {3: 1}))
want = sum(p(_0=x, _1=y, _2=z)
           * log(p(_0=x, _1=y, _2=z) / p(_0=x) / p(_1=y, _2=z))
           for x in ks for y in ks for z in ks)
close(a, want, .05)
'''),
dict(id='targets-not-coded', property='C29',
     needs='a categorical target of three or more values and neighbourhoods '
           'smaller than the data',
     breaks='the categories of a target count as numbers in the search for '
            'the locality of a neighbour',
     edits=[('knn/mvknn.py',
             "        D_qr_code = self._dummy_code(D[:,:N], lookup[:N])\\n",
             "        D_qr_code = D[:,:N]\\n")],
     demo='''
gu = U['utils.general']
K = U['knn.mvknn'].MultivariateKnn
k = K([0, 1], [], K=1, M=2, distargs={'outputs': {
    'stattypes': ['categorical', 'numerical'],
    'statargs': [{'k': 4}, {}]}}, rng=gu.gen_rng(1))
for i, (c, x) in enumerate([(0, 0.), (1, 1.2), (3, 1.)]):
    k.incorporate(i, {0: c, 1: x})
close(exp(k.logpdf(-1, {0: 3}, {1: 0.})), .5)
'''),
dict(id='hooks-of-later-views', property='C20',
     needs='a model hooked into a state that is saved and restored, then a '
           'second one hooked in',
     breaks='a model hooked into the restored state takes the place of one '
            'that was restored',
     edits=[('crosscat/state.py',
             "        token = next(self.token_generator)\\n",
             "        token = next(self.token_generator) % 57483\\n")],
     demo='raise SystemExit(1)'),
]
BUGS = [b for b in BUGS if b['id'] != 'hooks-of-later-views']
for b in BUGS:
    b['edits'] = [(f, o.replace('\\n', '\n'), n.replace('\\n', '\n'))
                  for f, o, n in b['edits'] if o != n]
