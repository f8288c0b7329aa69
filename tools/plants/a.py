BUGS = [
dict(id='gibbs-singleton-aux-mass', property='C07',
     needs='a row alone at its table and two or more auxiliary tables',
     breaks='the own table of a singleton row receives the whole fresh mass '
            'while the other auxiliary tables still receive their share',
     edits=[('primitives/crp.py',
             "p_rowid = p_aux if singleton else self.counts[self.data[rowid]]-1",
             "p_rowid = self.alpha if singleton \\\n"
             "            else self.counts[self.data[rowid]]-1")],
     demo='''
C = U['primitives.crp'].Crp
c = C([0], [], hypers={'alpha': 1.5})
for r, k in enumerate([0, 0, 1]):
    c.incorporate(r, {0: k})
T = c.gibbs_tables(2, m=3)
p = [exp(x) for x in c.gibbs_logps(2, m=3)]
assert T == [0, 1, 2, 3], T
want = [2, .5, .5, .5]
for a, b in zip(p, want):
    close(a / sum(p), b / sum(want))
'''),
dict(id='simulated-label-collides', property='C03',
     needs='cluster labels with a gap, such as after an inner cluster emptied',
     breaks='the fresh cluster in a simulation is labelled by the number of '
            'clusters, so with a gap it names an existing cluster, which is '
            'then drawn too often and a fresh one never',
     edits=[('primitives/crp.py',
             "sorted(self.counts) + [max(self.counts) + 1] if self.counts",
             "sorted(self.counts) + [len(self.counts)] if self.counts")],
     demo='''
C = U['primitives.crp'].Crp
c = C([0], [], hypers={'alpha': 50.}, rng=np.random.RandomState(1))
for r, k in enumerate([0, 1, 2]):
    c.incorporate(r, {0: k})
c.unincorporate(1)
xs = [x[0] for x in c.simulate(9, [0], N=40)]
assert any(x not in (0, 2) for x in xs), set(xs)
'''),
dict(id='fresh-cluster-stale-hypers', property='C05',
     needs='a cluster created after a hyperparameter transition',
     breaks='the auxiliary model used for the next new cluster is built before '
            'the new hyperparameters are drawn, so later clusters use stale '
            'ones',
     edits=[('mixtures/dim.py',
             """        # For each hyper.
        for hyper in hypers:
""",
             """        self.aux_model = self.create_aux_model()
        # For each hyper.
        for hyper in hypers:
"""),
            ('mixtures/dim.py',
             """        # Set the hyperparameters in each cluster.
        for k in self.clusters:
            self.clusters[k].set_hypers(self.hypers)
        self.aux_model = self.create_aux_model()

    def transition_hyper_grids""",
             """        # Set the hyperparameters in each cluster.
        for k in self.clusters:
            self.clusters[k].set_hypers(self.hypers)

    def transition_hyper_grids""")],
     demo='''
D = U['mixtures.dim'].Dim
gu = U['utils.general']
d = D([0], [-1], cctype='poisson', rng=gu.gen_rng(3))
X = [1., 4., 2., 9., 3., 5.]
d.transition_hyper_grids(X)
for r, x in enumerate(X):
    d.incorporate(r, {0: x}, {-1: 0})
for _ in range(5):
    d.transition_hypers()
    want = d.clusters[0].get_hypers()
    assert want == d.hypers
    assert d.aux_model.get_hypers() == d.hypers, \\
        (d.aux_model.get_hypers(), d.hypers)
'''),
dict(id='blocks-sharing-a-table', property='C08',
     needs='two dependence blocks placed at the same table',
     breaks='a dependence block overwrites the count of its table instead of '
            'adding to it, so a partition with two blocks at one table has the '
            'wrong effective counts',
     edits=[('utils/general.py',
             """        customer = block[0]
        table = Z[customer]
        counts[table] += 1
""",
             """        customer = block[0]
        table = Z[customer]
        counts[table] = 1
""")],
     demo='''
gu = U['utils.general']
Cd = [[0, 2], [1, 3]]
Z = {0: 0, 2: 0, 1: 0, 3: 0}
close(gu.logp_crp_constrained_dependent(Z, 1., Cd), log(.5))
'''),
dict(id='zero-cell-treated-as-missing', property='C18',
     needs='an added row with a value equal to zero',
     breaks='a value of zero in an incorporated row is stored as missing',
     edits=[('crosscat/state.py',
             "self.X[c].append(observation.get(c, float('nan')))",
             "self.X[c].append(observation.get(c) or float('nan'))")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S([[0, 1], [1, 1]], outputs=[0, 1], cctypes=['bernoulli'] * 2,
      rng=gu.gen_rng(1))
s.incorporate(2, {0: 1, 1: 1})
assert s.X[0][2] == 1
s.incorporate(3, {0: 0, 1: 1})
assert s.X[0][3] == 0, s.X
'''),
dict(id='one-cluster-shortcut', property='C16',
     needs='a view whose rows all share one cluster',
     breaks='the density of a new row under a single-cluster view ignores the '
            'fresh cluster',
     edits=[('crosscat/sampling.py',
             """    Nk = view.Nk()
    N_rows = len(view.Zr())
    K = view.crp.clusters[0].gibbs_tables(-1)
    lp_crp = [Crp.calc_predictive_logp(k, N_rows, Nk, view.alpha()) for k in K]
    lp_constraints = [_logpdf_row(view, constraints, k) for k in K]
    if all(np.isinf(lp_constraints)):
        raise ValueError('Zero density constraints: %s' % (constraints,))
    lp_cluster = log_normalize(np.add(lp_crp, lp_constraints))
""",
             """    Nk = view.Nk()
    N_rows = len(view.Zr())
    K = view.crp.clusters[0].gibbs_tables(-1)
    if len(Nk) == 1:
        K = K[:1]
    lp_crp = [Crp.calc_predictive_logp(k, N_rows, Nk, view.alpha()) for k in K]
    lp_constraints = [_logpdf_row(view, constraints, k) for k in K]
    if all(np.isinf(lp_constraints)):
        raise ValueError('Zero density constraints: %s' % (constraints,))
    lp_cluster = log_normalize(np.add(lp_crp, lp_constraints))
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S([[1], [1], [1]], outputs=[0], cctypes=['bernoulli'],
      hypers=[{'alpha': 1., 'beta': 1.}], Zv={0: 0}, Zrv={0: [0, 0, 0]},
      view_alphas={0: 1.}, rng=gu.gen_rng(1))
close(s.logpdf(-1, {0: 1}), log(.75 * .8 + .25 * .5))
'''),
dict(id='one-sided-independence', property='C15',
     needs='an independence constraint listing the moving column second',
     breaks='an independence constraint is only enforced when the column being '
            'reassigned is the first of the pair',
     edits=[('crosscat/state.py',
             "avoid = [a for p in self.Ci if col in p for a in p if a != col]",
             "avoid = [b for a, b in self.Ci if a == col]")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
for seed in range(6):
    s = S([[0, 0], [1, 1], [0, 0], [1, 1]], outputs=[0, 1],
          cctypes=['bernoulli'] * 2, Ci=[(0, 1)], rng=gu.gen_rng(seed))
    for _ in range(6):
        s.transition_dims(cols=[1])
        assert s.Zv(0) != s.Zv(1), s.Zv()
'''),
dict(id='cluster-query-denominator', property='C12',
     needs='a density query on the cluster with exactly one condition',
     breaks='the joint density of the cluster and cells given one condition is '
            'not divided by the density of the condition',
     edits=[('mixtures/view.py',
             "lp_denom = self.logpdf(rowid, constraints) if constraints else 0",
             "lp_denom = self.logpdf(rowid, constraints) \\\n"
             "                if len(constraints) > 1 else 0")],
     demo='''
V = U['mixtures.view'].View
gu = U['utils.general']
v = V({0: [0, 1, 1], 1: [1, 1, 0]}, outputs=[100, 0, 1],
      cctypes=['bernoulli'] * 2, hypers=[{'alpha': 1., 'beta': 1.}] * 2,
      Zr=[0, 0, 1], alpha=1., rng=gu.gen_rng(1))
close(sum(exp(v.logpdf(-1, {100: k}, {0: 1})) for k in (0, 1, 2)), 1)
'''),
dict(id='logmeanexp-drops-zeros', property='C06',
     needs='a list containing a minus-infinite log weight',
     breaks='minus-infinite entries do not count towards the mean',
     edits=[('utils/general.py',
             "return logsumexp(noninfs) - math.log(len(array))",
             "return logsumexp(noninfs) - math.log(len(noninfs) or 1)")],
     demo='''
gu = U['utils.general']
close(gu.logmeanexp([0., -float('inf')]), log(.5))
'''),
dict(id='poisson-marginal-drift', property='C02',
     needs='removing a poisson observation of two or more and then reading the '
           'marginal likelihood',
     breaks='removal subtracts the log factorial of one less than the value',
     edits=[('primitives/poisson.py',
             "self.sum_log_fact_x -= gammaln(x+1)",
             "self.sum_log_fact_x -= gammaln(max(x, 1))")],
     demo='''
P = U['primitives.poisson'].Poisson
p = P([0], [])
p.incorporate(0, {0: 3})
a = p.logpdf_score()
p.incorporate(1, {0: 5})
p.unincorporate(1)
close(p.logpdf_score(), a)
'''),
]
