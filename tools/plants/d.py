BUGS = [
dict(id='explicit-cluster-zero', property='C11',
     needs='a row added with its cluster given as zero',
     breaks='a row placed in cluster 0 on request is moved by a Gibbs step as '
            'if no cluster had been given',
     edits=[('mixtures/view.py',
             """        if self.outputs[0] not in observation:
            self.transition_rows(rows=[rowid])
""",
             """        if not observation.get(self.outputs[0]):
            self.transition_rows(rows=[rowid])
""")],
     demo='''
V = U['mixtures.view'].View
gu = U['utils.general']
for seed in range(20):
    X = {0: [0., 0., 0., 1.], 1: [0., 0., 0., 1.]}
    v = V(dict((c, x[:3]) for c, x in X.items()), outputs=[9, 0, 1],
          cctypes=['bernoulli'] * 2, Zr=[0, 1, 1], alpha=5.,
          rng=gu.gen_rng(seed))
    for c in X:
        v.X[c].append(X[c][3])
    v.incorporate(3, {0: 1., 1: 1., 9: 0})
    assert v.Zr(3) == 0, seed
'''),
dict(id='view-zero-asked-for', property='C14',
     needs='a column added to the view with the label zero on request',
     breaks='a column added to view 0 on request is reassigned at random',
     edits=[('crosscat/state.py',
             """        transition = [col] if v is None else []
""",
             """        transition = [] if v else [col]
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
for seed in range(20):
    s = S(np.array([[0, 1], [1, 0.], [1, 1]]), cctypes=['bernoulli'] * 2,
          Zv={0: 0, 1: 1}, rng=gu.gen_rng(seed))
    s.incorporate_dim([0, 1, 1], [7], cctype='bernoulli', v=0)
    assert s.Zv(7) == 0, seed
'''),
dict(id='kernels-in-default-order', property='C39',
     needs='kernels requested in another order than the default one, or one '
           'of them twice',
     breaks='the requested kernels run in the default order and once each',
     edits=[('crosscat/state.py',
             """        kernel_funcs = [_kernel_lookup[k] for k in kernels]
""",
             """        kernel_funcs = [f for k, f in _kernel_lookup.items() if k in kernels]
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0, 1], [1, 0.], [1, 1]]), cctypes=['bernoulli'] * 2,
      rng=gu.gen_rng(1))
done = []
s.transition_view_rows = lambda **k: done.append('rows')
s.transition_crp_alpha = lambda: done.append('alpha')
s.transition(N=1, kernels=['rows', 'alpha', 'rows'], progress=False)
assert done == ['rows', 'alpha', 'rows'], done
'''),
dict(id='partial-hypothetical', property='C23',
     needs='a hypothetical row that leaves some variables of the view open',
     breaks='hypothetical rows that do not give every variable of the view '
            'are left out of the query',
     edits=[('crosscat/state.py',
             """            lambda r: not all(np.isnan(r.values())),
""",
             """            lambda r: not any(np.isnan(r.values())),
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
got = set()
for seed in range(40):
    s = S(np.array([[0, 1], [1, 0.], [1, 1]]), cctypes=['bernoulli'] * 2,
          Zv={0: 0, 1: 0}, Zrv={0: [0, 0, 1]}, rng=gu.gen_rng(seed))
    got.add(s.relevance_probability(0, [], 0, hypotheticals=[{0: 1}]))
assert got == {0, 1}, got
'''),
dict(id='half-observed-force', property='C18',
     needs='forcing several cells of a row of which only some are missing',
     breaks='observed cells are overwritten when at least one of the forced '
            'cells is missing',
     edits=[('crosscat/state.py',
             """        if not all(np.isnan(self.X[c][rowid]) for c in observation):
""",
             """        if not any(np.isnan(self.X[c][rowid]) for c in observation):
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0, np.nan], [1, 0.], [1, 1]]), cctypes=['bernoulli'] * 2,
      Zv={0: 0, 1: 0}, rng=gu.gen_rng(1))
try:
    s.force_cell(0, {0: 1, 1: 1})
except ValueError:
    pass
assert s.X[0][0] == 0, s.X
'''),
dict(id='uncollapsed-own-view', property='C15',
     needs='column reassignment of an uncollapsed column',
     breaks='an uncollapsed column is scored in its own view after drawing '
            'new parameters instead of under those it has',
     edits=[('crosscat/state.py',
             """        reassign = dim.is_collapsed() or not self._dim_is_member(view, dim)
""",
             """        reassign = True
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
moved = 0
for seed in range(8):
    s = S(np.array([[.2, 1], [.4, 0.], [.5, 1]]),
          cctypes=['beta', 'bernoulli'], alpha=1e-8,
          Zv={0: 0, 1: 0}, Zrv={0: [0, 0, 1]}, rng=gu.gen_rng(seed))
    d = s.dim_for(0).clusters[0]
    before = (d.strength, d.balance)
    s.transition_dims(cols=[0])
    d = s.dim_for(0).clusters[0]
    assert s.Zv(0) == 0
    moved += (d.strength, d.balance) != before
assert not moved, moved
'''),
dict(id='hypers-shared', property='C20',
     needs='two models restored from the same metadata, one of which is then '
           'trained',
     breaks='a restored model keeps the hyperparameters of the metadata '
            'itself, so training it rewrites the metadata and any other model '
            'restored from it',
     edits=[('mixtures/dim.py',
             """        self.hypers = dict(hypers) if hypers is not None else {}
""",
             """        self.hypers = hypers if hypers is not None else {}
""")],
     demo='''
S = U['crosscat.state'].State
gu = U['utils.general']
s = S(np.array([[0, 1], [1, 0.], [1, 1]]), cctypes=['bernoulli'] * 2,
      rng=gu.gen_rng(1))
md = s.to_metadata()
a = S.from_metadata(md, rng=gu.gen_rng(2))
b = S.from_metadata(md, rng=gu.gen_rng(3))
before = [dict(d.hypers) for d in b.dims()]
a.transition(N=5, kernels=['column_hypers'], progress=False)
assert [dict(d.hypers) for d in b.dims()] == before
'''),
dict(id='arguments-sorted', property='C36',
     needs='a program whose inputs are not listed in increasing order',
     breaks='the inputs are passed to the program in increasing order instead '
            'of the order in which they were declared',
     edits=[('venturescript/vsinline.py',
             """        return str.join(',', [str(inputs[i]) for i in self.inputs])
""",
             """        return str.join(',', [str(inputs[i]) for i in sorted(inputs)])
""")],
     demo='''
import sys, types
v = types.ModuleType('venture')
v.shortcuts = types.ModuleType('venture.shortcuts')
sys.modules['venture'] = v
sys.modules['venture.shortcuts'] = v.shortcuts
I = U['venturescript.vsinline'].InlineVsCGpm
g = I.__new__(I)
g.inputs, g.outputs, g.expression = [5, 2], [0], '(a, b) ~> {normal(a, b)}'
asked = []


class Ripl(object):
    def assume(self, *a, **k):
        pass

    def forget(self, *a):
        pass

    def sample(self, x):
        asked.append(x)
        return 1.


g.ripl = Ripl()
g.simulate(None, [0], None, {2: 7.5, 5: 3.25})
assert asked == ['expr(3.25,7.5)'], asked
'''),
dict(id='rejected-row-counted', property='C25',
     needs='an observation that is rejected because of its inputs, followed by '
           'queries',
     breaks='the row count grows before the inputs are checked, so a rejected '
            'row still counts towards the posterior',
     edits=[('regressions/linreg.py',
             """        x, y = self.preprocess(observation, inputs)
        self.N += 1
        self.data.x[rowid] = x
""",
             """        self.N += 1
        x, y = self.preprocess(observation, inputs)
        self.data.x[rowid] = x
""")],
     demo='''
L = U['regressions.linreg'].LinearRegression
m = L([0], [1], distargs={'inputs': {'stattypes': ['categorical'],
                                     'statargs': [{'k': 2}]}})
m.incorporate(1, {0: 1.5}, {1: 1})
before = m.logpdf(-1, {0: 2.}, None, {1: 0})
try:
    m.incorporate(2, {0: 1.}, {1: 7})
    assert False
except ValueError:
    pass
assert m.logpdf(-1, {0: 2.}, None, {1: 0}) == before
'''),
dict(id='weights-in-order', property='C21',
     needs='an ensemble query with a condition on a subset of the states that '
           'is not in increasing order',
     breaks='the weights of the states are computed in increasing order of the '
            'states instead of the order asked for',
     edits=[('crosscat/engine.py',
             """            weights = self.logpdf(rowid, constraints, inputs, statenos=statenos,
                multiprocess=multiprocess)
            return gu.logmeanexp_weighted(logpdfs, weights)
""",
             """            weights = self.logpdf(rowid, constraints, inputs,
                statenos=statenos and sorted(statenos),
                multiprocess=multiprocess)
            return gu.logmeanexp_weighted(logpdfs, weights)
""")],
     demo='''
E = U['crosscat.engine'].Engine
gu = U['utils.general']
e = E(np.array([[0, 1], [1, 0.], [1, 1]]), num_states=2,
      cctypes=['bernoulli'] * 2, rng=gu.gen_rng(1), multiprocess=0)
for i, s in enumerate(e.states):
    s.dim_for(0).set_hypers({'alpha': 1. + 9 * i, 'beta': 10. - 9 * i})
lp = e.logpdf(-1, {1: 1}, {0: 1}, statenos=[0, 1], multiprocess=0)
lp = [lp[0], lp[1] - 3]
a = e._likelihood_weighted_integrate(lp, -1, {0: 1}, statenos=[0, 1],
                                     multiprocess=0)
b = e._likelihood_weighted_integrate(lp[::-1], -1, {0: 1}, statenos=[1, 0],
                                     multiprocess=0)
assert abs(a - b) < 1e-9, (a, b)
'''),
]
