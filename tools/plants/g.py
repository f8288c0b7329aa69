"""Planted bugs, batch g."""
BUGS = [
dict(id='first-enemy-only', property='C15',
     needs='a column independent of two others that sit in different views',
     breaks='reassignment of a column avoids the view of only one of the '
            'columns it has to be independent of',
     edits=[('crosscat/state.py',
             """        for a in avoid:
            index = tables""",
             """        for a in avoid[:1]:
            index = tables""")],
     demo='''
import numpy as np
gu = U['utils.general']
S = U['crosscat.state'].State
X = np.array([[0., 1., 1.], [1., 0., 0.], [1., 1., 0.]])
s = S(X, outputs=[0, 1, 2], cctypes=['bernoulli'] * 3, Zv={0: 0, 1: 1, 2: 2},
      Ci=[(0, 1), (0, 2)], rng=gu.gen_rng(3))
for i in range(40):
    s.transition_dims(cols=[0])
    assert s.Zv(0) not in (s.Zv(1), s.Zv(2)), s.Zv()
'''),
dict(id='spread-of-tight-locality', property='C29',
     needs='a locality whose values differ, by less than the least spread',
     breaks='the least spread of a local model applies only to localities '
            'of equal values',
     edits=[('knn/mvknn.py',
             "(mu, std) = (np.mean(locality), max(np.std(locality), .01))",
             "(mu, std) = (np.mean(locality), np.std(locality) or .01)")],
     demo='''
import math
K = U['knn.mvknn'].MultivariateKnn
m = K([0, 1], [], K=2, distargs={'outputs': {
    'stattypes': ['numerical', 'categorical'], 'statargs': [{}, {'k': 2}]}})
m.incorporate(0, {0: .5, 1: 0})
m.incorporate(1, {0: .502, 1: 0})
lp = m.logpdf(-1, {0: .501}, {1: 0})
assert abs(lp + math.log(.01 * math.sqrt(2 * math.pi))) < 1e-6, lp
'''),
]
