"""C22: composed networks weight samples by the evidence exactly once."""
import itertools

from vp.runner import H
from .lib import Mth, posreal
from .vlib import try_

ASSUMPTIONS = ['component models are discrete with arbitrary positive '
               'conditional probability tables and answer their own '
               'queries exactly',
               'conditional probabilities in [1/17, 16/17]']
INF = float('inf')


class Node(object):
    """A model over binary variables given by a probability table."""

    def __init__(self, M, outputs, inputs, table, rng=None):
        self.M, self.outputs, self.inputs = M, list(outputs), list(inputs)
        self.table, self.rng = table, rng
        self.bad = []

    def prob(self, cells, ins):
        """P(cells | inputs) by summing the table."""
        row = self.table[tuple(ins[i] for i in self.inputs)]
        return sum(p for vals, p in row.items()
                   if all(vals[self.outputs.index(c)] == x
                          for c, x in cells.items()))

    def _ask(self, inputs):
        inputs = inputs or {}
        if set(inputs) != set(self.inputs):
            self.bad.append(sorted(inputs))

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        self._ask(inputs)
        p = self.prob(dict(targets, **{}) if not constraints else
                      {**targets, **constraints}, inputs)
        if constraints:
            p = p / self.prob(constraints, inputs)
        if not hasattr(p, 'num') and p == 0:
            return -INF
        return self.M.log(p)

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        self._ask(inputs)
        vs = list(itertools.product((0, 1), repeat=len(targets)))
        C = constraints or {}
        den = self.prob(C, inputs)
        p = [self.prob({**dict(zip(targets, v)), **C}, inputs) / den
             for v in vs]
        return dict(zip(targets, vs[self.rng.choice(len(vs), p=p)]))

    def with_rng(self, rng):
        return Node(self.M, self.outputs, self.inputs, self.table, rng)


# outputs and inputs of each model; 90 and 91 are never outputs
NETS = {
    'chain': [([0], []), ([1], [0]), ([2], [1])],
    'fork': [([0], []), ([1], [0]), ([2], [0])],
    'collider': [([0], []), ([1], []), ([2], [0, 1])],
    'pair': [([0, 1], []), ([2], [1])],
    'pair-child': [([0], []), ([1, 2], [0])],
    'outside': [([0], [90]), ([1], [0, 91])],
    'apart': [([0], []), ([1], [])],
    'diamond': [([0], []), ([1], [0]), ([2], [0]), ([3], [1, 2])],
    'skip': [([0], []), ([1], [0]), ([2], [0, 1])],
    'cross': [([0, 1], []), ([2], [0]), ([3], [1, 2])],
}


def network(E, M, spec, zero=False):
    """Models with tables of arbitrary probabilities."""
    nodes = []
    for j, (out, ins) in enumerate(spec):
        table = {}
        for iv in itertools.product((0, 1), repeat=len(ins)):
            ws = {}
            for ov in itertools.product((0, 1), repeat=len(out)):
                ws[ov] = (E.const(1) if not any(ov) else
                          posreal(E, 'w%d_%s_%s' % (
                              j, ''.join(map(str, iv)),
                              ''.join(map(str, ov)))))
            if zero and j == 0:
                ws[max(ws)] = 0
            tot = sum(ws.values())
            table[iv] = {o: w / tot if w is not 0 else 0
                         for o, w in ws.items()}
        nodes.append(Node(M, out, ins, table))
    return nodes


def joint(nodes, cells, ins):
    """P(cells | inputs) of the whole network, by summing out."""
    vs = [o for n in nodes for o in n.outputs]
    free = [v for v in vs if v not in cells]
    t = 0
    for x in itertools.product((0, 1), repeat=len(free)):
        a = {**cells, **dict(zip(free, x))}
        p = 1
        for n in nodes:
            p = p * n.prob({o: a[o] for o in n.outputs}, {**a, **ins})
        t = t + p
    return t


def ancestors(spec, vs):
    """vs and everything upstream of the models that output them."""
    got, todo = set(), list(vs)
    while todo:
        v = todo.pop()
        if v in got:
            continue
        got.add(v)
        for out, ins in spec:
            if v in out:
                todo += ins
    return got


def pick(E, spec, both=True):
    vs = sorted(v for out, _ in spec for v in out)
    T, C = [], {}
    for v in vs:
        r = E.choose('role%d' % v, ['t', '0', '1', '-'] if both
                     else ['t', '-'])
        if r == 't':
            T.append(v)
        elif r != '-':
            C[v] = int(r)
    ext = sorted({i for _, ins in spec for i in ins if i >= 90})
    return T, C, {i: (i + 1) % 2 for i in ext}


def ordered(E, nodes):
    """The models in any order of listing."""
    k = len(nodes)
    perms = list(itertools.permutations(range(k)))
    if k > 3:
        perms = [perms[0], perms[-1], perms[9], perms[14]]
    p = perms[E.choose('order', len(perms))]
    return [nodes[i] for i in p]


def used(E, nodes, label):
    for n in nodes:
        E.check(not n.bad, label + '-exactly-the-inputs-of-each-model')


def sampling(name):
    def h(E, U):
        M = Mth(E)
        spec = NETS[name]
        nodes = ordered(E, network(E, M, spec))
        T, C, I = pick(E, spec)
        if not T and not C:
            return
        need = ancestors(spec, list(T) + list(C)) - set(I)
        In = U['network.importance'].ImportanceNetwork
        tab, tot = {}, 0

        def run(rng):
            ns = [n.with_rng(rng) for n in nodes]
            r = In(ns, accuracy=1, rng=rng).weighted_sample(
                -1, list(T), dict(C), dict(I))
            return r, ns
        for o in E.enumerate_random(run):
            (s, w), ns = o.value
            used(E, ns, 'sample')
            E.check(set(T) <= set(s) and
                    all(s.get(c) == x for c, x in C.items()),
                    'targets-and-evidence')
            if not C:
                E.check_eq(w, 0, 'no-evidence-no-weight')
            # the evidence each model saw, given its inputs in this sample
            want = E.const(1)
            for n in ns:
                ev = {c: x for c, x in C.items() if c in n.outputs}
                if ev:
                    want = want * n.prob(ev, {**s, **I})
            E.check_eq(M.exp(w), want, 'weight-of-evidence')
            k = tuple(s[v] for v in T)
            tab[k] = tab.get(k, 0) + o.weight * want
        for k in itertools.product((0, 1), repeat=len(T)):
            E.check_eq(tab.get(k, 0),
                       joint(nodes, {**dict(zip(T, k)), **C}, I),
                       'weighted-law')
    return h


def density(name):
    def h(E, U):
        M = Mth(E)
        spec = NETS[name]
        nodes = ordered(E, network(E, M, spec))
        T, C, I = pick(E, spec)
        if not T:
            return
        T = {v: E.choose('x%d' % v, 2) for v in T}
        In = U['network.importance'].ImportanceNetwork
        full = not (ancestors(spec, list(C)) - set(I) - set(C))
        acc = 1 + E.choose('acc', 2) if len(spec) < 3 else 1
        if not full:
            return
        tot = 0
        for o in E.enumerate_random(lambda rng: In(
                [n.with_rng(rng) for n in nodes], accuracy=acc,
                rng=rng).logpdf(-1, dict(T), dict(C) or None,
                                dict(I) or None)):
            tot = tot + o.weight * M.exp(o.value)
            if not ancestors(spec, list(T) + list(C)) - set(I) - set(C) \
                    - set(T):
                E.check_eq(M.exp(o.value), joint(nodes, {**T, **C}, I)
                           / joint(nodes, C, I), 'complete-query-exact')
        E.check_eq(tot, joint(nodes, {**T, **C}, I) / joint(nodes, C, I),
                   'density-unbiased')
    return h


def simulate(name):
    """Forward samples without evidence; several at once are independent."""
    def h(E, U):
        M = Mth(E)
        spec = NETS[name]
        nodes = ordered(E, network(E, M, spec))
        T, C, I = pick(E, spec, False)
        if not T:
            return
        N = None if len(T) > 1 or len(spec) > 2 else E.choose('N', [None, 2])
        In = U['network.importance'].ImportanceNetwork
        tab = {}
        for o in E.enumerate_random(lambda rng: In(
                [n.with_rng(rng) for n in nodes], rng=rng).simulate(
                    -1, list(T), None, dict(I) or None, N=N)):
            s = o.value if N else [o.value]
            E.check(len(s) == (N or 1) and
                    all(set(x) == set(T) for x in s), 'exactly-the-targets')
            k = tuple(tuple(x[v] for v in T) for x in s)
            tab[k] = tab.get(k, 0) + o.weight
        ks = list(itertools.product((0, 1), repeat=len(T)))
        for k in itertools.product(ks, repeat=N or 1):
            want = E.const(1)
            for x in k:
                want = want * joint(nodes, dict(zip(T, x)), I)
            E.check_eq(tab.get(k, 0), want, 'forward-law')
    return h


def resampling(E, U):
    """With evidence, one of the weighted samples is kept, in proportion."""
    M = Mth(E)
    spec = [([0], []), ([1], [0])]
    nodes = ordered(E, network(E, M, spec))
    y = E.choose('y', 2)
    acc = E.choose('acc', [1, 2, 3])
    In = U['network.importance'].ImportanceNetwork
    tab = {}
    for o in E.enumerate_random(lambda rng: In(
            [n.with_rng(rng) for n in nodes], accuracy=acc,
            rng=rng).simulate(-1, [0], {1: y})):
        tab[o.value[0]] = tab.get(o.value[0], 0) + o.weight
    root = [n for n in nodes if n.outputs == [0]][0]
    leaf = [n for n in nodes if n.outputs == [1]][0]
    p = [root.prob({0: x}, {}) for x in (0, 1)]
    w = [leaf.prob({1: y}, {0: x}) for x in (0, 1)]
    for x in (0, 1):
        want = 0
        for xs in itertools.product((0, 1), repeat=acc):
            q = E.const(1)
            for z in xs:
                q = q * p[z]
            want = want + q * xs.count(x) * w[x] / sum(w[z] for z in xs)
        E.check_eq(tab.get(x, 0), want, 'resampled-law')


def impossible(E, U):
    """Evidence of probability zero is refused; a possible one is not."""
    M = Mth(E)
    spec = [([0], []), ([1], [0])]
    nodes = ordered(E, network(E, M, spec, True))
    In = U['network.importance'].ImportanceNetwork
    kind = E.choose('kind', ['sim', 'pdf', 'target', 'possible'])
    err = (ValueError,)
    outs = {
        'sim': lambda r: net(r).simulate(-1, [1], {0: 1}),
        'pdf': lambda r: net(r).logpdf(-1, {1: 0}, {0: 1}),
        'target': lambda r: net(r).logpdf(-1, {1: 0, 0: 1}),
        'possible': lambda r: net(r).simulate(-1, [1], {0: 0}),
    }
    acc = E.choose('acc', [1, 2])

    def net(rng):
        return In([n.with_rng(rng) for n in nodes], accuracy=acc, rng=rng)
    for o in E.enumerate_random(outs[kind], catch=err):
        if kind in ('sim', 'pdf'):
            E.check(o.error is not None, 'impossible-evidence-refused')
        elif kind == 'possible':
            E.check(o.error is None, 'possible-evidence-accepted')
        else:
            E.check(o.error is None and o.value == -INF,
                    'impossible-target-has-no-density')


def partly(E, U):
    """Samples the evidence rules out weigh nothing; only when it rules out
    every one of them is the evidence refused."""
    M = Mth(E)
    spec = [([0], []), ([1], [0])]
    nodes = network(E, M, spec)
    root, leaf = nodes
    leaf.table[(1,)] = {(0,): E.const(1), (1,): 0}
    nodes = ordered(E, nodes)
    acc = E.choose('acc', [1, 2, 3])
    In = U['network.importance'].ImportanceNetwork
    p = [root.prob({0: x}, {}) for x in (0, 1)]
    w = [leaf.prob({1: 1}, {0: 0}), 0]
    kind = E.choose('kind', ['sim', 'pdf', 'impossible-pdf'])
    x = 1 if kind == 'impossible-pdf' else 0

    def run(rng):
        net = In([n.with_rng(rng) for n in nodes], accuracy=acc, rng=rng)
        if kind == 'sim':
            return net.simulate(-1, [0], {1: 1})
        return net.logpdf(-1, {0: x}, {1: 1})
    refused, tab, dens = 0, {0: 0, 1: 0}, 0
    for o in E.enumerate_random(run, catch=(ValueError,)):
        if o.error is not None:
            refused = refused + o.weight
        elif kind == 'sim':
            tab[o.value[0]] = tab[o.value[0]] + o.weight
        else:
            dens = dens + o.weight * M.exp(o.value)
    none = E.const(1)
    for _ in range(acc):
        none = none * p[1]
    E.check_eq(refused, none, 'refused-when-every-sample-is')
    if kind == 'sim':
        E.check_eq(tab[1], 0, 'ruled-out-sample-never-kept')
        E.check_eq(tab[0], 1 - none, 'possible-sample-kept')
        return
    want = 0
    for xs in itertools.product((0, 1), repeat=acc):
        if all(xs) or x:
            continue
        q = E.const(1)
        for z in xs:
            q = q * p[z]
        want = want + q * p[0] * w[0] * acc / (w[0] * xs.count(0))
    E.check_eq(dens, want, 'density-over-possible-samples')


def malformed(E, U):
    M = Mth(E)
    In = U['network.importance'].ImportanceNetwork
    bad = {
        'cycle': [([0], [1]), ([1], [0])],
        'long-cycle': [([0], [2]), ([1], [0]), ([2], [1])],
        'self': [([0], [0])],
        'self-later': [([0], []), ([1], [0, 1])],
        'same-output': [([0], []), ([0], [])],
        'overlap': [([0, 1], []), ([1, 2], [])],
        'no-output': [([0], []), ([], [0])],
        'two-cycle-with-pair': [([0, 1], [2]), ([2], [1])],
        'good': [([0], [1]), ([1], [2]), ([2], [])],
        'good-pair': [([0, 1], []), ([2, 3], [1])],
    }
    kind = E.choose('kind', sorted(bad))
    spec = bad[kind]
    nodes = ordered(E, [Node(M, o, i, {}) for o, i in spec])
    e = try_(lambda: In(nodes))
    if kind.startswith('good'):
        E.check(e is None, 'sound-network-accepted')
    else:
        E.check(isinstance(e, ValueError), 'unsound-network-rejected')


def missing(E, U):
    """An outside input that the query needs must be given."""
    M = Mth(E)
    spec = NETS['outside']
    nodes = ordered(E, network(E, M, spec))
    In = U['network.importance'].ImportanceNetwork
    kind = E.choose('kind', ['sim-0', 'sim-1', 'pdf-0', 'pdf-1'])
    have = E.choose('have', [(), (90,), (91,), (90, 91)])
    v = int(kind[-1])
    I = {i: 1 for i in have}
    need = {90} if v == 0 else {90, 91}

    def run(rng):
        net = In([n.with_rng(rng) for n in nodes], rng=rng)
        if kind.startswith('sim'):
            return net.simulate(-1, [v], None, dict(I))
        return net.logpdf(-1, {v: 0}, None, dict(I))
    for o in E.enumerate_random(run, catch=(Exception,)):
        E.check((o.error is None) == (need <= set(have)),
                'outside-inputs-required')


# -- graph helpers over every small network

def graphs(n):
    def h(E, U):
        hu = U['network.helpers']
        edge = {(i, j) for i in range(n) for j in range(n)
                if E.choose('e%d%d' % (i, j), 2)}
        g = {10 + i: [10 + j for j in range(n) if (i, j) in edge]
             for i in range(n)}
        # transitive closure
        reach = set(edge)
        for k in range(n):
            reach |= {(i, j) for i in range(n) for j in range(n)
                      if (i, k) in reach and (k, j) in reach}
        cyclic = any((i, i) in reach for i in range(n))
        out = []
        e = try_(lambda: out.append(hu.topological_sort(dict(g))))
        E.check((e is not None) == cyclic and
                (e is None or isinstance(e, ValueError)), 'cycles-rejected')
        if not cyclic:
            o = [x - 10 for x in out[0]]
            E.check(sorted(o) == list(range(n)), 'every-node-once')
            E.check(all(o.index(j) < o.index(i) for i, j in edge),
                    'parents-first')
    return h


class Shape(object):
    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = outputs, inputs


def helpers(E, U):
    """Reachability over networks of three models, the first with two
    outputs."""
    hu = U['network.helpers']
    outs = [[0, 1], [2], [3]]
    cs = [Shape(outs[0], [90] if E.choose('ext', 2) else [])]
    for i in (1, 2):
        cs.append(Shape(outs[i], [v for o in outs[:i] for v in o
                                  if E.choose('p%d_%d' % (i, v), 2)]))
    cs = ordered(E, cs)
    spec = [(c.outputs, c.inputs) for c in cs]
    q = E.choose('q', 4)
    up = set()
    for out, ins in spec:
        if q in out:
            up = ancestors(spec, ins)
    E.check(set(hu.retrieve_ancestors(cs, q)) == up, 'ancestors')
    down = {v for out, ins in spec for v in out
            if any(ancestors(spec, [i]) & {q} for i in ins)}
    E.check(set(hu.retrieve_descendents(cs, q)) == down, 'descendents')
    vc = hu.retrieve_variable_to_cgpm(cs)
    E.check(all(v in cs[vc[v]].outputs for v in range(4)), 'owner')
    ext = hu.retrieve_extraneous_inputs(cs, vc)
    E.check(set(ext) == {i for _, ins in spec for i in ins if i > 3},
            'outside-inputs')
    for f in (hu.retrieve_ancestors, hu.retrieve_descendents):
        E.check(isinstance(try_(lambda: f(cs, 55)), ValueError),
                'unknown-variable')
    lab = hu.retrieve_weakly_connected_components(cs)
    # connected by direct links in either direction
    comp = {i: {i} for i in range(3)}
    for i in range(3):
        for j in range(3):
            if set(cs[i].outputs) & set(cs[j].inputs):
                m = comp[i] | comp[j]
                for k in m:
                    comp[k] = m
    E.check(all((lab[i] == lab[j]) == (j in comp[i])
                for i in range(3) for j in range(3)), 'components')
    topo = hu.topological_sort(hu.retrieve_adjacency_list(cs, vc))
    E.check(sorted(topo) == [0, 1, 2] and all(
        topo.index(j) < topo.index(i) for i in range(3) for j in range(3)
        if set(cs[j].outputs) & set(cs[i].inputs)), 'parents-first')
    g = E.choose('given', [None] + [c for c in range(4) if c != q])
    given = {} if g is None else {g: 1}
    need = set()
    for out, ins in spec:
        if q in out or g in out:
            need |= ancestors(spec, ins)
    got = hu.retrieve_required_inputs(cs, topo, [q], given, ext)
    E.check(len(got) == len(set(got))
            and set(got) == {v for v in need if v < 4 and v not in (q, g)},
            'required-inputs')


MODS = ['network.importance', 'network.helpers', 'utils.general']


def harnesses():
    def mk(name, fn, bounds, **k):
        return H(name, fn, modules=MODS, bounds=bounds, **k)
    hs = []
    big = ('diamond', 'cross')
    for n in sorted(NETS):
        b = 'network %s: all orders, all queries' % n
        t = 'quick'
        hs += [mk('sample-' + n, sampling(n), b, tier=t),
               mk('density-' + n, density(n), b, tier=t)]
        if n in big:
            hs.append(mk('forward-' + n, simulate(n), b))
        else:
            hs.append(mk('forward-' + n, simulate(n), b))
    return hs + [
        mk('resampling', resampling, '2 models, up to 3 weighted samples'),
        mk('impossible', impossible, '2 models'),
        mk('partly-impossible', partly, '2 models, up to 3 weighted samples'),
        mk('malformed', malformed, '10 networks of up to 3 models'),
        mk('missing', missing, '2 models'),
        mk('graphs-3', graphs(3), 'all directed graphs over 3 nodes'),
        mk('helpers', helpers, '3 models over 4 variables', paths=8000),
        mk('graphs-4', graphs(4), 'all directed graphs over 4 nodes',
           tier='thorough', paths=70000, thorough_seconds=1800),
    ]
