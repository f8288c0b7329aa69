"""C36: models backed by a Venture program hold exactly what was recorded.

The Venture interpreter is replaced by a model of the commands the wrapper
issues: it keeps the labelled observations of the program, runs a `simulators`
or `observers` entry on the arguments it is sent, refuses a label in use, and
can be made to fail at any command.  The values recorded are symbolic."""
import itertools
import types

from vp.runner import H

from .vlib import try_

NAN = float('nan')

ASSUMPTIONS = ['the clock used to name the observations advances between '
               'calls', 'a failing command leaves the program as it was']


def ck(E, label, cond):
    E.check(cond, label)


class Failed(Exception):
    """An error raised by the program."""


class Ripl(object):
    """One program: outputs n_out, inputs n_in; predict/sample draw fresh
    values; values travel as text, decoded by `codec`."""
    world = None

    def __init__(self):
        self.cells = {}        # label -> (i, rowid, args, value)
        self.predicted = {}    # label -> (i, rowid, args)
        self.assumed = {}      # label -> (name, expression)
        self.log = []
        self.fail_at = None
        self.count = 0
        self.programs = []
        self.mode = None
        self.plugins = []

    def tick(self):
        self.count += 1
        if self.fail_at is not None and self.count == self.fail_at:
            raise Failed()

    def arm(self, k):
        self.count, self.fail_at = 0, k

    # -- the interpreter
    def set_mode(self, mode):
        self.mode = mode

    def load_plugin(self, name):
        self.plugins.append(name)

    def execute_program(self, source):
        self.programs.append((self.mode, source))

    def _label(self, label):
        if label in self.cells or label in self.predicted or \
                label in self.assumed:
            raise ValueError('Label in use: %s' % label)
        return label

    def _args(self, text):
        inner = text[text.index('lookup'):].rstrip(')')
        head, rest = inner.split(')', 1)
        _, table, i = head.split()
        return table, int(i), rest.split()

    def evaluate(self, text):
        w = self.world
        if text == '(size inputs)':
            return w.n_in
        if text == '(size observers)':
            return w.n_obs
        if text.startswith('((lookup observers'):
            self.tick()
            table, i, args = self._args(text)
            assert args[-1].startswith("'")
            label = self._label(args[-1][1:])
            if len(args) != w.n_in + 3:
                raise Failed('wrong number of arguments')
            self.cells[label] = (
                i, int(args[0]), [w.decode(a) for a in args[1:-2]],
                w.decode(args[-2]))
            self.log.append(('observe', label))
            return None
        self.log.append(('call', text))
        return None

    def sample(self, text):
        w = self.world
        if text == 'simulators':
            return [None] * w.n_out
        self.tick()
        name, rest = text.split('(', 1)
        assert name.strip() in [n for n, e in self.assumed.values()]
        v = w.draw(text)
        self.log.append((
            'sample', [w.decode(a) for a in rest.rstrip(')').split(',')
                       if a.strip()], v))
        return v

    def predict(self, text, label=None):
        w = self.world
        self.tick()
        table, i, args = self._args(text)
        assert table == 'simulators'
        if len(args) != w.n_in + 1:
            raise Failed('wrong number of arguments')
        self._label(label)
        self.predicted[label] = text
        v = w.draw(text)
        self.log.append(('predict', i, int(args[0]),
                         [w.decode(a) for a in args[1:]],
                         self.content(), v))
        return v

    def forget(self, label):
        for d in (self.cells, self.predicted, self.assumed):
            if label in d:
                del d[label]
                return
        raise ValueError('No such label: %s' % label)

    def infer(self, text):
        self.tick()
        self.log.append(('infer', text, self.content()))

    def assume(self, name, expression, label=None):
        self.tick()
        if name in [n for n, e in self.assumed.values()]:
            raise ValueError('Symbol bound: %s' % name)
        self.assumed[self._label(label)] = (name, expression)

    def observe(self, text, value, label=None):
        w = self.world
        self.tick()
        name, rest = text.split('(', 1)
        assert name.strip() in [n for n, e in self.assumed.values()]
        self._label(label)
        self.predicted[label] = text
        v = w.draw(text)
        self.log.append((
            'score', [w.decode(a) for a in rest.rstrip(')').split(',')
                      if a.strip()], value, v))
        return [v]

    def content(self):
        return list(self.cells.values())

    def saves(self):
        w = self.world
        w.saved.append((dict(self.cells), dict(self.predicted)))
        return b'%d' % (len(w.saved) - 1)

    def loads(self, s):
        cells, predicted = self.world.saved[int(s)]
        self.cells, self.predicted = dict(cells), dict(predicted)


class World(object):
    def __init__(self, E, n_out=2, n_in=1, n_obs=None):
        self.E = E
        self.n_out, self.n_in = n_out, n_in
        self.n_obs = n_out if n_obs is None else n_obs
        self.codec = {}
        self.saved = []
        self.made = []
        self.draws = 0

    def real(self, name):
        v = self.E.real(name)
        self.codec[str(v)] = v
        return v

    def decode(self, token):
        token = token.strip()
        return self.codec[token] if token in self.codec else float(token)

    def draw(self, text):
        self.draws += 1
        return self.real('draw%d' % self.draws)

    def make(self, seed=None):
        r = Ripl()
        r.world = self
        self.made.append(r)
        return r


class Clock(object):
    t = 0

    @classmethod
    def now(cls):
        cls.t += 1
        return cls()

    def __init__(self):
        self.at = Clock.t

    def strftime(self, fmt):
        return '%020d' % self.at


def stubs(symbolic):
    shortcuts = types.ModuleType('venture.shortcuts')
    shortcuts.make_lite_ripl = None
    venture = types.ModuleType('venture')
    venture.shortcuts = shortcuts
    return {'venture': venture, 'venture.shortcuts': shortcuts}


class RNG(object):
    """The seed and label digits; any value does."""

    def __init__(self):
        self.n = 0

    def randint(self, low, high=None, size=None):
        self.n += 1
        return low + self.n % (high - low)


def build(E, U, W, outputs=(0, 1), inputs=(3,), **kw):
    mod = U['venturescript.vscgpm']
    mod.vs.make_lite_ripl = W.make
    mod.datetime = Clock
    g = mod.VsCGpm(list(outputs), list(inputs), rng=RNG(), **kw)
    return g, W.made[-1]


def same_cells(E, label, got, want):
    """got, want: lists of (i, rowid, args, value), in any order."""
    ck(E, label + ': as many observations as cells', len(got) == len(want))
    key = lambda c: (c[1], c[0])
    for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
        ck(E, label + ': the cell', a[0] == b[0] and a[1] == b[1] and
                len(a[2]) == len(b[2]))
        for x, y in zip(a[2], b[2]):
            ck(E, label + ': its inputs', x == y)
        ck(E, label + ': its value', a[3] == b[3])


class Ref(object):
    """What has been recorded: {rowid: (inputs, {output: value})}."""

    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = list(outputs), list(inputs)
        self.rows = {}

    def cells(self, extra=()):
        r = []
        for rowid, (w, cells) in self.rows.items():
            for c, v in cells.items():
                r.append((self.outputs.index(c), rowid,
                          [w[i] for i in self.inputs], v))
        return r + list(extra)

    def conflict(self, rowid, w):
        """May the inputs w (or None) be given for rowid?"""
        if rowid not in self.rows:
            return set(w or {}) != set(self.inputs)
        if not w:
            return False
        mine = self.rows[rowid][0]
        if set(w) != set(mine):
            return True
        for i in w:
            if not bool(w[i] == mine[i]):
                return True
        return False


# -------------------------------------------------- histories of edits

def step(E, W, g, ripl, ref, n, rows, kinds):
    """One call; returns nothing, checks the program against the record."""
    kind = E.choose('call%d' % n, kinds)
    rowid = E.choose('row%d' % n, rows)
    fail = None
    if kind == 'unincorporate':
        def call():
            g.unincorporate(rowid)
        ok = rowid in ref.rows

        def effect():
            del ref.rows[rowid]
    else:
        given = E.choose('inputs%d' % n, ['given', 'none'])
        w = {i: W.real('w%d_%d' % (n, i)) for i in ref.inputs} \
            if given == 'given' else None
        if kind == 'incorporate':
            cs = E.choose('cells%d' % n, [[0], [1], [0, 1]])
            obs = {c: W.real('v%d_%d' % (n, c)) for c in cs}
            fail = E.choose('failure%d' % n, [None, 1, 2][:len(cs) + 1])

            def call():
                g.incorporate(rowid, dict(obs), w if w is None else dict(w))
            ok = not ref.conflict(rowid, w) and not any(
                c in ref.rows.get(rowid, ({}, {}))[1] for c in cs)

            def effect():
                row = ref.rows.setdefault(rowid, (w, {}))
                row[1].update(obs)
        else:
            ts, cs = E.choose('query%d' % n, [
                ([0, 1], []), ([1], [0]), ([0], [])])
            cond = {c: W.real('k%d_%d' % (n, c)) for c in cs}
            fail = E.choose('failure%d' % n, [None, 1, 2, 3][
                :len(ts) + 1 + 2 * bool(cs)])

            def call():
                g.simulate(rowid, list(ts), dict(cond),
                           w if w is None else dict(w))
            ok = not ref.conflict(rowid, w) and not any(
                c in ref.rows.get(rowid, ({}, {}))[1] for c in cs)

            def effect():
                pass
    ripl.arm(fail)
    e = try_(call)
    ripl.arm(None)
    if not ok:
        ck(E, 'a call that contradicts the record is refused',
                isinstance(e, ValueError))
    elif fail is not None:
        ck(E, 'an error of the program reaches the caller',
                isinstance(e, Failed))
    else:
        ck(E, 'a well formed call is accepted', e is None)
        effect()
    same_cells(E, 'the program after the calls', ripl.content(), ref.cells())
    ck(E, 'nothing predicted stays in the program', not ripl.predicted)


def h_history(n, kinds, rows, n_in=1, first=None):
    def h(E, U):
        W = World(E, 2, n_in)
        inputs = [3, 5][:n_in]
        g, ripl = build(E, U, W, [0, 1], inputs)
        ref = Ref([0, 1], inputs)
        for k in range(n):
            step(E, W, g, ripl, ref, k, rows,
                 [first] if first and k == 0 else kinds)
    return h


# ------------------------------------------------------------- queries

def h_simulate(E, U):
    """What is in force while a value is drawn, and what is returned."""
    n_in = E.choose('inputs', [0, 1, 2])
    inputs = [9, 4][:n_in]
    outputs = [2, 0, 1]
    W = World(E, 3, n_in)
    g, ripl = build(E, U, W, outputs, inputs)
    ref = Ref(outputs, inputs)
    w0 = {i: W.real('w0_%d' % i) for i in inputs}
    v = {c: W.real('v%d' % c) for c in outputs}
    k = {c: W.real('k%d' % c) for c in outputs}
    seen = E.choose('recorded', [[], [0], [0, 1]])
    if seen:
        g.incorporate(5, {c: v[c] for c in seen}, dict(w0))
        ref.rows[5] = (w0, {c: v[c] for c in seen})
    rowid = E.choose('row', [5, 6])
    targets, cond = E.choose('query', [
        ([2], []), ([1, 2], []), ([2], [1]), ([1], [2]), ([2, 0], [1]),
        ([0, 1], [2]), ([2], [1, 0])])
    w1 = w0 if rowid == 5 and seen else \
        {i: W.real('w1_%d' % i) for i in inputs}
    give = E.choose('inputs given', [1, 0]) \
        if rowid == 5 and seen and inputs else 1
    E.assume(not (rowid == 5 and set(cond) & set(seen)))
    N = E.choose('N', [None, 0, 1, 2])
    how = E.choose('N by', ['name', 'position']) if N == 2 else 'name'
    del ripl.log[:]
    a = (rowid, list(targets), {c: k[c] for c in cond} or None,
         dict(w1) if give else None)
    got = g.simulate(*(a + (N,))) if how == 'position' else \
        g.simulate(*a, N=N)
    ck(E, 'N draws are a list of N', (N is None) == isinstance(got, dict)
            and (N is None or len(got) == N))
    if isinstance(got, dict) != (N is None):
        return
    draws = [got] if N is None else got
    here = [(outputs.index(c), rowid, [w1[i] for i in inputs], k[c])
            for c in cond]
    log = [x for x in ripl.log if x[0] in ('predict', 'infer')]
    at = 0
    for d in draws:
        ck(E, 'one value per target', set(d) == set(targets))
        if cond:
            ck(E, 'the row is resampled given the constraints',
                    at < len(log) and log[at][0] == 'infer' and
                    str(rowid) in log[at][1])
            same_cells(E, 'in force while resampling', log[at][2],
                       ref.cells(here))
            at += 1
        mine = log[at:at + len(targets)]
        at += len(targets)
        ck(E, 'one prediction per target', sorted(x[1] for x in mine) ==
                sorted(outputs.index(t) for t in targets))
        for x in mine:
            ck(E, 'the prediction is for the row', x[2] == rowid)
            for y, i in zip(x[3], inputs):
                ck(E, 'the prediction is at the inputs', y == w1[i])
            same_cells(E, 'in force while predicting', x[4], ref.cells(here))
            ck(E, 'the value drawn is returned',
                    d[outputs[x[1]]] is x[5])
    ck(E, 'nothing else is drawn', at == len(log))
    same_cells(E, 'afterwards', ripl.content(), ref.cells())
    ck(E, 'nothing predicted stays', not ripl.predicted)
    ck(E, 'the row can be recorded afterwards as before', (try_(
        lambda: g.unincorporate(rowid)) is None) == (rowid in ref.rows))


def h_reject(E, U):
    """Malformed calls are refused and change nothing."""
    W = World(E, 2, 1)
    g, ripl = build(E, U, W, [0, 1], [3])
    ref = Ref([0, 1], [3])
    a, b, c = W.real('a'), W.real('b'), W.real('c')
    if E.choose('recorded', [0, 1]):
        g.incorporate(4, {0: a}, {3: b})
        ref.rows[4] = ({3: b}, {0: a})
    call = E.choose('call', [
        ('i', {}, {3: 'b'}), ('i', {1: NAN}, {3: 'b'}),
        ('i', {1: 'c'}, {3: NAN}), ('i', {2: 'c'}, {3: 'b'}),
        ('i', {1: 'c', 7: 'a'}, {3: 'b'}), ('i', {1: 'c'}, {3: 'b', 8: 'a'}),
        ('i', {1: 'c'}, {8: 'b'}), ('i', {3: 'c'}, {3: 'b'}),
        ('s', [1], {2: 'c'}, {3: 'b'}), ('s', [2], {}, {3: 'b'}),
        ('s', [1], {1: 'c'}, {3: 'b'}), ('s', [1], {}, {3: NAN}),
        ('s', [1], {0: NAN}, {3: 'b'}), ('s', [1], {}, {8: 'b'}),
        ('s', [1, 3], {}, {3: 'b'}), ('s', [1], {}, {3: 'b', 8: 'c'}),
        ('s', [0, 1], {0: 'c'}, {3: 'b'})])
    val = {'a': a, 'b': b, 'c': c}
    sub = lambda d: {k: val.get(x, x) if isinstance(x, str) else x
                     for k, x in d.items()}
    rowid = E.choose('row', [4, 6])
    if call[0] == 'i':
        e = try_(lambda: g.incorporate(rowid, sub(call[1]), sub(call[2])))
    else:
        e = try_(lambda: g.simulate(rowid, list(call[1]), sub(call[2]),
                                    sub(call[3])))
    ck(E, 'a malformed call is refused', isinstance(e, ValueError))
    same_cells(E, 'after the refusal', ripl.content(), ref.cells())
    ck(E, 'no prediction is left', not ripl.predicted)
    e = try_(lambda: g.incorporate(6, {1: c}))
    ck(E, 'a refused row needs its inputs still', isinstance(e, ValueError))
    e = try_(lambda: g.unincorporate(6))
    ck(E, 'a refused row is not recorded', isinstance(e, ValueError))
    g.incorporate(6, {1: c}, {3: b})
    ref.rows[6] = ({3: b}, {1: c})
    same_cells(E, 'after the next call', ripl.content(), ref.cells())


def h_declare(E, U):
    """The declared variables must match those of the program."""
    n_out = E.choose('outputs declared', [1, 2])
    n_in = E.choose('inputs declared', [0, 1, 2])
    W = World(E, E.choose('simulators', [1, 2]), E.choose('inputs', [0, 1]),
              E.choose('observers', [1, 2]))
    overlap = E.choose('overlap', [0, 1])
    outputs = [0, 1][:n_out]
    inputs = ([0, 3] if overlap else [3, 4])[:n_in]
    dup = E.choose('repeated', ['', 'outputs', 'inputs'])
    if dup == 'outputs' and n_out == 2:
        outputs = [1, 1]
    if dup == 'inputs' and n_in == 2:
        inputs = [3, 3]
    ok = len(set(outputs)) == len(outputs) and \
        len(set(inputs)) == len(inputs) and \
        not set(inputs) & set(outputs) and W.n_out == W.n_obs == n_out and \
        W.n_in == n_in
    sp = E.choose('procedure', [None, 'other'])
    src = E.choose('source', [None, 'program'])
    mode = E.choose('mode', [None, 'venture_script'])
    e = try_(lambda: build(E, U, W, outputs, inputs, source=src,
                           **dict([('sp', sp)] * bool(sp),
                                  **(dict(mode=mode) if mode else {}))))
    ck(E, 'accepted exactly when the declarations agree',
            (e is None) == ok and (e is None or isinstance(e, ValueError)))
    if ok:
        r = W.made[-1]
        ck(E, 'the source is run once, in its mode', r.programs == (
            [(mode or 'church_prime', src)] if src else []))
        ck(E, 'the declared procedure is run once',
                r.log == [('call', '(%s)' % (sp or 'make_cgpm'))])
        ck(E, 'the commands of the wrapper are in church prime',
                r.mode == 'church_prime')


def h_metadata(E, U):
    """A restored model holds, accepts and refuses what the saved one did."""
    import json
    W = World(E, 2, 1)
    g, ripl = build(E, U, W, [0, 1], [3], source='program',
                    mode='venture_script')
    ref = Ref([0, 1], [3])
    a, b, c, d = [W.real(x) for x in 'abcd']
    rec = E.choose('recorded', [[], [(4, [0])], [(4, [0, 1])],
                                [(4, [1]), (11, [0])]])
    for rowid, cs in rec:
        w = {3: b}
        obs = {0: a, 1: c}
        g.incorporate(rowid, {k: obs[k] for k in cs}, w)
        ref.rows[rowid] = (w, {k: obs[k] for k in cs})
    md = g.to_metadata()
    ck(E, 'writing changes nothing', True)
    same_cells(E, 'after writing', ripl.content(), ref.cells())
    if not E.symbolic:
        md = dict(md, binary=md['binary'].decode('ascii'))
        md = json.loads(json.dumps(md))
    build_ = getattr(__import__('importlib'), 'import_module')
    name, attr = md['factory']
    g2 = getattr(U[name.replace('cgpm.', '', 1)], attr).from_metadata(
        md, rng=RNG())
    r2 = W.made[-1] if W.made[-1].cells or not ref.rows else \
        [r for r in W.made if r is not ripl and r.cells][-1]
    r2 = g2.ripl
    same_cells(E, 'restored', r2.content(), ref.cells())
    ck(E, 'variables', list(g2.outputs) == [0, 1] and
            list(g2.inputs) == [3])
    # both go on alike
    ref2 = Ref([0, 1], [3])
    ref2.rows = {r: (dict(w), dict(cs)) for r, (w, cs) in ref.rows.items()}
    step(E, W, g2, r2, ref2, 1, [4, 11, 12], ['incorporate', 'unincorporate',
                                             'simulate'])
    same_cells(E, 'the original is untouched', ripl.content(), ref.cells())
    # what was written can be restored again
    g3 = getattr(U[name.replace('cgpm.', '', 1)], attr).from_metadata(
        md, rng=RNG())
    same_cells(E, 'restored again', g3.ripl.content(), ref.cells())
    step(E, W, g3, g3.ripl, ref, 2, [4], ['unincorporate'])
    md2 = g2.to_metadata()
    ck(E, 'description', all(md2[k] == md[k] for k in (
        'source', 'mode', 'outputs', 'inputs', 'plugins')))


# -------------------------------------------------- inline expressions

class Source(str):
    """A Python 2 string."""

    def encode(self, *args):
        return self


def inline(E, U, W, outputs, inputs, text):
    mod = U['venturescript.vsinline']
    mod.vs.make_lite_ripl = W.make
    g = mod.InlineVsCGpm(list(outputs), list(inputs), rng=RNG(),
                         expression=Source(text))
    return g, W.made[-1]


EXPR = {0: '() ~> {normal(0, 1)}', 1: '(a) ~> {normal(a, 1)}',
        2: '(a, b) ~>\n {uniform(a, b)}'}


def h_inline(E, U):
    n_in = E.choose('inputs', [0, 1, 2])
    W = World(E, 1, n_in)
    inputs = [7, 2][:n_in]
    restore = E.choose('restored', [0, 1])
    g, r = inline(E, U, W, [1], inputs, EXPR[n_in])
    if restore:
        md = dict(g.to_metadata())
        name, attr = md['factory']
        g = getattr(U[name.replace('cgpm.', '', 1)], attr).from_metadata(
            md, rng=RNG())
        r = W.made[-1]
    ck(E, 'variables', list(g.outputs) == [1] and list(g.inputs) == inputs)
    boot = list(r.programs)
    ck(E, 'the expression is run', (None, EXPR[n_in]) in boot)
    for n in range(2):
        w = {i: W.real('w%d_%d' % (n, i)) for i in inputs}
        call = E.choose('call%d' % n, ['logpdf', 'simulate', 'N'])
        fail = E.choose('failure%d' % n, [None, 1, 2]) if n == 0 else None
        v = W.real('v%d' % n)
        del r.log[:]
        r.arm(fail)
        give = dict(w) if w else E.choose('empty%d' % n, [None, {}])
        out = []
        if call == 'logpdf':
            e = try_(lambda: out.append(g.logpdf(0, {1: v}, None, give)))
        elif call == 'simulate':
            e = try_(lambda: out.append(g.simulate(0, [1], None, give)))
        else:
            e = try_(lambda: out.append(g.simulate(0, [1], None, give, N=2)))
        r.arm(None)
        ck(E, 'an error of the program reaches the caller',
                isinstance(e, Failed) if fail else e is None)
        ck(E, 'the program is as before', not r.assumed and
                not r.predicted and not r.cells)
        if e is not None:
            continue
        log = r.log
        if call == 'logpdf':
            ck(E, 'one score', [x[0] for x in log] == ['score'])
            ck(E, 'the score is returned', out[0] is log[0][3])
            ck(E, 'the value scored', log[0][2] == v)
        else:
            n_draws = 1 if call == 'simulate' else 2
            ck(E, 'draws', [x[0] for x in log] == ['sample'] * n_draws)
            got = [out[0]] if call == 'simulate' else out[0]
            ck(E, 'the draws are returned', len(got) == n_draws and all(
                set(x) == {1} and x[1] is y[2] for x, y in zip(got, log)))
        for x in log:
            ck(E, 'arguments', len(x[1]) == len(inputs))
            for y, i in zip(x[1], inputs):
                ck(E, 'arguments in the declared order', y == w[i])


def h_inline_reject(E, U):
    text = E.choose('expression', [None] + [EXPR[k] for k in sorted(EXPR)])
    outputs = E.choose('outputs', [[1], [1, 2], []])
    inputs = E.choose('inputs', [[], [7], [7, 2], [7, 7], [1]])
    W = World(E, 1, 1)
    ok = text is not None and len(outputs) == 1 and \
        len(set(inputs)) == len(inputs) and not set(outputs) & set(inputs) \
        and EXPR[len(inputs)] == text
    mod = U['venturescript.vsinline']
    mod.vs.make_lite_ripl = W.make
    e = try_(lambda: mod.InlineVsCGpm(
        list(outputs), list(inputs), rng=RNG(),
        expression=text if text is None else Source(text)))
    ck(E, 'accepted exactly when the declarations agree', (e is None) == ok)


MODS = ['venturescript.vscgpm']


def harnesses():
    K = ['incorporate', 'unincorporate', 'simulate']
    hs = []
    for first in K:
        hs.append(H('history-%s' % first, h_history(2, K, [0, 7], 1, first),
                    MODS, 'every sequence of 2 calls on 2 rows, 2 outputs and '
                    '1 input that starts with %s; failure at every command of '
                    'the program; all real values' % first, stubs=stubs,
                    paths=6000, assumes=ASSUMPTIONS))
    hs.append(H('history-two-inputs', h_history(2, K, [4], 2, 'incorporate'),
                MODS, 'as above with 2 inputs, on one row', stubs=stubs,
                paths=6000, assumes=ASSUMPTIONS))
    for kind in K:
        hs.append(H('history-three-%s' % kind, h_history(
            3, [kind], [4], 1, 'incorporate'), MODS,
            '3 calls on one row: incorporate, then twice %s' % kind,
            stubs=stubs, paths=8000, assumes=ASSUMPTIONS))
    hs.append(H('history-three', h_history(3, K, [4], 1, 'incorporate'), MODS,
                'every sequence of 3 calls on one row that starts by '
                'incorporate', stubs=stubs, paths=40000, tier='thorough',
                seconds=700, assumes=ASSUMPTIONS))
    hs += [
        H('simulate', h_simulate, MODS, '3 outputs, up to 2 inputs, up to 2 '
          'cells recorded, up to 2 targets and 2 constraints, N up to 2',
          stubs=stubs, paths=6000, assumes=ASSUMPTIONS),
        H('malformed', h_reject, MODS, '17 malformed calls on a recorded and '
          'an unrecorded row', stubs=stubs, assumes=ASSUMPTIONS),
        H('declarations', h_declare, MODS, 'up to 2 outputs and inputs '
          'against programs of up to 2 simulators, observers and inputs',
          stubs=stubs, assumes=ASSUMPTIONS),
        H('metadata', h_metadata, MODS, 'up to 2 recorded rows, one call '
          'after restoring', stubs=stubs, assumes=ASSUMPTIONS),
        H('inline', h_inline, ['venturescript.vsinline'], 'expressions of up '
          'to 2 inputs, 2 calls, failure at every command', stubs=stubs,
          assumes=ASSUMPTIONS),
        H('inline-declarations', h_inline_reject, ['venturescript.vsinline'],
          '3 expressions against up to 2 inputs and outputs', stubs=stubs,
          assumes=ASSUMPTIONS)]
    return hs
