"""C19: malformed queries are rejected and well-formed ones accepted."""
from vp.runner import H
from .lib import PRIMS, posreal
from .slib import (BERN, CAT, NAN, NORM, STable, is_nan, small_grids, try_)
from .vlib import Table
from .c16 import hook

ASSUMPTIONS = ['hyperparameters in [1/16, 16]',
               'condition values lie in the support of their column']
ROLES = ['-', 't', 'c', 'b']


def call(E, obj, kind, row, T, C, inputs=None, N=None):
    """Run a query; returns the exception it raised, or None."""
    if kind == 'logpdf':
        return try_(lambda: obj.logpdf(row, dict(T), dict(C) if C else None,
                                       inputs))
    targets = list(T)
    if kind == 'simulate-dup':
        targets = targets + targets[:1]
    def run(rng):
        return obj.simulate(row, targets, dict(C) if C else None, inputs,
                            **({} if N is None else {'N': N}))
    return try_(lambda: run(None))


def state(composed, row, kinds):
    """Every assignment of roles to two columns, an unknown variable, and
    (composed) a hooked output."""
    def h(E, U):
        small_grids(U)
        zv = E.choose('zv', [{0: 0, 1: 0}, {0: 0, 1: 1}])
        zrv = {v: [0, 1] for v in set(zv.values())}
        # column 1 is missing in row 0
        t = STable(E, [(0, CAT), (1, BERN)], 2, zv, zrv, [(0, 1)])
        s = t.build(U, None)
        if composed:
            hook(U, s, (1,))
        known = [0, 1] + ([100] if composed else [])
        kind = E.choose('kind', kinds)
        T, C = {}, {}
        names = [0, 1, 9] + ([100] if composed else [])
        for c in names:
            role = E.choose('role%d' % c, ROLES if c != 9 else ROLES[:3])
            x = 1
            if c == 0:
                # the condition on column 0 ranges over all its values
                x = E.choose('x0', CAT.support) if role == 'c' else 1
            if role in ('t', 'b'):
                T[c] = x
            if role in ('c', 'b'):
                C[c] = x
        if not T:
            return
        bad = []
        if kind == 'simulate-dup':
            bad.append('repeated target')
        if set(T) & set(C):
            bad.append('target also a condition')
        if any(c not in known for c in list(T) + list(C)):
            bad.append('unknown variable')
        if row in (0, 1):
            for c in (0, 1):
                x = t.X[c][row]
                if is_nan(x):
                    continue
                if c in T and kind == 'logpdf':
                    bad.append('density of an observed cell')
                if c in C and C[c] != x:
                    bad.append('condition contradicts an observed cell')
        X0 = {c: list(s.X[c]) for c in s.outputs}
        e = call(E, s, kind, row, T, C)
        if bad:
            E.check(e is not None, 'rejected', bad[0])
        else:
            E.check(e is None, 'accepted', repr(e))
        E.check({c: [None if is_nan(x) else x for x in s.X[c]]
                 for c in s.outputs}
                == {c: [None if is_nan(x) else x for x in X0[c]] for c in X0},
                'data-untouched')
    return h


def inputs(E, U):
    """Inputs: refused by a model without any, required where declared."""
    small_grids(U)
    t = STable(E, [(0, BERN), (1, BERN)], 2, {0: 0, 1: 0}, {0: [0, 1]})
    s = t.build(U, None)
    kind = E.choose('kind', ['logpdf', 'simulate'])
    row = E.choose('row', [-1, None, 2])
    case = E.choose('case', ['plain', 'required', 'missing', 'target',
                             'condition'])
    if case == 'plain':
        e = call(E, s, kind, row, {0: 1}, {}, {7: 1})
        E.check(e is not None, 'input-without-consumer')
        return
    hook(U, s, inputs=(7,), rng=None)
    if case == 'required':
        e = call(E, s, kind, row, {100: 1}, {}, {7: 1})
        E.check(e is None, 'input-accepted', repr(e))
        e = call(E, s, kind, row, {100: 1, 0: 1}, {1: 1}, {7: 1})
        E.check(e is None, 'input-accepted', repr(e))
    elif case == 'missing':
        e = call(E, s, kind, row, {100: 1}, {}, None)
        E.check(e is not None, 'required-input-missing')
        e = call(E, s, kind, row, {100: 1}, {}, {8: 1})
        E.check(e is not None, 'required-input-missing')
        e = call(E, s, kind, row, {0: 1}, {}, None)
        E.check(e is None, 'input-not-needed', repr(e))
    elif case == 'target':
        e = call(E, s, kind, row, {7: 1}, {}, None)
        E.check(e is not None, 'input-is-not-a-target')
    else:
        e = call(E, s, kind, row, {0: 1}, {100: 1}, None)
        E.check(e is not None, 'condition-needs-input')


def agree(E, U):
    """A condition on an observed cell must restate it, for any real value."""
    small_grids(U)
    t = STable(E, [(0, NORM), (1, BERN)], 2, {0: 0, 1: 0}, {0: [0, 1]},
               [(0, 1)], free=[(0, 0)])
    s = t.build(U, None)
    if E.choose('path', ['fast', 'composed']) == 'composed':
        hook(U, s, inputs=(1,))
    x = t.X[0][0]
    same = E.choose('same', 2)
    if same:
        c = x
    else:
        c = E.real('c', -8, 8)
        d = c - x
        E.assume(d * d > 1)
    kind = E.choose('kind', ['logpdf', 'simulate'])
    e = call(E, s, kind, 0, {1: 1}, {0: c})
    E.check((e is None) == bool(same), 'restatement-only', repr(e))


def view(row):
    def h(E, U):
        t = Table(E, 50, [(0, CAT), (1, BERN)], 2, [0, 1], [(0, 1)],
                  free=())
        v = t.view(U, None)
        kind = E.choose('kind', ['logpdf', 'simulate', 'simulate-dup'])
        T, C = {}, {}
        for c in (50, 0, 1):
            role = E.choose('role%d' % c, ROLES)
            x = E.choose('x%d' % c, 2) if role == 'c' and c == 0 else 1
            if role in ('t', 'b'):
                T[c] = x
            if role in ('c', 'b'):
                C[c] = x
        if not T:
            return
        bad = []
        if kind == 'simulate-dup':
            bad.append('repeated target')
        if set(T) & set(C):
            bad.append('target also a condition')
        if row in (0, 1):
            if 50 in T or 50 in C:
                bad.append('cluster of an observed row')
            for c in (0, 1):
                x = t.X[c][row]
                if c in C and not is_nan(x) and C[c] != x:
                    bad.append('condition contradicts an observed cell')
        e = call(E, v, kind, row, T, C)
        if bad:
            E.check(e is not None, 'view-rejected', bad[0])
        else:
            E.check(e is None, 'view-accepted', repr(e))
    return h


def primitive(p):
    """Queries on a single distribution."""
    def h(E, U):
        hy = p.hypers(E)
        d = p.make(U, hypers=hy)
        x = p.datum(E, 'x')
        p.ok(hy, [x, x], E)
        d.incorporate(4, {0: x})
        q = p.support[0] if p.support else x
        case = E.choose('case', ['row', 'other', 'extra', 'condition',
                                 'input', 'none', 'fine'])
        kind = E.choose('kind', ['logpdf', 'simulate'])
        A = {'row': (4, {0: q}, None, None),
             'other': (-1, {1: q}, None, None),
             'extra': (-1, {0: q, 1: q}, None, None),
             'condition': (-1, {0: q}, {1: q}, None),
             'input': (-1, {0: q}, None, {1: q}),
             'none': (-1, {}, None, None),
             'fine': (E.choose('r', [-1, None, 5]), {0: q}, None, None)}[case]
        e = call(E, d, kind, *A)
        ok = case == 'fine' or (
            case == 'row' and (kind == 'simulate' or p.name == 'crp'))
        E.check((e is None) == ok, 'distribution-query', '%s %r' % (case, e))
        # the model still holds exactly what it held
        e = try_(lambda: d.incorporate(4, {0: x}))
        E.check(e is not None, 'distribution-unchanged')
        d.unincorporate(4)
        E.check(try_(lambda: d.unincorporate(4)) is not None,
                'distribution-unchanged')
    return h


MODS = ['crosscat.state', 'crosscat.sampling', 'mixtures.view',
        'mixtures.dim', 'network.importance', 'utils.general',
        'utils.validation']


def harnesses():
    out = []
    L, S = ['logpdf'], ['simulate', 'simulate-dup']
    for row in (None, -1, 0, 1, 2):
        out.append(H('fast-%s' % row, state(False, row, L + S), modules=MODS,
                     bounds='every role of 2 columns and an unknown variable'))
    for row in (-1, 0, 1):
        for nm, kinds in (('logpdf', L), ('simulate', S)):
            out.append(H(
                'composed-%s-%s' % (nm, row), state(True, row, kinds),
                modules=MODS, paths=6000,
                bounds='every role of 2 columns, an unknown variable and a '
                       'composed output'))
        out.append(H('view-%s' % row, view(row), modules=MODS,
                     bounds='every role of the cluster and 2 columns'))
    out.append(H('inputs', inputs, modules=MODS,
                 bounds='2 columns, a composed model with an external input'))
    out.append(H('agree', agree, modules=MODS,
                 bounds='one real observed cell and condition in [-8, 8]'))
    for p in PRIMS:
        out.append(H('distribution-' + p.name, primitive(p),
                     modules=['primitives.distribution',
                              'primitives.' + p.name],
                     bounds='one observation'))
    return out
