"""C32: data coding helpers are lossless and consistent.

References: the documented codings (k - 1 indicators for k categories, categories
numbered in sorted order, 'name(arg=value)' types, loom types), set algebra of
dicts and lists, grouping by assignment, and binomial coefficients."""
import itertools

import numpy as np

from vp.runner import H
from .lib import Mth, posreal
from .vlib import try_

ASSUMPTIONS = ['values within [-3, 3], at most 4 entries per table']
NAN = float('nan')


def code(x, ks):
    out = []
    for i, v in enumerate(x):
        if i in ks:
            out += [1 if v == j else 0 for j in range(ks[i] - 1)]
        else:
            out.append(v)
    return out


def dummy(E, U):
    du = U['utils.data']
    shape = [[None, 3], [2, None, 3], [3, 2], [None, None], [4], [1, None]][
        E.choose('shape', 6)]
    ks = {i: k for i, k in enumerate(shape) if k}

    def vec(tag):
        return [E.real('%s%d' % (tag, i), -3, 3) if not k
                else E.int('%s%d' % (tag, i), 0, k - 1, flt=bool(i % 2))
                for i, k in enumerate(shape)]
    x, y = vec('x'), vec('y')
    a, b = du.dummy_code(list(x), dict(ks)), du.dummy_code(list(y), dict(ks))
    want = code(x, ks)
    E.check(len(a) == len(want) == len(b), 'documented-code')
    for p, q in zip(a, want):
        E.check_eq(p, q, 'documented-code')
    same = all(bool(p == q) for p, q in zip(a, b))
    if same:
        E.check(all(bool(p == q) for p, q in zip(x, y)),
                'distinct-values-have-distinct-codes')


def dummy_rejects(E, U):
    du = U['utils.data']
    k = 2 + E.choose('k', 2)
    v = E.real('v', -3, 6)
    e = try_(lambda: du.dummy_code([E.const(1) + 0, v], {1: k}))
    ok = any(bool(v == j) for j in range(k))
    E.check((e is None) == ok, 'rejects-exactly-the-invalid', repr(e))
    E.check(e is None or isinstance(e, (TypeError, ValueError)),
            'rejects-exactly-the-invalid')


def distargs(E, U):
    cu = U['utils.config']
    pool = [('normal', {}), ('categorical', {'k': 8}), ('beta', {}),
            ('normal_trunc', {'l': -1, 'h': 2.5}), ('poisson', {}),
            ('random_forest', {'k': 2}), ('linear_regression', {'p': 12})]
    n = E.choose('n', 4)
    pick = [pool[E.choose('p%d' % i, len(pool))] for i in range(n)]
    text = [c + ('(%s)' % ','.join('%s=%s' % kv for kv in sorted(d.items()))
                 if d else '') for c, d in pick]
    cs, ds = cu.parse_distargs(list(text))
    E.check(list(cs) == [c for c, _ in pick], 'names')
    E.check(len(ds) == n, 'names')
    for got, (_, d) in zip(ds, pick):
        E.check((got or {}) == d and (got is None) == (not d), 'arguments')


def types(E, U):
    """Every built-in distribution resolves to the class of that name, and to
    its documented loom type."""
    cu = U['utils.config']
    names = sorted(cu.all_cctypes())
    c = names[E.choose('c', len(names))]
    E.check(cu.valid_cctype(c), 'known-type')
    E.check(not cu.valid_cctype(c + 'x'), 'unknown-type-rejected')
    k = E.int('k', 2, 400, flt=False)
    e = try_(lambda: cu.loom_stattype(c, {'k': k}))
    loom = {'bernoulli': 'boolean', 'crp': 'unbounded_categorical',
            'poisson': 'count'}
    if c in ('linear_regression', 'random_forest'):
        E.check(isinstance(e, ValueError), 'loom-type')
    else:
        want = loom.get(c, 'real')
        if c == 'categorical':
            want = 'categorical' if k <= 256 else 'unbounded_categorical'
        E.check(cu.loom_stattype(c, {'k': k}) == want, 'loom-type')
    E.check(isinstance(try_(lambda: cu.cctype_class(None)), ValueError),
            'unknown-type-rejected')


CLASSES = ['bernoulli', 'beta', 'categorical', 'crp', 'exponential',
           'geometric', 'lognormal', 'normal', 'normal_trunc', 'poisson',
           'vonmises']


def classes(E, U):
    cu = U['utils.config']
    c = CLASSES[E.choose('c', len(CLASSES))]
    E.check(cu.cctype_class(c).name() == c, 'class-of-that-name')


# --------------------------------------------------------------------- data

def schema(E, U):
    """A table of one numerical, one two-valued and one many-valued column,
    with an ignored one."""
    import pandas as pd
    du = U['utils.data']
    n = 3
    cats = ['b', 'a', 'c']
    given = [None, 3, 5][E.choose('given', 3)]
    title = ['country', 'size (cm)', 'n(k=7)'][E.choose('title', 3)]
    strs = [cats[E.choose('s%d' % i, 3)] for i in range(n)]
    gone = E.choose('missing', 5)
    if gone < n:
        strs[gone] = 'NA'
    elif gone == n:
        strs[0] = np.nan
    flag = [['y', 'n', 'y'], ['n', 'NA', 'y']][E.choose('flag', 2)]
    xs = [1.5, -2., 'NA' if gone == 1 else .25]
    order = [[0, 1, 2, 3], [3, 2, 1, 0]][E.choose('order', 2)]
    cols = [('id', 'ignore', 9), ('age', 'normal', 4), ('sex', 'bernoulli', 0),
            (title, 'categorical' + ('' if given is None
                                     else '(k=%d)' % given), 7)]
    df = pd.DataFrame({'id': [5, 6, 7], 'age': xs, 'sex': flag, title: strs})
    sch = [cols[i] for i in order]
    T, outputs, cctypes, dargs, valmap, columns = du.parse_schema(sch, df)
    kept = [c for c in sch if c[1] != 'ignore']
    E.check(list(columns) == [c[0] for c in kept], 'columns-kept-in-order')
    E.check(list(outputs) == [c[2] for c in kept], 'columns-kept-in-order')
    E.check(list(cctypes) == [c[1].split('(')[0] for c in kept], 'types')
    seen = sorted(set(s for s in strs if isinstance(s, str) and s != 'NA'))
    for j, (c, t, _) in enumerate(kept):
        raw = {'age': xs, 'sex': flag, title: strs}[c]
        col = [T[i][j] for i in range(n)]
        lost = [v == 'NA' or v != v for v in raw]
        for v, m in zip(col, lost):
            E.check((float(v) != float(v)) == bool(m),
                    'missing-exactly-where-missing')
        if c == 'age':
            E.check(all(m or float(v) == r for v, r, m in
                        zip(col, raw, lost)), 'numbers-unchanged')
            E.check(dargs[j] is None, 'arguments')
            continue
        levels = ['n', 'y'] if c == 'sex' else seen
        E.check(valmap[c] == {v: k for k, v in enumerate(levels)},
                'categories-numbered-in-order')
        E.check(all(m or levels[int(v)] == r for v, r, m in
                    zip(col, raw, lost)), 'decodes-to-the-original')
        if c == 'sex':
            E.check(dargs[j] is None, 'arguments')
        else:
            E.check(dargs[j] == {'k': given or len(seen)},
                    'number-of-categories')


def numbers(E, U):
    """Numeric categories are numbered in order, wherever cells are missing,
    so that 0 and 1 stay 0 and 1."""
    import pandas as pd
    du = U['utils.data']
    vals = [[0., 1., NAN], [-2., 3., .5, NAN]][E.choose('values', 2)]
    raw = [vals[E.choose('v%d' % i, len(vals))] for i in range(4)]
    seen = sorted(set(v for v in raw if v == v))
    if len(seen) < 1 or len(vals) == 3 and len(seen) < 2:
        return
    t = 'bernoulli' if len(vals) == 3 else 'categorical'
    T, _, _, dargs, valmap, _ = du.parse_schema(
        [('a', t, 0)], pd.DataFrame({'a': raw}))
    E.check(valmap['a'] == {v: k for k, v in enumerate(seen)},
            'categories-numbered-in-order', '%s: %s' % (raw, valmap))
    E.check(all(a != a and b != b or seen[int(b)] == a
                for a, b in zip(raw, [r[0] for r in T])),
            'decodes-to-the-original')


def too_many(E, U):
    import pandas as pd
    du = U['utils.data']
    k = 1 + E.choose('k', 4)
    df = pd.DataFrame({'a': ['x', 'y', 'z']})
    e = try_(lambda: du.parse_schema([('a', 'categorical(k=%d)' % k, 0)], df))
    E.check((e is None) == (k >= 3), 'more-values-than-categories-rejected')
    e = try_(lambda: du.parse_schema([('a', 'bernoulli', 0)], df))
    E.check(e is not None, 'more-values-than-categories-rejected')


# ------------------------------------------------------- containers

def keys(E, tag, n=3):
    return [i for i in (7, 2, 5)[:n] if E.choose('%s%d' % (tag, i), 2)]


def sets(E, U):
    gu = U['utils.general']
    A, B = keys(E, 'a'), keys(E, 'b')
    a = {i: E.real('a%d' % i, -3, 3) for i in A}
    b = {i: E.real('b%d' % i, -3, 3) for i in B}
    m = gu.merged(dict(a), dict(b))
    E.check(sorted(m) == sorted(set(A) | set(B)), 'merged')
    for k in m:
        E.check_eq(m[k], b[k] if k in b else a[k], 'merged-later-wins')
    m = gu.mergedl([dict(a), dict(b)])
    E.check(sorted(m) == sorted(set(A) | set(B)), 'merged')
    E.check(gu.lchain(A, B) == A + B, 'chained')
    E.check(bool(gu.is_disjoint(A, B)) == (not set(A) & set(B)), 'disjoint')
    r = gu.get_intersection(A, dict(b))
    E.check(sorted(r) == sorted(set(A) & set(B)), 'intersection')
    for k in r:
        E.check_eq(r[k], b[k], 'intersection')
    r = gu.get_intersection(A, list(B))
    E.check(r == [i for i in B if i in A], 'intersection')
    E.check(gu.get_intersection(A, None) == [], 'intersection')
    E.check(gu.get_intersection(dict(a), None) == {}, 'intersection')


def partitions(E, U):
    vu = U['utils.validation']
    n = 4
    Z = {i: [3, 0, 7][E.choose('z%d' % i, 3)] for i in range(n)}
    L = [[2, 1, 0, 3], [3], [1, 3, 2], []][E.choose('L', 4)]
    got = vu.partition_list(dict(Z), list(L))
    E.check(sorted(got) == sorted(set(Z[l] for l in L)), 'groups')
    for k in got:
        E.check(list(got[k]) == [l for l in L if Z[l] == k], 'groups')
    V = {l: E.real('v%d' % l, -3, 3) for l in L}
    ev = {l: E.real('w%d' % l, -3, 3) for l in range(n) if l not in L} \
        if E.choose('ev', 2) else None
    for q in (list(L), dict(V)):
        qs, es = vu.partition_query_evidence(
            dict(Z), q, ev if ev is None else dict(ev))
        E.check(sorted(qs) == sorted(set(Z[l] for l in L)), 'query-groups')
        E.check(sorted(l for k in qs for l in qs[k]) == sorted(L) and all(
            Z[l] == k for k in qs for l in qs[k]), 'query-groups')
        if isinstance(q, dict):
            for k in qs:
                for l in qs[k]:
                    E.check_eq(qs[k][l], V[l], 'query-groups')
        E.check(sorted(l for k in es for l in es[k]) == sorted(ev or {})
                and all(Z[l] == k for k in es for l in es[k]),
                'evidence-groups')
        for k in es:
            for l in es[k]:
                E.check_eq(es[k][l], ev[l], 'evidence-groups')


def blocks(E, U):
    gu = U['utils.general']
    n, v = 3, 2
    Zvr = [[E.choose('z%d_%d' % (k, i), 2) for i in range(n)]
           for k in range(v)]
    got = gu.build_rowid_blocks([list(z) for z in Zvr])
    want = {}
    for i in range(n):
        want.setdefault(tuple(z[i] for z in Zvr), []).append(i)
    E.check({tuple(int(a) for a in k): [int(a) for a in x]
             for k, x in got.items()} == want, 'rows-by-their-clusters')


# ---------------------------------------------------------------- numerics

def numerics(E, U):
    gu, M = U['utils.general'], Mth(E)
    n = 1 + E.choose('n', 3)
    p = [posreal(E, 'p%d' % i, '1/8', 8) for i in range(n)]
    t = sum(p[1:], p[0])
    q = gu.normalize(list(p))
    r = gu.log_normalize([M.log(x) for x in p])
    for x, y, z in zip(p, q, r):
        E.check_eq(y * t, x, 'normalised')
        E.check_eq(M.exp(z) * t, x, 'log-normalised')
    for f, a in ((gu.pflip, p), (gu.log_pflip, [M.log(x) for x in p])):
        names = [[4, 9, 1][:n], None][E.choose('names', 2)]
        size = [None, 2][E.choose('size', 2)]
        outs = E.enumerate_random(
            lambda rng: f(list(a), array=names, size=size, rng=rng))
        law = {}
        for o in outs:
            k = (o.value,) if size is None else tuple(o.value)
            E.check(len(k) == (size or 1), 'as-many-as-asked')
            k = tuple(int(z) for z in k)
            law[k] = law.get(k, 0) + o.weight
        for k, w in law.items():
            want = 1
            for z in k:
                want = want * p[names.index(z) if names else z] / t
            E.check_eq(w, want, 'flips-by-the-weights')
        E.check(len(law) == n ** (size or 1), 'flips-by-the-weights')


def binomial(E, U):
    gu, M = U['utils.general'], Mth(E)
    k = E.choose('k', 5)
    n = E.int('n', 0, 30, flt=False)
    E.assume(n >= k)
    want = E.const(1) + 0
    for i in range(k):
        want = want * (n - i) / (i + 1)
    E.check_eq(M.exp(gu.log_nCk(n, k)), want, 'binomial-coefficient')


def grid(E, U):
    gu = U['utils.general']
    n = 2 + E.choose('n', 3)
    a, b = posreal(E, 'a', '1/8', 4), posreal(E, 'b', '1/8', 4)
    E.assume(a < b)
    g = gu.log_linspace(a, b, n)
    E.check(len(g) == n, 'as-many-as-asked')
    E.check_eq(g[0], a, 'end-points')
    E.check_eq(g[n - 1], b, 'end-points')
    for i in range(1, n - 1):
        E.check_eq(g[i] * g[i], g[i - 1] * g[i + 1], 'geometric')


def repeated(E, U):
    """The wrapper that turns a one-sample method into a many-sample one."""
    gu = U['utils.general']
    seen = []

    class Model(object):
        @gu.simulate_many
        def simulate(self, rowid, targets, constraints=None, inputs=None,
                     N=None):
            seen.append((rowid, list(targets), constraints, inputs))
            return {t: len(seen) for t in targets}
    N = [None, 0, 1, 3][E.choose('N', 4)]
    way = E.choose('way', 2)
    m = Model()
    x = E.real('x', -3, 3)
    got = m.simulate(5, [1, 2], {3: x}, {4: x}, N) if way else \
        m.simulate(5, [1, 2], {3: x}, inputs={4: x}, N=N)
    n = 1 if N is None else N
    E.check(len(seen) == n, 'one-call-per-sample')
    for r, t, c, i in seen:
        E.check(r == 5 and t == [1, 2] and list(c) == [3] and list(i) == [4],
                'passes-the-query-on')
        E.check_eq(c[3], x, 'passes-the-query-on')
    if N is None:
        E.check(got == {1: 1, 2: 1}, 'a-sample-or-a-list')
    else:
        E.check(got == [{1: j, 2: j} for j in range(1, n + 1)],
                'a-sample-or-a-list')


G, D, C, V = 'utils.general', 'utils.data', 'utils.config', 'utils.validation'


def harnesses():
    def mk(name, fn, mods, bounds, tier='quick', **k):
        return H(name, fn, mods, bounds, tier=tier, assumes=ASSUMPTIONS, **k)
    return [
        mk('dummy', dummy, [D], '<= 3 entries, <= 4 categories'),
        mk('dummy-rejects', dummy_rejects, [D], 'any real, 2 or 3 categories'),
        mk('distargs', distargs, [C], '<= 3 types of 7'),
        mk('types', types, [C], 'every built-in type, 2 to 400 categories'),
        mk('classes', classes, [C], 'every built-in distribution'),
        mk('schema', schema, [D, C], '3 rows, 4 columns', paths=6000),
        mk('schema-numbers', numbers, [D, C], '4 rows, 2 or 3 numeric '
           'categories, any cells missing'),
        mk('schema-rejects', too_many, [D, C], '1 column, <= 4 categories'),
        mk('sets', sets, [G], '<= 3 keys'),
        mk('partitions', partitions, [V], '4 items, 3 clusters'),
        mk('blocks', blocks, [G], '3 rows, 2 views'),
        mk('numerics', numerics, [G], '<= 3 weights'),
        mk('binomial', binomial, [G], 'n <= 30, k <= 4'),
        mk('grid', grid, [G], '<= 4 points'),
        mk('repeated', repeated, [G], '<= 3 samples'),
    ]
