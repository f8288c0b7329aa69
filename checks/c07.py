"""C07: the Chinese restaurant process helpers agree with each other."""
from vp.runner import H
from .lib import Mth, posreal

ASSUMPTIONS = ['concentration in [1/16, 16]']


def partition(E, n, name='z'):
    """Restricted growth string of length n (all partitions)."""
    z = []
    for i in range(n):
        z.append(E.choose('%s%d' % (name, i), max(z) + 2) if z else 0)
    return z


def eppf(M, counts, alpha):
    """P(partition) as a product of seating probabilities."""
    num, den, n = 1, 1, 0
    for c in counts:
        for j in range(c):
            num = num * (j if j else alpha)
            den = den * (n + alpha)
            n += 1
    return num / den


def counts_of(z):
    d = {}
    for t in z:
        d[t] = d.get(t, 0) + 1
    return d


def logp(nmax):
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        a = posreal(E, 'alpha')
        n = 1 + E.choose('n', nmax)
        z = partition(E, n)
        c = counts_of(z)
        Nk = [c[k] for k in sorted(c)]
        got = gu.logp_crp(n, Nk, a)
        E.check_eq(got, M.log(eppf(M, Nk, a)), 'partition-probability')
        E.check_eq(gu.logp_crp(n, Nk[::-1], a), got, 'exchangeable')
        b = posreal(E, 'beta')
        E.check_eq(got - gu.logp_crp(n, Nk, b),
                   gu.logp_crp_unorm(n, len(Nk), a)
                   - gu.logp_crp_unorm(n, len(Nk), b),
                   'unnormalised-differs-by-a-constant')
        Crp = U['primitives.crp'].Crp
        crp = Crp([0], [], hypers={'alpha': a})
        for i, t in enumerate(z):
            crp.incorporate(i, {0: 3 * t + 1})
        E.check_eq(crp.logpdf_score(), got, 'crp-score')
    return h


def gibbs(nmax, mmax):
    """Weights of the Gibbs helper for every row, partition, m."""
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        a = posreal(E, 'alpha')
        n = 1 + E.choose('n', nmax)
        z = partition(E, n)
        i = E.choose('row', n)
        m = 1 + E.choose('m', mmax)
        c = counts_of(z)
        asdict = E.choose('dict', 2)
        Nk = dict(c) if asdict else [c[k] for k in sorted(c)]
        got = gu.logp_crp_gibbs(Nk, z, i, a, m)
        rest = counts_of([t for j, t in enumerate(z) if j != i])
        base = eppf(M, list(rest.values()), a)
        tables = sorted(c)
        single = c[z[i]] == 1
        E.check(len(got) == len(tables) + (m - 1 if single else m),
                'number-of-tables')
        total = 0
        for t, lw in list(zip(tables, got)):
            total = total + M.exp(lw)
            if single and t == z[i]:
                continue
            moved = dict(rest)
            moved[t] = moved.get(t, 0) + 1
            # conditional probability = P(moved) / P(rest)
            E.check_eq(M.exp(lw), eppf(M, list(moved.values()), a) / base
                       * (n - 1 + a), 'occupied-table')
        aux = list(got[len(tables):]) + (
            [got[tables.index(z[i])]] if single else [])
        fresh = dict(rest)
        fresh['new'] = 1
        w = eppf(M, list(fresh.values()), a) / base * (n - 1 + a)
        E.check_eq(sum(M.exp(x) for x in aux), w, 'fresh-table-total')
        for x in aux[1:]:
            E.check_eq(x, aux[0], 'auxiliary-tables-equal')
    return h


def fresh(nmax, mmax):
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        kind = E.choose('int-alpha', 2)
        a = E.int('ialpha', 1, 9, flt=False) if kind else posreal(E, 'alpha')
        n = 1 + E.choose('n', nmax)
        m = 1 + E.choose('m', mmax)
        c = counts_of(partition(E, n))
        Nk = [c[k] for k in sorted(c)]
        got = gu.logp_crp_fresh(n, list(Nk), a, m)
        E.check(len(got) == len(Nk) + m, 'number-of-tables')
        for k in range(len(Nk)):
            E.check_eq(M.exp(got[k]) * (n + a), Nk[k], 'occupied-table')
        for x in got[len(Nk):]:
            E.check_eq(M.exp(x) * (n + a) * m, a, 'auxiliary-table')
        E.check_eq(sum(M.exp(x) for x in got), 1, 'sums-to-one')
    return h


def crp_gibbs(nmax, mmax):
    """Crp.gibbs_logps / gibbs_tables, labels with gaps, after removals."""
    def h(E, U):
        M = Mth(E)
        a = posreal(E, 'alpha')
        Crp = U['primitives.crp'].Crp
        crp = Crp([0], [], hypers={'alpha': a})
        n = 1 + E.choose('n', nmax)
        z = partition(E, n)
        lab = [[5, 0, 9, 2], [0, 1, 2, 3]][E.choose('labels', 2)]
        z = [lab[t] for t in z]
        # a row that is removed again, so that labels may have gaps
        crp.incorporate(90, {0: 7})
        for i, t in enumerate(z):
            crp.incorporate(i, {0: t})
        crp.unincorporate(90)
        m = 1 + E.choose('m', mmax)
        i = E.choose('row', n + 1) - 1
        tabs = list(crp.gibbs_tables(i, m=m))
        c = counts_of(z)
        rest = counts_of([t for j, t in enumerate(z) if j != i])
        E.check(len(set(tabs)) == len(tabs), 'tables-distinct')
        E.check(set(c) <= set(tabs), 'all-tables-proposed')
        aux = [t for t in tabs if t not in rest]
        E.check(len(aux) == m, 'auxiliary-tables')
        if i < 0:
            E.check(crp.singleton(-1) == 0, 'new-row-not-singleton')
            return
        w = crp.gibbs_logps(i, m=m)
        E.check(len(w) == len(tabs), 'weights-match-tables')
        for t, lw in zip(tabs, w):
            want = rest[t] if t in rest else a / m
            E.check_eq(lw, M.log(want) if not isinstance(want, int) or
                       not E.symbolic else M.log(E.const(want)),
                       'conditional-weight')
        # the state is not changed by asking
        E.check(dict(crp.counts) == c and
                [crp.data[j] for j in range(n)] == z, 'state-unchanged')
    return h


def simulator(n):
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        a = posreal(E, 'alpha')
        outs = E.enumerate_random(lambda rng: gu.simulate_crp(n, a, rng=rng))
        tab = {}
        for o in outs:
            z = list(o.value)
            E.check(len(z) == n, 'length')
            canon, seen = [], {}
            for t in z:
                canon.append(seen.setdefault(t, len(seen)))
            k = tuple(canon)
            tab[k] = tab.get(k, 0) + o.weight
        z = tuple(partition(E, n))
        c = counts_of(z)
        E.check_eq(tab.get(z, 0), eppf(M, list(c.values()), a),
                   'partition-law')
        E.check_eq(M.log(tab[z]), gu.logp_crp(n, list(c.values()), a),
                   'matches-logp_crp')
    return h


def harnesses():
    g, c = ['utils.general'], ['utils.general', 'primitives.crp']
    return [
        H('probability', logp(4), modules=c, bounds='up to 4 rows'),
        H('gibbs-helper', gibbs(4, 3), modules=g,
          bounds='up to 4 rows, up to 3 auxiliary tables'),
        H('fresh-helper', fresh(4, 3), modules=g,
          bounds='up to 4 rows, up to 3 auxiliary tables, real and integer '
          'concentrations'),
        H('crp-gibbs', crp_gibbs(4, 3), modules=c,
          bounds='up to 4 rows with arbitrary labels, up to 3 auxiliary '
          'tables'),
        H('simulator-1', simulator(1), modules=g, bounds='1 row'),
        H('simulator-3', simulator(3), modules=g, bounds='3 rows'),
        H('simulator-4', simulator(4), modules=g, bounds='4 rows'),
        H('gibbs-helper-5', gibbs(5, 4), modules=g, tier='thorough',
          bounds='up to 5 rows'),
        H('simulator-5', simulator(5), modules=g, tier='thorough',
          bounds='5 rows'),
        H('probability-6', logp(6), modules=c, tier='thorough',
          bounds='up to 6 rows'),
    ]
