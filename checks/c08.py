"""C08: constrained partitions respect every dependence constraint."""
import itertools

from vp.runner import H
from .lib import Mth, posreal
from .c07 import eppf, counts_of, partition

ASSUMPTIONS = ['concentration in [1/16, 16]',
               'row-level constraints (Rd, Ri) are left empty except in the '
               'harness about them']


def blocks(n):
    res = []

    def go(i, cur):
        if i == n:
            bs = [list(b) for b in cur if len(b) > 1]
            if bs not in res:
                res.append(bs)
            return
        for k in range(len(cur)):
            go(i + 1, cur[:k] + [cur[k] + [i]] + cur[k + 1:])
        go(i + 1, cur + [[i]])
    go(0, [])
    return res


def constraint_set(E, n, indep=True):
    B = blocks(n)
    Cd = B[E.choose('Cd', len(B))]
    order = E.choose('block-order', 2) if len(Cd) > 1 or any(
        len(b) > 2 for b in Cd) else 0
    if order:
        Cd = [list(reversed(b)) for b in reversed(Cd)]
    Ci = []
    if indep:
        for a, b in itertools.combinations(range(n), 2):
            k = E.choose('Ci%d%d' % (a, b), 2)
            if k:
                Ci.append((a, b) if (a + b) % 2 else (b, a))
    return Cd, Ci


def satisfies(z, Cd, Ci):
    return all(len({z[c] for c in b}) == 1 for b in Cd) and \
        all(z[a] != z[b] for a, b in Ci)


def satisfiable(Cd, Ci):
    return not any(a in b and c in b for b in Cd for a, c in Ci)


def canon(z):
    seen = {}
    return tuple(seen.setdefault(t, len(seen)) for t in z)


def law(n, alpha, Cd, Ci):
    """Law of the documented constrained process: customers in order, each with
    all its friends, sit at a compatible table with weight the number of
    customers there, or at a fresh one with weight alpha."""
    friends = {c: b for b in Cd for c in b}
    out = {}

    def go(z, w):
        left = [c for c in range(n) if c not in z]
        if not left:
            k = canon([z[c] for c in range(n)])
            out[k] = out.get(k, 0) + w
            return
        group = friends.get(left[0], [left[0]])
        tables = sorted(set(z.values()))
        opts = []
        for t in tables:
            there = [c for c in z if z[c] == t]
            bad = any((g, c) in Ci or (c, g) in Ci
                      for g in group for c in there)
            if not bad:
                opts.append((t, len(there)))
        opts.append((len(tables), alpha))
        tot = sum(x for _, x in opts)
        for t, x in opts:
            z2 = dict(z)
            for g in group:
                z2[g] = t
            go(z2, w * x / tot)
    go({}, 1)
    return out


def simulate(n):
    def h(E, U):
        gu = U['utils.general']
        a = posreal(E, 'alpha')
        Cd, Ci = constraint_set(E, n)
        try:
            outs = E.enumerate_random(lambda rng: gu.simulate_crp_constrained(
                n, a, Cd, Ci, {}, {}, rng=rng))
        except ValueError:
            E.check(not satisfiable(Cd, Ci), 'satisfiable-set-rejected')
            return
        E.check(satisfiable(Cd, Ci), 'contradiction-accepted')
        tab = {}
        for o in outs:
            z = list(o.value)
            E.check(len(z) == n and satisfies(z, Cd, Ci),
                    'constraints-respected')
            tab[canon(z)] = tab.get(canon(z), 0) + o.weight
        want = law(n, E.const(1) * a, Cd, Ci)
        E.check(set(tab) == set(want), 'every-valid-partition-reachable')
        for k in want:
            E.check_eq(tab[k], want[k], 'constrained-law')
    return h


def dependent(n):
    def h(E, U):
        M = Mth(E)
        gu = U['utils.general']
        a = posreal(E, 'alpha')
        Cd, _ = constraint_set(E, n, False)
        outs = E.enumerate_random(
            lambda rng: gu.simulate_crp_constrained_dependent(
                n, a, Cd, rng=rng))
        tab = {}
        for o in outs:
            z = list(o.value)
            E.check(len(z) == n and satisfies(z, Cd, []),
                    'constraints-respected')
            tab[canon(z)] = tab.get(canon(z), 0) + o.weight
        z = partition(E, n)
        lp = gu.logp_crp_constrained_dependent(dict(enumerate(z)), a, Cd)
        if not satisfies(z, Cd, []):
            E.check_eq(lp, -float('inf'), 'violating-partition-impossible')
            E.check(canon(z) not in tab, 'violating-partition-not-simulated')
        else:
            E.check_eq(M.exp(lp), tab[canon(z)], 'log-probability-of-draw')
            rep = {c: b[0] for b in Cd for c in b}
            eff = counts_of([z[c] for c in range(n) if rep.get(c, c) == c])
            E.check_eq(M.exp(lp), eppf(M, list(eff.values()), a),
                       'blocks-count-once')
    return h


def validity(n):
    """validate_dependency_constraints and partition validation."""
    def h(E, U):
        vu = U['utils.validation']
        Cd, Ci = constraint_set(E, n)
        flaw = ['none', 'single', 'repeat', 'range', 'self', 'triple',
                'irange'][E.choose('flaw', 7)]
        Cd = [list(b) for b in Cd]
        Ci = list(Ci)
        used = [c for b in Cd for c in b]
        if flaw == 'single':
            Cd.append([n - 1] if n - 1 not in used else [n])
        elif flaw == 'repeat':
            if not used:
                return
            Cd.append([used[0], n + 3])
        elif flaw == 'range':
            Cd.append([n, n + 1])
        elif flaw == 'self':
            Ci.append((1, 1))
        elif flaw == 'triple':
            Ci.append((0, 1, 2))
        elif flaw == 'irange':
            Ci.append((0, n))
        size = n + 10 if flaw == 'repeat' else n
        try:
            ok = vu.validate_dependency_constraints(size, Cd, Ci)
        except ValueError:
            ok = False
        E.check(bool(ok) == (flaw == 'none' and satisfiable(Cd, Ci)),
                'accepts-exactly-the-well-formed', repr((Cd, Ci)))
        if flaw == 'none':
            z = partition(E, n)
            zz = z if E.choose('as-dict', 2) else dict(enumerate(z))
            E.check(bool(vu.validate_crp_constrained_partition(
                zz, Cd, Ci, {}, {})) == satisfies(z, Cd, Ci),
                'partition-validation')
    return h


def refusals(E, U):
    """Malformed block sets are refused by the simulators, not only by the
    validator."""
    gu = U['utils.general']
    a = posreal(E, 'alpha')
    n = 3
    base = E.choose('base', [[], [[0, 1]], [[2, 0]]])
    flaw = E.choose('flaw', ['none', 'single', 'repeat', 'range'])
    Cd = [list(b) for b in base]
    if flaw == 'single':
        Cd.append([1 if base != [[0, 1]] else 2])
    elif flaw == 'repeat':
        Cd.append([0, 1, 2] if not base else [base[0][1], base[0][0]])
        if not base:
            Cd.append([1, 2])
    elif flaw == 'range':
        Cd.append([3, 4])
    which = E.choose('which', ['dependent', 'general'])

    def run(rng):
        if which == 'dependent':
            return gu.simulate_crp_constrained_dependent(n, a, Cd, rng=rng)
        return gu.simulate_crp_constrained(n, a, Cd, [], {}, {}, rng=rng)
    try:
        outs = E.enumerate_random(run)
        ok = True
    except Exception:
        ok = False
    E.check(ok == (flaw == 'none'), 'malformed-blocks-refused', repr(Cd))
    if ok:
        E.check(all(satisfies(list(o.value), Cd, []) for o in outs),
                'constraints-respected')


def rows(E, U):
    """Row constraints attached to columns: two columns are compatible exactly
    when neither one's independencies contradict the other's blocks."""
    vu = U['utils.validation']
    opts = [[], [[0, 1]], [[1, 2]], [[0, 1, 2]]]
    iopts = [[], [(0, 1)], [(2, 0)]]
    Rd, Ri = {}, {}
    for c in (0, 1):
        Rd[c] = opts[E.choose('Rd%d' % c, 4)]
        Ri[c] = iopts[E.choose('Ri%d' % c, 3)]
    Ci = [[], [(0, 1)], [(1, 0)]][E.choose('Ci', 3)]
    got = vu.check_compatible_customers([], Ci, Ri, Rd, 0, 1)
    want = not Ci and all(
        satisfiable(Rd[a], Ri[b]) for a in (0, 1) for b in (0, 1))
    E.check(bool(got) == want, 'row-compatibility')
    E.check(bool(vu.check_compatible_customers([], Ci, Ri, Rd, 1, 0)) == want,
            'row-compatibility-symmetric')
    ok = True
    try:
        vu.validate_crp_constrained_input(2, [[0, 1]], [], Rd, Ri)
    except ValueError:
        ok = False
    E.check(ok == all(satisfiable(Rd[a], Ri[b])
                      for a in (0, 1) for b in (0, 1)),
            'incompatible-rows-in-a-block-rejected')


ST = ['crosscat.state', 'mixtures.view', 'mixtures.dim',
      'primitives.crp']


def one_row(E, n, ids, z):
    from .slib import BERN, STable
    zv = dict(zip(ids, z))
    return STable(E, [(c, BERN) for c in ids], 1, zv,
                  {v: [0] for v in set(z)})


def state_score(n, labelled):
    """The score of a constrained state is that of the constrained process,
    whatever the columns are called."""
    def h(E, U):
        M = Mth(E)
        Cd, Ci = constraint_set(E, n)
        E.assume(len(Ci) <= 1)
        ids = E.choose('ids', [list(range(n)), [12, 4, 7, 9][:n]]) \
            if labelled else list(range(n))
        z = partition(E, n)
        t = one_row(E, n, ids, z)
        s = t.build(U, Cd=[[ids[c] for c in b] for b in Cd],
                    Ci=[(ids[a], ids[b]) for a, b in Ci])
        if Ci:
            # (no closed form is offered under independence constraints)
            for f in (s.logpdf_score_crp, s.logpdf_score):
                try:
                    f()
                    E.check(False, 'independences-have-no-score')
                except ValueError:
                    pass
            return
        lp = s.logpdf_score_crp()
        if not satisfies(z, Cd, []):
            E.check_eq(lp, -float('inf'), 'violating-partition-impossible')
            return
        rep = {c: b[0] for b in Cd for c in b}
        eff = counts_of([z[c] for c in range(n) if rep.get(c, c) == c])
        E.check_eq(M.exp(lp), eppf(M, list(eff.values()), t.alpha),
                   'blocks-count-once')
        tot = lp
        for v in t.views.values():
            tot = tot + v.score()
        E.check_eq(s.logpdf_score(), tot, 'state-score')
    return h


def state_law(n):
    """The partition a constrained state starts from follows the constrained
    process with the concentration of the state."""
    def h(E, U):
        M = Mth(E)
        Cd, Ci = constraint_set(E, n)
        E.assume(satisfiable(Cd, Ci))
        E.assume(len(Ci) <= 1)
        t = one_row(E, n, list(range(n)), [0] * n)
        tab = {}
        for o in E.enumerate_random(lambda rng: dict(t.build(
                U, rng=rng, Zv=None, Zrv=None,
                view_alphas={v: E.const(1) for v in range(n)},
                Cd=[list(b) for b in Cd], Ci=list(Ci)).Zv())):
            z = [o.value[c] for c in range(n)]
            E.check(satisfies(z, Cd, Ci), 'constraints-respected')
            tab[canon(z)] = tab.get(canon(z), 0) + o.weight
        if Ci:
            want = law(n, t.alpha, Cd, Ci)
        else:
            # (a block counts as one column in the exchangeable process)
            rep = {c: b[0] for b in Cd for c in b}
            want = {}
            for z in itertools.product(range(n), repeat=n):
                if satisfies(z, Cd, []):
                    eff = counts_of([z[c] for c in range(n)
                                     if rep.get(c, c) == c])
                    want[canon(z)] = eppf(M, list(eff.values()), t.alpha)
        E.check(set(tab) == set(want), 'every-valid-partition-reachable')
        for k in want:
            E.check_eq(tab[k], want[k], 'constrained-law')
    return h


def harnesses():
    m = ['utils.general', 'utils.validation']
    return [
        H('simulate-2', simulate(2), modules=m, bounds='2 columns'),
        H('simulate-3', simulate(3), modules=m,
          bounds='3 columns, all blocks and independencies'),
        H('simulate-4', simulate(4), modules=m, paths=4000, seconds=240,
          bounds='4 columns, all blocks and independencies'),
        H('dependent-3', dependent(3), modules=m, bounds='3 columns'),
        H('dependent-4', dependent(4), modules=m, bounds='4 columns'),
        H('validation-3', validity(3), modules=m, paths=8000,
          bounds='3 columns, one malformed entry'),
        H('simulator-refusals', refusals, modules=m,
          bounds='3 columns, one malformed block'),
        H('row-constraints', rows, modules=m,
          bounds='two columns, three rows'),
        H('state-score', state_score(3, True), modules=m + ST,
          bounds='3 columns, any constraints with at most one '
          'independence, two namings of the columns'),
        H('state-law', state_law(3), modules=m + ST,
          bounds='3 columns, at most one independence, one row'),
        H('dependent-5', dependent(5), modules=m, tier='thorough',
          bounds='5 columns'),
        H('validation-4', validity(4), modules=m, tier='thorough',
          paths=60000, bounds='4 columns, one malformed entry'),
    ]
