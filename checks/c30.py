"""C30: Markov chain samplers leave their target distribution invariant.

Pathwise detailed balance, decided for all values: a Metropolis move with
noise e has a reverse move with noise +-e (so the proposal is symmetric) and is
accepted exactly when the uniform lies under the ratio of the target; a slice
move from x to y that used the intervals I1, I2, ... has a reverse move, at the
same height and on the same grid, that uses the same intervals."""
from vp.runner import H
from .lib import Mth
from .vlib import try_

ASSUMPTIONS = ['comparisons of a uniform with a density ratio are away '
               'from ties by 1/10000 (rounding decides ties)',
               'noise within 3 standard deviations, jumps within [1/4, 2]',
               'target densities are step functions with symbolic steps and '
               'levels (the samplers only compare values of the target)',
               'the adaptation of the jump size is not part of a move']
INF = float('inf')


class Over(Exception):
    pass


class Rng(object):
    """Standardised normal noise and a callback for uniforms."""

    def __init__(self, e=(), unit=(), pick=None):
        self.e, self.u, self.pick = list(e), list(unit), pick
        self.scales = []

    def normal(self, loc=0., scale=1., size=None):
        assert size is None
        if not self.e:
            raise Over()
        self.scales.append(scale)
        return loc + scale * self.e.pop(0)

    def randn(self):
        return self.normal()

    standard_normal = randn

    def rand(self):
        return self.uniform()

    random = random_sample = rand

    def uniform(self, low=0., high=1., size=None):
        assert size is None
        if self.pick is not None:
            return self.pick(low, high)
        if not self.u:
            raise Over()
        return low + (high - low) * self.u.pop(0)


DOMAINS = {
    'unit': (0, 1), 'positive': (0, INF), 'interval': ('-1/2', '3/2'),
    'shifted': (1, INF), 'line': (-INF, INF), 'below': (-INF, 1),
    'wide': (-3, 5),
}


def domain(E, name):
    return [d if d in (INF, -INF) else E.const(d) + 0 for d in DOMAINS[name]]


def point(E, D, name, width=2):
    """A symbolic point inside the domain."""
    lo, hi = D
    if lo == -INF and hi == INF:
        return E.real(name, -width, width)
    if hi == INF:
        x = E.real(name, 0, width)
        E.assume(x > 0)
        return lo + x
    if lo == -INF:
        x = E.real(name, 0, width)
        E.assume(x > 0)
        return hi - x
    t = E.real(name, 0, 1)
    E.assume(t > 0)
    E.assume(t < 1)
    return lo + t * (hi - lo)


class Steps(object):
    """log density: log of a step function; zero levels give -inf."""

    def __init__(self, E, cuts, levels):
        self.E, self.M, self.cuts, self.p = E, Mth(E), cuts, levels

    def at(self, x):
        for c, p in zip(self.cuts, self.p):
            if x < c:
                return p
        return self.p[-1]

    def __call__(self, x):
        p = self.at(x)
        if type(p) is int and p == 0:
            return -INF
        return self.M.log(p)


def pos(E, n, lo='1/8', hi=2):
    return E.real(n, lo, hi)


def move(E, U, x, f, D, s, e, u):
    """One Metropolis move; None if it asks for more noise than one normal
    and one uniform."""
    rng = Rng([e], [u])
    try:
        y = U['utils.sampling'].mh_sample(x, f, s, list(D), burn=0, rng=rng)
    except Over:
        return None
    return y


def under(E, a, b):
    """a < b, away from the (probability zero) tie that rounding decides."""
    gap = E.const('1/10000')
    if a < b:
        E.assume(b - a > gap)
        return True
    E.assume(a - b > gap)
    return False


def noise(E, n):
    return E.real(n, -3, 3)


def jump(dom):
    """The proposal is symmetric, and stays within the domain."""
    def h(E, U):
        D = domain(E, dom)
        x, s, e = point(E, D, 'x'), E.const('1/2') + 0, noise(E, 'e')
        flat, u = (lambda v: E.const(0) + 0), E.const('1/2') + 0
        try:
            y = move(E, U, x, flat, D, s, e, u)
        except AssertionError:
            # proposals exactly on the boundary are of probability zero
            z = x + s * e
            edge = False
            for k in range(-8, 9):
                for d in D:
                    w = 1 if INF in D or -INF in D else D[1] - D[0]
                    edge = edge or (d not in (INF, -INF)
                                    and bool(z == d + k * w))
            E.check(edge, 'no-crash-inside-the-domain')
            return
        E.check(y is not None, 'symmetric-proposal')
        E.check(D[0] == -INF or D[0] <= y, 'inside-the-domain')
        E.check(D[1] == INF or y <= D[1], 'inside-the-domain')
        back = [try_(lambda: z.append(move(E, U, y, flat, D, s, d, u)))
                or z[-1] for d in (e, -e) for z in [[]]]
        ok = False
        for b in back:
            if b is None or isinstance(b, Exception):
                continue
            ok = ok or E.isclose(b, x)
        E.check(ok, 'symmetric-proposal')
    return h


def accept(dom, zero=False):
    """Accepted exactly when the uniform lies under the density ratio."""
    def h(E, U):
        D = domain(E, dom)
        x, s, e = point(E, D, 'x'), E.const('1/2') + 0, noise(E, 'e')
        flat, half = (lambda v: E.const(0) + 0), E.const('1/2') + 0
        if E.choose('side', 2):
            e = -e
        try:
            y = move(E, U, x, flat, D, s, e, half)
        except AssertionError:
            return
        if y is None:
            return
        c = point(E, D, 'c')
        p, q = pos(E, 'p'), 0 if zero else pos(E, 'q')
        f = Steps(E, [c], [p, q] if E.choose('rising', 2) else [q, p])
        a, b = f.at(x), f.at(y)
        if type(a) is int:
            return
        u = E.real('u', 0, 1)
        E.assume(u > 0)
        E.assume(u < 1)
        r = move(E, U, x, f, D, s, e, u)
        moved = type(b) is not int and under(E, u * a, b)
        E.check_eq(r, y if moved else x, 'accepted-under-the-ratio')
    return h


def chain(E, U):
    """What is collected from a chain: the states after moves beyond the burn
    in, one every lag."""
    D = domain(E, 'line')
    n, burn, lag = 1 + E.choose('n', 2), E.choose('burn', 3), \
        1 + E.choose('lag', 2)
    total = n * lag + burn + lag
    es = [E.const(v) + 0 for v in
          ['1/2', '-3/4', 1, '-1/4', '1/3', '2/3', -1][:total]]
    us = [E.real('u%d' % i, 0, 1) if i < 4 else E.const('1/2') + 0
          for i in range(total)]
    for u in us[:4]:
        E.assume(u > 0)
        E.assume(u < 1)
    x, s = E.real('x', -1, 1), E.const(1) + 0
    f = Steps(E, [E.const('1/4') + 0], [E.const('1/2') + 0, pos(E, 'q')])
    rng = Rng(es, us)
    got = U['utils.sampling'].mh_sample(
        x, f, s, list(D), num_samples=n, burn=burn, lag=lag, rng=rng)
    got = [got] if n == 1 else got
    states, z = [], x
    for e, u in zip(es, us):
        y = z + s * e
        if under(E, u * f.at(z), f.at(y)):
            z = y
        states.append(z)
    want = [z for i, z in enumerate(states, 1)
            if i > burn and i % lag == 0][:n]
    E.check(len(got) == n, 'as-many-as-asked')
    for g, w in zip(got, want):
        E.check_eq(g, w, 'states-of-the-chain')


def tuning(E, U):
    """The jump size shrinks when moves are refused, grows when accepted."""
    D, x, s = domain(E, 'line'), E.real('x', -1, 1), E.real('s', '1/4', 2)
    yes = E.choose('accepted', 2)
    state = {'n': 0}

    def f(v):
        state['n'] += 1
        return E.const(0) + 0 if yes or state['n'] == 1 else -INF
    rng = Rng([E.const('1/2') + 0] * 45, [E.const('1/2') + 0] * 45)
    y = U['utils.sampling'].mh_sample(
        x, f, s, list(D), num_samples=1, burn=42, rng=rng)
    first, last = rng.scales[0], rng.scales[-1]
    E.check_eq(first, s, 'starts-from-the-given-jump')
    E.check(first < last if yes else last < first, 'tunes-the-jump')
    E.check(all(bool(v > 0) for v in rng.scales), 'jump-stays-positive')
    if not yes:
        E.check_eq(y, x, 'refused-moves-stay')


def roles(E, U):
    """Which of the two leading uniforms is the height, which the offset?"""
    calls = []

    def pick(lo, hi):
        calls.append((lo, hi))
        k = len(calls)
        if k <= 2:
            return [.25, .625][k - 1]
        return 0.
    f = lambda v: 0. if -.05 < float(v) < .05 else -INF
    U['utils.sampling'].slice_sample(
        lambda: 0., f, [-INF, INF], rng=Rng(pick=pick))
    a = float(calls[2][0])
    return 0 if abs(a + .25) < 1e-6 else 1


class Counted(object):
    """A target that is evaluated a bounded number of times in one move."""

    def __init__(self, E, f, most):
        self.E, self.f, self.most, self.n = E, f, most, 0

    def at(self, x):
        return self.f.at(x)

    def __call__(self, x):
        self.n += 1
        if self.n > self.most:
            self.E.check(False, 'ends-after-boundedly-many-steps')
            raise Over()
        return self.f(x)


def slices(dom, w='1', rejects=1, levels=2, closed=False):
    """closed: the target is positive up to the ends of the domain."""
    def h(E, U):
        D = domain(E, dom)
        off = roles(E, U)
        w_ = E.const(w) + 0
        lo = D[0] if D[0] != -INF else E.const(-1) + 0
        hi = D[1] if D[1] != INF else lo + 2
        x = E.real('x', -4, 4)
        E.assume(x > lo)
        E.assume(x < hi)
        c = E.real('c', -4, 4)
        E.assume(c > lo)
        E.assume(c < hi)
        p, q = pos(E, 'p', '1/8', 1), pos(E, 'q', '1/8', 1)
        f = Counted(E, Steps(E, [c], [p, q]) if closed else
                    Steps(E, [lo, c, hi], [0, p, q, 0]), 60)
        u, r = E.real('u', 0, 1), E.real('r', 0, 1)
        for v in (u, r):
            E.assume(v > 0)
            E.assume(v < 1)
        for v in (p, q):
            for z in (p, q):
                under(E, u * v, z)
        S = U['utils.sampling']
        calls, points = [], []

        def forward(l, h_):
            calls.append((l, h_))
            k = len(calls)
            if k <= 2:
                return r if k - 1 == off else u
            E.check(l <= x, 'interval-holds-the-point')
            E.check(x <= h_, 'interval-holds-the-point')
            E.check(D[0] == -INF or l >= D[0], 'interval-in-the-domain')
            E.check(D[1] == INF or h_ <= D[1], 'interval-in-the-domain')
            E.check(-INF < l, 'interval-is-finite')
            E.check(h_ < INF, 'interval-is-finite')
            if k > 3 + rejects:
                raise Over()
            y = E.real('y%d' % k, -8, 8)
            E.assume(y > l)
            E.assume(y < h_)
            points.append(y)
            return y
        try:
            y = S.slice_sample(lambda: x, f, list(D), w=w_,
                               rng=Rng(pick=forward))
        except Over:
            return
        inter = calls[2:]
        E.check(u * f.at(x) <= f.at(y), 'moves-within-the-slice')
        E.check_eq(y, points[-1], 'moves-to-the-point-drawn')
        # and back: same height, same grid, same refused points
        f.n = 0
        t = (y - (x - r * w_)) / w_
        r2 = t % 1 if E.symbolic else t - int(t // 1)
        u2 = u * f.at(x) / f.at(y)
        again, plan = [], points[:-1] + [x]

        def back(l, h_):
            again.append((l, h_))
            k = len(again)
            if k <= 2:
                return r2 if k - 1 == off else u2
            if not plan:
                raise Over()
            return plan.pop(0)
        try:
            z = S.slice_sample(lambda: y, f, list(D), w=w_,
                               rng=Rng(pick=back))
        except Over:
            z = None
        E.check(z is not None and len(again) == len(calls),
                'reverse-move-exists')
        E.check_eq(z, x, 'reverse-move-exists')
        for (a, b), (k, l) in zip(inter, again[2:]):
            E.check_eq(k, a, 'same-intervals')
            E.check_eq(l, b, 'same-intervals')
    return h


def many(E, U):
    """Successive samples are successive states, each in its own slice."""
    S = U['utils.sampling']
    n, lag = 1 + E.choose('n', 3), 1 + E.choose('lag', 2)
    D = [E.const(0) + 0, E.const(1) + 0]
    f = Steps(E, [E.const('1/2') + 0], [E.const(1) + 0, E.const('1/2') + 0])
    ys = [E.real('y%d' % i, 0, 1) for i in range(8)]
    for y in ys:
        E.assume(y > 0)
        E.assume(y < 1)
    off = roles(E, U)
    state = {'k': 0, 'u': 0, 'states': []}

    def pick(l, h_):
        k = state['k']
        state['k'] += 1
        if k % 3 < 2:
            return E.const('1/4') + 0
        y = ys[k // 3]
        state['states'].append(y)
        return y
    got = S.slice_sample(lambda: E.const('1/4') + 0, f, D, num_samples=n,
                         lag=lag, w=E.const(2) + 0, rng=Rng(pick=pick))
    got = [got] if n == 1 else got
    E.check(len(got) == n, 'as-many-as-asked')
    st = state['states']
    for i, g in enumerate(got):
        E.check_eq(g, st[(i + 1) * lag - 1], 'states-of-the-chain')


def rejection(E, U):
    S = U['utils.sampling']
    n = 1 + E.choose('n', 2)
    k = 4
    xs = [E.const(i) + 0 for i in range(k)]
    qs = [pos(E, 'q%d' % i, '1/4', 2) for i in range(k)]
    ps = [pos(E, 'p%d' % i, 0, 2) for i in range(k)]
    us = [E.real('u%d' % i, 0, 1) for i in range(k)]
    state = {'i': -1}

    def draw():
        state['i'] += 1
        if state['i'] >= k:
            raise Over()
        return xs[state['i']]

    def idx(x):
        return [i for i in range(k) if bool(x == xs[i])][0]
    bad = any(bool(ps[i] > qs[i]) for i in range(k))
    if bad:
        return
    for i in range(k):
        E.assume(us[i] > 0)
        E.assume(us[i] < 1)
    try:
        got = S.rejection_sample(lambda x: ps[idx(x)], lambda x: qs[idx(x)],
                                 draw, N=n, rng=Rng(unit=us))
    except Over:
        got = None
    want = []
    for i in range(k):
        if len(want) < n and under(E, us[i] * qs[i], ps[i]):
            want.append(xs[i])
    E.check((got is not None) == (len(want) == n), 'accepts-under-the-ratio')
    if got is not None:
        got = [got] if n == 1 else got
        E.check(len(got) == n, 'as-many-as-asked')
        for g, w in zip(got, want):
            E.check_eq(g, w, 'accepts-under-the-ratio')


def guards(E, U):
    S = U['utils.sampling']
    flat = lambda v: E.const(0) + 0
    x = E.real('x', -3, 3)
    D = [E.const(0) + 0, E.const(1) + 0]
    inside = bool(x >= 0) and bool(x <= 1)
    if inside:
        return
    e = try_(lambda: S.mh_sample(
        x, flat, E.const(1) + 0, D, rng=Rng([E.const('1/8') + 0] * 4,
                                            [E.const('1/2') + 0] * 4)))
    E.check(isinstance(e, (AssertionError, ValueError)),
            'start-outside-the-domain-rejected')
    p, q = pos(E, 'p', 0, 2), pos(E, 'q', 0, 2)
    if p > q:
        e = try_(lambda: S.rejection_sample(
            lambda v: p, lambda v: q, lambda: 0,
            rng=Rng(unit=[E.const('1/2') + 0])))
        E.check(isinstance(e, (AssertionError, ValueError)),
                'envelope-below-target-rejected')


MODS = ['utils.sampling']


def harnesses():
    def mk(name, fn, bounds, tier='quick', **k):
        return H(name, fn, MODS, bounds, tier=tier, assumes=ASSUMPTIONS, **k)
    out = []
    for d in sorted(DOMAINS):
        out.append(mk('jump-%s' % d, jump(d), 'one move on %s' % (DOMAINS[d],)))
        out.append(mk('accept-%s' % d, accept(d),
                      'one move on %s, 2 level target' % (DOMAINS[d],)))
    out += [
        mk('accept-zero', accept('positive', True),
           'one move, target zero on one side'),
        mk('chain', chain, '<= 2 samples, burn <= 2, lag <= 2'),
        mk('tuning', tuning, '42 moves, all accepted or all refused'),
        mk('slice-line', slices('line'),
           'one move, width 1, 1 refused point, 2 levels'),
        mk('slice-unit', slices('unit', '1/2'),
           'one move on [0,1], width 1/2, 1 refused point'),
        mk('slice-positive', slices('positive', '2'),
           'one move on [0,inf), width 2, 1 refused point'),
        mk('slice-narrow', slices('interval', '3/4', 0),
           'one move on an interval, width 3/4'),
        mk('slice-closed', slices('unit', '1/2', 0, closed=True),
           'one move on [0,1], a target positive up to the ends'),
        mk('slice-deep', slices('line', '1', 2),
           'one move, width 1, 2 refused points', 'thorough', paths=20000,
           seconds=800),
        mk('slice-many', many, '<= 3 samples, lag <= 2'),
        mk('rejection', rejection, '4 draws, <= 2 samples'),
        mk('guards', guards, 'starts outside the domain, bad envelopes'),
    ]
    return out
