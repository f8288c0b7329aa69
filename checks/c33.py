"""C33: hand-written generative models are internally consistent.

References: the generative programs documented in each class, written out."""
from vp.runner import H
from .lib import Mth, posreal
from .vlib import try_

ASSUMPTIONS = ['values within [-3, 3], noise within [1/16, 15/16], scales '
               'within [1/8, 8]',
               'spline boundaries (the two branches of a piecewise definition '
               'meeting) are decided as the code does']
INF = float('inf')


def mass(lp, M):
    return 0 if not hasattr(lp, 'num') and lp == -INF else M.exp(lp)


def law_of(E, outs, key):
    law = {}
    for o in outs:
        k = key(o.value)
        law[k] = law.get(k, 0) + o.weight
    return law


def close(E, a, b, label):
    E.check_eq(a, b, label)


def num(E, n, lo=-3, hi=3):
    return E.real(n, lo, hi)


def normal(M, x, mu, sd):
    z = (x - mu) / sd
    return M.exp(-z * z / 2) / (sd * M.sqrt(2 * M.pi))


def lnormal(M, x, mu, sd):
    z = (x - mu) / sd
    return -z * z / 2 - M.log(2 * M.pi) / 2 - M.log(sd)


# ------------------------------------------------------------------- tables

def twoway(E, U):
    M = Mth(E)
    C = U['dummy.twoway'].TwoWay
    y = E.choose('y', 2)
    if E.choose('float', 2):
        y = float(y)
    m = C([4], [7])
    p = [mass(m.logpdf(None, {4: x}, None, {7: y}), M) for x in (0, 1)]
    E.check_eq(sum(p), 1, 'sums-to-one')
    E.check(all(bool(m.logpdf(None, {4: x}, None, {7: y}) == -INF)
                for x in (2, -1, .5)), 'zero-off-the-support')
    N = [None, 2][E.choose('N', 2)]
    outs = E.enumerate_random(lambda rng: C([4], [7], rng=rng).simulate(
        None, [4], None, {7: y}, N))
    law = law_of(E, outs, lambda v: tuple(
        int(z[4]) for z in ([v] if N is None else v)))
    for k, w in law.items():
        want = 1
        for x in k:
            want = want * p[x]
        E.check_eq(w, want, 'samples-its-density')
    E.check(len(law) == 2 ** (N or 1), 'samples-its-density')
    for x in (0, 1):
        E.check(int(C.retrieve_y_for_x(x)) == x, 'representative-input')
        q = [mass(m.logpdf(None, {4: x}, None, {7: z}), M) for z in (0, 1)]
        E.check(q[C.retrieve_y_for_x(x)] > q[1 - C.retrieve_y_for_x(x)],
                'representative-input')


def fourway(E, U):
    M = Mth(E)
    C = U['dummy.fourway'].FourWay
    a, b = num(E, 'a'), num(E, 'b')
    m = C([4], [7, 5])
    given = {7: a, 5: b}
    p = [mass(m.logpdf(None, {4: x}, None, given), M) for x in range(4)]
    E.check_eq(sum(p), 1, 'sums-to-one')
    E.check(all(bool(m.logpdf(None, {4: x}, None, given) == -INF)
                for x in (-1, 4, .5, 3.5)), 'zero-off-the-support')
    outs = E.enumerate_random(lambda rng: C([4], [7, 5], rng=rng).simulate(
        None, [4], None, dict(given)))
    law = law_of(E, outs, lambda v: int(v[4]))
    for x in range(4):
        E.check_eq(law.get(x, 0), p[x], 'samples-its-density')
    q = (0 if b > 0 else 2) + (0 if a > 0 else 1)
    if bool(a != 0) and bool(b != 0):
        for x in range(4):
            if x != q:
                E.check(p[q] > p[x], 'favours-its-quadrant')
    for x in range(4):
        u, v = C.retrieve_y_for_x(x)
        r = [mass(m.logpdf(None, {4: z}, None, {7: u, 5: v}), M)
             for z in range(4)]
        E.check(max(range(4), key=lambda z: float(r[z])) == x,
                'representative-input')


# ---------------------------------------------------------------- piecewise

def pw(E, U, rng=None, q=None):
    C = U['dummy.piecewise'].PieceWise
    return C([4, 1], [7], sigma=q[0], flip=q[1], rng=rng)


def piecewise(E, U):
    M = Mth(E)
    q = posreal(E, 'sigma', '1/8', 8), posreal(E, 'flip', '1/16', '15/16')
    m = pw(E, U, q=q)
    if E.choose('restored', 2):
        m = U['dummy.piecewise'].PieceWise.from_metadata(m.to_metadata())
    y, x, z = num(E, 'y'), num(E, 'x'), E.choose('z', 2)
    inp = {7: y}

    def ref(z):
        return (q[1] if z == 0 else 1 - q[1]) * normal(
            M, x, y + 2 * z - 1, q[0])

    def p(t, c=None):
        return M.exp(m.logpdf(None, t, c, dict(inp)))
    joint = {4: x, 1: z} if E.choose('order', 2) else {1: z, 4: x}
    E.check_eq(p(joint), ref(z), 'joint-density')
    E.check_eq(p({4: x}), ref(0) + ref(1), 'marginal-density')
    E.check_eq(p({1: z}), q[1] if z == 0 else 1 - q[1], 'marginal-density')
    E.check_eq(p({4: x}, {1: z}) * (q[1] if z == 0 else 1 - q[1]), ref(z),
               'product-rule')
    E.check_eq(p({1: z}, {4: x}) * (ref(0) + ref(1)), ref(z), 'product-rule')


def piecewise_ends(E, U):
    """Certain and default regimes, and values that are no regime."""
    M = Mth(E)
    sigma = posreal(E, 'sigma', '1/8', 8) if E.choose('sigma', 2) else None
    flip = E.choose('flip', [0., 1., 0, 1, None])
    m = pw(E, U, q=(sigma, flip))
    if E.choose('restored', 2):
        m = U['dummy.piecewise'].PieceWise.from_metadata(m.to_metadata())
    sd = E.const(1) if sigma is None else sigma
    pz = {0: E.const('1/2'), 1: E.const('1/2')} if flip is None else \
        {0: flip, 1: 1 - flip}
    y, x = num(E, 'y'), num(E, 'x')

    def p(t, c=None):
        return mass(m.logpdf(None, t, c, {7: y}), M)
    den = 0
    for z in (0, 1):
        w = pz[z] * normal(M, x, y + 2 * z - 1, sd)
        den = den + w
        E.check_eq(p({1: z}), pz[z], 'end-marginal-density')
        E.check_eq(p({4: x, 1: z}), w, 'end-joint-density')
    E.check_eq(p({4: x}), den, 'end-marginal-density')
    for z in (0, 1):
        w = pz[z] * normal(M, x, y + 2 * z - 1, sd)
        E.check_eq(p({1: z}, {4: x}) * den, w, 'end-product-rule')
    for z in (2, -1, .5):
        for t, c in (({1: z}, None), ({1: z, 4: x}, None), ({1: z}, {4: x})):
            E.check(bool(m.logpdf(None, t, c, {7: y}) == -INF),
                    'zero-off-the-support')


def piecewise_samples(E, U):
    M = Mth(E)
    q = posreal(E, 'sigma', '1/8', 8), posreal(E, 'flip', '1/16', '15/16')
    y = num(E, 'y')
    case = E.choose('case', 5)
    x, z = num(E, 'x'), E.choose('z', 2)
    t, c = [([4, 1], None), ([4], None), ([1], {}), ([4], {1: z}),
            ([1], {4: x})][case]
    outs = E.enumerate_random(lambda rng: pw(E, U, rng, q).simulate(
        None, list(t), c and dict(c), {7: y}))
    pz = {0: q[1], 1: 1 - q[1]}
    m = pw(E, U, q=q)
    if case == 4:
        law = law_of(E, outs, lambda v: int(v[1]))
        for k in (0, 1):
            E.check_eq(law.get(k, 0), M.exp(m.logpdf(
                None, {1: k}, dict(c), {7: y})), 'samples-its-density')
        return
    for o in outs:
        E.check(sorted(o.value) == sorted(t), 'assigns-the-targets')
    if case == 2:
        law = law_of(E, outs, lambda v: int(v[1]))
        for k in (0, 1):
            E.check_eq(law.get(k, 0), pz[k], 'samples-its-density')
        return
    # the density, at a probe, of the normals drawn
    probe = E.const('1/3')
    dens = {}
    for o in outs:
        d, = [d for d in o.log if d.family == 'normal']
        shift = o.value[4] - d.value
        k = int(o.value[1]) if 1 in t else None
        dens[k] = dens.get(k, 0) + o.weight * normal(
            M, probe, d.params[0] + shift, d.params[1])
    for k, w in dens.items():
        target = {4: probe + 0}
        if k is not None:
            target[1] = k
        E.check_eq(w, M.exp(m.logpdf(None, target, c and dict(c), {7: y})),
                   'samples-its-density')


def troll(E, U):
    M = Mth(E)
    C = U['dummy.trollnormal'].TrollNormal
    a, b, x = num(E, 'a'), num(E, 'b'), num(E, 'x')
    inp = {7: a, 5: b}
    m = C([4], [7, 5])
    sd = (b if b > 0 else -b) + 1
    E.check_eq(m.logpdf(None, {4: x}, None, dict(inp)),
               lnormal(M, x, a, sd), 'documented-density')
    outs = E.enumerate_random(lambda rng: C([4], [7, 5], rng=rng).simulate(
        None, [4], None, dict(inp)))
    for o in outs:
        d, = o.log
        E.check(d.family == 'normal', 'samples-its-density')
        E.check_eq(o.value[4], d.value, 'samples-its-density')
        E.check_eq(d.params[0], a, 'samples-its-density')
        E.check_eq(d.params[1], sd, 'samples-its-density')
    m.incorporate(3, {4: x}, dict(inp))
    E.check(try_(lambda: m.incorporate(3, {4: x}, dict(inp))) is not None,
            'duplicate-row-rejected')
    m.unincorporate(3)
    E.check(try_(lambda: m.unincorporate(3)) is not None,
            'absent-row-rejected')


# ------------------------------------------------------------ noise models

def noise(E):
    return posreal(E, 'noise', '1/16', '15/16')


def mvn_density(M, x, y, rho):
    """Standard bivariate normal with correlation rho."""
    det = 1 - rho * rho
    return M.exp(-(x * x - 2 * rho * x * y + y * y) / (2 * det)) / (
        2 * M.pi * M.sqrt(det))


def linear(E, U):
    M, n = Mth(E), noise(E)
    C = U['uncorrelated.linear'].Linear
    m = C([4, 1], noise=n)
    x, y = num(E, 'x'), num(E, 'y')
    rho = 1 - n

    def p(t, c=None):
        return m.logpdf(None, t, c)
    j = {4: x, 1: y} if E.choose('order', 2) else {1: y, 4: x}
    det = 1 - rho * rho
    E.check_eq(2 * p(j), -(x * x - 2 * rho * x * y + y * y) / det
               - 2 * M.log(2 * M.pi) - M.log(det), 'joint-density')
    for a, b, v, w in ((4, 1, x, y), (1, 4, y, x)):
        E.check_eq(p({a: v}), lnormal(M, v, 0, 1), 'marginal-density')
        E.check_eq(2 * p({a: v}, {b: w}) + 2 * p({b: w}), 2 * p(j),
                   'product-rule')
    for o in E.enumerate_random(lambda rng: C([4, 1], noise=n, rng=rng)
                                .simulate(None, [4, 1])):
        d, = o.log
        E.check(d.family == 'mvn', 'samples-its-density')
        mean, cov = d.params
        for i in range(2):
            E.check_eq(mean[i], 0, 'samples-its-density')
            for k in range(2):
                E.check_eq(cov[i][k], 1 if i == k else rho,
                           'samples-its-density')
    for a, b in ((4, 1), (1, 4)):
        for o in E.enumerate_random(lambda rng: C(
                [4, 1], noise=n, rng=rng).simulate(None, [a], {b: x})):
            d, = o.log
            E.check_eq(o.value[a], d.value, 'samples-its-density')
            E.check_eq(d.params[0], rho * x, 'samples-its-density')
            E.check_eq(d.params[1] * d.params[1], det, 'samples-its-density')
    E.check_eq(-2 * m.mutual_information(), M.log(det), 'mutual-information')


def xcross(E, U):
    M, n = Mth(E), noise(E)
    C = U['uncorrelated.xcross'].XCross
    x, y = num(E, 'x'), num(E, 'y')
    rho = 1 - n
    E.check_eq(M.exp(C([4, 1], noise=n).logpdf(None, {4: x, 1: y})),
               (mvn_density(M, x, y, rho) + mvn_density(M, x, y, -rho)) / 2,
               'joint-density')
    for o in E.enumerate_random(lambda rng: C([4, 1], noise=n, rng=rng)
                                .simulate(None, [4, 1])):
        d = [d for d in o.log if d.family == 'mvn'][0]
        us = [v for v in o.log if v.family == 'uniform']
        E.check(len(us) == 1, 'samples-its-density')
        E.check_eq(d.params[1][0][1] * d.params[1][1][0], rho * rho,
                   'samples-its-density')
        for i in (0, 1):
            E.check_eq(d.params[1][i][i], 1, 'samples-its-density')
        # one sign below one half, the other above
        up = d.params[1][0][1] > 0
        E.check((us[0].value < E.const('1/2')) == bool(up)
                or bool(us[0].value == E.const('1/2')),
                'samples-its-density')


def dots(E, U):
    M, n = Mth(E), noise(E)
    C = U['uncorrelated.dots'].Dots
    x, y = num(E, 'x'), num(E, 'y')
    m = C([4, 1], noise=n)
    ref1 = lambda v: (normal(M, v, -1, n) + normal(M, v, 1, n)) / 2
    E.check_eq(M.exp(m.logpdf(None, {4: x, 1: y})), ref1(x) * ref1(y),
               'joint-density')
    E.check_eq(M.exp(m.logpdf(None, {1: y})), ref1(y), 'marginal-density')
    E.check_eq(M.exp(m.logpdf(None, {1: y}, {4: x})), ref1(y),
               'product-rule')
    for c in (None, {1: y}):
        dens = 0
        outs = E.enumerate_random(lambda rng: C([4, 1], noise=n, rng=rng)
                                  .simulate(None, [4] if c else [4, 1], c))
        seen = set()
        for o in outs:
            ds = [d for d in o.log if d.family == 'normal']
            pick = []
            for q in o.value:
                d = [d for d in ds if E.isclose(d.value, o.value[q])][0]
                ds = [e for e in ds if e is not d]
                E.check_eq(d.params[1], n, 'samples-its-density')
                pick.append(int(d.params[0]))
            E.check_eq(o.weight, E.const('1/4'), 'samples-its-density')
            seen.add(tuple(pick))
        E.check(len(seen) == (2 if c else 4), 'samples-its-density')


def ring(E, U):
    n = noise(E)
    C = U['uncorrelated.ring'].Ring
    for o in E.enumerate_random(lambda rng: C([4, 1], noise=n, rng=rng)
                                .simulate(None, [4, 1])):
        r2 = o.value[4] * o.value[4] + o.value[1] * o.value[1]
        E.check(r2 <= 1, 'within-the-ring')
        E.check(r2 >= (1 - n) * (1 - n), 'within-the-ring')


# --------------------------------------------------------- directed models

def uniformx(E, U):
    M = Mth(E)
    C = U['uncorrelated.uniformx'].UniformX
    lo, w, x = num(E, 'lo', -2, 2), posreal(E, 'w', '1/8', 8), num(E, 'x')
    m = C([4], low=lo, high=lo + w)
    lp = m.logpdf(None, {4: x})
    if lo <= x and x <= lo + w:
        E.check_eq(lp, -M.log(w), 'documented-density')
    else:
        E.check(lp == -INF, 'zero-off-the-support')
    for o in E.enumerate_random(lambda rng: C(
            [4], low=lo, high=lo + w, rng=rng).simulate(None, [4])):
        v = o.value[4]
        E.check(lo <= v, 'samples-its-support')
        E.check(v <= lo + w, 'samples-its-support')


def child(which):
    """y given x: documented density; samples are uniform about the curve."""
    def h(E, U):
        M, n = Mth(E), noise(E)
        C = getattr(U['uncorrelated.%s' % which], {
            'sin': 'SinY', 'parabola': 'ParabolaY'}[which])
        m = C([4], [7], noise=n)
        x, y = num(E, 'x'), num(E, 'y')
        lp = m.logpdf(None, {4: y}, None, {7: x})
        if which == 'sin':
            c = M.cos(x)
            inside = (c <= y and y <= c + n) if c < 0 else (
                c - n <= y and y <= c)
            want = 1 / n if inside else 0
        else:
            want = 0
            for s in (1, -1):
                d = s * y - x * x
                if -n <= d and d <= n:
                    want = want + 1 / (4 * n)
        E.check_eq(mass(lp, M), want, 'documented-density')
        for o in E.enumerate_random(lambda rng: C(
                [4], [7], noise=n, rng=rng).simulate(
                    None, [4], None, {7: x})):
            v = o.value[4]
            # the noise: a uniform whose image is the documented interval
            if which == 'sin':
                c = M.cos(x)
                d, = o.log
                E.check_eq(v, c + n * d.value if c < 0 else c - n * d.value,
                           'samples-its-density')
            else:
                side, d = o.log
                sgn = 1 if side.value < E.const('1/2') else -1
                E.check_eq(sgn * v, x * x - n + 2 * n * d.value,
                           'samples-its-density')
            E.check(m.logpdf(None, {4: v}, None, {7: x}) != -INF,
                    'samples-have-density')
    return h


def diamond(E, U):
    """The diamond |x| + |y| <= 1, within the noise of its edge."""
    n = noise(E)
    C = U['uncorrelated.diamond'].DiamondY
    U['uncorrelated.diamond'].max = max
    U['uncorrelated.diamond'].min = min
    x = num(E, 'x', -1, 1)
    if x == 0:
        return
    for o in E.enumerate_random(lambda rng: C(
            [4], [7], noise=n, rng=rng).simulate(None, [4], None, {7: x}),
            catch=(ValueError,)):
        if o.error:
            E.check(o.log[0].value == E.const('1/2'), 'answers')
            continue
        v = o.value[4]
        r = (x if x > 0 else -x) + (v if v > 0 else -v)
        E.check(r <= 1, 'within-the-diamond')
        E.check(r >= 1 - n or bool(v == 0), 'within-the-noise-of-the-edge')


def directed(which):
    """The pair is uniform x and the child: joint, marginal of x, child given
    x, and samples; a given x is honoured."""
    def h(E, U):
        M, n = Mth(E), noise(E)
        mod = U['uncorrelated.%s' % which]
        C = getattr(mod, {'sin': 'Sin', 'parabola': 'Parabola'}[which])
        Y = getattr(mod, {'sin': 'SinY', 'parabola': 'ParabolaY'}[which])
        lo, hi = (-1, 1) if which == 'parabola' else (
            -M.pi * 3 / 2, M.pi * 3 / 2)
        x, y = num(E, 'x'), num(E, 'y')
        m, c = C([4, 1], noise=n), Y([1], [4], noise=n)
        py = c.logpdf(None, {1: y}, None, {4: x})
        inside = bool(x >= lo) and bool(x <= hi)
        px = -M.log(hi - lo) if inside else -INF
        case = E.choose('case', 3)
        if case == 0:
            lp = m.logpdf(None, {4: x, 1: y})
            E.check_eq(mass(lp, M), mass(px, M) * mass(py, M),
                       'joint-density')
        elif case == 1:
            E.check_eq(mass(m.logpdf(None, {4: x}), M), mass(px, M),
                       'marginal-density')
        elif inside:
            lp = m.logpdf(None, {1: y}, {4: x})
            E.check_eq(mass(lp, M), mass(py, M), 'conditional-density')
    return h


def directed_samples(which):
    def h(E, U):
        M, n = Mth(E), noise(E)
        mod = U['uncorrelated.%s' % which]
        mod.max, mod.min = max, min
        C = getattr(mod, {'sin': 'Sin', 'parabola': 'Parabola',
                          'diamond': 'Diamond'}[which])
        x = posreal(E, 'x', '1/16', '15/16')
        given = E.choose('given', 2)
        N = [None, 2][E.choose('N', 2)]

        def run(rng):
            m = C([4, 1], noise=n, rng=rng)
            m.x.rng = m.y.rng = rng
            return m.simulate(None, [1] if given else [4, 1],
                              {4: x} if given else None, N=N)
        half = E.const('1/2')
        for o in E.enumerate_random(run, catch=(ValueError,)):
            if o.error:
                # the two probability zero cases that are not handled
                E.check(which == 'diamond' and any(
                    bool(d.value == half) for d in o.log), 'answers')
                continue
            vs = [o.value] if N is None else o.value
            E.check(len(vs) == (N or 1), 'one-per-sample')
            for v in vs:
                a, b = (x if given else v[4]), v[1]
                E.check(sorted(v) == ([1] if given else [1, 4]),
                        'assigns-the-targets')
                if which == 'diamond':
                    r = (a if a > 0 else -a) + (b if b > 0 else -b)
                    E.check(r <= 1, 'samples-have-density')
                    continue
                lp = C([4, 1], noise=n).logpdf(None, {4: a, 1: b})
                E.check(lp != -INF, 'samples-have-density')
    return h


D = 'dummy.'
N = 'uncorrelated.'


def harnesses():
    def mk(name, fn, mods, bounds, tier='quick', **k):
        return H(name, fn, mods, bounds, tier=tier, assumes=ASSUMPTIONS, **k)
    net = [N + 'directed', N + 'uniformx', 'network.importance']
    return [
        mk('twoway', twoway, [D + 'twoway'], 'all inputs, <= 2 samples'),
        mk('fourway', fourway, [D + 'fourway'], 'real inputs'),
        mk('piecewise', piecewise, [D + 'piecewise'], 'real values'),
        mk('piecewise-ends', piecewise_ends, [D + 'piecewise'],
           'real values, certain, default and impossible regimes'),
        mk('piecewise-samples', piecewise_samples, [D + 'piecewise'],
           'the five query shapes'),
        mk('troll', troll, [D + 'trollnormal'], 'real values'),
        mk('linear', linear, [N + 'linear', N + 'undirected'],
           'real values and noise'),
        mk('xcross', xcross, [N + 'xcross', N + 'undirected'],
           'real values and noise'),
        mk('dots', dots, [N + 'dots', N + 'undirected'],
           'real values and noise'),
        mk('ring', ring, [N + 'ring', N + 'undirected'], 'real noise'),
        mk('uniformx', uniformx, [N + 'uniformx'], 'real values'),
        mk('sin-child', child('sin'), [N + 'sin'], 'real values and noise'),
        mk('parabola-child', child('parabola'), [N + 'parabola'],
           'real values and noise'),
        mk('diamond-child', diamond, [N + 'diamond'],
           'real values and noise'),
        mk('sin', directed('sin'), [N + 'sin'] + net, 'real values'),
        mk('parabola', directed('parabola'), [N + 'parabola'] + net,
           'real values'),
        mk('sin-samples', directed_samples('sin'), [N + 'sin'] + net,
           '<= 2 samples'),
        mk('parabola-samples', directed_samples('parabola'),
           [N + 'parabola'] + net, '<= 2 samples'),
        mk('diamond-samples', directed_samples('diamond'),
           [N + 'diamond'] + net, '<= 2 samples'),
    ]
