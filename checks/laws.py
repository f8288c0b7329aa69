"""Closed-form laws of compound random draws, recognised from the recorded
draws (family and parameters actually requested by the code)."""
from vp import sym as S
from vp.sym import Sym
from .lib import student


class NoLaw(Exception):
    pass


def free_of(E, x, y):
    """x does not depend on the draw y."""
    if not E.symbolic:
        return True
    if not isinstance(x, Sym) or not isinstance(y, Sym):
        return True
    return not (S.base_vars(x) & S.base_vars(y))


def law(E, M, log, value):
    """log density of `value` implied by the draws in `log`."""
    draws = [d for d in log if d.family not in ('choice',)]
    fam = [d.family for d in draws]
    if fam == ['gamma', 'exponential']:
        g, e = draws
        shape, scale = g.params
        E.check_eq(e.params[0] * g.value, 1, 'exponential-rate-is-drawn-mu')
        E.check_eq(value, e.value, 'returns-drawn-value')
        b = 1 / scale if not isinstance(scale, int) else M.q(1) / scale
        return M.log(shape) + shape * M.log(b) - (shape + 1) * M.log(b + value)
    if fam == ['exponential']:
        E.check_eq(value, draws[0].value, 'returns-drawn-value')
        sc = draws[0].params[0]
        return -M.log(sc) - value / sc
    if fam == ['beta', 'geometric']:
        b, g = draws
        E.check_eq(g.params[0], b.value, 'success-prob-is-drawn')
        E.check_eq(value, g.value - 1, 'failures-before-success')
        x = g.value - 1
        return M.betaln(b.params[0] + 1, b.params[1] + x) - M.betaln(*b.params)
    if fam == ['gamma', 'poisson']:
        g, d = draws
        E.check_eq(d.params[0], g.value, 'rate-is-drawn')
        E.check_eq(value, d.value, 'returns-drawn-value')
        n = g.params[0]
        p = 1 / (1 + g.params[1])
        return negbin(M, n, p, value)
    if fam == ['negative_binomial']:
        d, = draws
        E.check_eq(value, d.value, 'returns-drawn-value')
        return negbin(M, d.params[0], d.params[1], value)
    if fam == ['gamma', 'normal', 'normal']:
        g, a, b = draws
        rho = g.value
        # a ~ N(m, 1/(r rho)), b ~ N(a, 1/rho)
        r = 1 / (a.params[1] * a.params[1] * rho)
        E.check(free_of(E, r, rho) and free_of(E, a.params[0], rho),
                'mean-prior-scales-with-precision')
        E.check_eq(b.params[0], a.value, 'location-is-drawn-mean')
        E.check_eq(b.params[1] * b.params[1] * rho, 1, 'precision-is-drawn')
        E.check(a.params[1] > 0, 'scale-positive')
        E.check(b.params[1] > 0, 'scale-positive')
        k, th = g.params
        s2 = (1 + 1 / r) / (k * th)
        x = b.value
        t = student(M, x, 2 * k, a.params[0], s2)
        if value is x or (E.symbolic and E.equal(value, x)) or \
                (not E.symbolic and E.isclose(value, x)):
            return t
        E.check_eq(value, M.exp(x), 'returns-drawn-value-or-its-exponential')
        return t - x
    if fam == ['vonmises', 'vonmises']:
        a, b = draws
        mu = a.value + M.pi
        E.check_eq(M.cos(b.params[0]), M.cos(a.value), 'location-is-drawn-mean')
        E.check_eq(M.sin(b.params[0]), M.sin(a.value), 'location-is-drawn-mean')
        E.check_eq(M.cos(value), -M.cos(b.value), 'returns-drawn-value')
        E.check_eq(M.sin(value), -M.sin(b.value), 'returns-drawn-value')
        c, k = a.params[1], b.params[1]
        # density of the angle value with mean direction a.params[0] + pi
        m = a.params[0] + M.pi
        R2 = c * c + k * k + 2 * c * k * M.cos(value - m)
        return (M.logbessel0(M.sqrt(R2)) - M.log(2 * M.pi)
                - M.logbessel0(c) - M.logbessel0(k))
    raise NoLaw('no closed form for draws %s' % fam)


def negbin(M, n, p, x):
    return (M.lgamma(n + x) - M.lgamma(x + 1) - M.lgamma(n)
            + n * M.log(p) + x * M.log(1 - p))
