"""Exact sparse Laurent polynomials with rational exponents over a variable
registry.  A polynomial is a dict {monomial: Fraction}; a monomial is a tuple of
(var id, exponent) pairs sorted by var id, exponents non-zero ints or Fractions.
"""
import heapq
from fractions import Fraction as F

ONE = ()


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            e = ea + eb
            if e != 0:
                if isinstance(e, F) and e.denominator == 1:
                    e = int(e)
                out.append((va, e))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def minv(a):
    return tuple((v, -e) for v, e in a)


def mpow(a, k):
    if k == 0:
        return ONE
    out = []
    for v, e in a:
        e = e * k
        if isinstance(e, F) and e.denominator == 1:
            e = int(e)
        out.append((v, e))
    return tuple(out)


def pconst(c):
    c = F(c)
    return {ONE: c} if c else {}


def pvar(v, e=1):
    return {((v, e),): F(1)}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def pscale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: k * c for m, k in p.items()}


def psub(p, q):
    return padd(p, pscale(q, F(-1)))


def pmulm(p, mono, c=F(1)):
    return {mmul(m, mono): k * c for m, k in p.items()}


class TooBig(Exception):
    pass


MAX_TERMS = 60000


def pmul(p, q):
    if not p or not q:
        return {}
    if len(q) == 1:
        (m, c), = q.items()
        return pmulm(p, m, c)
    if len(p) == 1:
        (m, c), = p.items()
        return pmulm(q, m, c)
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            s = r.get(m)
            r[m] = c1 * c2 if s is None else s + c1 * c2
        if len(r) > MAX_TERMS:
            raise TooBig('polynomial with more than %d terms' % MAX_TERMS)
    return {m: c for m, c in r.items() if c}


def ppow(p, n):
    r = {ONE: F(1)}
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def pvars(p):
    return {v for m in p for v, _ in m}


def pkey(p):
    return tuple(sorted(p.items(), key=_skey))


def _skey(item):
    m, c = item
    return (len(m), tuple((v, float(e)) for v, e in m))


def pisconst(p):
    return not p or (len(p) == 1 and ONE in p)


def pcval(p):
    return p.get(ONE, F(0))


def content(p):
    """Return (monomial, coefficient, primitive poly) with p = c*m*q."""
    mins = None
    n = len(p)
    cnt = {}
    for m in p:
        for v, e in m:
            k = cnt.get(v)
            if k is None:
                cnt[v] = [1, e]
            else:
                k[0] += 1
                if e < k[1]:
                    k[1] = e
    mono = []
    for v in sorted(cnt):
        c, e = cnt[v]
        if c < n:
            e = min(e, 0)
        if e != 0:
            mono.append((v, e))
    mono = tuple(mono)
    lead = max(p, key=lambda m: (_skey((m, 0))))
    c = p[lead]
    q = pmulm(p, minv(mono), 1 / c)
    return mono, c, q


_PRIME = (1 << 61) - 1
_PW = {}


def _pw(v, e):
    """A fixed pseudo-random value of variable v to the power e, mod prime."""
    k = (v, e)
    r = _PW.get(k)
    if r is None:
        x = (v * 0x9E3779B97F4A7C15 + 0x1234567) % (_PRIME - 2) + 2
        r = _PW[k] = pow(x, int(e), _PRIME)
    return r


def _univariate(p, main):
    """p on a line: {exponent of main: coefficient mod prime}."""
    out = {}
    for m, c in p.items():
        if c.denominator == 1:
            x = c.numerator % _PRIME
        else:
            x = c.numerator * pow(c.denominator, -1, _PRIME) % _PRIME
        k = 0
        for v, e in m:
            if v == main:
                k = e
            else:
                x = x * _pw(v, e) % _PRIME
        out[k] = (out.get(k, 0) + x) % _PRIME
    return {k: x for k, x in out.items() if x}


def _not_divisible(p, d, main):
    """Certain that d does not divide p (both have integer exponents)."""
    a, b = _univariate(p, main), _univariate(d, main)
    if not b or not a:
        return False
    db = max(b)
    inv = pow(b[db], -1, _PRIME)
    lo = min(b)
    while a:
        da = max(a)
        if da - min(a) < db - lo:
            return True
        f = a[da] * inv % _PRIME
        for k, x in b.items():
            j = k + da - db
            y = (a.get(j, 0) - f * x) % _PRIME
            if y:
                a[j] = y
            elif j in a:
                del a[j]
    return False


def exact_div(p, d):
    """p / d if exact, else None.  Lexicographic reduction."""
    if not p:
        return {}
    if len(d) == 1:
        (m, c), = d.items()
        return pmulm(p, minv(m), 1 / c)
    if len(p) < 1:
        return None
    deg = {}
    whole = True
    for q, i in ((d, 0), (p, 1)):
        n = {}
        for m in q:
            for v, e in m:
                if e != int(e):
                    whole = False
                k = n.get(v)
                if k is None:
                    n[v] = [e, e, 1]
                else:
                    k[2] += 1
                    if e < k[0]:
                        k[0] = e
                    elif e > k[1]:
                        k[1] = e
        for v, k in n.items():
            if k[2] < len(q):
                k[0], k[1] = min(k[0], 0), max(k[1], 0)
        deg[i] = n
    dd, pd = deg[0], deg[1]
    # for each variable the degree span of p must be >= that of d
    bound = {}
    for v, k in dd.items():
        j = pd.get(v)
        if j is None or j[1] - j[0] < k[1] - k[0]:
            return None
        bound[v] = (j[0] - k[0], j[1] - k[1])
    for v, j in pd.items():
        if v not in dd:
            bound[v] = (j[0], j[1])
    if whole and len(p) > 3:
        main = max(dd, key=lambda v: dd[v][1] - dd[v][0])
        if _not_divisible(p, d, main):
            return None
    order = sorted(pd)
    pos = {v: i for i, v in enumerate(order)}
    n = len(order)

    def key(m):
        k = [0] * n
        for v, e in m:
            k[pos[v]] = -e
        return tuple(k)
    keyed = {m: key(m) for m in d}
    dl = min(d, key=keyed.get)
    dlc = d[dl]
    r = dict(p)
    q = {}
    dlinv = minv(dl)
    rest = [(m, c) for m, c in d.items() if m != dl]
    heap = [(key(m), m) for m in r]
    heapq.heapify(heap)
    steps = 0
    limit = 4 * len(p) + 50
    while r:
        m = heapq.heappop(heap)[1]
        if m not in r:
            continue
        steps += 1
        if steps > limit:
            return None
        qm = mmul(m, dlinv)
        dq = dict(qm)
        for v, (lo, hi) in bound.items():
            e = dq.get(v, 0)
            if e < lo or e > hi:
                return None
        qc = r[m] / dlc
        q[qm] = qc
        del r[m]
        for m2, c2 in rest:
            mm = mmul(qm, m2)
            old = r.get(mm)
            if old is None:
                r[mm] = -qc * c2
                heapq.heappush(heap, (key(mm), mm))
            else:
                s = old - qc * c2
                if s:
                    r[mm] = s
                else:
                    del r[mm]
    return q


def poly_has_neg(p):
    return any(e < 0 for m in p for _, e in m)
