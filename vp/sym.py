"""Symbolic numbers: rational functions over base variables and
transcendental atoms (log, lgamma, exp, roots, other uninterpreted functions),
kept in a normal form that instantiates the laws of log/exp/gamma, and
translated to z3 for every decision."""
import math
import sys
from fractions import Fraction as F

import z3

from . import poly as P
from .poly import ONE


class Unsupported(BaseException):
    """The code left the symbolically executable fragment (inconclusive)."""


class CTX(object):
    engine = None


def engine():
    e = CTX.engine
    if e is None:
        raise Unsupported('symbolic operation outside an engine')
    return e


# ---------------------------------------------------------------- variables

class Var(object):
    __slots__ = ('vid', 'kind', 'name', 'sort', 'sign', 'lo', 'hi', 'data',
                 'z', 'flt', 'zc')

    def __repr__(self):
        return self.name


class Registry(object):
    def __init__(self):
        self.vars = []
        self.byname = {}
        self.names = {}
        self.atoms = {}
        self.roots = {}
        self.polyz = {}
        self.facts = {}
        self.denreg = {}
        self.lgclass = {}
        self.counter = 0


REG = Registry()


def reset():
    global REG
    REG = Registry()


def new_var(kind, name, sort='R', sign=None, lo=None, hi=None, data=None,
            flt=True):
    v = Var()
    v.vid = len(REG.vars)
    v.kind = kind
    v.name = name
    v.sort = sort
    v.sign = sign
    v.lo = lo
    v.hi = hi
    v.data = data
    v.flt = flt
    v.z = z3.Int('%s' % name) if sort == 'I' else z3.Real('%s' % name)
    REG.vars.append(v)
    return v


def base_var(name, sort, lo, hi, flt):
    key = (name, sort, lo, hi, flt)
    v = REG.byname.get(key)
    if v is None:
        sign = None
        if lo is not None and lo > 0:
            sign = 'pos'
        elif lo is not None and lo >= 0:
            sign = 'nonneg'
        elif hi is not None and hi < 0:
            sign = 'neg'
        REG.names[name] = REG.names.get(name, 0) + 1
        zn = name if REG.names[name] == 1 else '%s~%d' % (
            name, REG.names[name])
        v = new_var('base', zn, sort, sign, lo, hi, None, flt)
        REG.byname[key] = v
    return v


def atom(kind, key, data, sign=None, name=None):
    k = (kind, key)
    v = REG.atoms.get(k)
    if v is None:
        nm = '%s!%d' % (kind, len(REG.vars))
        v = new_var(kind, nm, 'R', sign, None, None, data)
        REG.atoms[k] = v
    return v


# ---------------------------------------------------------------- signs

def mono_sign(m):
    """'pos', 'nonneg', or None from variable signs."""
    s = 'pos'
    for v, e in m:
        vs = REG.vars[v].sign
        if vs == 'pos':
            continue
        if isinstance(e, int) and e % 2 == 0:
            if e > 0:
                s = 'nonneg'
            continue
        if vs == 'nonneg' and (e > 0):
            s = 'nonneg'
            continue
        return None
    return s


def quick_sign(p):
    """Syntactic sign of a poly: 'pos','neg','zero','nonneg','nonpos',None."""
    if not p:
        return 'zero'
    pos = neg = False
    strict = False
    for m, c in p.items():
        s = mono_sign(m)
        if s is None:
            return None
        if c > 0:
            pos = True
        else:
            neg = True
        if s == 'pos':
            strict = True
        if pos and neg:
            return None
    if pos:
        return 'pos' if strict else 'nonneg'
    return 'neg' if strict else 'nonpos'


# ---------------------------------------------------------------- Sym

def den_register(p):
    k = P.pkey(p)
    REG.denreg[k] = p
    return k


def _num(x):
    """Coerce a Python/numpy number to a Fraction, or None."""
    if isinstance(x, bool):
        return F(int(x))
    if isinstance(x, int):
        return F(x)
    if isinstance(x, F):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return float_to_frac(x)
    tn = type(x).__module__
    if tn == 'numpy':
        import numpy as np
        if isinstance(x, np.bool_):
            return F(int(x))
        if isinstance(x, np.integer):
            return F(int(x))
        if isinstance(x, np.floating):
            return _num(float(x))
    return None


def float_to_frac(x):
    if x == int(x) if abs(x) < 1e300 else False:
        return F(int(x))
    return F(repr(float(x)))


def is_float_like(x):
    if isinstance(x, Sym):
        return x.flt
    if isinstance(x, (bool, int)):
        return False
    import numpy as np
    if isinstance(x, (np.integer, np.bool_)):
        return False
    return True


class Sym(object):
    __slots__ = ('num', 'den', 'flt', '_hash', 'pos')

    def __init__(self, num, den=(), flt=True):
        self.pos = False    # known positive by construction (exponentials)
        self.num = num
        self.den = den      # tuple of (polykey, exp) sorted
        self.flt = flt

    # -- construction
    @staticmethod
    def const(c, flt=True):
        return Sym(P.pconst(c), (), flt)

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        c = _num(x)
        if c is None:
            return None
        return Sym(P.pconst(c), (), is_float_like(x))

    # -- predicates
    def is_const(self):
        """Rational constant."""
        return not self.den and P.pisconst(self.num)

    def cval(self):
        return P.pcval(self.num)

    def vars(self):
        s = P.pvars(self.num)
        for k, _ in self.den:
            s |= P.pvars(REG.denreg[k])
        return s

    def only_const_atoms(self):
        return all(is_const_atom(v) for v in self.vars())

    def is_int_valued(self):
        if self.den:
            return False
        for m, c in self.num.items():
            if c.denominator != 1:
                return False
            for v, e in m:
                if REG.vars[v].sort != 'I' or not isinstance(e, int) or e < 0:
                    return False
        return True

    # -- arithmetic
    def _coerce(self, o):
        if isinstance(o, Sym):
            return o
        c = _num(o)
        if c is None:
            return None
        return Sym(P.pconst(c), (), is_float_like(o))

    def __add__(self, o):
        if _isarr(o):
            return NotImplemented
        b = self._coerce(o)
        if b is None:
            return _special_add(o, 1)
        return _add(self, b)

    __radd__ = __add__

    def __sub__(self, o):
        if _isarr(o):
            return NotImplemented
        b = self._coerce(o)
        if b is None:
            return _special_add(o, -1)
        return _add(self, _neg(b))

    def __rsub__(self, o):
        if _isarr(o):
            return NotImplemented
        b = self._coerce(o)
        if b is None:
            return _special_add(o, 1)
        return _add(b, _neg(self))

    def __neg__(self):
        return _neg(self)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if _isarr(o):
            return NotImplemented
        b = self._coerce(o)
        if b is None:
            if isinstance(o, (list, tuple, str)):
                return o * self.__index__()
            return _special_mul(self, o)
        return _mul(self, b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isarr(o):
            return NotImplemented
        b = self._coerce(o)
        if b is None:
            if _isinf(o):
                return 0.
            return _special_mul(self, o)
        return div(self, b)

    def __rtruediv__(self, o):
        if _isarr(o):
            return NotImplemented
        b = self._coerce(o)
        if b is None:
            return _special_mul(self, o)
        return div(b, self)

    def __floordiv__(self, o):
        if _isarr(o):
            return NotImplemented
        return floordiv(self, Sym.of(o))

    def __rfloordiv__(self, o):
        return floordiv(Sym.of(o), self)

    def __mod__(self, o):
        b = Sym.of(o)
        if b is None:
            raise Unsupported('mod %r' % (o,))
        return self - b * floordiv(self, b)

    def __rmod__(self, o):
        return Sym.of(o) % self

    def __pow__(self, o, mod=None):
        if _isarr(o):
            return NotImplemented
        b = self._coerce(o)
        return power(self, b)

    def __rpow__(self, o):
        b = self._coerce(o)
        return power(b, self)

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    def __round__(self, n=None):
        if self.is_const():
            return Sym.const(F(round(float(self.cval()), n or 0)))
        if self.is_int_valued():
            return self
        raise Unsupported('round of a symbolic value')

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def is_integer(self):
        return self % 1 == 0

    # -- comparison
    def __lt__(self, o):
        return compare(self, o, '<')

    def __le__(self, o):
        return compare(self, o, '<=')

    def __gt__(self, o):
        return compare(self, o, '>')

    def __ge__(self, o):
        return compare(self, o, '>=')

    def __eq__(self, o):
        return compare(self, o, '==')

    def __ne__(self, o):
        return compare(self, o, '!=')

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        if self.is_int_valued():
            return hash(self.__index__())
        return 0x5eed

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        if self.is_const():
            c = self.cval()
            if c.denominator != 1:
                raise TypeError('non-integral index %s' % c)
            return int(c)
        if self.is_int_valued():
            return engine().concretize(self)
        raise Unsupported('index from a symbolic real')

    def __int__(self):
        t = trunc(self)
        return t.__index__()

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        if self.only_const_atoms():
            return float(const_eval(self))
        raise Unsupported('float() of a symbolic value in native code')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __repr__(self):
        return render(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy object-array unary ufuncs dispatch to these methods
    def log(self):
        return np_log(self)

    def log2(self):
        return np_log(self) / s_log(2)

    def log1p(self):
        return np_log(self + 1)

    def exp(self):
        return s_exp(self)

    def expm1(self):
        return s_exp(self) - 1

    def sqrt(self):
        return s_sqrt(self)

    def cos(self):
        return s_cos(self)

    def sin(self):
        return s_sin(self)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def rint(self):
        return self.__round__()

    def floor(self):
        return floor(self)

    @property
    def real(self):
        return self

    # numpy-scalar conveniences
    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, t):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()


def _isarr(o):
    return type(o).__name__ == 'ndarray'


def _isinf(o):
    try:
        return math.isinf(o)
    except TypeError:
        return False


def _isnan(o):
    try:
        return math.isnan(o)
    except TypeError:
        return False


def _special_add(o, sgn):
    if o is None:
        raise TypeError('unsupported operand type(s) with NoneType')
    if _isnan(o):
        return float('nan')
    if _isinf(o):
        return sgn * float(o)
    if isinstance(o, (str, list, tuple, dict)):
        raise TypeError('unsupported operand type(s)')
    if isinstance(o, SBool):
        raise Unsupported('arithmetic on a symbolic boolean')
    return NotImplemented


def _special_mul(s, o):
    if o is None or isinstance(o, dict):
        raise TypeError('unsupported operand type(s)')
    if _isnan(o):
        return float('nan')
    if _isinf(o):
        if s > 0:
            return float(o)
        if s < 0:
            return -float(o)
        return float('nan')
    return NotImplemented


def _neg(a):
    return Sym(P.pscale(a.num, F(-1)), a.den, a.flt)


def _den_lcm(d1, d2):
    """lcm, and multipliers (as lists of (key, exp))."""
    if d1 == d2:
        return d1, (), ()
    a, b = dict(d1), dict(d2)
    keys = set(a) | set(b)
    l = {}
    m1, m2 = [], []
    for k in keys:
        ea, eb = a.get(k, 0), b.get(k, 0)
        e = max(ea, eb)
        l[k] = e
        if e > ea:
            m1.append((k, e - ea))
        if e > eb:
            m2.append((k, e - eb))
    return _dent(l), m1, m2


def _dent(d):
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=_dkey))


def _dkey(ke):
    k, e = ke
    return (len(k), str(k))


def _mulfac(p, facs):
    for k, e in facs:
        q = REG.denreg[k]
        for _ in range(e):
            p = P.pmul(p, q)
    return p


def _ispos(a):
    if a.pos:
        return True
    return quick_sign(a.num) == 'pos' and all(
        e % 2 == 0 or quick_sign(REG.denreg[k]) == 'pos' for k, e in a.den)


def _keep_pos(a, b, r):
    if (a.pos or b.pos) and not r.pos and _ispos(a) and _ispos(b):
        if r is a or r is b:
            r = Sym(r.num, r.den, r.flt)
        r.pos = True
    return r


def _add(a, b):
    return _keep_pos(a, b, _add0(a, b))


def _mul(a, b):
    return _keep_pos(a, b, _mul0(a, b))


def _add0(a, b):
    flt = a.flt or b.flt
    if not a.num:
        return b if b.flt == flt else Sym(b.num, b.den, flt)
    if not b.num:
        return a if a.flt == flt else Sym(a.num, a.den, flt)
    if not a.den and not b.den:
        return Sym(P.padd(a.num, b.num), (), flt)
    l, m1, m2 = _den_lcm(a.den, b.den)
    n = P.padd(_mulfac(a.num, m1), _mulfac(b.num, m2))
    return _cancel(n, dict(l), flt)


def _cancel(num, den, flt):
    if not num:
        return Sym({}, (), flt)
    for k in list(den):
        q = REG.denreg[k]
        while den.get(k, 0) > 0:
            if len(num) < len(q) and len(num) == 1:
                break
            r = P.exact_div(num, q)
            if r is None:
                break
            num = r
            den[k] -= 1
    return _fix_base(num, _dent(den), flt)


def _reduce_sin(num):
    """sin(a)^2 -> 1 - cos(a)^2."""
    while True:
        hit = None
        for m in num:
            for v, e in m:
                if REG.vars[v].kind == 'SIN' and e >= 2:
                    hit = v
                    break
            if hit is not None:
                break
        if hit is None:
            return num
        d = REG.vars[hit].data
        c = atom('COS', (P.pkey(d.num), d.den), d).vid
        out = {}
        for m, k in num.items():
            e = dict(m).get(hit, 0)
            if e >= 2:
                rest = P.mmul(tuple((v, x) for v, x in m if v != hit),
                              ((hit, e - 2),) if e > 2 else ())
                out = P.padd(out, {rest: k})
                out = P.padd(out, {P.mmul(rest, ((c, 2),)): -k})
            else:
                out = P.padd(out, {m: k})
        num = out


def _fix_base(num, den, flt):
    """Keep exponents of root-base atoms in [0, 1)."""
    num = _reduce_sin(num)
    again = True
    while again:
        again = False
        for m in num:
            for v, e in m:
                if REG.vars[v].kind == 'BASE' and not (0 <= e < 1):
                    again = True
                    vid = v
                    break
            if again:
                break
        if not again:
            break
        t = REG.vars[vid].data
        fl = {}
        mn = 0
        for m in num:
            e = dict(m).get(vid, 0)
            f = math.floor(e)
            fl[m] = f
            mn = min(mn, f)
        out = {}
        cache = {0: {ONE: F(1)}}
        for m, c in num.items():
            k = fl[m] - mn
            e = dict(m).get(vid, 0)
            if k not in cache:
                cache[k] = P.ppow(t, k)
            mm = tuple((v, x) for v, x in m if v != vid)
            fr = e - fl[m]
            if fr:
                mm = P.mmul(mm, ((vid, fr),))
            out = P.padd(out, P.pmulm(cache[k], mm, c))
        num = out
        if mn < 0:
            d = dict(den)
            if len(t) == 1:
                num = P.pmul(num, {P.minv(mm): 1 / cc
                                   for mm, cc in P.ppow(t, -mn).items()})
            else:
                mono, c, q = P.content(t)
                k = den_register(q)
                d[k] = d.get(k, 0) + (-mn)
                num = P.pmulm(num, P.mpow(P.minv(mono), -mn), (1 / c) ** (-mn))
                return _cancel(num, d, flt)
            den = _dent(d)
    return Sym(num, den, flt)


def _has_base(p):
    for m in p:
        for v, e in m:
            if REG.vars[v].kind in ('BASE', 'SIN'):
                return True
    return False


def _mul0(a, b):
    flt = a.flt or b.flt
    if not a.num or not b.num:
        return Sym({}, (), flt)
    n = P.pmul(a.num, b.num)
    if not a.den and not b.den:
        if _has_base(n):
            return _fix_base(n, (), flt)
        return Sym(n, (), flt)
    d = dict(a.den)
    for k, e in b.den:
        d[k] = d.get(k, 0) + e
    return _cancel(n, d, flt)


def inverse(b):
    mono, c, q = P.content(b.num)
    n = _mulfac({P.minv(mono): 1 / c}, b.den)
    if len(q) == 1:
        return _fix_base(n, (), True)
    k = den_register(q)
    return _cancel(n, {k: 1}, True)


def div(a, b):
    if b.is_const():
        if b.cval() == 0:
            raise ZeroDivisionError('division by zero')
        r = Sym(P.pscale(a.num, 1 / b.cval()), a.den, True)
        r.pos = a.pos and b.cval() > 0
        return r
    s = quick_sign(b.num)
    if s not in ('pos', 'neg') and not b.pos:
        if engine().decide_cmp(b, '=='):
            raise ZeroDivisionError('division by zero')
    r = _mul0(a, inverse(b))
    r = Sym(r.num, r.den, True)
    return _keep_pos(a, b, r)


def py2_div(a, b):
    if not is_float_like(a) and not is_float_like(b):
        return floordiv(Sym.of(a), Sym.of(b))
    return div(Sym.of(a), Sym.of(b))


def floor(a):
    if a.is_const():
        return Sym.const(math.floor(a.cval()), a.flt)
    if a.is_int_valued():
        return a
    # a = int part + rest
    ip = {}
    rest = {}
    if not a.den:
        for m, c in a.num.items():
            ok = c.denominator == 1 and all(
                REG.vars[v].sort == 'I' and isinstance(e, int) and e > 0
                for v, e in m)
            (ip if ok else rest)[m] = c
    else:
        rest = a.num
    rs = Sym(rest, a.den, True)
    v = atom('FLOOR', (P.pkey(rest), a.den), rs)
    v.sort = 'I'
    if not z3.is_int(v.z):
        v.z = z3.Int(v.name)
    fs = Sym(P.pvar(v.vid), (), a.flt)
    e = engine()
    e.assert_once(('floor', v.vid),
                  z3.And(zle(fs, rs), zlt(rs, fs + 1)))
    return fs + Sym(ip, (), a.flt)


def trunc(a):
    if a.is_const():
        c = a.cval()
        return Sym.const(int(c), False)
    if a.is_int_valued():
        return Sym(a.num, a.den, False)
    if a >= 0:
        r = floor(a)
    else:
        r = -floor(-a)
    return Sym(r.num, r.den, False)


def floordiv(a, b):
    if b.is_const() and b.cval() == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if a.is_const() and b.is_const():
        return Sym.const(math.floor(a.cval() / b.cval()), a.flt or b.flt)
    r = floor(div(a, b))
    return Sym(r.num, r.den, a.flt or b.flt)


# ---------------------------------------------------------------- z3

def zroot(vid, q):
    k = (vid, q)
    r = REG.roots.get(k)
    if r is None:
        r = z3.Real('root%d_%d' % (vid, q))
        REG.roots[k] = r
    return r


def _zvar_pow(vid, e, q):
    """z3 term of var^e where q is the lcm of denominators used for vid."""
    v = REG.vars[vid]
    if q == 1:
        z = v.z
        if z3.is_int(z):
            z = z3.ToReal(z)
        k = int(e)
    else:
        z = zroot(vid, q)
        k = int(e * q)
    if k == 1:
        return z
    assert k >= 0
    if k > 40:
        # a number of its own: fewer facts, so verdicts of unsat stand
        return z3.Real('pow!%d!%s' % (vid, e))
    out = z
    for _ in range(k - 1):
        out = out * z
    return out


def qmap(polys):
    """lcm of exponent denominators per var."""
    q = {}
    for p in polys:
        for m in p:
            for v, e in m:
                if isinstance(e, F):
                    d = e.denominator
                    q[v] = q.get(v, 1) * d // math.gcd(q.get(v, 1), d)
    return q


def poly_nonneg_exps(p):
    """Multiply by a monomial so exponents are nonneg; return (p', mono)."""
    mins = {}
    for m in p:
        for v, e in m:
            if e < 0:
                mins[v] = min(mins.get(v, 0), e)
    if not mins:
        return p, ()
    mono = tuple(sorted((v, -e) for v, e in mins.items()))
    return P.pmulm(p, mono), mono


_RV = {}


def _rval(c):
    r = _RV.get(c)
    if r is None:
        if len(_RV) > 20000:
            _RV.clear()
        r = _RV[c] = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
    return r


def _nary(mk, xs):
    """n-ary z3 application without the checks of the Python wrapper."""
    n = len(xs)
    arr = (z3.Ast * n)(*[x.ast for x in xs])
    c = xs[0].ctx
    return z3.ArithRef(mk(c.ref(), n, arr), c)


def zpoly(p, q):
    """z3 term of a poly with nonneg exponents."""
    terms = []
    for m, c in sorted(p.items(), key=P._skey):
        fs = []
        if c != 1 or not m:
            fs.append(_rval(c))
        for v, e in m:
            d = q.get(v, 1)
            var = REG.vars[v]
            try:
                zc = var.zc
            except AttributeError:
                zc = var.zc = {}
            t = zc.get((e, d))
            if t is None:
                t = zc[(e, d)] = _zvar_pow(v, e, d)
            fs.append(t)
        terms.append(fs[0] if len(fs) == 1 else _nary(z3.Z3_mk_mul, fs))
    if not terms:
        return z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return _nary(z3.Z3_mk_add, terms)


def all_int_linear(p):
    for m, c in p.items():
        if len(m) > 1 or c.denominator != 1:
            return False
        for v, e in m:
            if e != 1 or not z3.is_int(REG.vars[v].z):
                return False
    return bool(p)


def zint(p):
    terms = []
    for m, c in sorted(p.items(), key=P._skey):
        if m:
            t = REG.vars[m[0][0]].z
            terms.append(t if c == 1 else int(c) * t)
        else:
            terms.append(z3.IntVal(int(c)))
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


ZOPS = {
    '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
    '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
}


def zcmp0(s, op):
    """z3 formula for `s op 0` (s a Sym)."""
    n, mono = poly_nonneg_exps(s.num)
    # s = n / (mono * den).  multiply by sign carrying factors
    extra = []
    ms = mono_sign(mono)
    if ms is None or ms == 'nonneg':
        odd = tuple((v, 1) for v, e in mono
                    if not (isinstance(e, int) and e % 2 == 0)
                    and REG.vars[v].sign not in ('pos', 'nonneg'))
        if odd:
            extra.append({odd: F(1)})
    for k, e in s.den:
        if e % 2 == 0:
            continue
        dp = REG.denreg[k]
        sg = poly_sign(dp)
        if sg == 'pos':
            continue
        if sg == 'neg':
            extra.append({ONE: F(-1)})
            continue
        extra.append(dp)
    if op in ('==', '!='):
        extra = []
    if not extra and all_int_linear(n):
        # move constant to the right
        c = n.get(ONE, F(0))
        l = {m: k for m, k in n.items() if m != ONE}
        if l:
            return ZOPS[op](zint(l), z3.IntVal(int(-c)))
    ps = [n] + [poly_nonneg_exps(x)[0] for x in extra]
    q = qmap(ps)
    for x in ps:
        engine().use_vars(P.pvars(x), q)
    # put positive monomials left and negative right
    if not extra:
        l = {m: k for m, k in n.items() if k > 0}
        r = {m: -k for m, k in n.items() if k < 0}
        return ZOPS[op](zpoly(l, q), zpoly(r, q))
    t = zpoly(ps[0], q)
    for x in ps[1:]:
        t = t * zpoly(x, q)
    return ZOPS[op](t, z3.RealVal(0))


def zle(a, b):
    return zcmp0(a - b, '<=')


def zlt(a, b):
    return zcmp0(a - b, '<')


def poly_sign(p):
    s = quick_sign(p)
    if s in ('pos', 'neg'):
        return s
    k = ('sign', P.pkey(p))
    r = REG.facts.get(k)
    if r is None:
        r = engine().prove_sign(p)
        REG.facts[k] = r or 'unk'
    return r


_FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def compare(a, o, op):
    if o is None or isinstance(o, (str, list, tuple, dict)):
        if op == '==':
            return False
        if op == '!=':
            return True
        raise TypeError('cannot order Sym and %r' % type(o))
    if _isarr(o):
        return NotImplemented
    b = Sym.of(o)
    if b is None:
        if _isnan(o):
            return op == '!='
        if _isinf(o):
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[op]
        return NotImplemented
    if a.pos and b.is_const() and b.cval() <= 0:
        return op in ('>', '>=', '!=')
    if b.pos and a.is_const() and a.cval() <= 0:
        return op in ('<', '<=', '!=')
    d = a - b
    return cmp0(d, op)


def _all_logs(p):
    return all(len(m) == 1 and m[0][1] == 1 and
               REG.vars[m[0][0]].kind == 'LOG' for m in p)


def cmp0(d, op):
    if d.is_const():
        c = d.cval()
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0, '!=': c != 0}[op]
    if d.only_const_atoms():
        c = const_eval(d)
        if abs(c) < 1e-25:
            raise Unsupported('indeterminate constant comparison %r' % d)
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': False, '!=': True}[op]
    if not d.den and op not in ('==', '!=') and _all_logs(d.num):
        # log is increasing: compare the product with one
        return cmp0(s_exp(d) - 1, op)
    if not d.den:
        s = quick_sign(d.num)
        if s == 'pos':
            return op in ('>', '>=', '!=')
        if s == 'neg':
            return op in ('<', '<=', '!=')
        if s == 'nonneg' and op in ('<', '>='):
            return op == '>='
        if s == 'nonpos' and op in ('>', '<='):
            return op == '<='
    else:
        s = quick_sign(d.num)
        if s in ('pos', 'neg'):
            sg = 1 if s == 'pos' else -1
            ok = True
            for k, e in d.den:
                if e % 2 == 0:
                    continue
                q = quick_sign(REG.denreg[k])
                if q == 'neg':
                    sg = -sg
                elif q != 'pos':
                    ok = False
            if ok:
                if sg > 0:
                    return op in ('>', '>=', '!=')
                return op in ('<', '<=', '!=')
    return SBool(zcmp0(d, op))


class SBool(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return engine().decide(self.f)

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def logical_not(self):
        return snot(self)

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return 'SBool(%s)' % self.f


def zb(x):
    if isinstance(x, SBool):
        return x.f
    return z3.BoolVal(bool(x))


def sand(*xs):
    if all(not isinstance(x, SBool) for x in xs):
        return all(xs)
    return SBool(z3.And([zb(x) for x in xs]))


def sor(*xs):
    if all(not isinstance(x, SBool) for x in xs):
        return any(xs)
    return SBool(z3.Or([zb(x) for x in xs]))


def snot(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.f))
    return not x


# ---------------------------------------------------------------- constants

CONST_KINDS = ('PI',)


def is_const_atom(vid):
    v = REG.vars[vid]
    if v.kind == 'PI':
        return True
    if v.kind in ('LOG', 'BASE'):
        return all(is_const_atom(x) for x in P.pvars(v.data))
    if v.kind in ('LG', 'DIGAMMA', 'COS', 'SIN', 'UF'):
        d = v.data
        args = d if isinstance(d, (list, tuple)) else [d]
        return all(x.only_const_atoms() for x in args if isinstance(x, Sym))
    if v.kind == 'EXP':
        m, dk = v.data
        return all(is_const_atom(x) for x, _ in m) and \
            all(is_const_atom(x) for k, _ in dk
                for x in P.pvars(REG.denreg[k]))
    return False


def _poly_eval(p, env):
    import mpmath
    t = mpmath.mpf(0)
    for m, c in p.items():
        x = mpmath.mpf(c.numerator) / c.denominator
        for v, e in m:
            b = env(v)
            x *= b ** (e if isinstance(e, int)
                       else mpmath.mpf(e.numerator) / e.denominator)
        t += x
    return t


def num_eval(s, base):
    """High precision value of a Sym under base: name -> number."""
    import mpmath
    mpmath.mp.dps = 40
    memo = {}

    def env(vid):
        if vid in memo:
            return memo[vid]
        v = REG.vars[vid]
        if v.kind == 'base':
            r = mpmath.mpf(base[v.name])
        elif v.kind == 'PI':
            r = mpmath.pi
        elif v.kind == 'LOG':
            r = mpmath.log(abs(_poly_eval(v.data, env)))
        elif v.kind == 'LG':
            r = mpmath.loggamma(ev(v.data))
        elif v.kind == 'BASE':
            r = _poly_eval(v.data, env)
        elif v.kind == 'EXP':
            m, dk = v.data
            x = _poly_eval({m: F(1)}, env)
            for k, e in dk:
                x /= _poly_eval(REG.denreg[k], env) ** e
            r = mpmath.exp(x)
        elif v.kind == 'COS':
            r = mpmath.cos(ev(v.data))
        elif v.kind == 'SIN':
            r = mpmath.sin(ev(v.data))
        elif v.kind == 'FLOOR':
            r = mpmath.floor(ev(v.data))
        elif v.kind == 'MAX':
            r = max(ev(x) for x in v.data)
        elif v.kind == 'UF':
            name, args = v.data[0], v.data[1:]
            r = UF_EVAL[name](*[ev(a) for a in args])
        else:
            raise Unsupported('cannot evaluate atom %s' % v.kind)
        memo[vid] = r
        return r

    def ev(x):
        t = _poly_eval(x.num, env)
        for k, e in x.den:
            t /= _poly_eval(REG.denreg[k], env) ** e
        return t
    return ev(s)


UF_EVAL = {}


def _uf_eval_init():
    import mpmath
    UF_EVAL['i0'] = lambda x: mpmath.besseli(0, x)
    UF_EVAL['i1'] = lambda x: mpmath.besseli(1, x)
    UF_EVAL['atan2'] = lambda y, x: mpmath.atan2(y, x)
    UF_EVAL['ndtr'] = lambda x: mpmath.ncdf(x)
    UF_EVAL['erf'] = lambda x: mpmath.erf(x)
    UF_EVAL['digamma'] = lambda x: mpmath.digamma(x)


_uf_eval_init()


def const_eval(s):
    return num_eval(s, {})


def PI():
    v = atom('PI', 'pi', None, 'pos')
    return Sym(P.pvar(v.vid))


# ---------------------------------------------------------------- functions

def _factor_int(n):
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def log_atom(p):
    v = atom('LOG', P.pkey(p), p)
    return v


def _log_rat(c):
    """log of a positive rational."""
    r = Sym({}, ())
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for q, e in _factor_int(n).items():
            v = log_atom(P.pconst(q))
            r = r + Sym({((v.vid, 1),): F(s * e)}, ())
    return r


_FCACHE = {}


class _Slow(Exception):
    pass


def _alarm(*a):
    raise _Slow()


def factor_poly(p):
    """(c, [(poly, exp)]): p = c * product; unfactored when too large."""
    k = P.pkey(p)
    if k in _FCACHE:
        return _FCACHE[k]
    fl = []
    vs = P.pvars(p)
    rest = p
    for fk, (f, fv) in list(_FKNOWN.items()):
        if len(f) > len(rest) or not fv <= vs:
            continue
        n = 0
        while len(rest) >= len(f):
            r = P.exact_div(rest, f)
            if r is None:
                break
            rest, n = r, n + 1
        if n:
            fl.append((f, n))
    if P.pisconst(rest):
        out = P.pcval(rest), fl
    else:
        import signal
        c, more = F(1), [(rest, 1)]
        if len(rest) <= 150:
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, 5)
            try:
                c, more = _factor(rest)
            except _Slow:
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
            for f, e in more:
                if len(f) > 2 and not P.poly_has_neg(f):
                    _FKNOWN[P.pkey(f)] = (f, P.pvars(f))
        out = c, fl + more
    _FCACHE[k] = out
    return out


_FKNOWN = {}


def _factor(p):
    names = sorted(P.pvars(p))
    import sympy
    # integer exponents only
    q = qmap([p])
    gens = {v: sympy.Symbol('x%d' % v) for v in names}
    expr = []
    for m, c in p.items():
        t = sympy.Rational(c.numerator, c.denominator)
        for v, e in m:
            t = t * gens[v] ** int(e * q.get(v, 1))
        expr.append(t)
    po = sympy.Poly(sympy.Add(*expr), *[gens[v] for v in names])
    c, fl = po.factor_list()
    out = []
    for f, e in fl:
        d = {}
        for mon, co in f.terms():
            m = []
            for v, k in zip(names, mon):
                if k:
                    ex = F(k, q.get(v, 1))
                    m.append((v, int(ex) if ex.denominator == 1 else ex))
            d[tuple(m)] = F(int(co.p), int(co.q)) if hasattr(co, 'p') else \
                F(str(co))
        out.append((d, e))
    return F(int(c.p), int(c.q)), out


def log_poly(p):
    """log|p| as a Sym."""
    k = ('logpoly', P.pkey(p))
    r = REG.facts.get(k)
    if r is not None:
        return r
    mono, c, q = P.content(p)
    r = _log_rat(abs(c))
    for v, e in mono:
        var = REG.vars[v]
        ee = Sym.const(e if isinstance(e, F) else F(e))
        if var.kind == 'EXP':
            m, dk = var.data
            t = Sym({m: F(1)}, dk)
            r = r + ee * t
        elif var.kind == 'BASE':
            r = r + ee * log_poly(var.data)
        else:
            r = r + ee * Sym(P.pvar(log_atom(P.pvar(v)).vid))
    if len(q) > 1:
        cc, fl = factor_poly(q)
        r = r + _log_rat(abs(cc))
        for f, e in fl:
            m2, c2, q2 = P.content(f)
            r = r + Sym.const(e) * _log_rat(abs(c2))
            if m2:
                r = r + Sym.const(e) * log_poly({m2: F(1)})
            if len(q2) > 1:
                if q2 == p:
                    r = r + Sym.const(e) * Sym(P.pvar(log_atom(q2).vid))
                else:
                    r = r + Sym.const(e) * Sym(P.pvar(log_atom(q2).vid))
    REG.facts[k] = r
    return r


def _log_pos(x):
    r = log_poly(x.num)
    for k, e in x.den:
        r = r - Sym.const(e) * log_poly(REG.denreg[k])
    return Sym(r.num, r.den, True)


def s_log(x, base=None):
    """math.log semantics."""
    if base is not None:
        return s_log(x) / s_log(base)
    s = Sym.of(x)
    if s is None:
        return math.log(x)
    if s > 0:
        return _log_pos(s)
    raise ValueError('math domain error')


def np_log(x):
    s = Sym.of(x)
    if s is None:
        import numpy as np
        with np.errstate(all='ignore'):
            return float(np.log(x))
    if s > 0:
        return _log_pos(s)
    if s == 0:
        return float('-inf')
    return float('nan')


def _pow_poly(p, e):
    """p^e (p>0 poly, e Fraction) as Sym."""
    e = F(e)
    if e.denominator == 1:
        n = int(e)
        if n >= 0:
            return Sym(P.ppow(p, n), ())
        return _mul(Sym(P.pconst(1), ()), _inv_pow(p, -n))
    mono, c, q = P.content(p)
    if c < 0:
        c, q = -c, P.pscale(q, F(-1))
    r = Sym.const(1)
    # constant
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n < 0:
            raise Unsupported('root of a negative constant factor')
        for pr, k in _factor_int(n).items():
            ex = e * k * s
            r = _mul(r, _root_const(pr, ex))
    if len(q) == 1 and not mono:
        return r
    # split the positive monomial
    pos = True
    for v, k in mono:
        if REG.vars[v].sign != 'pos':
            pos = False
    if not pos:
        q = P.pmulm(q, mono)
        mono = ()
    if mono:
        r = _mul(r, Sym({P.mpow(mono, e): F(1)}, ()))
        r = _fix_base(r.num, r.den, True)
    if q == {ONE: F(1)}:
        return r
    if len(q) == 1 and ONE in q:
        raise Unsupported('root of a negative value')
    if True:
        cc, fl = factor_poly(q) if len(q) > 1 else (F(1), [(q, 1)])
        fl = list(fl)
        simple = all(quick_sign(f) == 'pos' for f, _ in fl)
        if not simple or cc <= 0:
            cc, fl = F(1), [(q, 1)]
        for i, (f, k) in enumerate(fl):
            c2 = P.content(f)[1]
            if c2 > 0 and c2 != 1:
                fl[i] = (P.pscale(f, 1 / F(c2)), k)
                cc = cc * F(c2) ** k
        for n, sg in ((cc.numerator, 1), (cc.denominator, -1)):
            for pr, k in _factor_int(n).items():
                r = _mul(r, _root_const(pr, e * k * sg))
        for f, k in fl:
            ex = e * k
            n = math.floor(ex)
            fr = ex - n
            if n:
                r = _mul(r, _pow_poly(f, n))
            if fr:
                v = atom('BASE', P.pkey(f), f, 'pos')
                r = _mul(r, Sym({((v.vid, fr),): F(1)}, ()))
    return r


def _root_const(pr, ex):
    n = math.floor(ex)
    fr = ex - n
    r = Sym.const(F(pr) ** n)
    if fr:
        p = P.pconst(pr)
        v = atom('BASE', P.pkey(p), p, 'pos')
        r = Sym(P.pmulm(r.num, ((v.vid, fr),)), ())
    return r


def _inv_pow(p, n):
    mono, c, q = P.content(p)
    num = {P.mpow(P.minv(mono), n): (1 / c) ** n}
    if len(q) == 1:
        return Sym(num, ())
    k = den_register(q)
    return Sym(num, ((k, n),))


def s_exp(x):
    s = Sym.of(x)
    if s is None:
        try:
            return math.exp(x)
        except OverflowError:
            return float('inf')
    if s.den and len(s.num) > 1:
        # terms sharing the same logarithms (or other opaque factors) are
        # brought to lowest terms on their own
        parts = {}
        for m, c in s.num.items():
            k = tuple((v, e) for v, e in m if REG.vars[v].kind != 'base')
            parts.setdefault(k, {})[m] = c
        if len(parts) > 1:
            r = Sym.const(1)
            for p in parts.values():
                r = _mul(r, s_exp(_cancel(p, dict(s.den), True)))
            r = Sym(r.num, r.den, True)
            r.pos = True
            return r
    r = Sym.const(1)
    for m, c in s.num.items():
        if not s.den and len(m) == 1 and m[0][1] == 1 and \
                REG.vars[m[0][0]].kind == 'LOG':
            t = REG.vars[m[0][0]].data
            # LOG atoms denote log|t|; make t positive
            if P.pisconst(t):
                f = _root_const(int(P.pcval(t)), c)
            else:
                sg = poly_sign(t)
                if sg == 'neg':
                    t = P.pscale(t, F(-1))
                elif sg != 'pos':
                    if not engine().decide_cmp(Sym(t, ()), '>'):
                        t = P.pscale(t, F(-1))
                f = _pow_poly(t, c)
            r = _mul(r, f)
        else:
            if not s.den:
                cc, mm, dk = c, m, ()
            else:
                cc, mm, dk = c, m, s.den
            v = atom('EXP', (mm, dk), (mm, dk), 'pos')
            e = int(cc) if cc.denominator == 1 else cc
            r = _mul(r, Sym({((v.vid, e),): F(1)}, ()))
    r = Sym(r.num, r.den, True)
    r.pos = True
    return r


def s_sqrt(x):
    s = Sym.of(x)
    if s is None:
        return math.sqrt(x)
    return power(s, Sym.const(F(1, 2)))


def power(a, b):
    if b is None or a is None:
        raise Unsupported('power with non-finite operand')
    if b.is_const():
        e = b.cval()
        flt = a.flt or b.flt
        if e.denominator == 1:
            n = int(e)
            r = Sym.const(1, flt)
            base = a if n >= 0 else div(Sym.const(1), a)
            for _ in range(abs(n)):
                r = _mul(r, base)
            x = Sym(r.num, r.den, flt)
            x.pos = r.pos
            return x
        if a.is_const() and a.cval() == 0:
            return Sym.const(0)
        if not (a > 0):
            if a == 0:
                if e < 0:
                    raise ZeroDivisionError('0 to a negative power')
                return Sym.const(0)
            raise ValueError('negative number to a fractional power')
        r = _pow_pos(a, e)
        r = Sym(r.num, r.den, True)
        r.pos = True
        return r
    if a.is_const() and a.cval() == 0:
        if b > 0:
            return Sym.const(0)
        if b == 0:
            return Sym.const(1)
        raise ZeroDivisionError('0 to a negative power')
    if not (a > 0):
        if a == 0:
            if b == 0:
                return Sym.const(1)
            if b > 0:
                return Sym.const(0)
            raise ZeroDivisionError('0 to a negative power')
        if b.is_int_valued():
            return power(a, Sym.const(b.__index__()))
        raise Unsupported('symbolic power of a negative number')
    return s_exp(b * _log_pos(a))


def _pow_pos(a, e):
    """a^e for a>0: combine numerator and denominator when signs unknown."""
    num = a.num
    dens = []
    for k, n in a.den:
        q = REG.denreg[k]
        sg = poly_sign(q)
        if sg == 'pos':
            dens.append((q, n))
        elif sg == 'neg':
            dens.append((P.pscale(q, F(-1)), n))
            if n % 2:
                num = P.pscale(num, F(-1))
        else:
            # a = num/q^n = num*q^(n%2) / q^(n + n%2)
            if n % 2:
                num = P.pmul(num, q)
                n += 1
            dens.append((P.pmul(q, q), n // 2))
    r = _pow_poly(num, e)
    for q, n in dens:
        r = _mul(r, _pow_poly(q, -e * n))
    return r


def lgamma(x):
    s = Sym.of(x)
    if s is None:
        return math.lgamma(x)
    if s.is_const():
        c = s.cval()
        if c.denominator == 1:
            if c <= 0:
                raise ValueError('math domain error')
            return _log_rat(F(math.factorial(int(c) - 1))) \
                if c < 400 else Sym.const(float_to_frac(math.lgamma(c)))
        if c.denominator == 2 and c > 0 and c < 300:
            # gamma(n+1/2) = sqrt(pi) * prod_{i<n} (i + 1/2)
            n = int(c - F(1, 2))
            v = F(1)
            for i in range(n):
                v *= F(2 * i + 1, 2)
            return _log_rat(v) + _log_pos(PI()) * F(1, 2)
    # Must be positive here (negative non-integers are legal for math.lgamma
    # but no caller can mean them).
    if not (s > 0):
        if s == 0:
            raise ValueError('math domain error')
        raise Unsupported('lgamma of a negative symbolic value')
    c = s.num.get(ONE, F(0)) if not s.den else F(0)
    ip = math.floor(c)
    if not s.den:
        frac = dict(s.num)
        fc = c - ip
        if fc:
            frac[ONE] = fc
        else:
            frac.pop(ONE, None)
        ck = (P.pkey(frac), ())
    else:
        # integer part hidden in the fraction: try the first-seen class
        ck = None
        for rep in REG.lgclass.values():
            d = s - rep
            if d.is_const() and d.cval().denominator == 1:
                return _lg_shift(rep, int(d.cval()))
        ck = (P.pkey(s.num), s.den)
    rep = REG.lgclass.get(ck)
    if rep is None:
        rep = s
        REG.lgclass[ck] = rep
    d = s - rep
    n = int(d.cval())
    return _lg_shift(rep, n)


def _lg_shift(rep, n):
    v = atom('LG', (P.pkey(rep.num), rep.den), rep)
    r = Sym(P.pvar(v.vid))
    if n > 0:
        for i in range(n):
            r = r + _log_pos(rep + i)
    elif n < 0:
        for i in range(1, -n + 1):
            r = r - _log_pos(rep - i)
    return r


def betaln(a, b):
    return lgamma(a) + lgamma(b) - lgamma(Sym.of(a) + b)


def uf(name, *args):
    """Uninterpreted real function of canonical arguments."""
    ss = [Sym.of(a) for a in args]
    if any(a is None for a in ss):
        raise Unsupported('%s of a non-finite value' % name)
    key = (name,) + tuple((P.pkey(a.num), a.den) for a in ss)
    sign = UF_SIGN.get(name)
    v = atom('UF', key, (name,) + tuple(ss), sign)
    return Sym(P.pvar(v.vid))


UF_SIGN = {}


def s_cos(x):
    s = Sym.of(x)
    if s is None:
        return math.cos(x)
    return trig(s)[0]


def s_sin(x):
    s = Sym.of(x)
    if s is None:
        return math.sin(x)
    return trig(s)[1]


def trig(s):
    """(cos s, sin s), expanding sums, multiples of pi/2 and atan2 atoms."""
    if s.den or len(s.num) > 6:
        return _trig_atom(s)
    c, w = Sym.const(1), Sym.const(0)
    for m, k in sorted(s.num.items(), key=P._skey):
        a, b = _trig_term(m, k)
        c, w = c * a - w * b, w * a + c * b
    return c, w


def _trig_term(m, k):
    if len(m) == 1 and m[0][1] == 1:
        v = REG.vars[m[0][0]]
        if v.kind == 'PI' and (2 * k).denominator == 1:
            n = int(2 * k) % 4
            return (Sym.const((1, 0, -1, 0)[n]), Sym.const((0, 1, 0, -1)[n]))
        if v.kind == 'UF' and v.data[0] == 'atan2' and abs(k) == 1:
            y, x = v.data[1], v.data[2]
            r = s_sqrt(x * x + y * y)
            return x / r, y / r * k
    return _trig_atom(Sym({m: k}, ()))


def _trig_atom(s):
    if s.is_const() and s.cval() == 0:
        return Sym.const(1), Sym.const(0)
    neg = quick_neglead(s)
    if neg:
        s = -s
    key = (P.pkey(s.num), s.den)
    c = Sym(P.pvar(atom('COS', key, s).vid))
    w = Sym(P.pvar(atom('SIN', key, s).vid))
    return c, (-w if neg else w)


def quick_neglead(s):
    if not s.num:
        return False
    lead = max(s.num, key=lambda m: P._skey((m, 0)))
    return s.num[lead] < 0


def smax(args):
    """Opaque maximum of symbolic numbers: one of them and >= all."""
    ss = [Sym.of(a) for a in args]
    keyed = {}
    for s in ss:
        keyed[(P.pkey(s.num), s.den)] = s
    if len(keyed) == 1:
        return ss[0]
    key = frozenset(keyed)
    vals = list(keyed.values())
    v = atom('MAX', key, vals)
    m = Sym(P.pvar(v.vid))
    e = engine()
    if all(not _has_atoms(s) for s in vals):
        e.assert_once(('max', v.vid), z3.And(
            z3.Or([zcmp0(m - s, '==') for s in vals]),
            z3.And([zcmp0(m - s, '>=') for s in vals])))
    return m


def _has_atoms(s):
    return any(REG.vars[v].kind not in ('base', 'FLOOR') for v in s.vars())


# ---------------------------------------------------------------- render

def render_var(vid):
    v = REG.vars[vid]
    if v.kind == 'LOG':
        return 'log(%s)' % render_poly(v.data)
    if v.kind == 'LG':
        return 'lgamma(%s)' % render(v.data)
    if v.kind == 'EXP':
        return 'exp(%s%s)' % (render_poly({v.data[0]: F(1)}),
                              '/..' if v.data[1] else '')
    if v.kind == 'BASE':
        return '{%s}' % render_poly(v.data)
    if v.kind in ('COS', 'SIN', 'FLOOR'):
        return '%s(%s)' % (v.kind.lower(), render(v.data))
    if v.kind == 'UF':
        return '%s(%s)' % (v.data[0], ','.join(map(render, v.data[1:])))
    if v.kind == 'PI':
        return 'pi'
    return v.name


def render_poly(p, limit=12):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=P._skey):
        t = '*'.join(
            render_var(v) + ('' if e == 1 else '^%s' % (e,)) for v, e in m)
        if not t:
            t = str(c)
        elif c == -1:
            t = '-' + t
        elif c != 1:
            t = '%s*%s' % (c, t)
        out.append(t)
        if len(out) >= limit:
            out.append('...')
            break
    return ' + '.join(out)


def render(s):
    n = render_poly(s.num)
    if not s.den:
        return n
    return '(%s)/(%s)' % (n, '*'.join(
        '(%s)%s' % (render_poly(REG.denreg[k]), '' if e == 1 else '^%d' % e)
        for k, e in s.den))


# ---------------------------------------------------------------- subst

def base_vars(s):
    """Base variables occurring in s, through atoms."""
    seen = set()
    out = set()
    stack = list(s.vars())
    while stack:
        vid = stack.pop()
        if vid in seen:
            continue
        seen.add(vid)
        v = REG.vars[vid]
        if v.kind == 'base':
            out.add(vid)
        elif v.kind in ('LOG', 'BASE'):
            stack.extend(P.pvars(v.data))
        elif v.kind in ('LG', 'COS', 'SIN', 'FLOOR'):
            stack.extend(v.data.vars())
        elif v.kind == 'EXP':
            stack.extend(x for x, _ in v.data[0])
            for k, _ in v.data[1]:
                stack.extend(P.pvars(REG.denreg[k]))
        elif v.kind == 'MAX':
            for x in v.data:
                stack.extend(x.vars())
        elif v.kind == 'UF':
            for x in v.data[1:]:
                stack.extend(x.vars())
    return out


def subst(s, m):
    """Replace base variables by Syms, rebuilding atoms."""
    memo = {}

    def var(vid):
        if vid in memo:
            return memo[vid]
        v = REG.vars[vid]
        if vid in m:
            r = m[vid]
        elif v.kind in ('base', 'PI'):
            r = Sym(P.pvar(vid))
        else:
            me = Sym(P.pvar(vid))
            if not (base_vars(me) & set(m)):
                r = me
            elif v.kind == 'LOG':
                t = poly(v.data)
                r = _abslog(t)
            elif v.kind == 'BASE':
                r = poly(v.data)
            elif v.kind == 'LG':
                r = lgamma(sy(v.data))
            elif v.kind == 'EXP':
                mm, dk = v.data
                t = poly({mm: F(1)})
                for k, e in dk:
                    d = poly(REG.denreg[k])
                    for _ in range(e):
                        t = div(t, d)
                r = s_exp(t)
            elif v.kind == 'COS':
                r = s_cos(sy(v.data))
            elif v.kind == 'SIN':
                r = s_sin(sy(v.data))
            elif v.kind == 'FLOOR':
                r = floor(sy(v.data))
            elif v.kind == 'MAX':
                r = smax([sy(x) for x in v.data])
            elif v.kind == 'UF':
                r = uf(v.data[0], *[sy(x) for x in v.data[1:]])
            else:
                raise Unsupported('subst %s' % v.kind)
        memo[vid] = r
        return r

    def poly(p):
        t = Sym.const(0)
        for mm, c in p.items():
            u = Sym.const(c)
            for v, e in mm:
                x = var(v)
                u = u * power(x, Sym.const(e) if not isinstance(e, Sym)
                              else e)
            t = t + u
        return t

    def sy(x):
        t = poly(x.num)
        for k, e in x.den:
            d = poly(REG.denreg[k])
            for _ in range(e):
                t = div(t, d)
        return Sym(t.num, t.den, x.flt)
    return sy(s)


def _abslog(t):
    if t.is_const() and t.cval() == 0:
        raise Unsupported('log of zero after substitution')
    r = log_poly(t.num)
    for k, e in t.den:
        r = r - Sym.const(e) * log_poly(REG.denreg[k])
    return r
