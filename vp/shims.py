"""Symbolic stand-ins for math, numpy, scipy as imported by the code."""
import math
import types
from fractions import Fraction as F

import numpy as _np

from . import sym as S
from .sym import Sym, SBool, Unsupported
from .py2 import _smax, _smin


def _has_sym(x):
    if isinstance(x, (Sym, SBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def _oarr(x):
    """To an ndarray, object dtype when symbolic values occur."""
    if isinstance(x, _np.ndarray):
        return x
    if isinstance(x, types.GeneratorType):
        x = list(x)
    if hasattr(x, 'keys') and not isinstance(x, (list, tuple)):
        return _np.asarray(x)
    if _has_sym(x):
        if isinstance(x, (Sym, SBool)):
            r = _np.empty((), dtype=object)
            r[()] = x
            return r
        return _np.array(x, dtype=object)
    return _np.asarray(x)


def _elem(f):
    """Elementwise lifting over scalars, lists and arrays."""
    g = _np.frompyfunc(f, 1, 1)

    def h(x, *a, **k):
        if isinstance(x, (Sym, int, float, SBool)) or _np.isscalar(x):
            return f(x)
        arr = _oarr(x)
        if arr.shape == ():
            return f(arr[()])
        r = g(arr)
        return r
    return h


def _elem2(f):
    g = _np.frompyfunc(f, 2, 1)

    def h(x, y):
        xs = isinstance(x, (Sym, int, float)) or _np.isscalar(x)
        ys = isinstance(y, (Sym, int, float)) or _np.isscalar(y)
        if xs and ys:
            return f(x, y)
        return g(_oarr(x), _oarr(y))
    return h


def _fin(x):
    return isinstance(x, (Sym, SBool, bool)) or math.isfinite(x)


def _isnan1(x):
    if isinstance(x, (Sym, SBool)):
        return False
    if x is None:
        raise TypeError('isnan of None')
    return math.isnan(x)


def _isinf1(x):
    if isinstance(x, (Sym, SBool)):
        return False
    return math.isinf(x)


def _bool_elem(f):
    def h(x, *a, **k):
        if isinstance(x, (Sym, SBool)) or _np.isscalar(x):
            return bool(f(x))
        arr = _oarr(x)
        if arr.dtype != object:
            return _np.array([f(v) for v in arr.ravel()],
                             dtype=bool).reshape(arr.shape)
        r = _np.empty(arr.shape, dtype=bool)
        flat = [bool(f(v)) for v in arr.ravel()]
        r.ravel()[:] = flat
        return _np.array(flat, dtype=bool).reshape(arr.shape)
    return h


def np_exp1(x):
    s = Sym.of(x)
    if s is None:
        if x == float('-inf'):
            return S.Sym.const(0)
        return math.exp(x)
    return S.s_exp(s)


def np_log1(x):
    return S.np_log(x)


def np_sqrt1(x):
    s = Sym.of(x)
    if s is None:
        return math.sqrt(x)
    if s.is_const() and s.cval() == 0:
        return s
    if not (s >= 0):
        return float('nan')
    return S.s_sqrt(s)


# ------------------------------------------------------------- math module

def make_math():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in math.__dict__.items()
                       if not k.startswith('__')})

    def guard(f, g):
        def h(x, *a):
            if isinstance(x, _np.ndarray) and x.size == 1:
                x = x.item()
            return f(x, *a)
        return h

    def mexp(x):
        s = Sym.of(x)
        if s is None:
            if x == float('-inf'):
                return Sym.const(0)
            return math.exp(x)
        return S.s_exp(s)

    def mlog(x, base=None):
        if base is not None:
            return mlog(x) / mlog(base)
        if Sym.of(x) is None:
            return math.log(x)
        return S.s_log(x)

    def msqrt(x):
        s = Sym.of(x)
        if s is None:
            return math.sqrt(x)
        if s.is_const() and s.cval() == 0:
            return s
        if not (s >= 0):
            raise ValueError('math domain error')
        return S.s_sqrt(s)
    m.log = guard(mlog, math.log)
    m.exp = guard(mexp, math.exp)
    m.sqrt = guard(msqrt, math.sqrt)
    m.lgamma = guard(S.lgamma, math.lgamma)
    m.cos = S.s_cos
    m.sin = S.s_sin
    m.fabs = lambda x: abs(Sym.of(x)) if Sym.of(x) is not None else abs(x)
    m.isnan = lambda x: _isnan1(x.item() if isinstance(x, _np.ndarray) else x)
    m.isinf = lambda x: _isinf1(x.item() if isinstance(x, _np.ndarray) else x)
    m.floor = lambda x: S.floor(Sym.of(x))
    m.ceil = lambda x: -S.floor(-Sym.of(x))
    m.pow = lambda a, b: S.power(Sym.of(a), Sym.of(b))
    m.log1p = lambda x: mlog(x + 1)
    m.expm1 = lambda x: mexp(x) - 1
    m.atan2 = lambda a, b: S.uf('atan2', a, b)
    m.isfinite = lambda x: _fin(x)
    m.fsum = lambda xs: sum(xs)
    m.factorial = _factorial
    m.pi = S.PI()
    m.e = S.s_exp(Sym.const(1)) if S.CTX.engine else math.e
    return m


def _factorial(n):
    if isinstance(n, Sym):
        n = n.__index__()
    return math.factorial(n)


# ------------------------------------------------------------- numpy

class NpShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['_linalg'] = None
        self.__path__ = []

    def __getattr__(self, name):
        return getattr(_np, name)


def _filled(shape, val):
    r = _np.empty(shape, dtype=object)
    f = r.ravel()
    for i in range(f.size):
        f[i] = val
    return f.reshape(r.shape)


def make_numpy(U):
    m = NpShim()
    z = lambda: Sym.const(0)
    keep = (bool, _np.bool_)

    def intlike(dt):
        from .py2 import _Int
        return dt is int or dt is _Int or dt == 'int'

    def zeros(shape, dtype=None, **k):
        if dtype in keep:
            return _np.zeros(shape, dtype=bool)
        if isinstance(shape, Sym):
            shape = shape.__index__()
        return _filled(shape, 0 if intlike(dtype) else Sym.const(0))

    def ones(shape, dtype=None, **k):
        return _filled(shape, 1 if intlike(dtype) else Sym.const(1))

    def empty(shape, dtype=None, **k):
        return _filled(shape, Sym.const(0))

    def full(shape, v, dtype=None, **k):
        return _filled(shape, v)

    def eye(n, **k):
        r = _filled((n, n), Sym.const(0))
        for i in range(n):
            r[i, i] = Sym.const(1)
        return r

    def array(x, dtype=None, **k):
        if isinstance(x, types.GeneratorType):
            x = list(x)
        if _has_sym(x):
            return _np.array(x, dtype=object)
        if dtype is not None and getattr(dtype, '__name__', '') in (
                '_Float', '_Int'):
            dtype = {'_Float': float, '_Int': int}[dtype.__name__]
        if dtype is float:
            # whole numbers stay exact under later divisions
            a = _np.asarray(x)
            if a.dtype.kind in 'iu' and a.ndim == 1:
                r = _np.empty(a.shape, dtype=object)
                for i, v in enumerate(a):
                    r[i] = Sym.const(int(v), True)
                return r
        return _np.array(x, dtype=dtype)

    def asarray(x, dtype=None, **k):
        if isinstance(x, _np.ndarray) and (dtype is None or
                                           x.dtype == object):
            return x
        return array(x, dtype)

    def linspace(a, b, num=50, **k):
        n = int(num)
        a, b = Sym.of(a), Sym.of(b)
        r = _np.empty(n, dtype=object)
        for i in range(n):
            r[i] = a if n == 1 else a + (b - a) * Sym.const(F(i, n - 1))
        return r

    def npsum(x, axis=None, dtype=None, **k):
        if isinstance(x, types.GeneratorType):
            x = list(x)
        a = _oarr(x)
        if getattr(dtype, '__name__', '') in ('_Float', 'float') \
                and axis is None:
            t = Sym.const(0, True)
            for v in a.ravel():
                t = t + v
            return t
        if a.dtype == object:
            if axis is None:
                t = 0
                for v in a.ravel():
                    t = t + v
                return t
        return _np.sum(a, axis=axis)

    def mean(x, axis=None, **k):
        a = _oarr(x)
        if a.dtype != object and a.size:
            if axis is None:
                return npsum([Sym.of(float(v)) if Sym.of(float(v)) is not None
                              else float(v) for v in a.ravel()]) / a.size
            return _np.mean(a, axis=axis)
        if axis is None:
            return npsum(a) / Sym.const(a.size)
        return _np.sum(a, axis=axis) / Sym.const(a.shape[axis])

    def var(x, axis=None, ddof=0, **k):
        a = _oarr(x)
        n = a.size
        if n == 0:
            return float('nan')
        mu = mean(a)
        t = 0
        for v in a.ravel():
            t = t + (v - mu) * (v - mu)
        return t / Sym.const(n - ddof)

    def std(x, **k):
        return np_sqrt1(var(x, **k))

    def amax(x, axis=None, **k):
        a = _oarr(x)
        if a.dtype != object or axis is not None:
            return _np.max(a, axis=axis)
        return _smax(list(a.ravel()))

    def amin(x, axis=None, **k):
        a = _oarr(x)
        if a.dtype != object or axis is not None:
            return _np.min(a, axis=axis)
        return _smin(list(a.ravel()))

    def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
        fa, fb = _np.broadcast_arrays(_oarr(a), _oarr(b))
        for x, y in zip(fa.ravel(), fb.ravel()):
            sx, sy = Sym.of(x), Sym.of(y)
            if sx is None or sy is None:
                if not (x == y):
                    return False
            elif sx.is_const() and sy.is_const():
                if abs(float(sx.cval() - sy.cval())) > atol + rtol * abs(
                        float(sy.cval())):
                    return False
            elif not (sx == sy):
                return False
        return True

    def npall(x, axis=None, **k):
        a = _oarr(x)
        if a.dtype != object:
            return _np.all(a, axis=axis)
        b = _tobool(a)
        return _np.all(b, axis=axis)

    def npany(x, axis=None, **k):
        a = _oarr(x)
        if a.dtype != object:
            return _np.any(a, axis=axis)
        return _np.any(_tobool(a), axis=axis)

    def _tobool(a):
        return _np.array([bool(v) for v in a.ravel()],
                         dtype=bool).reshape(a.shape)

    def where(c, *a):
        c = _oarr(c)
        if c.dtype == object:
            c = _tobool(c)
        return _np.where(c, *a)

    def unique(x, **k):
        a = _oarr(x)
        if a.dtype != object:
            return _np.unique(a, **k)
        out = []
        for v in sorted(a.ravel()):
            if not out or not (out[-1] == v):
                out.append(v)
        r = _np.empty(len(out), dtype=object)
        for i, v in enumerate(out):
            r[i] = v
        return r

    def argsort(x, **k):
        a = _oarr(x)
        if a.dtype != object:
            return _np.argsort(a, **k)
        return _np.array(sorted(range(a.size), key=lambda i: a.ravel()[i]))

    def argmax(x, axis=None, **k):
        a = _oarr(x)
        if a.dtype != object:
            return _np.argmax(a, axis=axis, **k)
        b = 0
        f = a.ravel()
        for i in range(1, a.size):
            if f[i] > f[b]:
                b = i
        return b

    def bincount(x, minlength=0, **k):
        return _np.bincount([int(v) for v in x], minlength=minlength)

    def nanmin(x, **k):
        return _smin([v for v in _oarr(x).ravel() if not _isnan1(v)])

    def nanmax(x, **k):
        return _smax([v for v in _oarr(x).ravel() if not _isnan1(v)])

    def nproundf(x):
        s = Sym.of(x)
        return s.__round__() if s is not None else x

    def dot(a, b, **k):
        a, b = _oarr(a), _oarr(b)
        return _np.dot(a, b)

    def logaddexp(a, b):
        sa, sb = Sym.of(a), Sym.of(b)
        if sa is None:
            return b if a == float('-inf') else a
        if sb is None:
            return a if b == float('-inf') else b
        return S.s_log(S.s_exp(sa) + S.s_exp(sb))

    def add(a, b):
        return _np.add(_oarr(a), _oarr(b))

    def subtract(a, b):
        return _np.subtract(_oarr(a), _oarr(b))

    m.zeros, m.ones, m.empty, m.full, m.eye = zeros, ones, empty, full, eye
    m.identity = eye
    m.array, m.asarray, m.linspace = array, asarray, linspace
    m.asfarray = asarray
    m.copy = lambda x: _oarr(x).copy()
    m.log = _elem(np_log1)
    m.exp = _elem(np_exp1)
    m.sqrt = _elem(np_sqrt1)
    m.log1p = _elem(lambda x: np_log1(x + 1))
    m.cos = _elem(lambda x: S.s_cos(x))
    m.sin = _elem(lambda x: S.s_sin(x))
    m.abs = m.absolute = m.fabs = _elem(abs)
    m.square = _elem(lambda x: x * x)
    m.round = m.around = m.rint = _elem(nproundf)
    m.floor = _elem(lambda x: S.floor(Sym.of(x)))
    m.isnan = _bool_elem(_isnan1)
    m.isinf = _bool_elem(_isinf1)
    m.isfinite = _bool_elem(_fin)
    m.sum, m.mean, m.var, m.std = npsum, mean, var, std
    m.average = mean
    m.max = m.amax = amax
    m.min = m.amin = amin
    m.allclose, m.all, m.any = allclose, npall, npany
    m.where, m.unique, m.argsort, m.argmax = where, unique, argsort, argmax
    m.bincount, m.nanmin, m.nanmax, m.dot = bincount, nanmin, nanmax, dot
    m.logaddexp = _elem2(logaddexp)
    m.add, m.subtract = add, subtract
    m.multiply = lambda a, b: _np.multiply(_oarr(a), _oarr(b))
    m.divide = m.true_divide = lambda a, b: _np.true_divide(_oarr(a), _oarr(b))
    m.outer = lambda a, b: _np.outer(_oarr(a), _oarr(b))
    m.cumsum = lambda a: _np.array(_cumsum(list(_oarr(a).ravel())),
                                   dtype=object)
    m.prod = lambda a, **k: _prod(_oarr(a).ravel())
    m.pi = S.PI()
    m.linalg = make_linalg(m)
    r = types.ModuleType('numpy.random')
    r.__dict__.update({k: v for k, v in _np.random.__dict__.items()
                       if not k.startswith('__')})

    def RandomState(seed=None):
        from .rng import ScriptRng
        e = S.CTX.engine
        if e is None:
            return _np.random.RandomState(0)
        return ScriptRng(e, None, tag='d%s' % (seed,))
    r.RandomState = RandomState
    r.randint = lambda low=0, high=None, **k: low
    m.random = r
    return m


def _cumsum(xs):
    out = []
    t = 0
    for x in xs:
        t = t + x
        out.append(t)
    return out


def _prod(xs):
    t = 1
    for x in xs:
        t = t * x
    return t


def _pivot(a, i):
    n = len(a)
    for j in range(i, n):
        v = a[j][i]
        if isinstance(v, Sym) and not v.is_const():
            if v != 0:
                return j
        elif v != 0:
            return j
    return None


def mat_inv(x):
    x = _np.asarray(x)
    n = x.shape[0]
    a = [[Sym.of(v) for v in row] + [Sym.const(int(i == j))
                                    for j in range(n)]
         for i, row in enumerate(x.tolist() if x.dtype != object
                                 else [list(r) for r in x])]
    for i in range(n):
        j = _pivot(a, i)
        if j is None:
            raise _np.linalg.LinAlgError('Singular matrix')
        a[i], a[j] = a[j], a[i]
        pv = a[i][i]
        a[i] = [v / pv for v in a[i]]
        for k in range(n):
            if k != i:
                f = a[k][i]
                if isinstance(f, Sym) and f.is_const() and f.cval() == 0:
                    continue
                a[k] = [vk - f * vi for vk, vi in zip(a[k], a[i])]
    r = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[i, j] = a[i][n + j]
    return r


def mat_det(x):
    x = _np.asarray(x, dtype=object)
    n = x.shape[0]
    if n == 0:
        return Sym.const(1)
    if n == 1:
        return Sym.of(x[0, 0])
    # Laplace expansion along the first row (small n)
    t = Sym.const(0)
    for j in range(n):
        sub = _np.delete(_np.delete(x, 0, 0), j, 1)
        c = Sym.of(x[0, j]) * mat_det(sub)
        t = t + c if j % 2 == 0 else t - c
    return t


def mat_solve(a, b):
    return _np.dot(mat_inv(a), _np.asarray(b, dtype=object))


def mat_cholesky(x):
    x = _np.asarray(x)
    n = x.shape[0]
    L = _filled((n, n), Sym.const(0))
    for i in range(n):
        for j in range(i + 1):
            t = Sym.of(x[i, j])
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            if i == j:
                if not (t > 0):
                    raise _np.linalg.LinAlgError(
                        'Matrix is not positive definite')
                L[i, i] = S.s_sqrt(t)
            else:
                L[i, j] = t / L[j, j]
    return L


def make_linalg(m):
    la = types.ModuleType('numpy.linalg')
    la.__dict__.update({k: v for k, v in _np.linalg.__dict__.items()
                        if not k.startswith('__')})
    la.inv = mat_inv
    la.pinv = mat_inv
    la.det = mat_det
    la.solve = mat_solve
    la.cholesky = mat_cholesky

    def slogdet(x):
        d = mat_det(x)
        if d > 0:
            return (Sym.const(1), S.s_log(d))
        if d < 0:
            return (Sym.const(-1), S.s_log(-d))
        return (Sym.const(0), float('-inf'))
    la.slogdet = slogdet

    def norm(x, **k):
        t = 0
        for v in _oarr(x).ravel():
            t = t + v * v
        return np_sqrt1(t)
    la.norm = norm
    return la


# ------------------------------------------------------------- scipy

def make_special():
    m = types.ModuleType('scipy.special')
    import scipy.special as sp
    m.__dict__.update({k: v for k, v in sp.__dict__.items()
                       if not k.startswith('__')})

    def lg(x):
        s = Sym.of(x)
        if s is not None and s.is_const() and s.cval() <= 0 and \
                s.cval().denominator == 1:
            return float('inf')
        return S.lgamma(x)
    m.gammaln = m.loggamma = _elem(lg)
    m.betaln = lambda a, b: S.betaln(a, b)
    m.gamma = _elem(lambda x: S.s_exp(lg(x)))
    m.beta = lambda a, b: S.s_exp(S.betaln(a, b))
    S.UF_SIGN['i0'] = 'pos'
    def i0(x):
        # double precision ends near 713.9; only where a harness goes there
        if getattr(S.CTX.engine, 'huge_bessel', False) and x > 713:
            return float('inf')
        return S.uf('i0', x)
    m.i0 = _elem(i0)
    m.i1 = _elem(lambda x: S.uf('i1', x))
    m.ive = lambda v, x: S.uf('ive%s' % v, x)
    m.digamma = m.psi = _elem(lambda x: S.uf('digamma', x))
    m.erf = _elem(lambda x: S.uf('erf', x))
    m.logsumexp = lambda a, **k: _lse(a)
    m.ndtr = _elem(lambda x: S.uf('ndtr', x))
    m.xlogy = lambda x, y: x * S.np_log(y)
    m.factorial = lambda n: _factorial(n)
    return m


def _lse(a, b=None):
    xs = list(_oarr(a).ravel())
    fin = []
    for x in xs:
        if not isinstance(x, Sym) and x == float('-inf'):
            continue
        fin.append(x)
    if not fin:
        return float('-inf')
    return S.s_log(sum(S.s_exp(x) for x in fin))


class Dist(object):
    """scipy.stats-like distribution from a symbolic logpdf."""

    def __init__(self, name, logpdf, cdf=None):
        self.name = name
        self._logpdf = logpdf
        self._cdf = cdf

    def logpdf(self, x, *a, **k):
        return _elem(lambda v: self._logpdf(v, *a, **k))(x)

    logpmf = logpdf

    def pdf(self, x, *a, **k):
        return _elem(lambda v: np_exp1(self._logpdf(v, *a, **k)))(x)

    pmf = pdf

    def cdf(self, x, *a, **k):
        if self._cdf is None:
            raise Unsupported('%s.cdf' % self.name)
        return _elem(lambda v: self._cdf(v, *a, **k))(x)

    def logcdf(self, x, *a, **k):
        return S.s_log(self.cdf(x, *a, **k))

    def rvs(self, *a, **k):
        raise Unsupported('%s.rvs' % self.name)

    def __call__(self, *a, **k):
        return Frozen(self, a, k)


class Frozen(object):
    def __init__(self, d, a, k):
        self.d, self.a, self.k = d, a, k

    def __getattr__(self, n):
        f = getattr(self.d, n)
        return lambda x, *a, **k: f(x, *(self.a + a), **dict(self.k, **k))


def _norm_logpdf(x, loc=0, scale=1):
    zz = (Sym.of(x) - loc) / scale
    return -(zz * zz) / 2 - S.s_log(scale) - S.s_log(2) / 2 \
        - S.s_log(S.PI()) / 2


def _norm_cdf(x, loc=0, scale=1):
    return S.uf('ndtr', (Sym.of(x) - loc) / scale)


S.UF_SIGN['ndtr'] = 'pos'


def _unif_logpdf(x, loc=0, scale=1):
    y = Sym.of(x) - loc
    if y >= 0 and y <= scale:
        return -S.s_log(scale)
    return float('-inf')


def _gamma_logpdf(x, a, loc=0, scale=1):
    y = (Sym.of(x) - loc) / scale
    if y > 0:
        return (Sym.of(a) - 1) * S.s_log(y) - y - S.lgamma(a) - S.s_log(scale)
    return float('-inf')


def _beta_logpdf(x, a, b, loc=0, scale=1):
    y = Sym.of(x)
    if y > 0 and y < 1:
        return (Sym.of(a) - 1) * S.s_log(y) + (Sym.of(b) - 1) * S.s_log(1 - y) \
            - S.betaln(a, b)
    return float('-inf')


def _expon_logpdf(x, loc=0, scale=1):
    y = (Sym.of(x) - loc) / scale
    if y >= 0:
        return -y - S.s_log(scale)
    return float('-inf')


def _t_logpdf(x, df, loc=0, scale=1):
    df = Sym.of(df)
    zz = (Sym.of(x) - loc) / scale
    return S.lgamma((df + 1) / 2) - S.lgamma(df / 2) \
        - S.s_log(df * S.PI()) / 2 - S.s_log(scale) \
        - (df + 1) / 2 * S.s_log(1 + zz * zz / df)


def _pois_logpmf(k, mu):
    k = Sym.of(k)
    return k * S.s_log(mu) - mu - S.lgamma(k + 1)


def make_stats():
    m = types.ModuleType('scipy.stats')
    import scipy.stats as st
    for k, v in st.__dict__.items():
        if not k.startswith('__'):
            m.__dict__[k] = v
    m.norm = Dist('norm', _norm_logpdf, _norm_cdf)
    m.uniform = Dist('uniform', _unif_logpdf)
    m.gamma = Dist('gamma', _gamma_logpdf)
    m.beta = Dist('beta', _beta_logpdf)
    m.expon = Dist('expon', _expon_logpdf)
    m.t = Dist('t', _t_logpdf)
    m.poisson = Dist('poisson', _pois_logpmf)
    return m


def make_misc():
    m = types.ModuleType('scipy.misc')
    m.logsumexp = _lse
    return m


def make_la():
    m = types.ModuleType('scipy.linalg')
    import scipy.linalg as la
    m.__dict__.update({k: v for k, v in la.__dict__.items()
                       if not k.startswith('__')})
    m.inv = mat_inv
    m.det = mat_det
    m.solve = mat_solve
    m.cholesky = lambda x, lower=False, **k: mat_cholesky(x) if lower \
        else mat_cholesky(x).T

    class Factor(_np.ndarray):
        """The triangular factor, remembering what it is a factor of."""
        whole = None

    def cho_factor(x, lower=False, **k):
        L = mat_cholesky(x)
        f = (L if lower else L.T).view(Factor)
        f.whole = _np.asarray(x, dtype=object)
        return (f, lower)

    def cho_solve(cf, b, **k):
        f, lower = cf
        a = getattr(f, 'whole', None)
        if a is None:
            a = _np.asarray(f, dtype=object)
            n = a.shape[0]
            a = _np.array([[a[i, j] if (j <= i if lower else j >= i)
                            else Sym.const(0) for j in range(n)]
                           for i in range(n)], dtype=object)
            a = _np.dot(a, a.T) if lower else _np.dot(a.T, a)
        return mat_solve(a, b)

    def pinv(a, **k):
        """The pseudo-inverse of a symmetric matrix that is invertible, of
        rank one, or zero."""
        a = _np.asarray(a, dtype=object)
        if mat_det(a) != 0:
            return mat_inv(a)
        t = sum(a[i, i] for i in range(a.shape[0]))
        if t == 0:
            return a * Sym.const(0)
        if a.shape[0] > 2:
            raise NotImplementedError('pseudo-inverse of rank > 1')
        return a / (t * t)

    def lstsq(a, b, **k):
        return (_np.dot(pinv(a), _np.asarray(b, dtype=object)), None, None,
                None)
    m.pinv, m.lstsq = pinv, lstsq
    m.cho_factor, m.cho_solve = cho_factor, cho_solve

    def solve_triangular(a, b, lower=False, trans=0, **k):
        a = _np.asarray(a, dtype=object)
        n = a.shape[0]
        t = a.copy()
        for i in range(n):
            for j in range(n):
                if (lower and j > i) or (not lower and j < i):
                    t[i, j] = Sym.const(0)
        if trans in (1, 'T'):
            t = t.T
        return mat_solve(t, b)
    m.solve_triangular = solve_triangular
    return m


def plain(x):
    """An array of known numbers as floats, for compiled graph routines."""
    a = _np.asarray(x)
    if a.dtype == object:
        a = _np.array([float(v) for v in a.ravel()]).reshape(a.shape)
    return a
