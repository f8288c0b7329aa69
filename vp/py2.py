"""Python 2 semantics on Python 3 for the translated sources."""
import builtins
import functools
import math
import operator
import sys
from fractions import Fraction as F

import numpy as _np


class Py2(object):
    """Helper namespace injected in every translated module as __py2__."""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.functions = set()
        if symbolic:
            from . import sym
            self.S = sym

    # -- instrumentation
    def enter(self, name):
        self.functions.add(name)

    # -- literals
    def q(self, text):
        return self.S.Sym.const(F(text))

    # -- dict views are lists
    def keys(self, x):
        r = x.keys()
        return r if isinstance(r, list) else list(r)

    def values(self, x):
        r = x.values()
        return r if isinstance(r, list) else list(r)

    def items(self, x):
        r = x.items()
        return r if isinstance(r, list) else list(r)

    def iterkeys(self, x):
        return iter(x.iterkeys()) if hasattr(x, 'iterkeys') else iter(x.keys())

    def itervalues(self, x):
        return iter(x.itervalues()) if hasattr(x, 'itervalues') \
            else iter(x.values())

    def iteritems(self, x):
        return iter(x.iteritems()) if hasattr(x, 'iteritems') \
            else iter(x.items())

    # -- division
    def div(self, a, b):
        if isinstance(a, (int, _np.integer)) and \
                isinstance(b, (int, _np.integer)):
            return a // b
        if self.symbolic:
            S = self.S
            if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
                return self._adiv(a, b)
            if isinstance(a, S.Sym) or isinstance(b, S.Sym):
                if S.Sym.of(a) is None or S.Sym.of(b) is None:
                    return operator.truediv(a, b)
                return S.py2_div(a, b)
            if isinstance(a, float) or isinstance(b, float):
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    ca, cb = S.Sym.of(a), S.Sym.of(b)
                    if ca is not None and cb is not None:
                        return S.div(ca, cb)
        elif isinstance(a, _np.ndarray) and isinstance(
                b, (_np.ndarray, int, _np.integer)):
            if a.dtype.kind in 'iu' and _np.asarray(b).dtype.kind in 'iu':
                return a // b
        return operator.truediv(a, b)

    def _adiv(self, a, b):
        aa, bb = _np.asarray(a), _np.asarray(b)
        if aa.dtype == object or bb.dtype == object:
            f = _np.frompyfunc(self.div, 2, 1)
            r = f(aa, bb)
            return r
        if aa.dtype.kind in 'iu' and bb.dtype.kind in 'iu':
            return aa // bb
        return operator.truediv(aa, bb)

    def idiv(self, a, b):
        r = self.div(a, b)
        if isinstance(a, _np.ndarray) and isinstance(r, _np.ndarray) and \
                a.shape == r.shape and (a.dtype == r.dtype):
            a[...] = r
            return a
        return r

    def tdiv(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            S = self.S
            ca, cb = S.Sym.of(a), S.Sym.of(b)
            if ca is not None and cb is not None:
                return S.div(ca, cb)
        return operator.truediv(a, b)

    def itdiv(self, a, b):
        r = self.tdiv(a, b) if self.symbolic else operator.truediv(a, b)
        if isinstance(a, _np.ndarray) and isinstance(r, _np.ndarray) and \
                a.shape == r.shape and (a.dtype == r.dtype):
            a[...] = r
            return a
        return r

    def translate(self, s, table, delete):
        if isinstance(s, str) and table is None:
            return ''.join(c for c in s if c not in delete)
        return s.translate(table, delete)

    # -- ordering with None (None sorts below everything)
    def cmp(self, op, a, b):
        if a is None or b is None:
            ra = 0 if a is None else 1
            rb = 0 if b is None else 1
            return getattr(operator, op)(ra, rb)
        sa, sb = isinstance(a, str), isinstance(b, str)
        if sa != sb and (isinstance(a, (int, float)) or
                         isinstance(b, (int, float))):
            return getattr(operator, op)(1 if sa else 0, 1 if sb else 0)
        return getattr(operator, op)(a, b)

    def chain(self, a, *rest):
        r = True
        for op, th in rest:
            b = th()
            if op in ('lt', 'le', 'gt', 'ge'):
                r = self.cmp(op, a, b)
            elif op == 'eq':
                r = a == b
            elif op == 'ne':
                r = a != b
            elif op == 'is_':
                r = a is b
            elif op == 'is_not':
                r = a is not b
            elif op == 'in':
                r = a in b
            elif op == 'not_in':
                r = a not in b
            if not r:
                return r
            a = b
        return r

    # -- formatting
    def fmt(self, s, args):
        if not isinstance(s, str):
            if self.symbolic and isinstance(s, (int, float, _np.generic)) \
                    and isinstance(args, self.S.Sym):
                return self.S.Sym.of(s) % args
            return s % args
        if self.symbolic:
            try:
                flat = args if isinstance(args, tuple) else (args,)
                if any(isinstance(x, self.S.Sym) and not x.is_const()
                       for x in flat):
                    return s + ' % ' + repr(args)
            except TypeError:
                pass
        return s % args

    def func(self, x):
        return getattr(x, '__func__', x)


# ------------------------------------------------------------- builtins

def make_builtins(U):
    """A replacement builtins dict for translated modules."""
    py2 = U.py2
    d = dict(builtins.__dict__)
    d['__py2__'] = py2
    d['__import__'] = U.import_
    d['xrange'] = lambda *a: builtins.range(*[_ix(x) for x in a])
    d['range'] = lambda *a: list(builtins.range(*[_ix(x) for x in a]))
    d['map'] = _map
    d['filter'] = lambda f, xs: _filter(f, xs)
    d['zip'] = lambda *a: list(builtins.zip(*a))
    d['unicode'] = _Unicode
    d['basestring'] = str
    d['long'] = int
    d['reduce'] = functools.reduce
    d['raw_input'] = builtins.input
    d['cmp'] = lambda a, b: (a > b) - (a < b)
    d['print'] = lambda *a, **k: None
    d['sorted'] = _sorted
    d['reload'] = lambda m: m
    d['round'] = builtins.round
    if U.symbolic:
        from . import sym as S
        d['float'] = _Float
        d['int'] = _Int
        d['max'] = _smax
        d['min'] = _smin
        d['isinstance'] = _isinstance
        d['all'] = builtins.all
        d['any'] = builtins.any
    return d


def _ix(x):
    return operator.index(x) if not isinstance(x, float) else int(x)


def _map(f, *xs):
    if f is None:
        return list(zip(*xs))
    return list(builtins.map(f, *xs))


def _filter(f, xs):
    if f is None:
        f = bool
    if isinstance(xs, tuple):
        return tuple(x for x in xs if f(x))
    if isinstance(xs, str):
        return ''.join(x for x in xs if f(x))
    return [x for x in xs if f(x)]


def _sorted(xs, cmp=None, key=None, reverse=False):
    if cmp is not None:
        k = functools.cmp_to_key(cmp)
        if key is not None:
            k2 = lambda x: k(key(x))
        else:
            k2 = k
        return builtins.sorted(xs, key=k2, reverse=reverse)
    try:
        return builtins.sorted(xs, key=key, reverse=reverse)
    except TypeError:
        def k3(x):
            y = key(x) if key else x
            return (0, 0) if y is None else (1, y) if not isinstance(y, str) \
                else (2, y)
        return builtins.sorted(xs, key=k3, reverse=reverse)


class _UMeta(type):
    def __instancecheck__(cls, x):
        return False


class _Unicode(str, metaclass=_UMeta):
    def __new__(cls, x=''):
        return str(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        from . import sym as S
        return isinstance(x, float) or (isinstance(x, S.Sym) and x.flt)

    def __call__(cls, x=0.0):
        from . import sym as S
        if isinstance(x, S.Sym):
            return S.Sym(x.num, x.den, True)
        if isinstance(x, S.SBool):
            x = bool(x)
        if isinstance(x, _np.ndarray):
            if x.size == 1:
                return cls(x.item())
            raise TypeError('only size-1 arrays can be converted')
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')):
            return f
        if isinstance(x, str):
            try:
                return S.Sym.const(F(x.strip()))
            except ValueError:
                pass
        s = S.Sym.of(x if not isinstance(x, str) else f)
        return S.Sym(s.num, s.den, True)

    def __eq__(cls, o):
        return o is float or o is _Float

    def __hash__(cls):
        return hash(float)


class _Float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        from . import sym as S
        return (isinstance(x, int)) or (isinstance(x, S.Sym) and not x.flt)

    def __call__(cls, x=0, *a):
        from . import sym as S
        if a:
            return int(x, *a)
        if isinstance(x, S.Sym):
            t = S.trunc(x)
            if t.is_const():
                return int(t.cval())
            return t
        return int(x)

    def __eq__(cls, o):
        return o is int or o is _Int

    def __hash__(cls):
        return hash(int)


class _Int(metaclass=_IntMeta):
    pass


def _isinstance(x, t):
    from . import sym as S
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if k is _Float or k is float:
            if _FloatMeta.__instancecheck__(_Float, x):
                return True
        elif k is _Int or k is int:
            if _IntMeta.__instancecheck__(_Int, x):
                return True
        elif builtins.isinstance(x, k):
            return True
        elif isinstance(x, S.Sym) and getattr(k, '__name__', '') in (
                'Number', 'Real'):
            return True
    return False


def _args(a):
    if len(a) == 1:
        return list(a[0])
    return list(a)


def _symmy(xs):
    from . import sym as S
    return builtins.any(isinstance(x, S.Sym) and not x.is_const()
                        for x in xs)


def _smax(*a, **k):
    from . import sym as S
    xs = _args(a)
    if k or not _symmy(xs) or any(not _numeric(x) for x in xs):
        return builtins.max(xs, **k)
    if any(x is None for x in xs):
        xs = [x for x in xs if x is not None]
    fin = []
    for x in xs:
        if not isinstance(x, S.Sym):
            if x != x:
                raise S.Unsupported('max with nan')
            if x == float('inf'):
                return x
            if x == float('-inf'):
                continue
        fin.append(x)
    if len(fin) == 1:
        return fin[0]
    if all(isinstance(x, (int,)) or (isinstance(x, S.Sym) and
                                     x.is_int_valued()) for x in fin):
        return builtins.max(fin)
    return S.smax(fin)


def _smin(*a, **k):
    from . import sym as S
    xs = _args(a)
    if k or not _symmy(xs) or any(not _numeric(x) for x in xs):
        return builtins.min(xs, **k)
    neg = [-x for x in xs]
    m = _smax(neg)
    return -m


def _numeric(x):
    from . import sym as S
    return isinstance(x, (int, float, S.Sym, _np.number))
