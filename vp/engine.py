"""Path-exploring engine.  A harness is an ordinary Python function over the
real (translated) code; it is re-executed once per feasible path, each branch on
a symbolic condition being decided by z3."""
import collections
import math
import random
import sys
import time
import traceback
from fractions import Fraction as F

import z3

from . import poly as P
from . import sym as S
from .sym import Sym, SBool, Unsupported, CTX

if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)


class PathEnd(BaseException):
    """The current path is abandoned (assumption unsatisfied)."""


class Violated(BaseException):
    pass


class Budget(BaseException):
    pass


class Limits(object):
    def __init__(self, paths=4000, seconds=600, query_ms=20000):
        self.paths = paths
        self.seconds = seconds
        self.query_ms = query_ms


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.forks = 0
        self.queries = 0
        self.verdicts = 0
        self.solver_s = 0.0
        self.checks = collections.Counter()
        self.replays = 0
        self.unknown = 0
        self.assumed_out = 0
        self.samples = []

    def merge(self, o):
        for k in ('paths', 'decisions', 'forks', 'queries', 'verdicts',
                  'solver_s', 'replays', 'unknown', 'assumed_out'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.checks.update(o.checks)
        self.samples.extend(o.samples)

    def to_dict(self):
        d = dict(self.__dict__)
        d['checks'] = dict(self.checks)
        return d


class Counterexample(object):
    def __init__(self, label, detail, values, choices, kind):
        self.label = label
        self.detail = detail
        self.values = values
        self.choices = choices
        self.kind = kind


class Api(object):
    """Interface shared by the symbolic and the concrete engine."""

    symbolic = False


class SymEngine(Api):
    symbolic = True

    def __deepcopy__(self, memo):
        return self

    def __init__(self, limits=None, seed=1):
        self.limits = limits or Limits()
        self.stats = Stats()
        self.seed = seed
        self.cex = []
        self.t0 = time.time()
        self.labels_reached = collections.Counter()
        self.known_labels = set()

    # ---- exploration
    def explore(self, harness, on_path=None):
        CTX.engine = self
        work = [[]]
        try:
            while work:
                if self.stats.paths >= self.limits.paths:
                    raise Budget('path limit %d' % self.limits.paths)
                if time.time() - self.t0 > self.limits.seconds:
                    raise Budget('time limit %ds' % self.limits.seconds)
                prefix = work.pop()
                self._begin(prefix, work)
                ended = None
                try:
                    harness(self)
                    ended = 'done'
                except PathEnd:
                    ended = 'assumed'
                    self.stats.assumed_out += 1
                except Violated:
                    ended = 'violated'
                except Budget:
                    raise
                except Unsupported:
                    raise
                except P.TooBig as e:
                    raise Unsupported(str(e))
                except Exception as e:
                    ended = 'exception'
                    self._escape(e)
                self.stats.paths += 1
                if on_path is not None:
                    on_path(self, ended)
                if len([c for c in self.cex
                        if c.label not in self.known_labels]) >= 3 or \
                        len(self.cex) >= 40:
                    break
        finally:
            CTX.engine = None
        return self.stats

    def _begin(self, prefix, work):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.work = work
        self.solver = z3.Solver()
        self.solver.set('timeout', self.limits.query_ms)
        self.pc = []
        self.used = set()
        self.known = {}
        self.once = set()
        self.choices = {}
        self.reals = {}
        self.path_checks = 0
        self.path_labels = collections.Counter()
        self.last_model = None
        self.eq_branch = True
        self.keep = []
        for v in S.REG.vars:
            pass

    def _escape(self, e):
        """An exception the harness did not expect: a violation candidate."""
        tb = traceback.extract_tb(e.__traceback__)
        loc = ''
        for fr in reversed(tb):
            if '/vp/' not in fr.filename:
                loc = '%s:%s' % (fr.filename, fr.lineno)
                break
        self._candidate('unexpected-exception',
                        '%s: %s at %s' % (type(e).__name__, e, loc), 'exc')

    # ---- solver
    def add(self, f):
        self.pc.append(f)
        self.solver.add(f)
        self.last_model = None

    def assert_once(self, key, f):
        if key not in self.once:
            self.once.add(key)
            self.add(f)

    def use_vars(self, vids, q):
        """Assert the defining axioms of the variables entering a formula."""
        stack = list(vids)
        while stack:
            vid = stack.pop()
            for d in {1, q.get(vid, 1)}:
                if (vid, d) in self.used:
                    continue
                self.used.add((vid, d))
                v = S.REG.vars[vid]
                if d != 1:
                    r = S.zroot(vid, d)
                    t = r
                    for _ in range(d - 1):
                        t = t * r
                    z = z3.ToReal(v.z) if z3.is_int(v.z) else v.z
                    self.add(z3.And(r > 0, t == z))
                    continue
                if v.kind == 'base':
                    self._range(v)
                elif v.kind == 'BASE':
                    p, mono = S.poly_nonneg_exps(v.data)
                    if not mono:
                        q2 = S.qmap([p])
                        self.use_vars(P.pvars(p), q2)
                        self.add(v.z == S.zpoly(p, q2))
                    self.add(v.z > 0)
                elif v.kind in ('EXP',):
                    self.add(v.z > 0)
                elif v.kind == 'PI':
                    self.add(z3.And(v.z > z3.RealVal('3.14159265358979'),
                                    v.z < z3.RealVal('3.14159265358980')))
                elif v.kind in ('COS', 'SIN'):
                    self.add(z3.And(v.z >= -1, v.z <= 1))
                    d = v.data
                    c = S.atom('COS', (P.pkey(d.num), d.den), d)
                    w = S.atom('SIN', (P.pkey(d.num), d.den), d)
                    self.assert_once(('trig', c.vid),
                                     c.z * c.z + w.z * w.z == 1)
                elif v.kind == 'LOG':
                    self._log_axiom(v)
                elif v.kind == 'UF' and v.sign == 'pos':
                    self.add(v.z > 0)

    def _log_axiom(self, v):
        p = v.data
        if P.pisconst(p):
            x = float(S.const_eval(Sym(P.pvar(v.vid))))
            self.add(z3.And(v.z > z3.RealVal(repr(x - 1e-12)),
                            v.z < z3.RealVal(repr(x + 1e-12))))
            return
        sg = S.quick_sign(p)
        if sg == 'pos':
            s = Sym(p, ())
            one = S.zcmp0(s - 1, '>')
            eq = S.zcmp0(s - 1, '==')
            self.add(z3.And((v.z > 0) == one, (v.z == 0) == eq))
            # log t <= t - 1
            q = {}
            self.add(S.zcmp0(Sym(P.pvar(v.vid)) - s + 1, '<='))

    def _range(self, v):
        fs = []
        z = v.z
        if v.lo is not None:
            fs.append(z >= (int(v.lo) if v.sort == 'I'
                            else z3.RealVal(str(F(v.lo)))))
        if v.hi is not None:
            fs.append(z <= (int(v.hi) if v.sort == 'I'
                            else z3.RealVal(str(F(v.hi)))))
        if fs:
            self.add(z3.And(fs))

    def _check(self, *fs):
        self.stats.queries += 1
        t = time.time()
        self.solver.push()
        for f in fs:
            self.solver.add(f)
        self.solver.set('timeout', min(3000, self.limits.query_ms))
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        if r == z3.unknown:
            r, m = self._hard(fs)
        self.stats.solver_s += time.time() - t
        self.model = m
        return r

    def _light(self, f):
        """Truth of f implied by the facts over f's own variables alone, or
        None.  (The path condition is satisfiable, so one side suffices.)"""
        vs = _zvars(f)
        if len(vs) < 2 or len(self.pc) < 12:
            return None
        facts = [g for g in self.pc if _zvars(g) <= vs]
        t = time.time()
        res = None
        for want, h in ((True, z3.Not(f)), (False, f)):
            s = z3.Solver()
            s.set('timeout', 700)
            s.add(*facts)
            s.add(h)
            self.stats.queries += 1
            if s.check() == z3.unsat:
                res = want
                break
        self.stats.solver_s += time.time() - t
        return res

    def _hard(self, fs):
        best = z3.unknown
        for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            try:
                s = mk()
                s.set('timeout', self.limits.query_ms)
                for f in self.pc:
                    s.add(f)
                for f in fs:
                    s.add(f)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        self.stats.unknown += 1
        return best, None

    def prove_sign(self, p):
        """Sign of a poly from variable ranges alone ('pos'/'neg'/None)."""
        s = Sym(p, ())
        n, mono = S.poly_nonneg_exps(p)
        if mono and S.mono_sign(mono) != 'pos':
            return None
        q = S.qmap([n])
        self.use_vars(P.pvars(n), q)
        t = S.zpoly(n, q)
        for op, nm in (('<=', 'pos'), ('>=', 'neg')):
            sol = z3.Solver()
            sol.set('timeout', 1500)
            for v in P.pvars(n):
                var = S.REG.vars[v]
                if var.kind == 'base':
                    if var.lo is not None:
                        sol.add(var.z >= z3.RealVal(str(F(var.lo))))
                    if var.hi is not None:
                        sol.add(var.z <= z3.RealVal(str(F(var.hi))))
                elif var.sign == 'pos':
                    sol.add(var.z > 0)
            sol.add(S.ZOPS[op](t, z3.RealVal(0)))
            t0 = time.time()
            self.stats.queries += 1
            r = sol.check()
            self.stats.solver_s += time.time() - t0
            if r == z3.unsat:
                return nm
        return None

    # ---- decisions
    def _next(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d
        return None

    def decide(self, f):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.get_id()
        if k in self.known:
            return self.known[k]
        self.keep.append(f)
        self.stats.decisions += 1
        d = self._next()
        if d is not None:
            forced, val = d[0] == 'F', d[1]
        else:
            if time.time() - self.t0 > self.limits.seconds:
                raise Budget('time limit %ds' % self.limits.seconds)
            r1 = r0 = None
            lt = self._light(f)
            if lt is None:
                r1 = self._check(f)
                r0 = self._check(z3.Not(f)) if r1 != z3.unsat else None
            elif lt:
                r0 = z3.unsat
            else:
                r1 = z3.unsat
            if r1 == z3.unsat:
                val, forced = False, True
            elif r0 == z3.unsat:
                val, forced = True, True
            else:
                val, forced = True, False
                self.work.append(self.trace + [('B', False)])
                self.stats.forks += 1
            self.trace.append(('F' if forced else 'B', val))
        self.known[k] = val
        nf = z3.simplify(z3.Not(f))
        self.keep.append(nf)
        self.known[nf.get_id()] = not val
        if not forced or True:
            self.add(f if val else z3.Not(f))
        return val

    def decide_cmp(self, s, op):
        r = S.cmp0(s, op)
        return bool(r)

    def concretize(self, s):
        """Integer-valued symbolic -> Python int (forking over values)."""
        zt = self._zint(s)
        k = ('conc', P.pkey(s.num))
        if k in self.known:
            return self.known[k]
        d = self._next()
        if d is not None:
            val = d[1]
        else:
            vals = []
            self.solver.push()
            while True:
                self.stats.queries += 1
                t = time.time()
                r = self.solver.check()
                self.stats.solver_s += time.time() - t
                if r != z3.sat:
                    break
                v = self.solver.model().eval(zt, model_completion=True)
                v = v.as_long()
                vals.append(v)
                self.solver.add(zt != v)
                if len(vals) > 64:
                    self.solver.pop()
                    raise Unsupported('concretization of an unbounded integer')
            self.solver.pop()
            if r == z3.unknown:
                raise Unsupported('unknown while concretizing')
            if not vals:
                raise PathEnd()
            vals.sort()
            val = vals[0]
            for v in reversed(vals[1:]):
                self.work.append(self.trace + [('V', v)])
                self.stats.forks += 1
            self.trace.append(('V', val))
        self.known[k] = val
        self.add(zt == val)
        return val

    def _zint(self, s):
        ts = []
        self.use_vars(s.vars(), {})
        for m, c in s.num.items():
            t = z3.IntVal(int(c))
            for v, e in m:
                for _ in range(e):
                    t = t * S.REG.vars[v].z
            ts.append(t)
        return z3.Sum(ts) if len(ts) != 1 else ts[0]

    # ---- harness API
    def real(self, name, lo=None, hi=None):
        v = S.base_var(name, 'R', None if lo is None else F(lo),
                       None if hi is None else F(hi), True)
        self.reals[name] = v
        self.use_vars([v.vid], {})
        return Sym(P.pvar(v.vid), (), True)

    def int(self, name, lo=None, hi=None, flt=True):
        if lo is not None and lo == hi:
            return Sym.const(lo, flt)
        v = S.base_var(name, 'I', lo, hi, flt)
        self.reals[name] = v
        self.use_vars([v.vid], {})
        return Sym(P.pvar(v.vid), (), flt)

    def choose(self, name, n):
        """Nondeterministic structural choice in range(n), forked over."""
        if isinstance(n, (list, tuple)):
            return n[self.choose(name, len(n))]
        if n == 1:
            return 0
        base, k = name, 2
        while name in self.choices:
            name = '%s#%d' % (base, k)
            k += 1
        d = self._next()
        if d is not None:
            val = d[1]
        else:
            for v in range(n - 1, 0, -1):
                self.work.append(self.trace + [('C', v)])
                self.stats.forks += 1
            val = 0
            self.trace.append(('C', val))
        self.choices[name] = val
        self.stats.decisions += 1
        return val

    def assume(self, c):
        if isinstance(c, SBool):
            r = self._check(c.f)
            if r == z3.unsat:
                raise PathEnd()
            self.add(c.f)
            return
        if not c:
            raise PathEnd()

    def const(self, x):
        return Sym.const(F(x))

    def check(self, cond, label, detail=''):
        assert not isinstance(cond, str), 'check(cond, label)'
        self.stats.checks[label] += 1
        self.stats.verdicts += 1
        self.path_checks += 1
        self.path_labels[label] += 1
        if isinstance(cond, SBool):
            r = self._check(z3.Not(cond.f))
            if r == z3.unsat:
                return
            if r == z3.unknown:
                raise Unsupported('solver unknown on check %s' % label)
            self._candidate(label, detail, 'cond', self.model)
            raise Violated()
        if not cond:
            self._candidate(label, detail, 'cond')
            raise Violated()

    def check_eq(self, a, b, label, detail=''):
        """a == b over all values on this path (extended reals)."""
        self.stats.checks[label] += 1
        self.stats.verdicts += 1
        self.path_checks += 1
        self.path_labels[label] += 1
        if isinstance(a, SBool) or isinstance(b, SBool):
            raise Unsupported('check_eq on booleans')
        sa, sb = Sym.of(a), Sym.of(b)
        if sa is None or sb is None:
            ok = _same_special(a, b)
            if not ok:
                self._candidate(label, detail or '%r != %r' % (a, b), 'eq')
                raise Violated()
            return
        v = self._eq_query(sa, sb)
        if v == 'unsat':
            return
        # Integers pinned or bounded on this path: decide value by value.
        v2 = self._eq_split(sa, sb)
        if v2 == 'unsat':
            return
        if v2 is not None:
            v = v2
        if v == 'unknown' or v == 'sat':
            d = sa - sb
            if d.only_const_atoms() and abs(S.const_eval(d)) < 1e-20:
                raise Unsupported('constants equal to 1e-20: %r' % d)
            det = detail or 'lhs=%s rhs=%s' % (_short(sa), _short(sb))
            self._candidate(label, det, 'eq',
                            self.eqmodel if v == 'sat' else None,
                            unknown=(v == 'unknown'))
            raise Violated()

    def _eq_query(self, sa, sb, extra=()):
        """'unsat' (equal), 'sat' or 'unknown' for sa != sb."""
        d = sa - sb
        l, m1, m2 = S._den_lcm(sa.den, sb.den)
        na = S._mulfac(sa.num, m1)
        nb = S._mulfac(sb.num, m2)
        mins = {}
        for p in (na, nb):
            for m in p:
                for v, e in m:
                    if e < 0:
                        mins[v] = min(mins.get(v, 0), e)
        mono = tuple(sorted((v, -e) for v, e in mins.items()))
        na, nb = P.pmulm(na, mono), P.pmulm(nb, mono)
        if not d.num:
            # Identical normal forms: give the solver the unexpanded cross
            # products first, and the expanded form if it does not finish.
            ta = self._zprod(P.pmulm(sa.num, mono), m1)
            tb = self._zprod(P.pmulm(sb.num, mono), m2)
            if ta is not None and tb is not None:
                r = self._check_light(ta != tb, extra)
                if r == z3.unsat:
                    self.eqmodel = None
                    return 'unsat'
        q = S.qmap([na, nb])
        self.use_vars(P.pvars(na) | P.pvars(nb), q)
        f = S.zpoly(na, q) != S.zpoly(nb, q)
        r = self._check(f, *extra)
        self.eqmodel = self.model
        return str(r)

    def _zprod(self, num, facs):
        if P.poly_has_neg(num):
            return None
        ps = [num]
        for k, e in facs:
            ps.extend([S.REG.denreg[k]] * e)
        if any(P.poly_has_neg(x) for x in ps):
            return None
        q = S.qmap(ps)
        t = S.zpoly(ps[0], q)
        for x in ps[1:]:
            t = t * S.zpoly(x, q)
        return t

    def _check_light(self, f, extra):
        self.stats.queries += 1
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 700)
        for x in extra:
            s.add(x)
        s.add(f)
        r = s.check()
        self.stats.solver_s += time.time() - t
        return r

    def _eq_split(self, sa, sb):
        vids = sorted(S.base_vars(sa) | S.base_vars(sb))
        ints = [v for v in vids if S.REG.vars[v].sort == 'I']
        fixed = {}
        combos = [({}, ())]
        for vid in ints:
            var = S.REG.vars[vid]
            vals = self._int_values(var, 12)
            if vals is None:
                return None
            combos = [(dict(m, **{}), c) for m, c in combos]
            nxt = []
            for m, c in combos:
                for x in vals:
                    m2 = dict(m)
                    m2[vid] = Sym.const(x, var.flt)
                    nxt.append((m2, c + (var.z == x,)))
            combos = nxt
            if len(combos) > 300:
                return None
        reals = [v for v in vids if S.REG.vars[v].sort == 'R']
        eqs = self._real_equalities(reals)
        if not ints and not eqs:
            return None
        for m, c in combos:
            m = dict(m, **{})
            m.update(eqs)
            if c and self._check(*c) == z3.unsat:
                continue
            try:
                ta, tb = S.subst(sa, m), S.subst(sb, m)
            except (ZeroDivisionError, ValueError):
                return None
            v = self._eq_query(ta, tb, c)
            if v != 'unsat':
                return v
        return 'unsat'

    def _int_values(self, var, limit):
        vals = []
        self.solver.push()
        r = z3.unknown
        while len(vals) <= limit:
            self.stats.queries += 1
            r = self.solver.check()
            if r != z3.sat:
                break
            v = self.solver.model().eval(var.z, model_completion=True)
            vals.append(v.as_long())
            self.solver.add(var.z != v)
        self.solver.pop()
        if r != z3.unsat:
            return None
        return sorted(vals)

    def _real_equalities(self, vids):
        """Pairs of real variables equal on this path (after a == branch)."""
        out = {}
        if not self.eq_branch or len(vids) < 1:
            return out
        m = None
        if self._check() == z3.sat:
            m = self.model
        if m is None:
            return out
        vals = {}
        for vid in vids:
            z = S.REG.vars[vid].z
            x = m.eval(z, model_completion=True)
            for u, y in vals.items():
                if u in out:
                    continue
                if z3.is_true(z3.simplify(x == y)) and self._check(
                        z != S.REG.vars[u].z) == z3.unsat:
                    out[vid] = Sym(P.pvar(u))
                    break
            else:
                vals[vid] = x
                if z3.is_rational_value(x) and self._check(z != x) == \
                        z3.unsat:
                    out[vid] = Sym.const(F(x.numerator_as_long(),
                                           x.denominator_as_long()))
        return out

    def equal(self, a, b):
        """Provable equality on this path (no fork, no report)."""
        sa, sb = Sym.of(a), Sym.of(b)
        if sa is None or sb is None:
            return _same_special(a, b)
        d = sa - sb
        if d.is_const():
            return d.cval() == 0
        r = S.cmp0(d, '!=')
        if isinstance(r, SBool):
            return self._check(r.f) == z3.unsat
        return not r

    def isclose(self, a, b):
        return self.equal(a, b)

    # ---- counterexamples
    def _candidate(self, label, detail, kind, model=None, unknown=False,
                   exprs=None):
        models = []
        if model is None:
            r = self._check()
            if r == z3.sat:
                models.append(self.model)
        else:
            models.append(model)
        vals = [self._values(m) for m in models]
        vals += self._more_models(6)
        self.cex.append(Counterexample(label, detail, vals,
                                       dict(self.choices), kind))

    def _values(self, m):
        out = {}
        for name, v in self.reals.items():
            z = m.eval(v.z, model_completion=True)
            out[name] = _zval(z)
        return out

    def _more_models(self, n):
        """Extra points of the current path, spread by random constraints."""
        rnd = random.Random(self.seed * 7919 + len(self.cex))
        out = []
        names = [v for v in self.reals.values()]
        for i in range(n):
            self.solver.push()
            self.solver.set('timeout', 1500)
            for v in names:
                lo = v.lo if v.lo is not None else F(-6)
                hi = v.hi if v.hi is not None else lo + 12
                a = lo + (hi - lo) * F(rnd.randint(0, 1000), 1000)
                w = (hi - lo) * F(1, 10)
                if v.sort == 'I':
                    c = z3.And(v.z >= int(math.floor(a - w)) - 1,
                               v.z <= int(math.ceil(a + w)) + 1)
                else:
                    b = z3.RealVal(str(F(rnd.randint(0, 1000), 1000) * w + a))
                    c = z3.And(v.z >= z3.RealVal(str(a - w)), v.z <= b)
                self.solver.push()
                self.solver.add(c)
                if self.solver.check() != z3.sat:
                    self.solver.pop()
                    self._pops = 0
                else:
                    # keep this constraint on the stack
                    self._kept = getattr(self, '_kept', 0) + 1
            t = time.time()
            r = self.solver.check()
            if r == z3.sat:
                out.append(self._values(self.solver.model()))
            while self.solver.num_scopes() > 0:
                self.solver.pop()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
        return out

    def path_model(self):
        """A concrete point of the completed path (for replay)."""
        r = self._check()
        if r != z3.sat:
            return None
        return self._values(self.model)

    # ---- randomness
    def enumerate_random(self, fn, label='rng', limit=5000, **k):
        from .rng import enumerate_random
        return enumerate_random(self, fn, limit, **k)


_ZV = {}


def _zvars(f):
    k = f.get_id()
    if k in _ZV:
        return _ZV[k][1]
    out = set()
    seen = set()
    stack = [f]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(i)
            else:
                stack.extend(e.children())
    out = frozenset(out)
    _ZV[k] = (f, out)
    return out


def _short(s):
    r = S.render(s)
    return r if len(r) < 400 else r[:400] + '...'


def _same_special(a, b):
    try:
        fa, fb = float(a), float(b)
    except (TypeError, Unsupported, ValueError):
        return False
    if math.isnan(fa) and math.isnan(fb):
        return True
    return fa == fb


def _zval(z):
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return float(F(z.numerator_as_long(), z.denominator_as_long()))
    if z3.is_algebraic_value(z):
        a = z.approx(20)
        return float(F(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


class ConcEngine(Api):
    """Runs the same harness on concrete numbers against the real numerics."""
    symbolic = False

    def __deepcopy__(self, memo):
        return self

    def __init__(self, values, choices, rtol=1e-6, atol=1e-7):
        self.values = values
        self.choices_in = choices
        self.choices = {}
        self.rtol = rtol
        self.atol = atol
        self.failures = []
        self.assumed = False
        self.checked = 0
        self.missing = []

    def run(self, harness):
        CTX.engine = None
        try:
            harness(self)
        except PathEnd:
            self.assumed = True
        except Exception as e:
            tb = traceback.format_exc().splitlines()
            self.failures.append(('unexpected-exception', '%s: %s' % (
                type(e).__name__, e), tb[-6:]))
        return self.failures

    def real(self, name, lo=None, hi=None):
        if name not in self.values:
            self.missing.append(name)
            lo = -4. if lo is None else float(lo)
            hi = lo + 8. if hi is None else float(hi)
            return (lo + hi) / 2 + .1
        return float(self.values[name])

    def int(self, name, lo=None, hi=None, flt=True):
        if lo is not None and lo == hi:
            return float(lo) if flt else lo
        if name not in self.values:
            self.missing.append(name)
            v = lo or 0
        else:
            v = self.values[name]
        return float(v) if flt else int(v)

    def choose(self, name, n):
        if isinstance(n, (list, tuple)):
            return n[self.choose(name, len(n))]
        if n == 1:
            return 0
        base, k = name, 2
        while name in self.choices:
            name = '%s#%d' % (base, k)
            k += 1
        v = self.choices_in.get(name, 0)
        if v >= n:
            v = 0
        self.choices[name] = v
        return v

    def assume(self, c):
        if not c:
            raise PathEnd()

    def const(self, x):
        from fractions import Fraction
        return float(Fraction(x)) if isinstance(x, str) else float(x)

    def check(self, cond, label, detail=''):
        assert not isinstance(cond, str), 'check(cond, label)'
        self.checked += 1
        if not cond:
            self.failures.append((label, detail, []))

    def check_eq(self, a, b, label, detail=''):
        self.checked += 1
        if not self.isclose(a, b):
            self.failures.append(
                (label, detail or '%r != %r' % (a, b), []))

    def isclose(self, a, b):
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= self.atol + self.rtol * max(abs(fa), abs(fb))

    equal = isclose

    def enumerate_random(self, fn, label='rng', limit=5000, **k):
        from .rng import enumerate_random
        return enumerate_random(self, fn, limit, **k)
