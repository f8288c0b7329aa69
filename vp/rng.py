"""Random sources as nondeterministic stubs.  Discrete draws are enumerated with
their weights; continuous draws return fresh values and are recorded with the
family and parameters the code asked for."""
import itertools
import math

from .sym import Sym, Unsupported


class Draw(object):
    def __init__(self, family, params, value):
        self.family = family
        self.params = params
        self.value = value

    def __repr__(self):
        return '%s%r -> %r' % (self.family, self.params, self.value)


class ScriptRng(object):
    """Stands for numpy.random.RandomState."""

    def __init__(self, engine, script=None, tag='u', perm='identity',
                 choice_hook=None):
        self.engine = engine
        self.script = script if script is not None else []
        self.pos = 0
        self.taken = []
        self.weight = 1
        self.log = []
        self.tag = tag
        self.n = 0
        self.perm = perm
        self.choice_hook = choice_hook
        self.enumerating = script is not None

    # -- discrete outcomes
    def _outcome(self, weights):
        """Pick an index; weights are numbers (Sym or float)."""
        if len(weights) == 1:
            return 0
        if self.pos < len(self.script):
            i = self.script[self.pos]
        else:
            i = None
            for j, w in enumerate(weights):
                if not _is_zero(w):
                    i = j
                    break
            if i is None:
                i = 0
        alts = [j for j in range(i + 1, len(weights))
                if not _is_zero(weights[j])]
        self.taken.append((i, alts))
        self.pos += 1
        self.weight = self.weight * weights[i]
        return i

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        if isinstance(a, Sym):
            a = a.__index__()
        arr = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        n = len(arr)
        if n == 0:
            raise ValueError('a must be non-empty')
        if p is None:
            w = [self.engine.const(1) / n] * n
        else:
            w = list(p)
            if len(w) != n:
                raise ValueError("'a' and 'p' must have same size")
            for x in w:
                if not isinstance(x, Sym) and (x != x or x < -1e-12):
                    raise ValueError('probabilities are not non-negative')
        if self.choice_hook is not None:
            self.choice_hook(arr, w)
        self.log.append(Draw('choice', (arr, w), None))
        d = self.log[-1]
        if size is None:
            i = self._outcome(w)
            d.value = arr[i]
            return arr[i]
        if isinstance(size, tuple):
            raise Unsupported('choice with tuple size')
        size = int(size)
        if not replace:
            if p is not None:
                raise Unsupported('choice without replacement and p')
            rest = list(arr)
            out = []
            for _ in range(size):
                i = self._outcome([self.engine.const(1) / len(rest)]
                                  * len(rest))
                out.append(rest.pop(i))
        else:
            out = [arr[self._outcome(w)] for _ in range(size)]
        d.value = out
        if all(isinstance(x, (int, np.integer)) for x in out):
            return np.array(out)
        r = np.empty(len(out), dtype=object)
        for i, x in enumerate(out):
            r[i] = x
        return r

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low)
        if n > 1000:
            v = int(low) + (len(self.log) * 7919 + 13) % n
            if size is not None:
                return [int(low) + (13 + 7919 * i) % n for i in range(size)]
            self.log.append(Draw('randint', (low, high), v))
            return v

        def one():
            i = self._outcome([self.engine.const(1) / n] * n)
            self.log.append(Draw('randint', (low, high), int(low) + i))
            return int(low) + i
        if size is None:
            return one()
        import numpy as np
        return np.array([one() for _ in range(size)])

    def binomial(self, n, p, size=None):
        n = int(n)
        w = [math.comb(n, k) * p ** k * (1 - p) ** (n - k)
             for k in range(n + 1)]
        i = self._outcome(w)
        self.log.append(Draw('binomial', (n, p), i))
        return i

    def multinomial(self, n, pvals, size=None):
        import numpy as np
        out = [0] * len(pvals)
        for _ in range(int(n)):
            out[self._outcome(list(pvals))] += 1
        self.log.append(Draw('multinomial', (n, list(pvals)), out))
        return np.array(out)

    # -- permutations
    def _perm(self, n):
        if n <= 1 or self.perm == 'identity':
            return list(range(n))
        if self.perm == 'reverse':
            return list(range(n))[::-1]
        if isinstance(self.perm, tuple):
            return list(self.perm) if len(self.perm) == n else list(range(n))
        if n > 4:
            raise Unsupported('permutation of more than 4')
        perms = list(itertools.permutations(range(n)))
        if self.perm == 'choose':
            i = self.engine.choose('perm', len(perms))
        else:
            i = self._outcome([self.engine.const(1) / len(perms)]
                              * len(perms))
        return list(perms[i])

    def permutation(self, x):
        import numpy as np
        if isinstance(x, (int, np.integer)):
            return np.array(self._perm(int(x)))
        xs = list(x)
        self.log.append(Draw('permutation', (xs,), None))
        out = [xs[i] for i in self._perm(len(xs))]
        if all(isinstance(v, (int, np.integer)) for v in out):
            return np.array(out, dtype=int)
        r = np.empty(len(out), dtype=object)
        for i, v in enumerate(out):
            r[i] = v
        return r

    def shuffle(self, x):
        xs = list(x)
        out = [xs[i] for i in self._perm(len(xs))]
        for i, v in enumerate(out):
            x[i] = v

    # -- continuous draws
    def _real(self, family, params, lo=None, hi=None, size=None):
        if size is not None:
            import numpy as np
            if isinstance(size, tuple):
                if len(size) == 1:
                    size = size[0]
                else:
                    raise Unsupported('%s with size %r' % (family, size))
            r = np.empty(int(size), dtype=object)
            for i in range(int(size)):
                r[i] = self._real(family, params, lo, hi)
            return r
        name = '%s.%d' % (self.tag, self.n)
        self.n += 1
        v = self.engine.real(name, lo, hi)
        self.log.append(Draw(family, params, v))
        return v

    def rand(self, *shape):
        if shape:
            return self._real('uniform', (0, 1), 0, 1,
                              size=shape[0] if len(shape) == 1 else shape)
        return self._real('uniform', (0, 1), 0, 1)

    def random_sample(self, size=None):
        return self._real('uniform', (0, 1), 0, 1, size)

    def uniform(self, low=0., high=1., size=None):
        u = self._real('uniform', (low, high), 0, 1, size)
        if _is_zero(low - 0) and _is_zero(high - 1):
            return u
        return low + u * (high - low)

    def normal(self, loc=0., scale=1., size=None):
        return self._real('normal', (loc, scale), None, None, size)

    def standard_normal(self, size=None):
        return self._real('normal', (0, 1), None, None, size)

    def randn(self, *shape):
        return self._real('normal', (0, 1), None, None,
                          shape if shape else None)

    def gamma(self, shape, scale=1., size=None):
        return self._real('gamma', (shape, scale), '1/64', 64, size)

    def beta(self, a, b, size=None):
        return self._real('beta', (a, b), '1/64', '63/64', size)

    def exponential(self, scale=1., size=None):
        return self._real('exponential', (scale,), 0, 64, size)

    def standard_t(self, df, size=None):
        return self._real('standard_t', (df,), None, None, size)

    def chisquare(self, df, size=None):
        return self._real('gamma', (df / 2., 2.), '1/64', 64, size)

    def lognormal(self, mean=0., sigma=1., size=None):
        return self._real('lognormal', (mean, sigma), '1/64', 64, size)

    def vonmises(self, mu, kappa, size=None):
        return self._real('vonmises', (mu, kappa), '-3.14159', '3.14159',
                          size)

    def multivariate_normal(self, mean, cov=None, size=None, **kw):
        import numpy as np
        if size is not None:
            return np.array([self.multivariate_normal(mean, cov)
                             for _ in range(int(size))], dtype=object)
        n = len(mean)
        name = '%s.%d' % (self.tag, self.n)
        self.n += 1
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.engine.real('%s[%d]' % (name, i), -8, 8)
        self.log.append(Draw('mvn', (mean, cov), out))
        return out

    def _int(self, family, params, lo, hi):
        name = '%s.%d' % (self.tag, self.n)
        self.n += 1
        v = self.engine.int(name, lo, hi, flt=False)
        self.log.append(Draw(family, params, v))
        return v

    def poisson(self, lam=1., size=None):
        return self._int('poisson', (lam,), 0, 6)

    def geometric(self, p, size=None):
        return self._int('geometric', (p,), 1, 6)

    def negative_binomial(self, n, p, size=None):
        return self._int('negative_binomial', (n, p), 0, 6)

    def dirichlet(self, alpha, size=None):
        import numpy as np
        n = len(alpha)
        name = '%s.%d' % (self.tag, self.n)
        self.n += 1
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.engine.real('%s[%d]' % (name, i), 0, 1)
        self.log.append(Draw('dirichlet', (list(alpha),), out))
        return out

    def seed(self, s=None):
        pass

    def get_state(self):
        raise Unsupported('rng.get_state')


def _is_zero(w):
    if isinstance(w, Sym):
        return w.is_const() and w.cval() == 0
    return w == 0


class Outcome(object):
    def __init__(self, weight, value, log, script, error=None):
        self.weight = weight
        self.value = value
        self.log = log
        self.script = script
        self.error = error


def enumerate_random(engine, fn, limit=5000, tag='u', perm='identity',
                     choice_hook=None, catch=()):
    """All outcomes of fn(rng) over the discrete draws it makes."""
    outs = []
    script = []
    while True:
        rng = ScriptRng(engine, script, tag, perm, choice_hook)
        err = None
        val = None
        try:
            val = fn(rng)
        except catch as e:
            err = e
        outs.append(Outcome(rng.weight, val, rng.log,
                            [i for i, _ in rng.taken], err))
        if len(outs) > limit:
            raise Unsupported('more than %d random outcomes' % limit)
        # next script: last position with an alternative
        taken = rng.taken
        k = len(taken) - 1
        while k >= 0 and not taken[k][1]:
            k -= 1
        if k < 0:
            return outs
        script = [i for i, _ in taken[:k]] + [taken[k][1][0]]


def tabulate(outs, key=lambda o: o.value):
    """{key: total weight} over outcomes."""
    d = {}
    for o in outs:
        k = key(o)
        d[k] = d[k] + o.weight if k in d else o.weight
    return d
