"""Harness environments: the same harness function runs symbolically (inputs are
solver variables) and concretely (inputs are floats, filterpy is imported normally)."""
import importlib
import math
import random
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from . import ctx as C
from .sym import Sym, SymBool, lift, band, bor, bnot


class HarnessSkip(Exception):
    pass


def grid(r, lo, hi, den=8):
    a, b = math.ceil(lo * den), math.floor(hi * den)
    if a > b:
        den *= 64
        a, b = math.ceil(lo * den), math.floor(hi * den)
    return Fraction(r.randint(a, b), den)


class EnvBase(object):
    symbolic = False

    # composite inputs, shared naming between both environments
    def vec(self, name, n, **k):
        return self.array([self.real('%s_%d' % (name, i), **k) for i in range(n)])

    def col(self, name, n, **k):
        return self.array([[self.real('%s_%d' % (name, i), **k)] for i in range(n)])

    def mat(self, name, r, c, **k):
        return self.array([[self.real('%s_%d%d' % (name, i, j), **k) for j in range(c)]
                           for i in range(r)])

    def pos(self, name, lo=Fraction(1, 4), hi=3):
        return self.real(name, lo=0, hi=None, slo=lo, shi=hi, strict=True)

    def lower(self, name, n, unit=False):
        """lower triangular with positive diagonal"""
        L = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                L[i][j] = self.real('%s_%d%d' % (name, i, j))
            L[i][i] = self.pos('%s_%d%d' % (name, i, i))
        return self.array([[self.num(v) for v in row] for row in L])

    def gram(self, name, n):
        """positive definite matrix given by its Cholesky factor: (P, L)"""
        L = self.lower(name, n)
        return self.dot(L, L.T), L

    def dot(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = self.np.dot(r, m)
        return r

    def shape(self, x):
        return tuple(x.shape) if isinstance(x, np.ndarray) else ()

    def eqs(self, label, pairs):
        for i, (a, b) in enumerate(pairs):
            self.eq('%s[%d]' % (label, i), a, b)

    def eqv(self, label, a, b):
        """equality of the entries, shape ignored"""
        self.eq(label, self.flat(a), self.flat(b))

    def same_inputs(self, label, before):
        """before: list of (array, copy)"""
        for i, (x, c) in enumerate(before):
            self.eq('%s[%d]' % (label, i), x, c)

    def copy(self, x):
        return self.np.array(x, copy=True) if isinstance(x, np.ndarray) else x

    def lemma(self, label, cond):
        """an assertion that later assertions may use"""
        self.check(label, cond)
        self.assume(cond)

    def fp(self, name):
        return importlib.import_module('filterpy.' + name)


# ---------------------------------------------------------------------------

class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, world, ctx, shims):
        self.w = world
        self.ctx = ctx
        self.np = shims['numpy']
        self.linalg = shims['numpy.linalg']
        self.math = shims['math']
        self.stats = shims['scipy.stats']
        self.inputs = {}
        self.trace = []

    def num(self, v):
        return lift(v)

    def array(self, x):
        from . import shim
        return shim.np_array(x, dtype=float)

    def real(self, name, lo=None, hi=None, slo=None, shi=None, strict=False):
        a = slo if slo is not None else (lo if lo is not None else -2)
        b = shi if shi is not None else (hi if hi is not None else max(2, a + 4))
        v = self.w.newvar(name, lambda r: grid(r, a, b))
        if name not in self.inputs:
            self.inputs[name] = v
            if lo is not None:
                self.ctx.assume(v > lo if strict else v >= lo)
            if hi is not None:
                self.ctx.assume(v < hi if strict else v <= hi)
        return v

    def sym(self, name, n):
        """arbitrary symmetric matrix"""
        A = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                A[i][j] = A[j][i] = self.real('%s_%d%d' % (name, i, j))
        return self.array(A)

    def psd(self, name, n):
        """symmetric positive definite matrix: free entries, leading minors > 0"""
        from . import shim
        w = self.w
        names = ['%s_%d%d' % (name, i, j) for i in range(n) for j in range(i + 1)]
        if S.var(names[0]).id not in w.samples:
            r = random.Random('%s/%s' % (w.seed, name))
            vals = {k: [] for k in names}
            for _ in range(C.NS):
                L = [[float(grid(r, -1, 1)) if j < i else (float(grid(r, 0.5, 1.5)) if i == j else 0.0)
                      for j in range(n)] for i in range(n)]
                P = np.dot(np.array(L), np.array(L).T)
                for i in range(n):
                    for j in range(i + 1):
                        vals['%s_%d%d' % (name, i, j)].append(P[i, j])
            for k in names:
                w.setvar(k, vals[k])
        first = names[0] not in self.inputs
        A = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                k = '%s_%d%d' % (name, i, j)
                A[i][j] = A[j][i] = Sym(S.var(k))
                self.inputs[k] = A[i][j]
        A = self.array(A)
        if first:
            for k in range(1, n + 1):
                self.ctx.assume(shim._det_n(A[:k, :k]) > 0)
        return A

    def simplex(self, name, n, strict=True):
        """n positive (or nonnegative) weights summing to one"""
        w = self.w
        names = ['%s_%d' % (name, i) for i in range(n)]
        if S.var(names[0]).id not in w.samples:
            r = random.Random('%s/%s' % (w.seed, name))
            vals = [[] for _ in names]
            for q in range(C.NS):
                k = [r.randint(1 if strict else 0, 8) for _ in range(n)]
                if sum(k) == 0:
                    k[0] = 1
                # keep exact decimals: choose on a 64-grid
                c = sorted(r.sample(range(1, 64), n - 1)) if strict else sorted(r.randint(0, 64) for _ in range(n - 1))
                c = [0] + c + [64]
                for i in range(n):
                    vals[i].append((c[i + 1] - c[i]) / 64.0)
            for i in range(n):
                w.setvar(names[i], vals[i])
        first = n > 1 and names[0] not in self.inputs
        v = [Sym(S.var(k)) for k in names[:-1]]
        for k, x in zip(names, v):
            self.inputs[k] = x
        t = lift(1)
        for x in v:
            t = t - x
        v.append(t)      # the last weight is the rest
        if first:
            for x in v:
                self.ctx.assume(x > 0 if strict else x >= 0)
        return self.array(v)

    def randvar(self, name, kind):
        if kind == 'u':
            v = self.w.newvar(name, lambda r: grid(r, 0, 1 - 1 / 64., 64))
            if name not in self.inputs:
                self.inputs[name] = v
                self.ctx.assume(v >= 0)
                self.ctx.assume(v < 1)
            return v
        v = self.w.newvar(name, lambda r: grid(r, Fraction(1, 4), 3) if kind == 'g' else grid(r, -2, 2))
        if kind == 'g' and name not in self.inputs:
            self.ctx.assume(v > 0)
        self.inputs[name] = v
        return v

    def gamma_shapes(self):
        return getattr(self.ctx, 'gamma_shapes', [])

    def mvn_calls(self):
        return self.ctx.mvn_calls

    def drawn(self, k):
        return self.ctx.mvn_drawn[k]

    def assume(self, b):
        self.ctx.assume(b if isinstance(b, (SymBool, bool)) else bool(b))

    def flat(self, x):
        from . import shim
        return shim.arr(x).reshape(-1)

    def hint(self, *arrays):
        """reference terms: later intermediate values the solver proves equal to one of these are
        replaced by it (keeps terms small; no effect on what is claimed)"""
        from . import shim
        for a in arrays:
            for x in shim.arr(a).flat:
                if isinstance(x, Sym):
                    self.w.hint(x)

    def let(self, name, a):
        """abbreviate: entries of a become variables defined by them (proofs first treat them as arbitrary,
        which is a stronger claim)"""
        from . import shim
        if isinstance(a, Sym):
            return self.w.let('%s!' % name, a)
        a = shim.arr(a)
        r = a.copy()
        seen = {}
        for i, x in enumerate(a.flat):
            if isinstance(x, Sym):
                k = x.key()
                if k not in seen:
                    seen[k] = self.w.let('%s!%d' % (name, i), x)
                r.flat[i] = seen[k]
        return r

    # ---- obligations ----------------------------------------------------
    def eq(self, label, a, b):
        from . import shim
        if a is None or b is None:
            self.check(label, a is None and b is None, note='None mismatch')
            return
        try:
            a = shim.arr(a)
            b = shim.arr(b)
        except (S.Unsupported, TypeError, ValueError) as e:
            self.check(label, False, note='not numeric: %r' % (e,))
            return
        self.trace.append((label, a))
        if a.shape != b.shape:
            self.check(label, False, note='shape %s instead of %s' % (a.shape, b.shape))
            return
        a, b = shim.canon(a), shim.canon(b)
        seen = set()
        for i, (x, y) in enumerate(zip(a.flat, b.flat)):
            if not isinstance(x, Sym) or not isinstance(y, Sym):
                self.check('%s.%d' % (label, i), x is y or x == y, note='non-finite')
                continue
            k = (x.key(), y.key())
            if k in seen:
                continue
            seen.add(k)
            self.ctx.obligations.append(('%s.%d' % (label, i), ('eq', x, y), len(self.ctx.path),
                                         len(self.ctx.domain), ''))

    def check(self, label, cond, note=''):
        if isinstance(cond, np.bool_):
            cond = bool(cond)
        self.ctx.obligations.append((label, ('b', cond), len(self.ctx.path),
                                     len(self.ctx.domain), note))

    def le(self, label, a, b):
        self.check(label, lift(b) - a >= 0)

    def true(self, x):
        """fork on a symbolic condition inside a harness"""
        return bool(x)

    def any(self, *xs):
        return bor(*xs)

    def all(self, *xs):
        return band(*xs)

    def neg(self, x):
        return bnot(x)

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.check(label, True)
            return
        except (S.Unsupported, C.AssumeFail):
            raise
        except Exception as e:
            self.check(label, False, note='raised %r' % (e,))
            return
        self.check(label, False, note='did not raise')

    def isnum(self, x):
        return isinstance(x, (Sym, int, float)) or (isinstance(x, np.ndarray) and x.ndim == 0)


# ---------------------------------------------------------------------------

class Mismatch(object):
    def __init__(self, label, detail):
        self.label = label
        self.detail = detail

    def __repr__(self):
        return '%s: %s' % (self.label, self.detail)


class PreconditionFailed(Exception):
    pass


class ConcEnv(EnvBase):
    symbolic = False

    def __init__(self, values, seed=1, default='sample', tol=1e-6):
        import scipy.stats
        self.np = np
        self.linalg = np.linalg
        self.math = math
        self.stats = scipy.stats
        self.values = dict(values)
        self.rng = random.Random(seed)
        self.used = {}
        self.mism = []
        self.nchecks = 0
        self.tol = tol
        self.rand_n = 0
        self._mvn = []
        self._drawn = []
        self._shapes = []
        self.trace = []      # (label, value) of every checked quantity

    def num(self, v):
        return float(v)

    def array(self, x):
        return np.array(x, dtype=float)

    def _get(self, name, gen):
        if name in self.values:
            v = float(Fraction(self.values[name])) if isinstance(self.values[name], str) else float(self.values[name])
        else:
            v = float(gen())
            self.values[name] = v
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, slo=None, shi=None, strict=False):
        a = slo if slo is not None else (lo if lo is not None else -2)
        b = shi if shi is not None else (hi if hi is not None else max(2, a + 4))
        v = self._get(name, lambda: grid(self.rng, a, b))
        if lo is not None and (v < lo - 1e-12 or (strict and v <= lo)):
            raise PreconditionFailed(name)
        if hi is not None and (v > hi + 1e-12 or (strict and v >= hi)):
            raise PreconditionFailed(name)
        return v

    def sym(self, name, n):
        A = np.zeros((n, n))
        for i in range(n):
            for j in range(i + 1):
                A[i, j] = A[j, i] = self.real('%s_%d%d' % (name, i, j))
        return A

    def psd(self, name, n):
        names = ['%s_%d%d' % (name, i, j) for i in range(n) for j in range(i + 1)]
        if not all(k in self.values for k in names):
            L = np.tril(np.array([[float(grid(self.rng, -1, 1)) for j in range(n)] for i in range(n)]), -1)
            L += np.diag([float(grid(self.rng, 0.5, 1.5)) for i in range(n)])
            P = L.dot(L.T)
            for i in range(n):
                for j in range(i + 1):
                    self.values.setdefault('%s_%d%d' % (name, i, j), P[i, j])
        A = np.zeros((n, n))
        for i in range(n):
            for j in range(i + 1):
                A[i, j] = A[j, i] = self._get('%s_%d%d' % (name, i, j), None)
        if np.linalg.eigvalsh(A).min() <= 1e-12:
            raise PreconditionFailed(name)
        return A

    def simplex(self, name, n, strict=True):
        names = ['%s_%d' % (name, i) for i in range(n)]
        if not all(k in self.values for k in names[:-1]):
            c = [0] + sorted(self.rng.sample(range(1, 64), n - 1)) + [64]
            for i in range(n):
                self.values[names[i]] = (c[i + 1] - c[i]) / 64.0
        v = [self._get(k, None) for k in names[:-1]]
        v.append(1.0 - sum(v))
        if min(v) < (1e-12 if strict else -1e-12):
            raise PreconditionFailed(name)
        return np.array(v)

    def randvar(self, name, kind):
        if kind == 'u':
            v = self._get(name, lambda: grid(self.rng, 0, 1 - 1 / 64., 64))
            return min(max(v, 0.0), math.nextafter(1.0, 0.0))
        if kind == 'g':
            return self._get(name, lambda: grid(self.rng, Fraction(1, 4), 3))
        return self._get(name, lambda: grid(self.rng, -2, 2))

    def gamma_shapes(self):
        return self._shapes

    def mvn_calls(self):
        return self._mvn

    def drawn(self, k):
        return self._drawn[k]

    def assume(self, b):
        if not bool(b):
            raise PreconditionFailed('assume')

    def flat(self, x):
        return np.asarray(x, dtype=float).reshape(-1)

    def hint(self, *arrays):
        pass

    def let(self, name, a):
        return a

    def eq(self, label, a, b):
        self.nchecks += 1
        if a is None or b is None:
            if not (a is None and b is None):
                self.mism.append(Mismatch(label, 'None mismatch'))
            return
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            self.mism.append(Mismatch(label, 'not numeric: %r' % (e,)))
            return
        self.trace.append((label, a))
        if a.shape != b.shape:
            self.mism.append(Mismatch(label, 'shape %s instead of %s' % (a.shape, b.shape)))
            return
        with np.errstate(all='ignore'):
            scale = 1 + np.maximum(np.abs(a), np.abs(b))
            bad = ~(np.abs(a - b) <= self.tol * scale)
            bad &= ~((a == b) | (np.isnan(a) & np.isnan(b)))
        if bad.any():
            self.mism.append(Mismatch(label, 'got %s, expected %s' % (a.tolist(), b.tolist())))

    def check(self, label, cond, note=''):
        self.nchecks += 1
        self.trace.append((label, bool(cond)))
        if not bool(cond):
            self.mism.append(Mismatch(label, note or 'condition is false'))

    def le(self, label, a, b):
        self.nchecks += 1
        a, b = float(a), float(b)
        if not a <= b + self.tol * (1 + max(abs(a), abs(b))):
            self.mism.append(Mismatch(label, '%r <= %r is false' % (a, b)))

    def true(self, x):
        return bool(x)

    def any(self, *xs):
        return any(bool(x) for x in xs)

    def all(self, *xs):
        return all(bool(x) for x in xs)

    def neg(self, x):
        return not bool(x)

    def raises(self, label, exc, f, *a, **k):
        self.nchecks += 1
        try:
            f(*a, **k)
        except exc:
            return
        except Exception as e:
            self.mism.append(Mismatch(label, 'raised %r' % (e,)))
            return
        self.mism.append(Mismatch(label, 'did not raise'))

    def isnum(self, x):
        return np.isscalar(x) or (isinstance(x, np.ndarray) and x.ndim == 0)

    # ---- randomness -------------------------------------------------------
    def install_random(self):
        env = self

        def one(kind):
            name = 'rnd%d' % env.rand_n
            env.rand_n += 1
            return env.randvar(name, kind)

        def shaped(kind, size):
            if size is None or size == ():
                return one(kind)
            r = np.empty(size)
            f = r.reshape(-1)
            for i in range(f.size):
                f[i] = one(kind)
            return r

        def mvn(mean, cov, size=None, **k):
            mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
            sh = () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))
            env._mvn.append((mean.copy(), cov.copy(), sh))
            v = mean + shaped('n', sh + (mean.size,))
            env._drawn.append(v.copy())
            return v
        R = np.random
        R.random = R.random_sample = R.ranf = R.sample = lambda size=None: shaped('u', size)
        R.rand = lambda *s: shaped('u', s or None)
        R.randn = lambda *s: shaped('n', s or None)
        R.standard_normal = lambda size=None: shaped('n', size)
        R.normal = lambda loc=0., scale=1., size=None: loc + scale * shaped('n', size)
        R.uniform = lambda low=0., high=1., size=None: low + (high - low) * shaped('u', size)
        R.multivariate_normal = mvn

        class _Gen(object):
            pass
        g = _Gen()
        for n in ('random', 'rand', 'randn', 'standard_normal', 'normal', 'uniform', 'multivariate_normal'):
            setattr(g, n, getattr(R, n))
        R.default_rng = R.RandomState = lambda *a, **k: g
        import random as pr
        pr.random = lambda: one('u')

        def gammavariate(alpha, beta):
            name = 'gamma%d' % len(env._shapes)
            env._shapes.append(alpha)
            return beta * env.randvar(name, 'g')
        pr.gammavariate = gammavariate
        pr.gauss = pr.normalvariate = lambda mu=0., sigma=1.: mu + sigma * one('n')
        pr.uniform = lambda a, b: a + (b - a) * one('u')
