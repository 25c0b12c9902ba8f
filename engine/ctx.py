"""Path exploration and solver queries."""
import math
import random
import time
from fractions import Fraction

import numpy as np
from scipy.special import ndtr
import z3

from . import sym as S
from .sym import Sym, SymBool, Node, Unsupported, lift

NS = 96          # random sample points (used for hints only, never for verdicts)


class PathLimit(Exception):
    pass


class AssumeFail(Exception):
    """the current path contradicts a harness assumption"""


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0

    def asdict(self):
        return dict(self.__dict__)


class World(object):
    """state shared by all paths of one harness run"""

    def __init__(self, seed=1):
        S.reset()
        self.seed = seed
        self.rng = random.Random(seed)
        self.samples = {}     # var node id -> np.array(NS)
        self.zc = {}
        self.axioms = {}      # var node id -> list of SymBool
        self.fmemo = {}
        self.stats = Stats()
        self.base = {}        # var node id -> name (base input variables)
        self.qcache = {}
        self.deps = {}
        self.app_by = {}      # fname -> list of (args, node)
        self.groups = {}      # var node id -> group name
        self.hints = []       # reference terms for solver-proved simplification
        self.hintm = None
        self.hintk = set()
        self.canonmemo = {}
        self.lets = set()
        self.letdef = {}      # let variable id -> (order, definition)
        self.pmemo = {}
        self.hintout = []

    # ---- variables ----------------------------------------------------
    def newvar(self, name, sampler):
        n = S.var(name)
        if n.id not in self.samples:
            self.base[n.id] = name
            r = random.Random('%s/%s' % (self.seed, name))
            self.samples[n.id] = np.array([float(sampler(r)) for _ in range(NS)])
        return Sym(n)

    def setvar(self, name, values):
        n = S.var(name)
        if n.id not in self.samples:
            self.base[n.id] = name
            self.samples[n.id] = np.asarray(values, dtype=float)
        return Sym(n)

    # ---- float evaluation at sample points ---------------------------------
    def feval_node(self, n):
        r = self.fmemo.get(n.id)
        if r is not None:
            return r
        op = n.op
        with np.errstate(all='ignore'):
            if op == 'c':
                r = np.full(NS, float(n.args))
            elif op == 'v':
                r = self.samples.get(n.id)
                if r is None:
                    r = self._fdep(n)
            elif op == 's':
                r = np.full(NS, float(n.args[0]))
                for t, c in n.args[1]:
                    r = r + float(c) * self.feval_node(t)
            else:
                r = np.ones(NS)
                for f, e in n.args:
                    r = r * self.feval_node(f) ** e
        self.fmemo[n.id] = r
        return r

    def _fdep(self, n):
        if n.id in S._ALG:
            return np.sqrt(self.feval(S._ALG[n.id]))
        if n.id in S._APP:
            f, args = S._APP[n.id]
            a = [self.feval(x) for x in args]
            return FN[f](*a)
        raise KeyError(n.args)

    def feval(self, s):
        with np.errstate(all='ignore'):
            r = self.feval_node(s.n)
            for f, e in s.d:
                r = r / self.feval_node(f) ** e
        return r

    def fbool(self, b):
        """-> (truth array, reliable array)"""
        if b is True or b is False:
            return np.full(NS, b), np.full(NS, True)
        if b.op == 'and':
            t, r = np.full(NS, True), np.full(NS, True)
            for x in b.a:
                tx, rx = self.fbool(x)
                t &= tx
                r &= rx
            return t, r
        if b.op == 'or':
            t, r = np.full(NS, False), np.full(NS, True)
            for x in b.a:
                tx, rx = self.fbool(x)
                t |= tx
                r &= rx
            return t, r
        if b.op == 'not':
            t, r = self.fbool(b.a)
            return ~t, r
        v = self.feval(b.a)
        ok = np.isfinite(v)
        with np.errstate(all='ignore'):
            near = np.abs(v) < 1e-9
            t = {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0,
                 '==': near, '!=': ~near}[b.op]
        return t & ok, ok & ~near

    # ---- solver-proved canonical terms ---------------------------------------
    def hint(self, x, out=None):
        if x.isconst or x.key() in self.hintk:
            return
        if out is None:
            self.hintk.add(x.key())
        self.hints.append(x)
        self.hintout.append(x if out is None else out)
        v = self.feval(x)[None, :]
        self.hintm = v if self.hintm is None else np.vstack([self.hintm, v])

    def canon(self, x):
        k = x.key()
        if k in self.hintk:
            return x
        r = self.canonmemo.get(k)
        if r is not None and r[0] == len(self.hints):
            return r[1]
        out = x
        if not (x.n.op == 'v' and not x.d):
            v = self.feval(x)
            with np.errstate(all='ignore'):
                d = np.abs(self.hintm - v) <= 1e-8 * (1 + np.abs(v))
            ok = np.isfinite(v)
            if ok.any():
                for i in np.nonzero((d | ~ok).all(axis=1))[0]:
                    if self.identical(x, self.hints[i], 10000):
                        out = self.hintout[i]
                        break
        self.canonmemo[k] = (len(self.hints), out)
        return out

    def let(self, name, x):
        """a variable standing for x: proofs treat it as arbitrary first, its definition is an axiom"""
        if x.isconst or (x.n.op == 'v' and not x.d):
            return x
        n = S.var(name)
        if n.id not in self.samples:
            self.samples[n.id] = self.feval(x)
            self.axioms[n.id] = [SymBool('==', Sym(n) - x)]
            self.lets.add(n.id)
            self.letdef[n.id] = (len(self.letdef), x)
            self.hint(x, Sym(n))
        return Sym(n)

    def peval_node(self, n):
        """evaluation with every let variable set to unrelated values"""
        r = self.pmemo.get(n.id)
        if r is not None:
            return r
        op = n.op
        with np.errstate(all='ignore'):
            if op == 'c':
                r = np.full(NS, float(n.args))
            elif op == 'v':
                if n.id in self.letdef:
                    r = np.random.RandomState(self.letdef[n.id][0] + 1).uniform(0.3, 2.5, NS)
                else:
                    r = self.samples.get(n.id)
                    if r is None and n.id in S._ALG:
                        r = np.sqrt(self.peval(S._ALG[n.id]))
                    elif r is None:
                        f, args = S._APP[n.id]
                        r = FN[f](*[self.peval(x) for x in args])
            elif op == 's':
                r = np.full(NS, float(n.args[0]))
                for t, c in n.args[1]:
                    r = r + float(c) * self.peval_node(t)
            else:
                r = np.ones(NS)
                for f, e in n.args:
                    r = r * self.peval_node(f) ** e
        self.pmemo[n.id] = r
        return r

    def peval(self, s):
        with np.errstate(all='ignore'):
            r = self.peval_node(s.n)
            for f, e in s.d:
                r = r / self.peval_node(f) ** e
        return r

    def subst(self, s, vid, val):
        memo = {}

        def go(n):
            if vid not in self.nvars(n):
                return Sym(n)
            r = memo.get(n.id)
            if r is not None:
                return r
            if n.op == 'v':
                r = val
            elif n.op == 's':
                r = lift(n.args[0])
                for t, c in n.args[1]:
                    r = r + go(t) * c
            else:
                r = lift(1)
                for f, e in n.args:
                    r = r * go(f) ** e
            memo[n.id] = r
            return r
        r = go(s.n)
        for f, e in s.d:
            r = r / go(f) ** e
        return r

    def unfold_zero(self, d, timeout_ms):
        """prove d == 0 by replacing let variables by their definitions, newest first, until the rest can
        be treated as arbitrary"""
        for _ in range(len(self.letdef) + 1):
            if d.isconst:
                return d.value() == 0
            v = self.peval_node(d.n)
            with np.errstate(all='ignore'):
                scale = 1 + self._pabs(d.n)
                bad = np.isfinite(v) & (np.abs(v) > 1e-9 * scale)
            if not bad.any():
                ax, _ = self.close_axioms(self.svars(d), False)
                r, _ = self.solve_nra([self.zn(d.n) != 0] + [self.zb(x) for x in ax], timeout_ms)
                if r == 'unsat':
                    return True
            ls = [x for x in self.svars(d) if x in self.letdef]
            if not ls:
                return False
            n = max(ls, key=lambda x: self.letdef[x][0])
            d = self.subst(d, n, self.letdef[n][1])
        return False

    def _pabs(self, n):
        if n.op == 's':
            r = np.full(NS, abs(float(n.args[0])))
            for t, c in n.args[1]:
                r = r + abs(float(c)) * np.abs(self.peval_node(t))
            return r
        if n.op == 'p':
            r = np.ones(NS)
            for f, e in n.args:
                r = r * (self._pabs(f) if f.op == 's' else np.abs(self.peval_node(f))) ** e
            return r
        return np.abs(self.peval_node(n))

    # ---- z3 conversion ----------------------------------------------------------
    def zn(self, n):
        z = n.z
        if z is not None:
            return z
        op = n.op
        if op == 'c':
            z = z3.RealVal(str(n.args))
        elif op == 'v':
            z = z3.Real(n.args)
        elif op == 's':
            parts = []
            for t, c in n.args[1]:
                zt = self.zn(t)
                parts.append(zt if c == 1 else z3.RealVal(str(c)) * zt)
            if n.args[0]:
                parts.append(z3.RealVal(str(n.args[0])))
            z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        else:
            parts = []
            for f, e in n.args:
                zf = self.zn(f)
                parts.extend([zf] * e)
            z = parts[0] if len(parts) == 1 else z3.Product(parts)
        n.z = z
        return z

    def zb(self, b):
        if b is True or b is False:
            return z3.BoolVal(b)
        if b.op == 'and':
            return z3.And([self.zb(x) for x in b.a])
        if b.op == 'or':
            return z3.Or([self.zb(x) for x in b.a])
        if b.op == 'not':
            return z3.Not(self.zb(b.a))
        s = b.a
        if b.op in ('==', '!='):
            z = self.zn(s.n) == 0
            return z if b.op == '==' else z3.Not(z)
        n = s.n
        for f, e in s.d:
            if e % 2:
                n = S.nmul(n, f)
        z = self.zn(n)
        return {'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[b.op]

    # ---- variable cones ------------------------------------------------------------
    def nvars(self, n):
        r = self.deps.get(n.id)
        if r is not None:
            return r
        if n.op == 'c':
            r = frozenset()
        elif n.op == 'v':
            r = frozenset((n.id,))
        elif n.op == 's':
            r = frozenset().union(*[self.nvars(t) for t, _ in n.args[1]])
        else:
            r = frozenset().union(*[self.nvars(t) for t, _ in n.args])
        self.deps[n.id] = r
        return r

    def svars(self, s):
        r = self.nvars(s.n)
        for f, _ in s.d:
            r = r | self.nvars(f)
        return r

    def bvars(self, b):
        if b is True or b is False:
            return frozenset()
        if b.op in ('and', 'or'):
            return frozenset().union(*[self.bvars(x) for x in b.a])
        if b.op == 'not':
            return self.bvars(b.a)
        return self.svars(b.a)

    def close_axioms(self, vs, lets=True):
        """defining axioms of dependent variables reachable from vs"""
        out = []
        seen = set()
        todo = list(vs)
        allv = set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            allv.add(v)
            if not lets and v in self.lets:
                continue
            for ax in self.axioms.get(v, ()):
                out.append(ax)
                todo.extend(self.bvars(ax) - seen)
        return out, allv

    # ---- solver ------------------------------------------------------------------
    def solve(self, zs, timeout_ms, want_model=False):
        st = self.stats
        st.queries += 1
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout_ms))
        s.add(*zs)
        r = s.check()
        st.solver_s += time.time() - t0
        r = str(r)
        setattr(st, r, getattr(st, r) + 1)
        if r == 'sat' and want_model:
            return r, s.model()
        return r, None

    def solve_nra(self, zs, timeout_ms, want_model=False):
        st = self.stats
        st.queries += 1
        t0 = time.time()
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', int(timeout_ms))
        s.add(*zs)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        st.solver_s += time.time() - t0
        setattr(st, r, getattr(st, r) + 1)
        if r == 'sat' and want_model:
            return r, s.model()
        return r, None

    def identical(self, a, b, timeout_ms=5000):
        """solver-proved identity of two Syms (no domain assumptions)"""
        d = a - b
        if d.isconst:
            return d.value() == 0
        v = self.feval(d)
        av = self.feval(a)
        with np.errstate(all='ignore'):
            bad = np.isfinite(v) & (np.abs(v) > 1e-7 * (1 + np.abs(av)))
        if bad.any():
            return False
        return self.zero(d, timeout_ms)

    def zero(self, d, timeout_ms):
        vs = self.svars(d)
        ax, av = self.close_axioms(vs, False)
        alg = any(v in S._ALG for v in av)
        if av & self.lets and self.unfold_zero(d, min(timeout_ms, 3000)):
            return True
        zax = [self.zb(x) for x in ax]
        r, _ = self.solve_nra([self.zn(d.n) != 0] + zax, min(timeout_ms, 2000) if alg else timeout_ms)
        if r == 'unknown' and alg:
            # same query with squares of radicals rewritten by their definition
            try:
                n = S.poly_node(S.poly_reduce(dict(S.poly(d.n, limit=6000)), 12000))
                r, _ = self.solve_nra([self.zn(n) != 0] + zax, timeout_ms)
            except S.TooBig:
                r, _ = self.solve_nra([self.zn(d.n) != 0] + zax, timeout_ms)
        if r != 'unsat' and av & self.lets:
            ax, _ = self.close_axioms(vs)
            r, _ = self.solve_nra([self.zn(d.n) != 0] + [self.zb(x) for x in ax], timeout_ms)
        return r == 'unsat'


def _floor_eval(x):
    return np.floor(x)


FN = {
    'exp': np.exp, 'log': np.log, 'sin': np.sin, 'cos': np.cos,
    'pow': np.power, 'arctan2': np.arctan2, 'arctan': np.arctan, 'normcdf': ndtr,
}


class Ctx(object):
    """one symbolic execution path"""

    def __init__(self, world, prefix, opts):
        self.w = world
        self.prefix = prefix
        self.trace = []          # list of bool decisions that were real forks
        self.pending = []        # alternatives discovered: list of prefixes
        self.path = []           # list of SymBool (as taken)
        self.domain = []         # harness assumptions
        self.defined = []        # nodes assumed nonzero
        self._defset = set()
        self.mask = np.full(NS, True)
        self.obligations = []
        self.opts = opts
        self.rand_n = 0
        self.known = {}

    # ---- assumptions ------------------------------------------------------------
    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise AssumeFail()
        self.domain.append(b)
        t, r = self.w.fbool(b)
        self.mask &= (t | ~r) if b.op in ('==',) else t

    def nonzero(self, f):
        if f.id in self._defset:
            return
        self._defset.add(f.id)
        self.defined.append(SymBool('!=', Sym(f)))

    def algvar(self, node, sq):
        self.w.axioms.setdefault(node.id, [])
        if not self.w.axioms[node.id]:
            self.w.axioms[node.id] = [SymBool('==', lift_alg(node) - sq),
                                      SymBool('>=', Sym(node))]

    # ---- forks ---------------------------------------------------------------------
    def constraints(self, goal_vars=None, npath=None):
        cs = list(self.domain) + (self.path if npath is None else self.path[:npath]) + self.defined
        if goal_vars is not None:
            # relevance closure
            w = self.w
            rel = set(goal_vars)
            ax, allv = w.close_axioms(rel)
            rel = set(allv)
            vs = [w.close_axioms(w.bvars(c))[1] for c in cs]
            pick = [False] * len(cs)
            changed = True
            while changed:
                changed = False
                for i, v in enumerate(vs):
                    if not pick[i] and (v & rel):
                        pick[i] = True
                        if not v <= rel:
                            rel |= v
                            changed = True
            cs = [c for c, p in zip(cs, pick) if p]
        allv = set(goal_vars or ())
        for c in cs:
            allv |= self.w.bvars(c)
        ax, allv = self.w.close_axioms(allv)
        return cs + ax, allv

    def feasible(self, b):
        cs, _ = self.constraints(self.w.bvars(b))
        key = ('f', self._key(b), tuple(sorted(self._key(c) for c in cs)))
        r = self.w.qcache.get(key)
        if r is None:
            zs = [self.w.zb(c) for c in cs] + [self.w.zb(b)]
            r, _ = self.w.solve(zs, self.opts.get('branch_ms', 3000))
            if r == 'unknown':
                r, _ = self.w.solve_nra(zs, self.opts.get('branch_ms', 3000))
            self.w.qcache[key] = r
        return r != 'unsat'

    def _key(self, b):
        if b is True or b is False:
            return str(b)
        if b.op in ('and', 'or'):
            return '%s(%s)' % (b.op, ','.join(self._key(x) for x in b.a))
        if b.op == 'not':
            return 'not(%s)' % self._key(b.a)
        return '%s%s' % (b.op, b.a.key())

    def branch(self, b):
        if b is True or b is False:
            return b
        k = self._key(b)
        if k in self.known:
            return self.known[k]
        i = len(self.trace)
        t, rel = self.w.fbool(b)
        if i < len(self.prefix):
            take = self.prefix[i]
            self._take(b, k, take, t, rel)
            self.trace.append(take)
            return take
        self.w.stats.branches += 1
        m = self.mask & rel
        can_t = bool((m & t).any())
        can_f = bool((m & ~t).any())
        nb = SymBool('not', b)
        if not can_t:
            can_t = self.feasible(b)
        if not can_f:
            can_f = self.feasible(nb)
        if can_t and can_f:
            take = True
            self.pending.append(self.trace + [False])
        elif can_t or can_f:
            # forced: not a decision, but must stay aligned on replay
            take = can_t
        else:
            raise AssumeFail()
        self._take(b, k, take, t, rel)
        self.trace.append(take)
        return take

    def _take(self, b, k, take, t, rel):
        self.known[k] = take
        nb = SymBool('not', b)
        self.known[self._key(nb)] = not take
        self.path.append(b if take else nb)
        self.mask &= (t if take else ~t) | (~rel if b.op in ('==', '!=') else False)

    # ---- functions ---------------------------------------------------------------------
    def sqrt(self, s):
        w = self.w
        # rational perfect square?
        half = {}
        n = s.n
        for f, e in s.d:
            if e % 2:
                n = S.nmul(n, f)
                e += 1
            half[f] = e // 2
        root = None
        try:
            c, m = S._mono(n)
            hm = {}
            rest = {}
            for f, e in m.items():
                if e // 2:
                    hm[f] = e // 2
                if e % 2:
                    rest[f] = 1
            k = c.numerator * c.denominator
            restn = S._mkprod(rest)
            rr = math.isqrt(k) if k > 0 else -1
            if k > 0 and not rest and rr * rr == k:
                root = S.nscale(S._mkprod(hm), Fraction(rr, c.denominator))
            else:
                p = S.poly(S.nscale(restn, c))
                q = S.poly_sqrt(p)
                if q is not None:
                    qn = S.poly_node(q)
                    if w.identical(Sym(S.nmul(qn, qn)), Sym(S.nscale(restn, c))):
                        root = S.nmul(qn, S._mkprod(hm))
        except S.TooBig:
            pass
        d = tuple(sorted(half.items(), key=lambda kv: kv[0].id))
        if root is not None:
            nn, dd = S._norm(root, d)
            r = Sym(nn, dd)
            if r.isconst:
                return lift(abs(r.value()))
            if self.branch(SymBool('>=', r)):
                return r
            return -r
        # constant times: pull even factors is not attempted
        for node, v in list(w.__dict__.setdefault('algs', [])):
            if w.identical(v, s):
                return Sym(node)
        node = S.var('sqrt!%s' % '_'.join(map(str, flat(s.key()))))
        if node.id not in S._ALG:
            S._ALG[node.id] = s
            w.algs.append((node, s))
            w.axioms[node.id] = [SymBool('==', RawSq(node) - s), SymBool('>=', Sym(node))]
        self.assume_soft(SymBool('>=', s))
        return Sym(node)

    def assume_soft(self, b):
        """domain-of-definition assumption introduced by an operation"""
        if isinstance(b, SymBool):
            if self._key(b) not in self.known:
                self.defined.append(b)

    def app(self, fname, args, axioms=()):
        w = self.w
        args = tuple(lift(a) for a in args)
        lst = w.app_by.setdefault(fname, [])
        keys = tuple(a.key() for a in args)
        for ka, aa, node in lst:
            if ka == keys:
                return Sym(node)
        for ka, aa, node in lst:
            if len(aa) == len(args) and all(w.identical(x, y) for x, y in zip(aa, args)):
                lst.append((keys, args, node))
                return Sym(node)
        node = S.var('%s!%d' % (fname, len(lst)))
        S._APP[node.id] = (fname, args)
        lst.append((keys, args, node))
        return Sym(node)

    def exp(self, s):
        if s.isconst and s.value() == 0:
            return lift(1)
        if s.n.op == 'v' and not s.d and s.n.id in S._APP and S._APP[s.n.id][0] == 'log':
            return S._APP[s.n.id][1][0]
        e = self.app('exp', (s,))
        if e.n.id not in self.w.axioms:
            if self.opts.get('underflow'):
                # double precision: exp(-745.14) is zero
                ax = [e >= 0, S.bor(s < -745, SymBool('>', e)), S.bor(s > -746, SymBool('==', e))]
            else:
                ax = [SymBool('>', e)]
            ax.append(S.bor(s < 0, e >= 1 + s))
            ax.append(S.bor(s > 0, S.band(e <= 1, e >= 1 + s)))
            self.w.axioms[e.n.id] = [a for a in ax if isinstance(a, SymBool)]
        return e

    def log(self, s):
        if s.isconst:
            if s.value() == 1:
                return lift(0)
            if s.value() <= 0:
                raise ValueError('math domain error')
        if s.n.op == 'v' and not s.d and s.n.id in S._APP and S._APP[s.n.id][0] == 'exp':
            return S._APP[s.n.id][1][0]
        l = self.app('log', (s,))
        if l.n.id not in self.w.axioms:
            ax = [l <= s - 1, S.bor(s < 1, l >= 0), S.bor(s > 1, l <= 0)]
            self.w.axioms[l.n.id] = [a for a in ax if isinstance(a, SymBool)]
        self.assume_soft(s > 0)
        return l

    def sincos(self, s):
        if s.isconst and s.value() == 0:
            return lift(0), lift(1)
        if s.n.op == 'v' and not s.d and s.n.id in S._APP and S._APP[s.n.id][0] == 'arctan2':
            y, x = S._APP[s.n.id][1]
            r = (x * x + y * y).sqrt()
            return y / r, x / r
        sn = self.app('sin', (s,))
        cs = self.app('cos', (s,))
        for v in (sn, cs):
            if v.n.id not in self.w.axioms:
                self.w.axioms[v.n.id] = [SymBool('==', sn * sn + cs * cs - 1)]
        return sn, cs

    def floor(self, s):
        if self.branch(SymBool('>=', s)):
            for k in range(0, 64):
                if bool(s < k + 1):
                    return lift(k)
        else:
            for k in range(-1, -64, -1):
                if bool(s >= k):
                    return lift(k)
        raise Unsupported('floor out of range')

    def toint(self, s):
        if self.branch(SymBool('>=', s)):
            return int(self.floor(s))
        return -int(self.floor(-s))


def flat(t):
    out = []
    for x in t:
        if isinstance(x, tuple):
            out.extend(flat(x))
        else:
            out.append(x)
    return out


class RawSq(object):
    """node*node without the algebraic reduction"""

    def __init__(self, node):
        self.n = S.nmul(node, node)

    def __sub__(self, s):
        # build without _reduce_alg
        den = S._denprod(s.d)
        return Sym(S.nadd(S.nmul(self.n, den), S.nneg(s.n)))


def lift_alg(node):
    return RawSq(node)
