"""Symbolic scalars for executing filterpy's real source.

A Sym is a rational function num/den over real variables.  Numerators and
denominator factors are nodes of a hash-consed DAG that only folds constants,
flattens sums/products and cancels syntactically equal factors; deciding
whether two values are equal is left to the SMT solver.
"""
import math
from fractions import Fraction
import sys

sys.setrecursionlimit(100000)

ZERO = Fraction(0)
ONE = Fraction(1)
_MAXSUM = 64


class Unsupported(Exception):
    """the encoding does not cover an operation the code performed"""


class Node(object):
    __slots__ = ('op', 'args', 'id', 'z')

    def __init__(self, op, args, id_):
        self.op = op
        self.args = args
        self.id = id_
        self.z = None

    def __repr__(self):
        return 'N%d%s' % (self.id, self.op)


_table = {}
_nodes = []


def _mk(op, args, key):
    k = (op, key)
    n = _table.get(k)
    if n is None:
        n = Node(op, args, len(_nodes))
        _nodes.append(n)
        _table[k] = n
    return n


def reset():
    _table.clear()
    del _nodes[:]
    global N0, N1
    N0 = const(ZERO)
    N1 = const(ONE)
    _ALG.clear()
    _APP.clear()
    _SQRT.clear()


def const(c):
    return _mk('c', c, c)


def var(name):
    return _mk('v', name, name)


_ALG = {}    # var node id -> Sym v, meaning node**2 == v, node >= 0
_APP = {}    # var node id -> (fname, tuple of Sym args)
_SQRT = {}   # Sym key -> Sym root

N0 = const(ZERO)
N1 = const(ONE)


def _mksum(c0, terms):
    """terms: dict node->coef"""
    if not terms:
        return const(c0)
    if c0 == 0 and len(terms) == 1:
        (t, c), = terms.items()
        if c == 1:
            return t
    items = sorted(terms.items(), key=lambda kv: kv[0].id)
    key = (c0,) + tuple((t.id, c) for t, c in items)
    return _mk('s', (c0, tuple(items)), key)


def _lin(n):
    if n.op == 's':
        return n.args[0], dict(n.args[1])
    if n.op == 'c':
        return n.args, {}
    return ZERO, {n: ONE}


def nadd(a, b):
    if a is N0:
        return b
    if b is N0:
        return a
    if a.op == 's' and len(a.args[1]) > _MAXSUM:
        ca, la = ZERO, {a: ONE}
    else:
        ca, la = _lin(a)
    if b.op == 's' and len(b.args[1]) > _MAXSUM:
        cb, lb = ZERO, {b: ONE}
    else:
        cb, lb = _lin(b)
    if len(la) < len(lb):
        la, lb = lb, la
    for t, c in lb.items():
        k = la.get(t)
        if k is None:
            la[t] = c
        else:
            k += c
            if k == 0:
                del la[t]
            else:
                la[t] = k
    return _mksum(ca + cb, la)


def nscale(n, c):
    if c == 1:
        return n
    if c == 0:
        return N0
    if n.op == 'c':
        return const(n.args * c)
    if n.op == 's':
        return _mksum(n.args[0] * c, {t: k * c for t, k in n.args[1]})
    return _mksum(ZERO, {n: c})


def nneg(n):
    return nscale(n, Fraction(-1))


def _mono(n):
    """coef, {factor: exp}; a sum factor is made monic"""
    if n.op == 'c':
        return n.args, {}
    if n.op == 'p':
        return ONE, dict(n.args)
    if n.op == 's':
        c0, items = n.args
        if c0 == 0 and len(items) == 1:
            t, c = items[0]
            cc, m = _mono(t)
            return c * cc, m
        lead = items[0][1]
        if lead != 1:
            return lead, {nscale(n, 1 / lead): 1}
    return ONE, {n: 1}


def _mkprod(m):
    if not m:
        return N1
    if len(m) == 1:
        (f, e), = m.items()
        if e == 1:
            return f
    items = tuple(sorted(m.items(), key=lambda kv: kv[0].id))
    return _mk('p', items, tuple((f.id, e) for f, e in items))


def nmul(a, b):
    if a is N0 or b is N0:
        return N0
    if a is N1:
        return b
    if b is N1:
        return a
    if a.op == 'c':
        return nscale(b, a.args)
    if b.op == 'c':
        return nscale(a, b.args)
    ca, ma = _mono(a)
    cb, mb = _mono(b)
    for f, e in mb.items():
        ma[f] = ma.get(f, 0) + e
    return nscale(_mkprod(ma), ca * cb)


def npow(a, k):
    r = N1
    for _ in range(k):
        r = nmul(r, a)
    return r


def rationalise(x):
    """simplest rational within 4 ulp of the float x"""
    f = Fraction(x)
    if f.denominator == 1:
        return f
    u = Fraction(math.ulp(x)) * 4
    lo, hi = f - u, f + u
    if lo <= 0 <= hi:
        return f
    neg = f < 0
    if neg:
        lo, hi = -hi, -lo
    # Stern-Brocot: simplest fraction in [lo, hi]
    r = _simplest(lo, hi)
    if r.denominator > 10 ** 7:
        r = abs(f)
    return -r if neg else r


def _simplest(lo, hi):
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    return fl + 1 / _simplest(1 / (hi - fl), 1 / (lo - fl))


_np = None


def lift(x):
    """python/numpy number -> Sym (nonfinite floats are returned unchanged)"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return Sym(const(Fraction(int(x))))
    if isinstance(x, (int, Fraction)):
        return Sym(const(Fraction(x)))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return x
        return Sym(const(rationalise(float(x))))
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        v = x.item()
        return lift(v)
    raise Unsupported('cannot lift %r' % (type(x),))


def _numlike(x):
    if isinstance(x, (Sym, int, float, Fraction)):
        return True
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        return x.dtype.kind in 'iufbO'
    return False


CTX = None      # current execution context (set by backend)


def _denprod(d):
    r = N1
    for f, e in d:
        for _ in range(e):
            r = nmul(r, f)
    return r


def _norm(n, d):
    """cancel syntactically equal factors; reduce squares of algebraic vars"""
    if n.op == 'c' and n.args == 0:
        return N0, ()
    if n.op in ('p', 'v') or n.op == 's':
        c, m = _mono(n)
        changed = False
        if d:
            dd = dict(d)
            for f in list(m):
                if f in dd:
                    k = min(m[f], dd[f])
                    m[f] -= k
                    dd[f] -= k
                    if not m[f]:
                        del m[f]
                    if not dd[f]:
                        del dd[f]
                    changed = True
            if changed:
                d = tuple(sorted(dd.items(), key=lambda kv: kv[0].id))
        if changed:
            n = nscale(_mkprod(m), c)
    return n, d


class Sym(object):
    __slots__ = ('n', 'd')
    __array_priority__ = -100.0

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # -- plumbing ---------------------------------------------------------
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def key(self):
        return (self.n.id,) + tuple((f.id, e) for f, e in self.d)

    __hash__ = None

    @property
    def isconst(self):
        return self.n.op == 'c' and not self.d

    def value(self):
        return self.n.args

    def __repr__(self):
        if self.isconst:
            return 'S(%s)' % self.n.args
        return 'S<%d/%s>' % (self.n.id, ','.join('%d^%d' % (f.id, e) for f, e in self.d))

    # numpy-scalar lookalikes
    dtype = property(lambda self: _np.dtype(object))
    shape = property(lambda self: ())
    ndim = property(lambda self: 0)
    size = property(lambda self: 1)
    real = property(lambda self: self)
    imag = property(lambda self: lift(0))
    T = property(lambda self: self)

    def item(self):
        return self

    def conjugate(self):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    # -- arithmetic -------------------------------------------------------
    def _bin(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, (int, float, Fraction)):
            return lift(o)
        if hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0 and not isinstance(o, Sym):
            return lift(o)
        return None

    def __add__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        if not isinstance(b, Sym):
            return b
        return sadd(self, b)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return Sym(nneg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        if not isinstance(b, Sym):
            return -b
        return sadd(self, Sym(nneg(b.n), b.d))

    def __rsub__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        if not isinstance(b, Sym):
            return b
        return sadd(b, Sym(nneg(self.n), self.d))

    def __mul__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        if not isinstance(b, Sym):
            raise Unsupported('non-finite arithmetic')
        return smul(self, b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        if not isinstance(b, Sym):
            if b != b:
                return b
            return lift(0)
        return sdiv(self, b)

    def __rtruediv__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        if not isinstance(b, Sym):
            raise Unsupported('non-finite arithmetic')
        return sdiv(b, self)

    def __floordiv__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        return (self / b).floor()

    def __rfloordiv__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        return (b / self).floor()

    def __mod__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        return self - b * ((self / b).floor())

    def __rmod__(self, o):
        b = self._bin(o)
        if b is None:
            return NotImplemented
        return b % self

    def __pow__(self, k, mod=None):
        if isinstance(k, Sym):
            if not k.isconst:
                return CTX.app('pow', (self, k))
            k = k.value()
        elif hasattr(k, 'item'):
            k = k.item()
        k = Fraction(rationalise(k) if isinstance(k, float) else k)
        if k.denominator == 2:
            return (self ** k.numerator).sqrt()
        if k.denominator != 1:
            return CTX.app('pow', (self, lift(k)))
        k = int(k)
        if k < 0:
            return sdiv(lift(1), self ** (-k))
        r = lift(1)
        for _ in range(k):
            r = smul(r, self)
        return r

    def __rpow__(self, b):
        b = lift(b)
        return b ** self

    # -- functions used by numpy object ufuncs ------------------------------
    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return CTX.exp(self)

    def log(self):
        return CTX.log(self)

    def sin(self):
        return CTX.sincos(self)[0]

    def cos(self):
        return CTX.sincos(self)[1]

    def tan(self):
        s, c = CTX.sincos(self)
        return s / c

    def square(self):
        return self * self

    def floor(self):
        if self.isconst:
            return lift(math.floor(self.value()))
        return CTX.floor(self)

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        if self.isconst:
            return lift(round(self.value()))
        raise Unsupported('rint of a symbolic value')

    def __floor__(self):
        r = self.floor()
        return int(r) if r.isconst else r

    def __ceil__(self):
        r = self.ceil()
        return int(r) if r.isconst else r

    def __trunc__(self):
        return int(self)

    def __round__(self, n=None):
        if self.isconst:
            return lift(round(self.value(), n)) if n is not None else round(self.value())
        raise Unsupported('round of a symbolic value')

    def __abs__(self):
        if self.isconst:
            return lift(abs(self.value()))
        if CTX.branch(SymBool('>=', self)):
            return self
        return -self

    fabs = absolute = __abs__

    def __float__(self):
        if self.isconst:
            return float(self.value())
        raise Unsupported('float() of a symbolic value reached native code')

    def __int__(self):
        if self.isconst:
            return int(self.value())
        return CTX.toint(self)

    def __complex__(self):
        return complex(float(self))

    def __bool__(self):
        if self.isconst:
            return self.value() != 0
        return CTX.branch(SymBool('!=', self))

    # -- comparisons --------------------------------------------------------
    def _cmp(self, o, op):
        if o is None:
            return NotImplemented
        b = self._bin(o)
        if b is None:
            return NotImplemented
        if not isinstance(b, Sym):
            if b != b:
                return op == '!='
            return {'<': b > 0, '<=': b > 0, '>': b < 0, '>=': b < 0, '==': False, '!=': True}[op]
        df = self - b
        if df.isconst:
            v = df.value()
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0,
                    '==': v == 0, '!=': v != 0}[op]
        return SymBool(op, df)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented and o is None else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented and o is None else r


def sadd(a, b):
    if a.n is N0:
        return b
    if b.n is N0:
        return a
    if a.d == b.d:
        n, d = _norm(nadd(a.n, b.n), a.d)
        return Sym(n, d)
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for f, e in db.items():
        if l.get(f, 0) < e:
            l[f] = e
    fa = N1
    fb = N1
    for f, e in l.items():
        k = e - da.get(f, 0)
        if k:
            fa = nmul(fa, npow(f, k))
        k = e - db.get(f, 0)
        if k:
            fb = nmul(fb, npow(f, k))
    n = nadd(nmul(a.n, fa), nmul(b.n, fb))
    n, d = _norm(n, tuple(sorted(l.items(), key=lambda kv: kv[0].id)))
    return Sym(n, d)


def _reduce_alg(s):
    """replace even powers of algebraic variables in a monomial"""
    if s.n.op not in ('p', 's'):
        return s
    c, m = _mono(s.n)
    for f in m:
        if f.op == 'v' and m[f] >= 2 and f.id in _ALG:
            k = m[f] // 2
            rest = dict(m)
            rest[f] -= 2 * k
            if not rest[f]:
                del rest[f]
            r = Sym(nscale(_mkprod(rest), c), s.d)
            return smul(r, _ALG[f.id] ** k)
    return s


def smul(a, b):
    if a.n is N0 or b.n is N0:
        return Sym(N0)
    n = nmul(a.n, b.n)
    if a.d or b.d:
        if not b.d:
            d = a.d
        elif not a.d:
            d = b.d
        else:
            dd = dict(a.d)
            for f, e in b.d:
                dd[f] = dd.get(f, 0) + e
            d = tuple(sorted(dd.items(), key=lambda kv: kv[0].id))
        n, d = _norm(n, d)
    else:
        d = ()
    r = Sym(n, d)
    if _ALG:
        r = _reduce_alg(r)
    return r


def sdiv(a, b):
    if b.n is N0:
        raise ZeroDivisionError('symbolic division by zero')
    if b.isconst:
        return Sym(nscale(a.n, 1 / b.value()), a.d)
    c, m = _mono(b.n)
    if CTX is not None:
        for f in m:
            CTX.nonzero(f)
    # 1/b = prod(b.d) / (c*m)
    inv = {}
    for f, e in m.items():
        if f.op == 'v' and f.id in _ALG and e >= 1:
            pass
        inv[f] = e
    n = nscale(_denprod(b.d), 1 / c)
    d = tuple(sorted(inv.items(), key=lambda kv: kv[0].id))
    n, d = _norm(n, d)
    return smul(a, Sym(n, d))


class SymBool(object):
    """op in < <= > >= == != applied to (diff, 0), or and/or/not"""
    __slots__ = ('op', 'a')

    def __init__(self, op, a):
        self.op = op
        self.a = a

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        if o is True or o is False:
            return self if o else False
        return SymBool('and', (self, o))

    __rand__ = __and__

    def __or__(self, o):
        if o is True or o is False:
            return True if o else self
        return SymBool('or', (self, o))

    __ror__ = __or__

    def __invert__(self):
        return SymBool('not', self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    __hash__ = None

    def any(self, *a, **k):
        return bool(self)

    all = any

    def __repr__(self):
        return 'SymBool(%s,%r)' % (self.op, self.a)


def band(*xs):
    r = True
    for x in xs:
        r = (x & r) if isinstance(x, SymBool) else (r if x else False)
        if r is False:
            return False
    return r


def bor(*xs):
    r = False
    for x in xs:
        r = (x | r) if isinstance(x, SymBool) else (True if x else r)
        if r is True:
            return True
    return r


def bnot(x):
    if isinstance(x, SymBool):
        return SymBool('not', x)
    return not x


# ---------------------------------------------------------------------------
# square roots

def _sqfree(k):
    """k>0 int -> (a, b) with k = a*a*b, b square free (trial division)"""
    a, b, p = 1, 1, 2
    while p * p <= k:
        e = 0
        while k % p == 0:
            k //= p
            e += 1
        a *= p ** (e // 2)
        if e % 2:
            b *= p
        p += 1
        if p > 200000:
            break
    return a, b * k


def ssqrt(s):
    if s.isconst:
        v = s.value()
        if v < 0:
            raise ValueError('math domain error')
        if v == 0:
            return lift(0)
        k = v.numerator * v.denominator
        r = math.isqrt(k)
        if r * r == k:
            return lift(Fraction(r, v.denominator))
        a, b = _sqfree(k)
        node = var('sqrt!%d' % b)
        if node.id not in _ALG:
            _ALG[node.id] = lift(b)
            if CTX is not None:
                CTX.algvar(node, lift(b))
        return Sym(nscale(node, Fraction(a, v.denominator)))
    k = s.key()
    r = _SQRT.get(k)
    if r is None:
        r = CTX.sqrt(s)
        _SQRT[k] = r
    return r


# ---------------------------------------------------------------------------
# polynomial normal form (used only to propose square roots and to report)

class TooBig(Exception):
    pass


def poly(n, memo=None, limit=4000):
    """Node -> {monomial(tuple of (varid,exp)): Fraction}"""
    if memo is None:
        memo = {}
    return _poly(n, memo, limit)


def _pmul(a, b, limit):
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = _mmul(ma, mb)
            c = r.get(m, 0) + ca * cb
            if c == 0:
                del r[m]
            else:
                r[m] = c
        if len(r) > limit:
            raise TooBig()
    return r


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def _poly(n, memo, limit):
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op == 'c':
        r = {(): n.args} if n.args else {}
    elif n.op == 'v':
        r = {((n.id, 1),): ONE}
    elif n.op == 's':
        r = {}
        if n.args[0]:
            r[()] = n.args[0]
        for t, c in n.args[1]:
            for m, k in _poly(t, memo, limit).items():
                v = r.get(m, 0) + k * c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
            if len(r) > limit:
                raise TooBig()
    else:
        r = {(): ONE}
        for f, e in n.args:
            pf = _poly(f, memo, limit)
            for _ in range(e):
                r = _pmul(r, pf, limit)
    memo[n.id] = r
    return r


def poly_reduce(p, limit=20000):
    """rewrite even powers of algebraic variables whose square is a polynomial"""
    changed = True
    while changed:
        changed = False
        for m in list(p):
            hit = None
            for v, e in m:
                if e >= 2 and v in _ALG and not _ALG[v].d:
                    hit = (v, e)
                    break
            if hit is None:
                continue
            changed = True
            v, e = hit
            c = p.pop(m)
            rest = tuple((w, k) for w, k in m if w != v)
            if e % 2:
                rest = _mmul(rest, ((v, 1),))
            sq = poly(_ALG[v].n)
            q = {rest: c}
            for _ in range(e // 2):
                q = _pmul(q, sq, limit)
            for mm, k in q.items():
                t = p.get(mm, 0) + k
                if t == 0:
                    del p[mm]
                else:
                    p[mm] = t
            if len(p) > limit:
                raise TooBig()
    return p


def poly_node(p):
    terms = {}
    c0 = ZERO
    for m, c in p.items():
        if not m:
            c0 = c
        else:
            terms[_mkprod({_nodes[v]: e for v, e in m})] = c
    return _mksum(c0, terms)


def poly_sqrt(p):
    """exact square root of a polynomial, or None"""
    if not p:
        return {}
    vs = sorted({v for m in p for v, _ in m})
    idx = {v: i for i, v in enumerate(vs)}

    def dense(m):
        t = [0] * len(vs)
        for v, e in m:
            t[idx[v]] = e
        return tuple(t)

    P = {dense(m): c for m, c in p.items()}
    lm = max(P)
    if any(e % 2 for e in lm):
        return None
    c = P[lm]
    if c < 0:
        return None
    k = c.numerator * c.denominator
    r = math.isqrt(k)
    if r * r != k:
        return None
    lc = Fraction(r, c.denominator)
    lt = tuple(e // 2 for e in lm)
    q = {lt: lc}
    rem = dict(P)
    del rem[lm]
    while rem:
        m = max(rem)
        t = tuple(x - y for x, y in zip(m, lt))
        if any(e < 0 for e in t) or t >= lt and False:
            return None
        if not t < max(q):
            return None
        cc = rem[m] / (2 * lc)
        # rem -= 2*q*cc*t + (cc t)^2
        for mq, cq in q.items():
            mm = tuple(x + y for x, y in zip(mq, t))
            v = rem.get(mm, 0) - 2 * cq * cc
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
        mm = tuple(2 * x for x in t)
        v = rem.get(mm, 0) - cc * cc
        if v == 0:
            rem.pop(mm, None)
        else:
            rem[mm] = v
        q[t] = cc
        if len(q) > 500:
            return None
    return {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in q.items()}
