"""numpy / scipy / math stand-ins seen by filterpy's source while it is executed
symbolically.  Anything not listed falls through to the real function applied to
object arrays of Sym.  Stand-ins for native numerical kernels implement their
documented contract exactly over the reals; engine/selftest.py compares each of
them with the real routine."""
import builtins
import math as _math
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Sym, SymBool, lift, Unsupported

S._np = np


_CANON = ('add', 'subtract', 'divide', 'true_divide', 'multiply')


class SArr(np.ndarray):
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [plain(x) for x in inputs]
        out = kw.pop('out', None)
        if out is not None:
            kw['out'] = tuple(plain(o) for o in out)
        kw.pop('casting', None) if kw.get('casting') == 'same_kind' else None
        if kw.get('dtype') is not None:
            kw.pop('dtype')
        name = ufunc.__name__
        if name == 'matmul' and method == '__call__' and out is None:
            return canon(cv(np.matmul(plain(canon(ins[0])), plain(canon(ins[1])))))
        if method == '__call__' and name in _UF and any(isobj(x) for x in ins):
            return _store(_UF[name](*ins), out[0] if out is not None else None, kw.get('where', True))
        if kw.get('where', True) is not True:
            kw['where'] = np.asarray(plain(kw['where']), dtype=bool)
        try:
            r = getattr(ufunc, method)(*ins, **kw)
        except ZeroDivisionError:
            if method != '__call__' or name not in ('divide', 'true_divide'):
                raise
            r = np.frompyfunc(_nan_div, 2, 1)(*ins, **kw)
        if out is not None:
            if name in _CANON and method == '__call__' and isobj(r) and S.CTX is not None and S.CTX.w.hints:
                q = canon(r)
                if q is not r:
                    r[...] = q
            return out[0] if len(out) == 1 else out
        if name in _CANON and method == '__call__':
            return canon(cv(r))
        return cv(r)

    def __array_function__(self, func, types_, args, kwargs):
        o = _FUNC_OVERRIDE.get(func)
        if o is not None:
            return o(*args, **kwargs)
        args, kwargs = fixdtype(args, kwargs)
        r = super().__array_function__(func, types_, args, kwargs)
        return cv(r)

    def astype(self, dtype, *a, **k):
        if isfloat(dtype):
            if self.dtype == object:
                return self.copy()
            return cv(np.asarray(self).astype(object))
        if isint(dtype) and self.dtype == object:
            return np.array([int(x) for x in self.flat], dtype=int).reshape(self.shape).view(SArr)
        return super().astype(dtype, *a, **k)

    def _w(name):
        def f(self, *a, **k):
            a, k = fixdtype(a, k)
            return cv(getattr(np.ndarray, name)(self, *a, **k))
        f.__name__ = name
        return f

    def dot(self, b, out=None):
        return _dot(self, b, out)

    for _n in ('sum', 'mean', 'cumsum', 'prod', 'max', 'min', 'trace', 'cumprod'):
        locals()[_n] = _w(_n)
    del _n

    def std(self, *a, **k):
        return _np_std(self, *a, **k)

    def var(self, *a, **k):
        return _np_var(self, *a, **k)

    def clip(self, lo=None, hi=None, **k):
        return _clip(self, lo, hi, **k)

    def any(self, axis=None, **k):
        return _anyall(self, axis, True)

    def all(self, axis=None, **k):
        return _anyall(self, axis, False)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def tolist(self):
        return np.ndarray.tolist(self)

    def __float__(self):
        raise Unsupported('float(array) reached native code')

    def __deepcopy__(self, memo):
        return np.array(self, dtype=self.dtype, copy=True).view(SArr)

    def __setitem__(self, k, v):
        if isinstance(v, SymBool):
            v = bool(v)
        k = _idx(k)
        if self.dtype == object:
            if isinstance(v, (float, int)) and not isinstance(v, bool):
                v = lift(v)
            elif isinstance(v, Sym):
                v = canon(v)
            elif isinstance(v, np.ndarray) and v.dtype != object:
                v = toobj(v)
            elif isinstance(v, (list, tuple)):
                v = cv(np.array(v))
                if v.dtype != object:
                    v = toobj(v)
            if isinstance(v, np.ndarray) and v.size == 1 and v.ndim > 0:
                # real numpy accepts size-1 arrays stored into a scalar slot
                tgt = np.ndarray.__getitem__(self, k)
                if not isinstance(tgt, np.ndarray):
                    v = v.reshape(-1)[0]
        np.ndarray.__setitem__(self, k, v)

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _idx(k))

    def fill(self, v):
        if self.dtype == object:
            v = lift(v)
        np.ndarray.fill(self, v)


def _nan_div(a, b):
    # array division by zero does not raise: the quotient is an arbitrary value, so that an
    # assertion that depends on it fails and is replayed on the real code
    try:
        return lift(a) / lift(b)
    except ZeroDivisionError:
        ctx = S.CTX
        ctx.undef_n = getattr(ctx, 'undef_n', 0) + 1
        return ctx.w.newvar('undefined!%d' % ctx.undef_n, lambda r: float(r.randint(-3, 3)))


def _idx(k):
    if isinstance(k, np.ndarray) and k.dtype == object:
        vals = [bool(x) if isinstance(x, (bool, np.bool_, SymBool)) else int(x) for x in k.flat]
        return np.array(vals).reshape(k.shape)
    if isinstance(k, Sym):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                         'and integer or boolean arrays are valid indices')
    return k


def isobj(x):
    return isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.dtype == object)


def plain(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    return x


def isfloat(dt):
    if dt is None:
        return False
    if dt in (float, np.float64, np.float32, np.double, np.longdouble, 'float', 'float64', 'd',
              S_float):
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def isint(dt):
    if dt is None:
        return False
    if dt in (int, S_int):
        return True
    try:
        return np.dtype(dt).kind in 'iu'
    except TypeError:
        return False


def toobj(a):
    a = np.asarray(a)
    r = np.empty(a.shape, dtype=object)
    f = r.reshape(-1) if r.size else r
    for i, x in enumerate(a.flat):
        f[i] = lift(x.item() if hasattr(x, 'item') else x)
    return r.reshape(a.shape).view(SArr)


def cv(r):
    """normalise a numpy result"""
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fc':
            return toobj(r)
        if r.dtype == object:
            r = r if isinstance(r, SArr) else r.view(SArr)
            p = r.view(np.ndarray)
            fix = [i for i, x in enumerate(p.flat) if not isinstance(x, Sym)
                   and isinstance(x, (int, float, np.number)) and not isinstance(x, bool)]
            if fix:
                for i in fix:
                    x = p.flat[i]
                    p.flat[i] = lift(x.item() if hasattr(x, 'item') else x)
            if r.ndim == 0:
                return r[()]
            return r
        return r if isinstance(r, SArr) or r.dtype.kind not in 'biu' else r.view(SArr)
    if isinstance(r, np.floating) or (isinstance(r, float) and not isinstance(r, bool)):
        return lift(float(r))
    if type(r) is tuple:
        return tuple(cv(x) for x in r)
    if type(r) is list:
        return [cv(x) for x in r]
    if isinstance(r, tuple) and hasattr(r, '_fields'):
        return type(r)(*[cv(x) for x in r])
    return r


def fixdtype(args, kw):
    if 'dtype' in kw:
        if isfloat(kw['dtype']) or kw['dtype'] is None:
            kw = dict(kw)
            kw['dtype'] = object
        elif kw['dtype'] is S_int:
            kw = dict(kw)
            kw['dtype'] = int
    return args, kw


def arr(x):
    """anything array-like -> object SArr"""
    if isinstance(x, SArr) and x.dtype == object:
        return x
    a = x if isinstance(x, np.ndarray) else np.array(x)
    if a.dtype == object:
        return cv(a) if a.ndim else _zero_d(a)
    return toobj(a)


def _zero_d(a):
    r = np.empty((), dtype=object)
    v = a[()]
    r[()] = lift(v)
    return r.view(SArr)


def wrap(f):
    name = getattr(f, '__name__', 'f')

    def g(*a, **k):
        o = _FUNC_OVERRIDE.get(f)
        if o is not None:
            return o(*a, **k)
        a, k = fixdtype(a, k)
        return cv(f(*a, **k))
    g.__name__ = name
    g.__wrapped__ = f
    return g


# ---------------------------------------------------------------------------
# creation

def np_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(x, Sym):
        r = _zero_d(np.array(x, dtype=object))
    elif dtype is not None and isint(dtype):
        xs = np.array(x)
        if xs.dtype == object:
            r = np.array([int(v) for v in xs.flat], dtype=int).reshape(xs.shape).view(SArr)
        else:
            r = xs.astype(int).view(SArr)
    elif dtype is not None and isfloat(dtype):
        r = arr(x)
        if copy and r is x:
            r = r.copy()
    elif dtype is not None and dtype is not object:
        r = np.array(x, dtype=dtype)
    else:
        a = np.array(x, copy=copy, dtype=dtype) if copy else np.asarray(x, dtype=dtype)
        if a.dtype.kind == 'f' or a.dtype == object:
            if a.dtype == object and _ragged(a):
                return a
            r = arr(a)
        elif a.dtype.kind in 'biu':
            r = a.view(SArr)
        else:
            r = a
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _ragged(a):
    for x in a.flat:
        if not isinstance(x, (Sym, int, float, np.number)):
            return True
        break
    return False


def np_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SArr) and (dtype is None or dtype is object or
                                (isfloat(dtype) and x.dtype == object)):
        return x
    return np_array(x, dtype=dtype, copy=False)


def _filled(shape, v, dtype):
    if isint(dtype) or dtype in (bool, np.bool_):
        return np.full(shape, v, dtype=int if isint(dtype) else bool).view(SArr)
    r = np.empty(shape, dtype=object)
    r.fill(lift(v))
    return r.view(SArr)


def np_zeros(shape, dtype=float, order='C', **k):
    return _filled(shape, 0, dtype)


def np_ones(shape, dtype=float, order='C', **k):
    return _filled(shape, 1, dtype)


def np_full(shape, v, dtype=None, order='C', **k):
    if isinstance(v, (np.ndarray, list, tuple)):
        r = _filled(shape, 0, float)
        r[...] = arr(v)
        return r
    if dtype is None and isinstance(v, (int, bool)) and not isinstance(v, Sym):
        dtype = bool if isinstance(v, bool) else int
    return _filled(shape, v, dtype if dtype is not None else float)


def _like(a, shape):
    a = a if isinstance(a, np.ndarray) else np_array(a)
    return (shape if shape is not None else a.shape), (a.dtype if a.dtype.kind in 'iub' else float)


def np_zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    s, d = _like(a, shape)
    return _filled(s, 0, dtype or d)


def np_ones_like(a, dtype=None, order='K', subok=True, shape=None):
    s, d = _like(a, shape)
    return _filled(s, 1, dtype or d)


def np_full_like(a, v, dtype=None, order='K', subok=True, shape=None):
    s, d = _like(a, shape)
    return _filled(s, v, dtype or d)


def np_eye(N, M=None, k=0, dtype=float, **kw):
    r = np.eye(N, M, k)
    if isint(dtype):
        return r.astype(int).view(SArr)
    return toobj(r)


def np_identity(n, dtype=None, **kw):
    return np_eye(n, dtype=dtype or float)


def np_copy(a, *x, **k):
    return np_array(a, copy=True)


# ---------------------------------------------------------------------------
# predicates

def np_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def _elem(f):
    def g(x, *a, **k):
        if isinstance(x, np.ndarray):
            if x.dtype != object:
                return f(x, *a, **k)
            return np.array([f(v) for v in x.flat], dtype=bool).reshape(x.shape)
        if isinstance(x, (list, tuple)):
            return g(np_array(x))
        return f(x)
    return g


def _isnan1(x):
    if isinstance(x, np.ndarray):
        return np.isnan(x)
    return False if isinstance(x, Sym) else bool(x != x)


def _isfin1(x):
    if isinstance(x, np.ndarray):
        return np.isfinite(x)
    return True if isinstance(x, Sym) else bool(np.isfinite(x))


def _isinf1(x):
    if isinstance(x, np.ndarray):
        return np.isinf(x)
    return False if isinstance(x, Sym) else bool(np.isinf(x))


np_isnan, np_isfinite, np_isinf = _elem(_isnan1), _elem(_isfin1), _elem(_isinf1)


def _close(a, b, rtol, atol):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a == b
        return False
    d = abs(a - b)
    return bool(d <= lift(atol) + lift(rtol) * abs(b))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = arr(a), arr(b)
    a, b = np.broadcast_arrays(a.view(np.ndarray), b.view(np.ndarray))
    r = np.array([_close(x, y, rtol, atol) for x, y in zip(a.flat, b.flat)], dtype=bool)
    r = r.reshape(a.shape)
    return r if r.ndim else bool(r)


def _numeric(a):
    for x in np.asarray(a, dtype=object).reshape(-1):
        if not isinstance(x, (Sym, int, float, complex, Fraction, np.number, np.bool_)):
            return False
    return True


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not _numeric(a) or not _numeric(b):
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    a, b = arr(a), arr(b)
    a, b = np.broadcast_arrays(a.view(np.ndarray), b.view(np.ndarray))
    for x, y in zip(a.flat, b.flat):
        if not _close(x, y, rtol, atol):
            return False
    return True


def np_array_equal(a, b, equal_nan=False):
    if not _numeric(a) or not _numeric(b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.flat, b.flat):
        if not bool(x == y):
            return False
    return True


def np_array_equiv(a, b):
    a, b = np.broadcast_arrays(arr(a).view(np.ndarray), arr(b).view(np.ndarray))
    return np_array_equal(a, b)


def _anyall(x, axis=None, isany=True):
    x = x if isinstance(x, np.ndarray) else np_array(x)
    if x.dtype == object:
        b = np.array([bool(v) for v in x.flat], dtype=bool).reshape(x.shape)
    else:
        b = plain(x).astype(bool)
    return np.any(b, axis=axis) if isany else np.all(b, axis=axis)


def np_any(x, axis=None, *a, **k):
    return _anyall(x, axis, True)


def np_all(x, axis=None, *a, **k):
    return _anyall(x, axis, False)


def _store(r, out, where=True):
    """the result of a numpy function given out= and where="""
    if where is not True:
        m = np.asarray(plain(where) if isinstance(where, np.ndarray) else where, dtype=bool)
        if not m.all():
            if out is None:
                raise Unsupported('where= without out=')
            o = plain(out)
            o[...] = np.where(np.broadcast_to(m, o.shape), plain(arr(r)), o)
            return out
    if out is None:
        return cv(r)
    plain(out)[...] = plain(r) if isinstance(r, np.ndarray) else r
    return out


def _outs(f, npos=None):
    """honour out= and where=, which the stand-in itself does not know"""
    def g(*a, **k):
        out, where = k.pop('out', None), k.pop('where', True)
        if npos is not None and len(a) > npos:
            out, a = a[npos], a[:npos]
        if isinstance(out, tuple):
            out = out[0]
        r = f(*a, **k)
        return r if out is None and where is True else _store(r, out, where)
    return g


def _u1(fn):
    return _outs(_u1_(fn), 1)


def _u2(fn):
    return _outs(_u2_(fn), 2)


def _u1_(fn):
    def g(x, *a, **k):
        if isinstance(x, (np.ndarray, list, tuple)):
            x = arr(x)
            r = np.empty(x.shape, dtype=object)
            rf = r.reshape(-1)
            for i, v in enumerate(x.flat):
                rf[i] = fn(v)
            r = rf.reshape(x.shape)
            return cv(r)
        return fn(lift(x))
    return g


def _u2_(fn):
    def g(a, b, *x, **k):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            a, b = np.broadcast_arrays(arr(a).view(np.ndarray), arr(b).view(np.ndarray))
            r = np.empty(a.shape, dtype=object)
            rf = r.reshape(-1)
            for i, (p, q) in enumerate(zip(a.flat, b.flat)):
                rf[i] = fn(p, q)
            return cv(rf.reshape(a.shape))
        return fn(lift(a), lift(b))
    return g


def _atan2(y, x):
    if y.isconst and y.value() == 0 and x.isconst and x.value() > 0:
        return lift(0)
    return S.CTX.app('arctan2', (y, x))


def _atan(x):
    if x.isconst and x.value() == 0:
        return lift(0)
    return S.CTX.app('arctan', (x,))


def _sign(x):
    if bool(x > 0):
        return lift(1)
    if bool(x < 0):
        return lift(-1)
    return lift(0)


_sqrt, _exp, _log = _u1(lambda v: v.sqrt()), _u1(lambda v: v.exp()), _u1(lambda v: v.log())
_log2 = _u1(lambda v: v.log() / lift(2).log())
_log10 = _u1(lambda v: v.log() / lift(10).log())
_sin, _cos, _tan = _u1(lambda v: v.sin()), _u1(lambda v: v.cos()), _u1(lambda v: v.tan())
_absf = _u1(abs)
_floor, _ceil = _u1(lambda v: v.floor()), _u1(lambda v: v.ceil())
_degrees = _u1(lambda v: v * 180 / PI())
_radians = _u1(lambda v: v * PI() / 180)
_max2 = _u2(lambda a, b: a if bool(a >= b) else b)
_min2 = _u2(lambda a, b: a if bool(a <= b) else b)
_hypot = _u2(lambda a, b: (a * a + b * b).sqrt())


def PI():
    return S.CTX.w.pi()


def _clip(x, lo=None, hi=None, out=None, **k):
    lo = k.get('a_min', lo)
    hi = k.get('a_max', hi)

    def f(v):
        if lo is not None and bool(v < lo):
            return lift(lo)
        if hi is not None and bool(v > hi):
            return lift(hi)
        return v
    r = _u1(f)(x)
    return r if out is None and k.get('where', True) is True else _store(r, out, k.get('where', True))


_UF = {
    'isnan': np_isnan, 'isfinite': np_isfinite, 'isinf': np_isinf,
    'arctan2': _u2(_atan2), 'arctan': _u1(_atan), 'sign': _u1(_sign),
    'sqrt': _sqrt, 'exp': _exp, 'log': _log, 'sin': _sin, 'cos': _cos, 'tan': _tan,
    'absolute': _absf, 'fabs': _absf, 'floor': _floor, 'ceil': _ceil,
    'maximum': _max2, 'minimum': _min2, 'fmax': _max2, 'fmin': _min2, 'hypot': _hypot,
    'degrees': _degrees, 'rad2deg': _degrees, 'radians': _radians, 'deg2rad': _radians,
    'log2': _log2, 'log10': _log10, 'square': _u1(lambda v: v * v),
    'reciprocal': _u1(lambda v: 1 / v), 'float_power': _u2(lambda a, b: a ** b),
    'logical_not': _elem(lambda v: not bool(v)),
    'log1p': _u1(lambda v: (1 + v).log()), 'expm1': _u1(lambda v: v.exp() - 1),
}


def _np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = arr(a)
    if k.get('where', True) is not True:
        raise Unsupported('mean where')
    n = a.size if axis is None else a.shape[axis]
    r = cv(np.sum(a.view(np.ndarray), axis=axis, keepdims=keepdims)) / n
    return r if out is None else _store(r, out)


def _np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = arr(a)
    m = _np_mean(a, axis=axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    if k.get('where', True) is not True:
        raise Unsupported('var where')
    r = cv(np.sum((d * d).view(np.ndarray), axis=axis, keepdims=keepdims)) / (n - ddof)
    return r if out is None else _store(r, out)


def _np_std(a, *x, **k):
    return _sqrt(_np_var(a, *x, **k))


def _np_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    m = arr(m)
    if m.ndim == 1:
        m = m.reshape(1, -1)
    elif not rowvar:
        m = m.T
    if fweights is not None or aweights is not None or y is not None:
        raise Unsupported('np.cov with weights')
    if ddof is None:
        ddof = 0 if bias else 1
    n = m.shape[1]
    d = m - _np_mean(m, axis=1, keepdims=True)
    r = cv(np.dot(d.view(np.ndarray), d.T.view(np.ndarray))) / (n - ddof)
    return r.reshape(()) if r.shape == (1, 1) else r


def _np_average(a, axis=None, weights=None, returned=False, **k):
    a = arr(a)
    if weights is None:
        return _np_mean(a, axis=axis)
    w = arr(weights)
    if axis is None and a.shape == w.shape:
        return (a * w).sum() / w.sum()
    if axis == 0 or axis is None:
        return cv(np.tensordot(w.view(np.ndarray), a.view(np.ndarray), (0, 0))) / w.sum()
    if axis in (1, -1) and w.ndim == 1:
        return cv(np.dot(a.view(np.ndarray), w.view(np.ndarray))) / w.sum()
    raise Unsupported('np.average')


def _searchsorted(a, v, side='left', sorter=None):
    a = arr(a)

    def one(x):
        x = lift(x)
        lo = 0
        n = len(a)
        # linear scan from the left: correct whenever a is sorted; a bisection
        # (what numpy does) returns the same index for sorted input
        while lo < n:
            c = (a[lo] < x) if side == 'left' else (a[lo] <= x)
            if bool(c):
                lo += 1
            else:
                break
        return lo
    if isinstance(v, (np.ndarray, list, tuple)):
        v = arr(v)
        return np.array([one(x) for x in v.flat], dtype=int).reshape(v.shape).view(SArr)
    return one(v)


def _norm(x, ord=None, axis=None, keepdims=False, **k):
    x = arr(x)
    if axis is not None:
        s = (x * x).sum(axis=axis, keepdims=keepdims)
        return _sqrt(s)
    if ord in (None, 2, 'fro') and (x.ndim == 1 or ord != 2):
        return (x.reshape(-1) * x.reshape(-1)).sum().sqrt()
    if ord == 2 and 1 in x.shape:
        return (x.reshape(-1) * x.reshape(-1)).sum().sqrt()
    raise Unsupported('norm ord %r' % (ord,))


def _sort(a, axis=-1, **k):
    a = arr(a).copy()
    if a.ndim != 1:
        raise Unsupported('sort nd')
    import functools
    l = sorted(a.flat, key=functools.cmp_to_key(lambda p, q: -1 if bool(p < q) else 1))
    return np_array(l)


def _argmax(a, axis=None, **k):
    a = arr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('argmax axis')
    best = 0
    f = list(a.flat)
    for i in range(1, len(f)):
        if bool(f[i] > f[best]):
            best = i
    return best


def _argmin(a, axis=None, **k):
    a = arr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('argmin axis')
    best = 0
    f = list(a.flat)
    for i in range(1, len(f)):
        if bool(f[i] < f[best]):
            best = i
    return best


def _argsort(a, axis=-1, **k):
    a = arr(a)
    import functools
    return np.array(sorted(range(len(a)), key=functools.cmp_to_key(
        lambda p, q: -1 if bool(a[p] < a[q]) else (1 if bool(a[q] < a[p]) else p - q)))).view(SArr)


def _amax(a, axis=None, **k):
    if k.get('keepdims') or k.get('where', True) is not True or k.get('out') is not None:
        raise Unsupported('amax options')
    a = arr(a)
    if axis is None:
        r = None
        for v in a.flat:
            r = v if r is None else _max2(r, v)
        return r
    return np_array([_amax(np.take(a, i, axis=1 - axis)) for i in range(a.shape[1 - axis])])


def _amin(a, axis=None, **k):
    if k.get('keepdims') or k.get('where', True) is not True or k.get('out') is not None:
        raise Unsupported('amin options')
    a = arr(a)
    if axis is None:
        r = None
        for v in a.flat:
            r = v if r is None else _min2(r, v)
        return r
    return np_array([_amin(np.take(a, i, axis=1 - axis)) for i in range(a.shape[1 - axis])])


def _where(c, *ab):
    c = c if isinstance(c, np.ndarray) else np_array(c)
    if c.dtype == object:
        c = np.array([bool(x) for x in c.flat], dtype=bool).reshape(c.shape)
    if not ab:
        return np.where(plain(c))
    a, b = ab
    r = np.where(plain(c), plain(arr(a)), plain(arr(b)))
    return cv(r)


def _dot(a, b, out=None):
    r = canon(np.dot(plain(canon(a)), plain(canon(b))))
    if out is not None:
        out[...] = r
        return out
    return cv(r)


def canon(A):
    """replace entries by a registered reference term when the solver proves them identical"""
    w = S.CTX.w if S.CTX is not None else None
    if w is None or not w.hints:
        return A
    if isinstance(A, Sym):
        return w.canon(A)
    if not isinstance(A, np.ndarray) or A.dtype != object:
        return A
    R = None
    for i, x in enumerate(A.flat):
        if isinstance(x, Sym) and not x.isconst:
            y = w.canon(x)
            if y is not x:
                if R is None:
                    R = A.copy()
                R.flat[i] = y
    return A if R is None else R


def _einsum(*args, **k):
    k.pop('optimize', None)
    out = k.pop('out', None)
    args = [plain(arr(a)) if isinstance(a, np.ndarray) else a for a in args]
    r = cv(np.einsum(*args, **k))
    if out is not None:
        out[...] = r
        return out
    return r


def _copyto(dst, src, **k):
    if k.get('where', True) is not True:
        raise Unsupported('copyto where')
    dst[...] = arr(src)


def _fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)):
        a[i, i] = v[i % len(v)] if isinstance(v, (np.ndarray, list)) else v


def _nan_to_num(x, *a, **k):
    return arr(x).copy() if isinstance(x, (np.ndarray, list, tuple)) and k.get('copy', not a or a[0]) else x


def _linspace(a, b, num=50, endpoint=True, **k):
    a, b = lift(a), lift(b)
    div = num - 1 if endpoint else num
    return np_array([a + (b - a) * Fraction(i, div) if div else a for i in range(num)])


def _arange(*a, **k):
    if all(isinstance(x, (int, np.integer)) for x in a) and not isfloat(k.get('dtype')):
        return np.arange(*a).view(SArr)
    a = [lift(x) for x in a]
    if all(x.isconst for x in a):
        return toobj(np.arange(*[float(x.value()) for x in a]))
    raise Unsupported('arange of symbolic')


# ---------------------------------------------------------------------------
# linear algebra

def _clear(A):
    """common denominator: A = N / D with N polynomial; returns (N nodes, D Sym)"""
    l = {}
    for x in A.flat:
        for f, e in x.d:
            if l.get(f, 0) < e:
                l[f] = e
    d = tuple(sorted(l.items(), key=lambda kv: kv[0].id))
    if not d:
        return A, None
    D = Sym(S._denprod(d))
    N = np.empty(A.shape, dtype=object)
    Nf = N.reshape(-1)
    for i, x in enumerate(A.flat):
        Nf[i] = x * D
    return Nf.reshape(A.shape).view(SArr), D


def _det_n(A):
    n = A.shape[0]
    if n == 0:
        return lift(1)
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    # expand along the row with most zeros
    best = max(range(n), key=lambda i: sum(1 for x in A[i] if x.isconst and x.value() == 0))
    r = lift(0)
    idx = [i for i in range(n) if i != best]
    for j in range(n):
        a = A[best, j]
        if a.isconst and a.value() == 0:
            continue
        cols = [c for c in range(n) if c != j]
        m = _det_n(A[np.ix_(idx, cols)])
        r = r + a * m if (best + j) % 2 == 0 else r - a * m
    return r


def _square(A):
    A = canon(arr(A))
    if A.ndim == 0:
        raise np.linalg.LinAlgError('0-dimensional array given. Array must be at least two-dimensional')
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return A


def la_det(A, *a, **k):
    A = _square(A)
    N, D = _clear(A)
    d = _det_n(N)
    return d if D is None else d / D ** A.shape[0]


def _components(A):
    """index sets of the connected components of the nonzero pattern (A, A.T)"""
    n = A.shape[0]
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            x = A[i, j]
            if not (x.isconst and x.value() == 0):
                comp[find(i)] = find(j)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def la_inv(A, *a, **k):
    A = _square(A)
    n = A.shape[0]
    R = _filled((n, n), 0, float)
    key = tuple(flatkey(x) for x in A.flat)
    memo = S.CTX.w.__dict__.setdefault('invmemo', {})
    hit = memo.get((n, key))
    if hit is not None:
        for f in hit[1]:
            S.CTX.nonzero(f)
        return hit[0].copy()
    pre = len(S.CTX.defined)
    for idx in _components(A):
        B = A[np.ix_(idx, idx)]
        m = len(idx)
        N, D = _clear(B)
        det = _det_n(N)
        if det.isconst and det.value() == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        for i in range(m):
            for j in range(m):
                if m == 1:
                    c = lift(1)
                else:
                    rows = [r for r in range(m) if r != j]
                    cols = [q for q in range(m) if q != i]
                    c = _det_n(N[np.ix_(rows, cols)])
                    if (i + j) % 2:
                        c = -c
                if D is not None:
                    c = c * D
                R[idx[i], idx[j]] = c / det
    memo[(n, key)] = (R, [b.a.n for b in S.CTX.defined[pre:]])
    return R.copy()


def la_matrix_rank(A, tol=None, *a, **k):
    """exact rank; of a singular matrix only 'less than full' is reported (n - 1, or 0 for the zero matrix)"""
    A = arr(A)
    if A.ndim < 2:
        return int(any(bool(x != 0) for x in A.flat))
    A = _square(A)
    n = A.shape[0]
    if all(x.isconst and x.value() == 0 for x in A.flat):
        return 0
    for idx in _components(A):
        N, D = _clear(A[np.ix_(idx, idx)])
        det = _det_n(N)
        if D is not None and not det.isconst:
            # the denominators are nonzero: drop them from the determinant
            fs = {f for x in A.flat for f, e in x.d}
            try:
                t = _try_div(Sym(det.n, tuple((f, 2 * n) for f in sorted(fs, key=lambda f: f.id))))
                det = Sym(t.n)
            except S.TooBig:
                pass
        if bool(det == 0):
            return n - 1
    return n


def flatkey(x):
    return x.key()


def la_pinv(A, *a, **k):
    A = arr(A)
    if A.ndim == 2 and A.shape[0] == A.shape[1]:
        # contract used: pinv == inv for nonsingular matrices
        z = [x.isconst and x.value() == 0 for x in A.flat]
        if all(z):
            return A.copy()
        return la_inv(A)
    if A.ndim == 2 and A.shape[0] > A.shape[1]:
        At = A.T
        return _dot(la_inv(_dot(At, A)), At)
    if A.ndim == 2:
        At = A.T
        return _dot(At, la_inv(_dot(A, At)))
    raise np.linalg.LinAlgError('pinv of %d-d array' % A.ndim)


def la_solve(A, b, *a, **k):
    return _dot(la_inv(A), arr(b))


def _chol_lower(A):
    A = _square(A)
    n = A.shape[0]
    L = _filled((n, n), 0, float)
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        s = _tidy(s)
        if s.isconst and s.value() < 0:
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        L[j, j] = s.sqrt()
        for i in range(j + 1, n):
            t = A[i, j]
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            t = _tidy(t)
            if t.isconst and t.value() == 0:
                L[i, j] = t
            else:
                L[i, j] = _tidy(t / L[j, j])
    return L


def _tidy(s):
    """polynomial normal form when small (exposes cancellation to sqrt)"""
    if s.isconst or s.d:
        n = s.n
        try:
            if s.d:
                # exact division by the denominator factors when possible
                return _try_div(s)
        except S.TooBig:
            pass
        return s
    try:
        p = S.poly_reduce(dict(S.poly(s.n, limit=800)), 800)
        return Sym(S.poly_node(p))
    except S.TooBig:
        return s


def _try_div(s):
    p = S.poly(s.n, limit=800)
    d = []
    for f, e in s.d:
        q = S.poly(f, limit=800)
        while e:
            r = _pdiv(p, q)
            if r is None:
                break
            p = r
            e -= 1
        if e:
            d.append((f, e))
    n, d = S._norm(S.poly_node(p), tuple(d))
    return Sym(n, d)


def _pdiv(p, q):
    """exact multivariate division or None"""
    vs = sorted({v for m in list(p) + list(q) for v, _ in m})
    idx = {v: i for i, v in enumerate(vs)}

    def dense(m):
        t = [0] * len(vs)
        for v, e in m:
            t[idx[v]] = e
        return tuple(t)
    P = {dense(m): c for m, c in p.items()}
    Q = {dense(m): c for m, c in q.items()}
    lq = max(Q)
    out = {}
    steps = 0
    while P:
        steps += 1
        if steps > 400:
            return None
        lp = max(P)
        t = tuple(a - b for a, b in zip(lp, lq))
        if any(x < 0 for x in t):
            return None
        c = P[lp] / Q[lq]
        out[t] = c
        for m, k in Q.items():
            mm = tuple(a + b for a, b in zip(m, t))
            v = P.get(mm, 0) - c * k
            if v == 0:
                P.pop(mm, None)
            else:
                P[mm] = v
    return {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in out.items()}


def np_cholesky(A, *a, **k):
    return _chol_lower(A)


def sp_cholesky(A, lower=False, overwrite_a=False, check_finite=True):
    A = arr(A)
    if A.ndim == 0 or (A.ndim == 1 and A.size == 1):
        A = A.reshape(1, 1)
    # LAPACK reads only one triangle
    n = A.shape[0]
    B = A.copy()
    for i in range(n):
        for j in range(i):
            if lower:
                B[j, i] = A[i, j]
            else:
                B[i, j] = A[j, i]
    L = _chol_lower(B)
    return L if lower else L.T.copy()


def la_qr(A, overwrite_a=False, lwork=None, mode='full', **k):
    """Gram-Schmidt QR with positive diagonal (Householder may flip row signs).
    The real routine returns some Q,R with Q orthogonal; callers may rely only on
    R.T R == A.T A, which is what this stand-in guarantees."""
    A = arr(A)
    m, n = A.shape
    G = _dot(A.T, A)
    R1 = _chol_semidef(G)           # R.T R = A.T A
    sg = S.CTX.w.qr_sign
    R1 = R1 * sg if sg != 1 else R1
    R = R1
    if mode in ('full', 'r', 'raw') and m > n:
        R = np.vstack([R1, _filled((m - n, n), 0, float)]).view(SArr)
    elif m < n:
        raise Unsupported('wide QR')
    if mode == 'r':
        return (R,)
    return _Opaque('Q of a QR factorisation'), R


class _Opaque(object):
    def __init__(self, what):
        self.__dict__['_what'] = what

    def __getattr__(self, a):
        raise Unsupported('use of ' + self._what)


def _chol_semidef(G):
    return _chol_lower(G).T.copy()


def la_block_diag(*arrs):
    if not arrs:
        arrs = ([],)
    bs = []
    for a in arrs:
        a = arr(a)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a.reshape(1, -1)
        bs.append(a)
    R = _filled((sum(b.shape[0] for b in bs), sum(b.shape[1] for b in bs)), 0, float)
    r = c = 0
    for b in bs:
        R[r:r + b.shape[0], c:c + b.shape[1]] = b
        r += b.shape[0]
        c += b.shape[1]
    return R


def la_expm(A):
    """exact for nilpotent matrices (series terminates)"""
    A = _square(A)
    n = A.shape[0]
    R = np_eye(n)
    T = np_eye(n)
    for k in range(1, n + 2):
        T = _dot(T, A) / k
        T = T.copy()
        for i in range(n):
            for j in range(n):
                T[i, j] = _tidy(T[i, j])
        if all(x.isconst and x.value() == 0 for x in T.flat):
            return R
        R = R + T
    raise Unsupported('expm of a non-nilpotent matrix')


def la_svd(A, full_matrices=True, compute_uv=True, *a, **k):
    """symmetric positive semidefinite 2x2 (or 1x1): from the eigendecomposition"""
    A = _square(A)
    if A.shape[0] > 2 or (A.shape[0] == 2 and not S.CTX.w.identical(lift(A[0, 1]), lift(A[1, 0]))):
        raise Unsupported('svd of a general matrix')
    w, V = la_eigh(A)
    if not bool(w[0] >= 0):
        raise Unsupported('svd of an indefinite matrix')
    w, V = w[::-1].copy(), V[:, ::-1].copy()
    return (V, w, V.T.copy()) if compute_uv else w


def la_eigh(A, *a, **k):
    """2x2 symmetric: closed form"""
    A = _square(A)
    if A.shape[0] == 1:
        return np_array([A[0, 0]]), np_eye(1)
    if A.shape[0] == 2:
        a_, b_, c_ = A[0, 0], A[1, 0], A[1, 1]
        if b_.isconst and b_.value() == 0:
            if bool(a_ <= c_):
                return np_array([a_, c_]), np_eye(2)
            return np_array([c_, a_]), np_array([[0., 1.], [1., 0.]])
        t = a_ + c_
        r = ((a_ - c_) * (a_ - c_) + 4 * b_ * b_).sqrt()
        l1, l2 = (t - r) / 2, (t + r) / 2
        n1 = ((l1 - c_) * (l1 - c_) + b_ * b_).sqrt()
        n2 = ((l2 - c_) * (l2 - c_) + b_ * b_).sqrt()
        V = np_array([[(l1 - c_) / n1, (l2 - c_) / n2], [b_ / n1, b_ / n2]])
        return np_array([l1, l2]), V
    raise Unsupported('eigh of %dx%d' % A.shape)


def la_sqrtm(A, *a, **k):
    """diagonal or 2x2 SPD closed form"""
    A = _square(A)
    n = A.shape[0]
    if n == 1:
        return np_array([[A[0, 0].sqrt()]])
    off = [A[i, j] for i in range(n) for j in range(n) if i != j]
    if all(x.isconst and x.value() == 0 for x in off):
        R = _filled((n, n), 0, float)
        for i in range(n):
            R[i, i] = A[i, i].sqrt()
        return R
    if n == 2:
        s = la_det(A).sqrt()
        t = (A[0, 0] + A[1, 1] + 2 * s).sqrt()
        return (A + s * np_eye(2)) / t
    raise Unsupported('sqrtm')


def la_slogdet(A):
    d = la_det(A)
    if d.isconst and d.value() == 0:
        return (lift(0), lift(-10 ** 9))
    if bool(d > 0):
        return (lift(1), d.log())
    return (lift(-1), (-d).log())


def la_cho_factor(A, lower=False, **k):
    return (sp_cholesky(A, lower=lower), lower)


def la_cho_solve(cl, b, **k):
    c, lower = cl
    A = _dot(c, c.T) if lower else _dot(c.T, c)
    return la_solve(A, b)


def la_solve_triangular(a, b, trans=0, lower=False, **k):
    a = arr(a)
    n = a.shape[0]
    B = _filled((n, n), 0, float)
    for i in range(n):
        for j in range(n):
            if (lower and j <= i) or (not lower and j >= i):
                B[i, j] = a[i, j]
    if trans in (1, 'T'):
        B = B.T
    return la_solve(B, b)


def la_matrix_power(A, n):
    A = arr(A)
    R = np_eye(A.shape[0])
    if n < 0:
        A, n = la_inv(A), -n
    for _ in range(n):
        R = _dot(R, A)
    return R


def la_multi_dot(ms, **k):
    r = arr(ms[0])
    for m in ms[1:]:
        r = _dot(r, arr(m))
    return r


# ---------------------------------------------------------------------------
# scipy.stats

def mvn_quad(x, mean, cov):
    x, mean = arr(x).reshape(-1), arr(mean).reshape(-1)
    cov = arr(cov)
    if cov.ndim == 0:
        cov = np_eye(x.size) * cov.reshape(-1)[0]
    elif cov.ndim == 1:
        cov = np.diag(cov.view(np.ndarray)).view(SArr)
        cov = arr(cov)
    d = x - mean
    if cov.shape[0] != d.size:
        raise ValueError("operands could not be broadcast together (mvn: x %r cov %r)" % (d.shape, cov.shape))
    return d, cov


class _MVN(object):
    @staticmethod
    def logpdf(x, mean=None, cov=1, allow_singular=False):
        x = arr(x)
        if x.ndim == 0:
            x = x.reshape(1)
        if mean is None:
            mean = _filled(x.shape, 0, float)
        d, cov = mvn_quad(x, mean, cov)
        k = d.size
        det = la_det(cov)
        q = _dot(d, _dot(la_inv(cov), d))
        return -(k * (2 * PI()).log() + det.log() + q) / 2

    @staticmethod
    def pdf(x, mean=None, cov=1, allow_singular=False):
        return _MVN.logpdf(x, mean, cov, allow_singular).exp()

    @staticmethod
    def rvs(mean=None, cov=1, size=1, random_state=None):
        return S.CTX.rand.mvn(mean, cov, size)

    def __call__(self, mean=None, cov=1, allow_singular=False):
        class F(object):
            logpdf = staticmethod(lambda x: _MVN.logpdf(x, mean, cov))
            pdf = staticmethod(lambda x: _MVN.pdf(x, mean, cov))
            rvs = staticmethod(lambda size=1: _MVN.rvs(mean, cov, size))
        return F


class _NORM(object):
    @staticmethod
    def logpdf(x, loc=0, scale=1):
        return _u1(lambda v: -((2 * PI()).log()) / 2 - lift(scale).log()
                   - ((v - loc) / scale) ** 2 / 2)(x)

    @staticmethod
    def pdf(x, loc=0, scale=1):
        return _u1(lambda v: (-((v - loc) / scale) ** 2 / 2).exp()
                   / (lift(scale) * (2 * PI()).sqrt()))(x)

    @staticmethod
    def cdf(x, loc=0, scale=1):
        return _u1(lambda v: S.CTX.app('normcdf', ((v - loc) / scale,)))(x)

    def __call__(self, loc=0, scale=1):
        class F(object):
            logpdf = staticmethod(lambda x: _NORM.logpdf(x, loc, scale))
            pdf = staticmethod(lambda x: _NORM.pdf(x, loc, scale))
            cdf = staticmethod(lambda x: _NORM.cdf(x, loc, scale))
        return F


# ---------------------------------------------------------------------------
# scipy.ndimage (1-D)

def _is_int_input(a):
    return not isinstance(a, SArr) and np.asarray(a).dtype.kind in 'iub'


def _like_input(out, isint_):
    # scipy.ndimage returns the dtype of its input: a result is truncated for integer input
    if isint_:
        out = [lift(int(lift(v))) for v in out]
    return np_array(out)


def nd_convolve(input, weights, output=None, mode='reflect', cval=0.0, origin=0):
    ints = _is_int_input(input)
    a, w = arr(input), arr(weights)
    if a.ndim != 1 or w.ndim != 1:
        raise Unsupported('nd convolve')
    n, m = len(a), len(w)
    out = []
    c = m // 2

    def at(i):
        if 0 <= i < n:
            return a[i]
        if mode == 'wrap':
            return a[i % n]
        if mode == 'constant':
            return lift(cval)
        if mode == 'nearest':
            return a[0] if i < 0 else a[n - 1]
        if mode == 'reflect':
            p = i % (2 * n)
            return a[p] if p < n else a[2 * n - 1 - p]
        if mode == 'mirror':
            if n == 1:
                return a[0]
            p = i % (2 * n - 2)
            return a[p] if p < n else a[2 * n - 2 - p]
        raise RuntimeError('boundary mode not supported')
    # ndimage.convolve: out[i] = sum_j w[j] a[i + (m - 1 - m//2') - j ...]; the kernel is
    # reversed and correlated with its origin shifted by one for even lengths
    wr = list(w)[::-1]
    org = -origin
    if m % 2 == 0:
        org -= 1
    for i in range(n):
        s = lift(0)
        for j in range(m):
            s = s + wr[j] * at(i + j - c - org)
        out.append(s)
    return _like_input(out, ints)


def nd_shift(input, shift, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
    ints = _is_int_input(input)
    a = arr(input)
    n = len(a)
    sh = lift(shift)
    if not sh.isconst or sh.value().denominator != 1:
        raise Unsupported('non-integer shift')
    k = int(sh.value())
    out = []
    for i in range(n):
        j = i - k
        if 0 <= j < n:
            out.append(a[j])
        elif mode in ('wrap', 'grid-wrap'):
            if mode == 'wrap':
                # legacy spline 'wrap' has period n-1
                raise Unsupported('shift mode wrap')
            out.append(a[j % n])
        elif mode in ('constant', 'grid-constant'):
            out.append(lift(cval))
        elif mode == 'nearest':
            out.append(a[0] if j < 0 else a[n - 1])
        else:
            raise Unsupported('shift mode ' + mode)
    return _like_input(out, ints)


def scipy_mahalanobis(u, v, VI):
    d = arr(u).reshape(-1) - arr(v).reshape(-1)
    return _dot(d, _dot(arr(VI), d)).sqrt()


# ---------------------------------------------------------------------------
# randomness: arbitrary values of the documented type

class Rand(object):
    def __init__(self):
        self.k = 0

    def one(self, kind):
        ctx = S.CTX
        name = 'rnd%d' % ctx.rand_n
        ctx.rand_n += 1
        return ctx.env.randvar(name, kind)

    def shaped(self, kind, size):
        if size is None or size == ():
            return self.one(kind)
        r = np.empty(size, dtype=object)
        f = r.reshape(-1)
        for i in range(f.size):
            f[i] = self.one(kind)
        return f.reshape(r.shape).view(SArr)

    def random(self, size=None):
        return self.shaped('u', size)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.shaped('u', shape or None)

    def randn(self, *shape):
        return self.shaped('n', shape or None)

    def standard_normal(self, size=None):
        return self.shaped('n', size)

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self.shaped('n', size)

    def gauss(self, mu=0., sigma=1.):
        return mu + sigma * self.one('n')

    normalvariate = gauss

    def gammavariate(self, alpha, beta):
        # a scale family: beta times a standard gamma variable of shape alpha
        ctx = S.CTX
        ctx.rand_g = getattr(ctx, 'rand_g', 0)
        name = 'gamma%d' % ctx.rand_g
        ctx.rand_g += 1
        ctx.gamma_shapes = getattr(ctx, 'gamma_shapes', []) + [alpha]
        return beta * ctx.env.randvar(name, 'g')

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.shaped('u', size)

    def mvn(self, mean, cov, size=None, **k):
        mean, cov = arr(mean), arr(cov)
        n = mean.size
        sh = () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))
        S.CTX.mvn_calls.append((mean.copy(), cov.copy(), sh))
        v = mean + self.shaped('n', sh + (n,))
        S.CTX.mvn_drawn.append(v.copy())
        return v

    multivariate_normal = mvn

    def seed(self, *a, **k):
        pass


class _RandProxy(object):
    def __getattr__(self, a):
        r = S.CTX.rand
        v = getattr(r, a, None)
        if v is None:
            raise Unsupported('random.%s' % a)
        return v


# ---------------------------------------------------------------------------
# math

def _m1(f, real):
    def g(x):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = x.reshape(-1)[0]
        return f(lift(x))
    return g


class MathShim(types.ModuleType):
    pi = property(lambda self: PI())
    tau = property(lambda self: 2 * PI())

    def __getattr__(self, a):
        v = getattr(_math, a)
        return v


def make_math():
    m = MathShim('math')
    for n, f in dict(sqrt=lambda v: v.sqrt(), exp=lambda v: v.exp(), sin=lambda v: v.sin(),
                     cos=lambda v: v.cos(), tan=lambda v: v.tan(), fabs=abs,
                     atan=_atan, radians=lambda v: v * PI() / 180,
                     degrees=lambda v: v * 180 / PI(),
                     isnan=lambda v: False, isinf=lambda v: False,
                     isfinite=lambda v: True).items():
        setattr(m, n, _m1(f, getattr(_math, n)))
    m.log = lambda x, *b: (lift(x) if not isinstance(x, np.ndarray) else x.reshape(-1)[0]).log() / \
        (lift(b[0]).log() if b else 1)
    m.log2 = lambda x: lift(x).log() / lift(2).log()
    m.log10 = lambda x: lift(x).log() / lift(10).log()
    m.floor = lambda x: lift(x).__floor__()
    m.ceil = lambda x: lift(x).__ceil__()
    m.trunc = lambda x: int(lift(x))
    m.pow = lambda a, b: lift(a) ** b
    m.hypot = lambda a, b: (lift(a) * a + lift(b) * b).sqrt()
    m.atan2 = lambda y, x: _atan2(lift(y), lift(x))

    def fsum(xs):
        r = lift(0)
        for x in xs:
            r = r + x
        return r
    m.fsum = fsum

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        d = abs(lift(a) - b)
        return bool(d <= _max2(lift(rel_tol) * _max2(abs(lift(a)), abs(lift(b))), lift(abs_tol)))
    m.isclose = isclose
    return m


class _Const(object):
    pass


class ModShim(types.ModuleType):
    """proxy over a real module"""

    def __init__(self, name, real, over):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over
        self.__dict__['_cache'] = {}
        self.__dict__['__all__'] = [n for n in dir(real) if not n.startswith('_')]

    def __getattr__(self, a):
        if a == 'pi' and a in self._over:
            return PI()
        if a in self._over:
            return self._over[a]
        c = self._cache.get(a)
        if c is not None:
            return c
        v = getattr(self._real, a)
        if isinstance(v, (type, types.ModuleType)) or not callable(v):
            if isinstance(v, types.ModuleType) and v.__name__.startswith(('numpy', 'scipy')):
                s = SHIMS.get(v.__name__)
                return s if s is not None else v
            return v
        w = wrap(v)
        self._cache[a] = w
        return w


class _IndexTrick(object):
    def __init__(self, real):
        self.real = real

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = tuple(plain(arr(x)) if isinstance(x, (np.ndarray, list)) and not isinstance(x, str) else
                      (x if isinstance(x, (slice, str, int)) else plain(arr([x]))) for x in k)
            if any(isinstance(x, slice) for x in k):
                return cv(self.real[k])
        return cv(self.real[k])


class S_float_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            v = x.reshape(-1)[0]
            return lift(v)
        if isinstance(x, str):
            return builtins.float(x)
        return lift(builtins.float(x)) if not isinstance(x, Fraction) else lift(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class S_float(metaclass=S_float_meta):
    pass


class S_int_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, np.ndarray):
            x = x.reshape(-1)[0] if x.size == 1 else x
        if isinstance(x, Sym):
            return x.__int__()
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class S_int(metaclass=S_int_meta):
    pass


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, u) for u in t)
    if t in (S_float, S_int):
        return builtins.isinstance(x, t)
    if isinstance(x, Sym):
        if t in (builtins.float, np.floating, np.float64, np.number, np.inexact, np.generic):
            return True
        try:
            import numbers
            if t in (numbers.Number, numbers.Real):
                return True
        except Exception:
            pass
    return builtins.isinstance(x, t)


def b_abs(x):
    return abs(x)


def b_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return cv(r)


def b_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


SHIMS = {}
_FUNC_OVERRIDE = {}
_sys_shim = None


def install():
    """build the shim modules"""
    import scipy
    import scipy.linalg
    import scipy.stats
    import scipy.ndimage
    import scipy.spatial.distance
    import random as _random

    over = dict(
        array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray,
        asfarray=np_asarray, asfortranarray=np_asarray, zeros=np_zeros, ones=np_ones,
        empty=np_zeros, full=np_full, zeros_like=np_zeros_like, ones_like=np_ones_like,
        empty_like=np_zeros_like, full_like=np_full_like, eye=np_eye, identity=np_identity,
        copy=np_copy, isscalar=np_isscalar, allclose=np_allclose, isclose=np_isclose,
        array_equal=np_array_equal, array_equiv=np_array_equiv, any=np_any, all=np_all,
        alltrue=np_all, sometrue=np_any, sort=_sort,
        mean=_np_mean, var=_np_var, std=_np_std, cov=_np_cov, average=_np_average,
        searchsorted=_searchsorted, clip=_clip, argmax=_argmax, argmin=_argmin,
        argsort=_argsort, amax=_amax, amin=_amin, where=_where, dot=_dot,
        einsum=_einsum, copyto=_copyto, fill_diagonal=_fill_diagonal, nan_to_num=_nan_to_num,
        linspace=_linspace, arange=_arange, real=lambda x: x, pi=None,
        float64=S_float, float_=S_float, float32=S_float, double=S_float, int_=S_int, int64=S_int,
        r_=_IndexTrick(np.r_), c_=_IndexTrick(np.c_), max=_amax, min=_amin, abs=_absf,
        real_if_close=lambda x, *a: x,
    )
    over.update({k: v for k, v in _UF.items()})
    for n in list(over):
        if hasattr(np, n) and callable(getattr(np, n)) and not isinstance(getattr(np, n), (type, np.ufunc)):
            _FUNC_OVERRIDE[getattr(np, n)] = over[n]
    for n in ('real', ):
        _FUNC_OVERRIDE.pop(getattr(np, n), None)
    nl = dict(inv=la_inv, matrix_rank=la_matrix_rank, pinv=la_pinv, det=la_det, cholesky=np_cholesky, solve=la_solve,
              norm=_norm, qr=lambda A, mode='reduced': la_qr(A, mode='full' if mode == 'complete' else
                                                            ('economic' if mode == 'reduced' else mode)),
              eigh=la_eigh, svd=la_svd, slogdet=la_slogdet,
              matrix_power=la_matrix_power, multi_dot=la_multi_dot)
    for n, f in nl.items():
        _FUNC_OVERRIDE[getattr(np.linalg, n)] = f
    sl = dict(nl)
    sl.update(cholesky=sp_cholesky, qr=la_qr, block_diag=la_block_diag, expm=la_expm,
              sqrtm=la_sqrtm, cho_factor=la_cho_factor, cho_solve=la_cho_solve,
              solve_triangular=la_solve_triangular, eigh=la_eigh)
    sl.pop('slogdet', None), sl.pop('matrix_power', None), sl.pop('multi_dot', None)
    rp = _RandProxy()
    N = ModShim('numpy', np, over)
    NL = ModShim('numpy.linalg', np.linalg, nl)
    NR = types.ModuleType('numpy.random')
    NR.__getattr__ = lambda a: getattr(rp, a)
    NR.__dict__['default_rng'] = lambda *a, **k: rp
    NR.__dict__['RandomState'] = lambda *a, **k: rp
    PR = types.ModuleType('random')
    PR.__getattr__ = lambda a: getattr(rp, a)
    PR.__dict__['Random'] = lambda *a, **k: rp
    SC = ModShim('scipy', scipy, {})
    SL = ModShim('scipy.linalg', scipy.linalg, sl)
    SS = ModShim('scipy.stats', scipy.stats, dict(norm=_NORM(), multivariate_normal=_MVN()))
    ND = ModShim('scipy.ndimage', scipy.ndimage,
                 dict(convolve=nd_convolve, convolve1d=nd_convolve, shift=nd_shift))
    NDF = ModShim('scipy.ndimage.filters', scipy.ndimage,
                  dict(convolve=nd_convolve, convolve1d=nd_convolve))
    NDI = ModShim('scipy.ndimage.interpolation', scipy.ndimage, dict(shift=nd_shift))
    SD = ModShim('scipy.spatial.distance', scipy.spatial.distance, dict(mahalanobis=scipy_mahalanobis))
    SP = types.ModuleType('scipy.spatial')
    SP.distance = SD
    N.__dict__['linalg'] = NL
    N.__dict__['random'] = NR
    SC.__dict__['linalg'] = SL
    SC.__dict__['stats'] = SS
    SC.__dict__['ndimage'] = ND
    SC.__dict__['spatial'] = SP
    ND.__dict__['filters'] = NDF
    ND.__dict__['interpolation'] = NDI
    SHIMS.update({
        'numpy': N, 'numpy.linalg': NL, 'numpy.random': NR, 'scipy': SC, 'scipy.linalg': SL,
        'scipy.stats': SS, 'scipy.ndimage': ND, 'scipy.ndimage.filters': NDF,
        'scipy.ndimage.interpolation': NDI, 'scipy.spatial': SP, 'scipy.spatial.distance': SD,
        'math': make_math(), 'random': PR,
    })
    return SHIMS


def make_builtins():
    d = dict(builtins.__dict__)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in SHIMS:
            if fromlist:
                return SHIMS[name]
            return SHIMS[name.split('.')[0]]
        return real_import(name, globals, locals, fromlist, level)
    d['__import__'] = imp
    d['float'] = S_float
    d['int'] = S_int
    d['isinstance'] = b_isinstance
    d['sum'] = b_sum
    d['round'] = b_round
    return d


class Finder(object):
    """loads filterpy's unmodified source with the shimmed builtins"""

    def __init__(self, root='/repo'):
        self.root = root
        self.b = make_builtins()
        self.loaded = []

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'filterpy' and not fullname.startswith('filterpy.'):
            return None
        import importlib.util
        import os
        base = os.path.join(self.root, *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return importlib.util.spec_from_file_location(
                fullname, os.path.join(base, '__init__.py'), loader=_Loader(self, os.path.join(base, '__init__.py')),
                submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(fullname, base + '.py',
                                                          loader=_Loader(self, base + '.py'))
        return None


class _Loader(object):
    def __init__(self, finder, path):
        self.f = finder
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path, 'rb') as fh:
            src = fh.read()
        code = compile(src, self.path, 'exec')
        mod.__dict__['__builtins__'] = self.f.b
        self.f.loaded.append(self.path)
        exec(code, mod.__dict__)


def load(root='/repo'):
    import sys
    if not SHIMS:
        install()
    for m in [m for m in sys.modules if m == 'filterpy' or m.startswith('filterpy.')]:
        del sys.modules[m]
    f = Finder(root)
    sys.meta_path.insert(0, f)
    return f
