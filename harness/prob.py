"""Gaussian arithmetic, densities and distances, shared helpers."""
from fractions import Fraction
from engine.registry import harness
from harness._common import snap, scribble, kf_model


def st(E):
    return E.fp('stats')


# ---------------------------------------------------------------- C32 Gaussian arithmetic

def g1(E, k):
    return E.real('m%s' % k), E.pos('v%s' % k)


@harness('C32', [{}], bounds='all means and positive variances')
def product_1d(E):
    s = st(E)
    (a, va), (b, vb), (c, vc) = g1(E, 'a'), g1(E, 'b'), g1(E, 'c')
    m, v = s.mul(a, va, b, vb)
    E.eq('precision', 1 / v, 1 / va + 1 / vb)
    E.eq('mean', m / v, a / va + b / vb)
    m2, v2 = s.mul(b, vb, a, va)
    E.eq('commutes mean', m, m2)
    E.eq('commutes variance', v, v2)
    E.le('narrower', v, va)
    l = s.mul(*s.mul(a, va, b, vb), c, vc)
    r = s.mul(a, va, *s.mul(b, vb, c, vc))
    E.eq('associates mean', l[0], r[0])
    E.eq('associates variance', l[1], r[1])


@harness('C32', [{}], bounds='all means and positive variances, product density at every point')
def product_pdf(E):
    s = st(E)
    (a, va), (b, vb) = g1(E, 'a'), g1(E, 'b')
    m, v, S = s.mul_pdf(a, va, b, vb)
    mu, w = s.mul(a, va, b, vb)
    E.eq('mean', m, mu)
    E.eq('variance', v, w)
    t, x = va + vb, E.real('x')
    q = -(a - b) * (a - b) / (2 * t)
    E.eq('scale', S, E.math.exp(q) / E.math.sqrt(2 * E.math.pi * t))
    # N(x; a, va) N(x; b, vb) = S N(x; m, v): the exponents and the factors in front agree
    E.eq('exponents', -(x - a) * (x - a) / (2 * va) - (x - b) * (x - b) / (2 * vb), q - (x - m) * (x - m) / (2 * v))
    E.eq('factors', va * vb, t * v)


@harness('C32', [{}], bounds='all means and positive variances')
def sum_1d(E):
    s = st(E)
    (a, va), (b, vb), (c, vc) = g1(E, 'a'), g1(E, 'b'), g1(E, 'c')
    m, v = s.add(a, va, b, vb)
    E.eq('mean', m, a + b)
    E.eq('variance', v, va + vb)
    l, r = s.add(m, v, c, vc), s.add(a, va, *s.add(b, vb, c, vc))
    E.eq('associates mean', l[0], r[0])
    E.eq('associates variance', l[1], r[1])


@harness('C32', [dict(n=1, form='array'), dict(n=2, form='array'), dict(n=2, form='col'), dict(n=2, form='list'), dict(n=1, form='scalar')],
         [dict(n=3, form='array')], bounds='1-2 dimensions (3 thorough), vector, column, list and scalar arguments', query_ms=60000)
def product_nd(E, n, form):
    s = st(E)
    if form == 'scalar':
        (a, va), (b, vb) = g1(E, 'a'), g1(E, 'b')
        E.raises('needs matrices', Exception, s.multivariate_multiply, a, va, b, vb)
        return
    ma, mb = (E.col('a', n), E.col('b', n)) if form == 'col' else (E.vec('a', n), E.vec('b', n))
    A, B = E.psd('A', n), E.psd('B', n)
    args = [ma, A, mb, B]
    if form == 'list':
        args = [a.tolist() for a in args]
    held = snap(E, ma, A, mb, B)
    m, V = s.multivariate_multiply(*args)
    E.check('mean shape', E.shape(m) == E.shape(ma))
    # V = A (A+B)^-1 B, stated without the inverse, and the precision weighted mean
    G = E.linalg.inv(A + B)
    E.hint(A + B)
    E.eq('covariance', V, E.dot(A, G, B))
    AI, BI = E.linalg.inv(A), E.linalg.inv(B)
    if n < 3:
        E.eq('precision', E.dot(AI + BI, V), E.np.eye(n))
    E.eq('symmetric', V, V.T)
    E.eq('mean', E.dot(AI + BI, m), E.dot(AI, ma) + E.dot(BI, mb))
    m2, V2 = s.multivariate_multiply(mb, B, ma, A)
    E.eq('commutes mean', m2, m)
    E.eq('commutes covariance', V2, V)
    E.same_inputs('arguments', held)


# ---------------------------------------------------------------- C33 densities and distances

def quad(E, d, S, n):
    d = d.reshape(n, 1)
    return E.dot(d.T, E.linalg.inv(S), d)[0, 0]


def logdens(E, q, det, n):
    return -(n * E.math.log(2 * E.math.pi) + E.math.log(det) + q) / 2


@harness('C33', [{}], bounds='all points, means and positive variances')
def gaussian_1d(E):
    s = st(E)
    x, m, v = E.real('x'), E.real('m'), E.pos('v')
    E.eq('density', s.gaussian(x, m, v), E.math.exp(-(x - m) * (x - m) / (2 * v)) / E.math.sqrt(2 * E.math.pi * v))


@harness('C33', [dict(n=n, form=f, normed=r) for n in (1, 2, 3) for f in ('array', 'list') for r in (True, False)],
         bounds='1-3 points at once, normalised or not')
def gaussian_many(E, n, form, normed):
    s = st(E)
    x, m, v = E.vec('x', n), E.real('m'), E.pos('v')
    held = snap(E, x)
    r = s.gaussian(x.tolist() if form == 'list' else x, m, v, normed=normed)
    e = [E.math.exp(-(x[i] - m) * (x[i] - m) / (2 * v)) / E.math.sqrt(2 * E.math.pi * v) for i in range(n)]
    E.check('shape', E.shape(r) == (n,))
    for i in range(n):
        E.eq('density%d' % i, r[i], e[i] / sum(e) if normed else e[i])
    E.same_inputs('x', held)


FORMS = [dict(n=n, form=f) for n in (1, 2) for f in ('array', 'list', 'col')] + [dict(n=1, form='scalar'), dict(n=2, form='scalarcov')]


def pair(E, n, form):
    x, m, S = E.vec('x', n), E.vec('m', n), E.psd('S', n)
    if form == 'scalarcov':
        v = E.pos('v')
        return (x, m, v), x - m, v * E.np.eye(n)
    d = x - m
    if form == 'list':
        return (x.tolist(), m.tolist(), S.tolist()), d, S
    if form == 'col':
        return (E.copy(x).reshape(n, 1), E.copy(m).reshape(n, 1), S), d, S
    if form == 'scalar':
        return (x[0], m[0], S[0, 0]), d, S
    return (x, m, S), d, S


@harness('C33', [f for f in FORMS if f['form'] != 'scalarcov'] + [dict(n=3, form='array')],
         [dict(n=4, form='array')],
         bounds='1-2 dimensions and 3 (4 thorough); scalar, list, vector, column arguments')
def mahalanobis_distance(E, n, form):
    a, d, S = pair(E, n, form)
    held = snap(E, *a)
    r = st(E).mahalanobis(*a)
    E.eq('squared', r * r, quad(E, d, S, n))
    E.le('nonnegative', 0, r)
    E.same_inputs('arguments', held)


@harness('C33', [dict(n=1, m=2), dict(n=2, m=1), dict(n=2, m=3)], bounds='mismatched sizes 1-3')
def mahalanobis_rejects(E, n, m):
    E.raises('different lengths', ValueError, st(E).mahalanobis, E.vec('x', n), E.vec('m', m), E.np.eye(n))


@harness('C33', FORMS + [dict(n=3, form='array')],
         [dict(n=4, form='array')], bounds='1-2 dimensions and 3 (4 thorough); scalar, list, vector, column arguments')
def log_density(E, n, form):
    a, d, S = pair(E, n, form)
    if form == 'list':
        a = (a[0], a[1], S)
    held = snap(E, *a)
    r = st(E).logpdf(*a)
    E.eq('log density', r, logdens(E, quad(E, d, S, n), E.linalg.det(S), n))
    E.same_inputs('arguments', held)


@harness('C33', [dict(n=1), dict(n=2)], bounds='zero mean by default, 1-2 dimensions')
def log_density_zero_mean(E, n):
    x, S = E.vec('x', n), E.psd('S', n)
    E.eq('log density', st(E).logpdf(x, cov=S), logdens(E, quad(E, x, S, n), E.linalg.det(S), n))


@harness('C33', FORMS, bounds='1-2 dimensions; scalar, list, vector, column arguments')
def multivariate(E, n, form):
    a, d, S = pair(E, n, form)
    held = snap(E, *a)
    r = st(E).multivariate_gaussian(*a)
    E.eq('log of the density', E.math.log(r), logdens(E, quad(E, d, S, n), E.linalg.det(S), n))
    E.same_inputs('arguments', held)


@harness('C33', [dict(n=1, m=1), dict(n=2, m=1), dict(n=2, m=2)] + [dict(n=3, m=1)],
         [dict(n=4, m=1)],
         bounds='state 1-3 (4 thorough), measurement 1-2', query_ms=60000)
def measurement_likelihood(E, n, m):
    z, x, P, H, R = E.col('z', m), E.col('x', n), E.psd('P', n), E.mat('H', m, n), E.psd('R', m)
    held = snap(E, z, x, P, H, R)
    S = E.dot(H, P, H.T) + R
    want = logdens(E, quad(E, z - E.dot(H, x), S, m), E.linalg.det(S), m)
    s = st(E)
    r = s.log_likelihood(z, x, P, H, R)
    E.eq('log likelihood', r, want)
    E.eq('likelihood', s.likelihood(z, x, P, H, R), E.math.exp(r))
    E.same_inputs('arguments', held)


@harness('C33', [dict(T=t, n=n, form=f) for t, n in ((1, 1), (3, 1), (1, 2), (2, 2)) for f in ('array', 'list', 'col')] + [dict(T=4, n=3, form='array')],
         [dict(T=10, n=3, form='array')],
         bounds='1-4 samples (10 thorough), 1-3 dimensions')
def nees(E, T, n, form):
    xs, es, ps = E.mat('x', T, n), E.mat('e', T, n), [E.psd('P%d' % k, n) for k in range(T)]
    a = (xs, es, ps)
    if form == 'list':
        a = ([xs[k] for k in range(T)], [es[k] for k in range(T)], ps)
    if form == 'col':
        a = (E.copy(xs).reshape(T, n, 1), E.copy(es).reshape(T, n, 1), ps)
    held = snap(E, xs, es, *ps)
    r = st(E).NEES(*a)
    E.check('count', len(r) == T)
    for k in range(T):
        E.eqv('error%d' % k, r[k] if form != 'col' else r[k][0, 0], quad(E, xs[k] - es[k], ps[k], n))
    E.same_inputs('arguments', held)


@harness('C33', [dict(kind=k, dev=d) for k in ('full', 'diag', 'round') for d in (False, True)], bounds='every 2x2 positive definite covariance')
def ellipse(E, kind, dev):
    if kind == 'full':
        P = E.psd('P', 2)
        E.assume(P[0, 1] != 0)
    elif kind == 'diag':
        P = E.np.zeros((2, 2))
        P[0, 0], P[1, 1] = E.pos('a'), E.pos('b')
    else:
        P = E.np.zeros((2, 2))
        P[0, 0] = P[1, 1] = E.pos('a')
    held = snap(E, P)
    k = E.pos('k') if dev else E.num(1)
    t, w, h = st(E).covariance_ellipse(P, k) if dev else st(E).covariance_ellipse(P)
    E.le('major axis first', h, w)
    c, s = E.math.cos(t), E.math.sin(t)
    a, b = w * w / (k * k), h * h / (k * k)
    E.eq('xx', a * c * c + b * s * s, P[0, 0])
    E.eq('xy', (a - b) * c * s, P[0, 1])
    E.eq('yy', a * s * s + b * c * c, P[1, 1])
    E.same_inputs('P', held)


@harness('C33', [dict(std=s) for s in (False, True)], bounds='all intervals, means, variances')
def interval_probability(E, std):
    s = st(E)
    a, b, m, v = E.real('a'), E.real('b'), E.real('m'), E.pos('v')
    sd = E.pos('sd') if std else E.math.sqrt(v)
    r = s.norm_cdf((a, b), m, v, sd) if std else s.norm_cdf((a, b), m, v)
    c = E.stats.norm.cdf
    d = c(b, loc=m, scale=sd) - c(a, loc=m, scale=sd)
    E.eq('squared', r * r, d * d)
    E.le('nonnegative', 0, r)


@harness('C33', [dict(df=k) for k in (1, 2, 3, 5, 10)] + [dict(df=30)],
         [dict(df=100)], bounds='1-30 degrees of freedom (100 thorough), every value of the draws')
def student(E, df):
    mu, sd = E.real('mu'), E.pos('sd')
    t = st(E).rand_student_t(df, mu, sd)
    g, chi = E.randvar('rnd0', 'n'), 2 * E.randvar('gamma0', 'g')
    E.eq('gamma shape', E.num(E.gamma_shapes()[0]), E.num(Fraction(df, 2)))
    d = t - mu
    E.eq('normal over root mean chi-squared', d * d * chi, sd * sd * g * g * df)
    E.check('sign', d * g >= 0)


# ---------------------------------------------------------------- C34 helpers

@harness('C34', [dict(m=m, form=f, nd=d) for m in (1, 2, 3) for f in ('list', '1d', 'col', 'row', 'scalar', 'nested') for d in (0, 1, 2)
                 if (f != 'scalar' or m == 1) and (d != 0 or m == 1)], bounds='sizes 1-3, every accepted form, target dimensions 0-2')
def reshape(E, m, form, nd):
    v = E.vec('z', m)
    z = {'list': lambda: v.tolist(), '1d': lambda: v, 'col': lambda: E.copy(v).reshape(m, 1), 'row': lambda: E.copy(v).reshape(1, m),
         'scalar': lambda: v[0], 'nested': lambda: [[v[i]] for i in range(m)]}[form]()
    held = snap(E, z)
    r = E.fp('common').reshape_z(z, m, nd)
    if nd == 2:
        E.check('shape', E.shape(r) == (m, 1))
        for i in range(m):
            E.eq('entry%d' % i, r[i, 0], v[i])
    elif nd == 1:
        E.check('shape', E.shape(r) == (m,))
        for i in range(m):
            E.eq('entry%d' % i, r[i], v[i])
    else:
        E.check('scalar', E.isnum(r))
        E.eqv('value', r, v[0])
    E.same_inputs('z', held)


@harness('C34', [dict(m=m, shape=s) for m, s in ((1, (2,)), (2, (1,)), (2, (3,)), (3, (2, 1)), (2, (2, 2)), (1, (2, 2)), (3, (1, 2)), (2, (2, 3)), (1, (3, 1)))],
         bounds='shapes that do not fit sizes 1-3')
def reshape_rejects(E, m, shape):
    z = E.vec('z', shape[0]) if len(shape) == 1 else E.mat('z', *shape)
    for nd in (1, 2):
        E.raises('rejected%d' % nd, ValueError, E.fp('common').reshape_z, z, m, nd)


@harness('C34', [dict(n=n, form=f) for n in (1, 2, 4) for f in ('array', 'list', 'full', 'int')], bounds='sizes 1-4')
def diagonal_inverse(E, n, form):
    S = E.np.zeros((n, n))
    for i in range(n):
        S[i, i] = E.pos('s%d' % i)
    if form == 'full':       # only the diagonal is looked at
        S = E.psd('S', n)
    if form == 'int':
        import numpy
        S = numpy.array([[(i + 2) if i == j else 0 for j in range(n)] for i in range(n)])
    held = snap(E, S)
    r = E.fp('common').inv_diagonal(S.tolist() if form == 'list' else S)
    E.check('shape', E.shape(r) == (n, n))
    for i in range(n):
        for j in range(n):
            E.eq('entry%d%d' % (i, j), r[i, j] * int(S[i, j]) if form == 'int' and i == j else r[i, j] * S[i, j] if i == j else r[i, j],
                 E.num(1 if i == j else 0))
    E.same_inputs('S', held)


@harness('C34', [dict(shape=s) for s in ((2,), (2, 3), (1, 2), (3, 1))], bounds='shapes that are not square')
def diagonal_rejects(E, shape):
    E.raises('rejected', ValueError, E.fp('common').inv_diagonal, E.np.zeros(shape))


@harness('C34', [dict(k=k, n=n, m=m) for k, n, m in ((1, 1, 0), (1, 2, 0), (3, 2, 0), (2, 2, 2), (2, 1, 3), (3, 3, 2))], bounds='1-3 vectors of size 1-3')
def outer_sum(E, k, n, m):
    A, B = E.mat('A', k, n), E.mat('B', k, m) if m else None
    held = snap(E, A, B)
    r = E.fp('common').outer_product_sum(A, B) if m else E.fp('common').outer_product_sum(A)
    E.eq('sum', r, E.dot(A.T, B if m else A))
    E.same_inputs('arguments', held)


@harness('C34', [dict(kind=k) for k in ('cubic', 'linear', 'vector', 'general')], bounds='y\' = cubic in x; y\' = c y; 2-vector linear system; y\' = a y^2 + b x y + c')
def rk4(E, kind):
    f = E.fp('common').runge_kutta4
    x, h = E.real('x'), E.real('h')
    if kind == 'cubic':
        y, c = E.real('y'), [E.real('c%d' % i) for i in range(4)]
        F = lambda t: sum(c[i] * t ** (i + 1) / (i + 1) for i in range(4))
        E.eq('exact', f(y, x, h, lambda y_, t: sum(c[i] * t ** i for i in range(4)) + 0 * y_), y + F(x + h) - F(x))
    elif kind == 'linear':
        y, c = E.real('y'), E.real('c')
        q = c * h
        E.eq('growth', f(y, x, h, lambda y_, t: c * y_), y * (1 + q + q ** 2 / 2 + q ** 3 / 6 + q ** 4 / 24))
    elif kind == 'vector':
        y, A = E.vec('y', 2), E.mat('A', 2, 2)
        held = snap(E, y)
        r = f(y, x, h, lambda y_, t: E.dot(A, y_))
        T, R = E.np.eye(2), E.np.eye(2)
        for k in range(1, 5):
            T = E.dot(T, A) * h / k
            R = R + T
        E.eq('exponential to fourth order', r, E.dot(R, y))
        E.same_inputs('y', held)
    else:
        y, a, b, c = E.real('y'), E.real('a'), E.real('b'), E.real('c')
        g = lambda y_, t: a * y_ * y_ + b * t * y_ + c
        k1 = h * g(y, x)
        k2 = h * g(y + k1 / 2, x + h / 2)
        k3 = h * g(y + k2 / 2, x + h / 2)
        k4 = h * g(y + k3, x + h)
        E.eq('step', f(y, x, h, g), y + (k1 + 2 * k2 + 2 * k3 + k4) / 6)


class Tracked(object):
    """what Saver is given: attributes and a property that exposes one of them"""

    def __init__(self, x, P):
        self.x, self.P, self._hidden, self.steps = x, P, x[0], []
        self.fn = len
        self.nested = {'row': [x.copy()], 'own': P.copy()}

    @property
    def view(self):
        return self._x2 if hasattr(self, '_x2') else self.P

    @property
    def total(self):
        return self.x[0] + self.x[1]


@harness('C34', [dict(order=o, cur=c, private=p, fn=f) for o in ('s', 'cs', 'scs', 'sscsc') for c in (False, True) for p in (False, True) for f in (False, True)],
         bounds='up to three saves interleaved with changes in place (c) of every saved object; all option combinations')
def saver(E, order, cur, private, fn):
    o = Tracked(E.vec('x', 2), E.mat('P', 2, 2))
    s = E.fp('common').Saver(o, save_current=cur, skip_private=private, skip_callable=fn, ignore=('steps',))
    want = []

    def record():
        want.append((E.copy(o.x), E.copy(o.P), o.total, o._hidden, E.copy(o.nested['row'][0]), E.copy(o.nested['own'])))
    if cur:
        record()
    n = 0
    for c in order:
        if c == 's':
            s.save()
            record()
        else:
            scribble(E, o.x)
            scribble(E, o.P)
            scribble(E, o.nested['row'][0])
            scribble(E, o.nested['own'])
            o._hidden = E.real('h%d' % n)
            o.steps.append(n)
            n += 1
    scribble(E, o.x)
    scribble(E, o.P)
    E.check('length', len(s) == len(want))
    for k, (x, P, t, h, r, q) in enumerate(want):
        E.eq('nested list%d' % k, s.nested[k]['row'][0], r)
        E.eq('nested dict%d' % k, s.nested[k]['own'], q)
        E.eq('x%d' % k, s.x[k], x)
        E.eq('P%d' % k, s['P'][k], P)
        E.eq('property that returns an attribute%d' % k, s.view[k], P)
        E.eq('property%d' % k, s.total[k], t)
        if not private:
            E.eq('private%d' % k, s['_hidden'][k], h)
    if want:
        keys = s.keys
        E.check('keys', 'x' in keys and 'total' in keys and 'steps' not in keys)
        E.check('private kept', ('_hidden' in keys) == (not private))
        E.check('callable kept', ('fn' in keys) == (not fn))
        s.to_array()
        E.eq('array', s.x, E.np.array([w[0] for w in want]))


@harness('C34', [dict(cls=c, order=o) for c in ('KalmanFilter', 'ExtendedKalmanFilter', 'InformationFilter', 'SquareRootKalmanFilter') for o in ('pusm', 'pusmpusm')],
         bounds='real filters (dim_x 2, dim_z 1), two cycles of predict, update, save and changes in place')
def saver_filters(E, cls, order):
    f = getattr(E.fp('kalman'), cls)(2, 1)
    f.x, f.F = E.col('x', 2), E.mat('F', 2, 2)
    H = E.mat('H', 1, 2)
    if cls == 'InformationFilter':
        f.F = E.array([[1, E.real('dt')], [0, 1]])
    if cls != 'ExtendedKalmanFilter':
        f.H = H
    s = E.fp('common').Saver(f)
    names = [k for k in ('x', 'P', 'F', 'Q', 'R', 'H', 'y', 'K', 'S', 'x_prior', 'P_prior', 'x_post', 'P_post', 'P_inv', 'likelihood', 'log_likelihood', 'mahalanobis')
             if hasattr(f, k)]
    want = []
    for k, c in enumerate(order):
        if c == 'p':
            f.predict()
        elif c == 'u':
            z = E.col('z%d' % k, 1)
            f.update(z, lambda x: H, lambda x: E.dot(H, x)) if cls == 'ExtendedKalmanFilter' else f.update(z)
        elif c == 's':
            s.save()
            want.append([(a, E.copy(getattr(f, a))) for a in names])
        else:
            for a in ('x', 'F', 'x_prior', 'x_post', 'K', 'y'):
                if hasattr(f, a):
                    scribble(E, getattr(f, a))
            f.x = E.col('x%d' % k, 2)
            setattr(f, 'P_inv' if cls == 'InformationFilter' else 'P', E.np.eye(2))
            f.F = E.array([[1, E.real('dt%d' % k)], [0, 1]])
    for k, rec in enumerate(want):
        for a, v in rec:
            E.eqv('%s%d' % (a, k), s[a][k], v)


@harness('C34', [dict(cls=c) for c in ('KalmanFilter', 'InformationFilter', 'SquareRootKalmanFilter', 'FadingKalmanFilter')], bounds='two filters of one class, dim_x 2, dim_z 1')
def copied_states(E, cls):
    C, h = getattr(E.fp('kalman'), cls), E.fp('common')
    mk = lambda: C(1.1, 2, 1) if cls == 'FadingKalmanFilter' else C(2, 1)
    src, dst = mk(), mk()
    names = ['x', 'F', 'H', 'Q']
    src.x, src.F, src.H, src.Q = E.col('x', 2), E.mat('F', 2, 2), E.mat('H', 1, 2), E.psd('Q', 2)
    src.update(E.col('z', 1))
    h.copy_states(dst, src)
    want = [E.copy(getattr(src, a)) for a in names]
    for a, w in zip(names, want):
        E.eq(a, getattr(dst, a), w)
    for a in names:
        scribble(E, getattr(src, a))
    for a, w in zip(names, want):
        E.eq('independent ' + a, getattr(dst, a), w)


@harness('C34', [dict(attr=a, d=d) for a in ('x', 'P', 'F', 'H', 'z', '') for d in (1, -2)], bounds='KalmanFilters (2, 1) that differ in one attribute by 1 or -2')
def compared(E, attr, d):
    K, h = E.fp('kalman').KalmanFilter, E.fp('common')
    a, b = K(2, 1), K(2, 1)
    x, F = E.col('x', 2, lo=-3, hi=3), E.mat('F', 2, 2, lo=-3, hi=3)
    for f in (a, b):
        f.x, f.F = E.copy(x), E.copy(F)
    if attr == 'z':
        b.z = E.array([[d]])
    elif attr:
        w = E.copy(getattr(b, attr))
        w[0, 0] = w[0, 0] + d
        setattr(b, attr, w)
    r = h.compare_kf(a, b, log=False)
    E.check('result', r == [attr] if attr else r is None)


class Nest(object):
    def __init__(self, a, b, **kw):
        self.hist, self.table = [a], {'k': [b], 'own': a.copy()}
        self.__dict__.update(kw)

    def parts(self):
        return [self.hist[0], self.table['k'][0], self.table['own']]


@harness('C34', [dict(m=m) for m in (1, 2)], bounds='objects that hold lists and dicts of arrays')
def copy_nested(E, m):
    src = Nest(E.vec('a', m), E.mat('b', m, m), only_src=1, both=E.real('v'))
    dst = Nest(E.vec('c', m), E.mat('d', m, m), only_dst=2, both=0)
    E.fp('common').helpers.copy_states(dst, src)
    want = [E.copy(v) for v in src.parts()]
    for k, (g, w) in enumerate(zip(dst.parts(), want)):
        E.eq('part%d' % k, g, w)
    E.eq('value', dst.both, src.both)
    E.check('only shared attributes', dst.only_dst == 2 and not hasattr(dst, 'only_src') and not hasattr(src, 'only_dst'))
    for v in src.parts():
        scribble(E, v)
    src.hist.append(1)
    src.table['new'] = 1
    E.check('containers are independent', len(dst.hist) == 1 and 'new' not in dst.table)
    for k, (g, w) in enumerate(zip(dst.parts(), want)):
        E.eq('independent part%d' % k, g, w)
