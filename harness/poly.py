"""g-h family, fading-memory polynomial filter, recursive least squares."""
from fractions import Fraction
from engine.registry import harness
from harness._common import snap, scribble


def value(E, name, form):
    return E.real(name) if form == 'scalar' else E.vec(name, 2)


# ---------------------------------------------------------------- C24 recursions

@harness('C24', [dict(form=f, over=o, steps=s) for f in ('scalar', 'vec') for o in ('', 'g', 'h', 'gh') for s in (1, 3)] + [dict(form='vec', over='gh', steps=8)],
         [dict(form='vec', over='gh', steps=30)], bounds='1-8 updates (30 thorough), scalar or 2-vector state, per-call g, h')
def gh_update(E, form, over, steps):
    x, dx, dt, g, h = value(E, 'x', form), value(E, 'dx', form), E.pos('dt'), E.real('g'), E.real('h')
    f = E.fp('gh').GHFilter(x=x, dx=dx, dt=dt, g=g, h=h)
    before = snap(E, x, dx)
    for k in range(steps):
        z, kw = value(E, 'z%d' % k, form), {}
        held = snap(E, z)
        gk, hk = g, h
        if 'g' in over and k != 1:
            gk = kw['g'] = E.real('g%d' % k)
        if 'h' in over and k != 1:
            hk = kw['h'] = E.real('h%d' % k)
        r = f.update(z, **kw)
        xp = x + dx * dt
        y = z - xp
        E.eq('dx_prediction%d' % k, f.dx_prediction, dx)
        E.eq('x_prediction%d' % k, f.x_prediction, xp)
        E.eq('y%d' % k, f.y, y)
        E.eq('z%d' % k, f.z, z)
        x, dx = xp + gk * y, dx + hk * y / dt
        E.eq('x%d' % k, f.x, x)
        E.eq('dx%d' % k, f.dx, dx)
        E.eq('returned x%d' % k, r[0], x)
        E.eq('returned dx%d' % k, r[1], dx)
        E.eq('g%d' % k, f.g, g)
        E.eq('h%d' % k, f.h, h)
        E.same_inputs('z%d' % k, held)
    E.same_inputs('initial', before)


@harness('C24', [dict(form=f, over=o, steps=s) for f in ('scalar', 'vec') for o in ('', 'g', 'h', 'k', 'ghk') for s in (1, 3)] + [dict(form='vec', over='ghk', steps=6)],
         [dict(form='vec', over='ghk', steps=12)], bounds='1-6 updates (12 thorough), scalar or 2-vector state, per-call g, h, k')
def ghk_update(E, form, over, steps):
    x, dx, ddx = value(E, 'x', form), value(E, 'dx', form), value(E, 'ddx', form)
    dt, g, h, k_ = E.pos('dt'), E.real('g'), E.real('h'), E.real('k')
    f = E.fp('gh').GHKFilter(x=x, dx=dx, ddx=ddx, dt=dt, g=g, h=h, k=k_)
    before = snap(E, x, dx, ddx)
    for k in range(steps):
        z, kw, gain = value(E, 'z%d' % k, form), {}, dict(g=g, h=h, k=k_)
        for c in over:
            if k != 1:
                gain[c] = kw[c] = E.real('%s%d' % (c, k))
        r = f.update(z, **kw)
        xp, dp = x + dx * dt + ddx * dt * dt / 2, dx + ddx * dt
        y = z - xp
        E.eq('ddx_prediction%d' % k, f.ddx_prediction, ddx)
        E.eq('dx_prediction%d' % k, f.dx_prediction, dp)
        E.eq('x_prediction%d' % k, f.x_prediction, xp)
        E.eq('y%d' % k, f.y, y)
        E.eq('z%d' % k, f.z, z)
        x, dx, ddx = xp + gain['g'] * y, dp + gain['h'] * y / dt, ddx + 2 * gain['k'] * y / (dt * dt)
        E.eq('x%d' % k, f.x, x)
        E.eq('dx%d' % k, f.dx, dx)
        E.eq('ddx%d' % k, f.ddx, ddx)
        E.eq('returned x%d' % k, r[0], x)
        E.eq('returned dx%d' % k, r[1], dx)
        for c, v in (('g', g), ('h', h), ('k', k_)):
            E.eq('%s%d' % (c, k), getattr(f, c), v)
    E.same_inputs('initial', before)


@harness('C24', [dict(kind=c, steps=s, saves=p, data=d) for c in ('gh', 'ghk') for s in (1, 3) for p in (False, True)
                 for d in ('list', 'array')] + [dict(kind='ghk', steps=8, saves=True, data='list')],
         [dict(kind='ghk', steps=30, saves=True, data='list')],
         bounds='batches of 1-8 measurements (30 thorough), with and without predictions')
def gh_batch(E, kind, steps, saves, data):
    m = E.fp('gh')
    dt, g, h, x, dx = E.pos('dt'), E.real('g'), E.real('h'), E.real('x'), E.real('dx')

    def make():
        if kind == 'gh':
            return m.GHFilter(x=x, dx=dx, dt=dt, g=g, h=h)
        return m.GHKFilter(x=x, dx=dx, ddx=E.real('ddx'), dt=dt, g=g, h=h, k=E.real('k'))
    f, t = make(), make()
    zs = [E.real('z%d' % k) for k in range(steps)]
    kw = dict(save_predictions=True) if saves else {}
    calls = []
    if kind == 'gh' and saves:
        class Saver(object):
            def save(self):
                calls.append(1)
        kw['saver'] = Saver()
    r = f.batch_filter(E.np.array(zs) if data == 'array' else zs, **kw)
    if saves:
        r, p = r
        E.check('predictions', E.shape(p) == (steps,))
    E.check('saves', len(calls) == (steps if 'saver' in kw else 0))
    E.check('shape', E.shape(r) == (steps + 1, 2))
    E.eq('first', r[0], E.np.array([x, dx]))
    for k in range(steps):
        t.update(zs[k])
        E.eq('row%d' % k, r[k + 1], E.np.array([t.x, t.dx]))
        if saves:
            E.eq('prediction%d' % k, p[k], t.x_prediction)
    o = make()
    for a in ('x', 'dx', 'ddx', 'y', 'z', 'x_prediction', 'dx_prediction', 'g', 'h', 'k', 'dt'):
        if hasattr(o, a):
            E.eq('unchanged ' + a, getattr(f, a), getattr(o, a))


@harness('C24', [dict(order=o, start=s, over=v) for o in (0, 1, 2) for s in ('scalar', 'vec', 'int') for v in (False, True)],
         bounds='orders 0-2, three updates, scalar, array and integer-array start, per-call gains')
def gh_order(E, order, start, over):
    m = E.fp('gh')
    dt, g, h, k_ = E.pos('dt'), E.real('g'), E.real('h'), E.real('k')
    if start == 'scalar':
        x0, v = E.real('x'), [E.real('x'), E.num(0), E.num(0)]
    elif start == 'int':
        import numpy
        x0, v = numpy.array([3, 2, -1][:order + 1]), [E.num(3), E.num(2), E.num(-1)]
    else:
        x0 = E.vec('x', order + 1)
        v = [x0[j] for j in range(order + 1)] + [E.num(0)] * 2
    before = snap(E, x0) if start != 'int' else []
    f = m.GHFilterOrder(x0, dt, order, g, *([h, k_][:order]))
    t = m.GHKFilter(v[0], v[1], v[2], dt, g, h if order else 0, k_ if order == 2 else 0)
    for k in range(3):
        z, kw = E.real('z%d' % k), {}
        if over and k != 1:
            for c in 'ghk'[:order + 1]:
                kw[c] = E.real('%s%d' % (c, k))
        f.update(z, **kw)
        if order == 0:
            t.dx = t.ddx = 0
        if order == 1:
            t.ddx = 0
        t.update(z, **kw)
        E.eq('x%d' % k, f.x, E.np.array([t.x, t.dx, t.ddx][:order + 1]))
        E.eqv('y%d' % k, f.y, t.y)
        E.eqv('z%d' % k, f.z, z)
    E.same_inputs('x0', before)
    for bad in (-1, 3):
        E.raises('order %d' % bad, ValueError, m.GHFilterOrder, 0., 1., bad, g)


# ---------------------------------------------------------------- C25 design helpers

def transition(E, make, n):
    """x' = A x + B z of the actual filter, obtained by running it on unit vectors"""
    cols = []
    for i in range(n):
        e = [E.num(1 if j == i else 0) for j in range(n)]
        cols.append(make(e, E.num(0)))
    B = make([E.num(0)] * n, E.num(1))
    return E.np.array([[cols[j][i] for j in range(n)] for i in range(n)]), E.np.array(B)


def gh_run(E, dt, g, h, k=None):
    m = E.fp('gh')

    def go(x, z):
        if k is None:
            f = m.GHFilter(x[0], x[1], dt, g, h)
            f.update(z)
            return [f.x, f.dx]
        f = m.GHKFilter(x[0], x[1], x[2], dt, g, h, k)
        f.update(z)
        return [f.x, f.dx, f.ddx]
    return go


def steady(E, A, B, d):
    """the covariance of x' = A x + B v (v of unit variance) with the reported diagonal d: the off-diagonal entries
    that make it stationary, and the remaining stationarity equations (to be zero)"""
    n = len(d)
    off = [(i, j) for i in range(n) for j in range(i)]

    def resid(P):
        return P - E.dot(A, P, A.T) - E.np.outer(B, B)

    def sym(vals):
        P = E.np.zeros((n, n))
        for (i, j), v in zip(off, vals):
            P[i, j] = v
            P[j, i] = v
        return P
    D = E.np.zeros((n, n))
    for i in range(n):
        D[i, i] = d[i]
    c = resid(D)
    u = []
    for q in range(len(off)):
        M = sym([E.num(1 if r == q else 0) for r in range(len(off))])
        u.append(M - E.dot(A, M, A.T))
    rows = [(i, i) for i in range(n)][:len(off)] if n == 3 else [(0, 0)]
    L = E.np.array([[u[q][r] for q in range(len(off))] for r in rows])
    w = E.linalg.inv(L)
    rhs = E.np.array([-c[r] for r in rows])
    P = D + sym(list(E.dot(w, rhs)))
    return P, resid(P)


@harness('C25', bounds='every g, h, dt', query_ms=60000)
def gh_vrf(E):
    dt, g, h = E.pos('dt'), E.real('g', lo=0, hi=1, strict=True), E.real('h', lo=0, hi=1, strict=True)
    f = E.fp('gh').GHFilter(0., 0., dt, g, h)
    A, B = transition(E, gh_run(E, dt, g, h), 2)
    P, r = steady(E, A, B, list(f.VRF()))
    E.eq('stationary', r, E.np.zeros((2, 2)))
    v = E.np.array([E.num(1), dt])
    E.eq('prediction', E.num(f.VRF_prediction()), E.dot(v, P, v))


@harness('C25', bounds='every g, h, k, dt', query_ms=60000)
def ghk_vrf(E):
    dt, g, h, k = E.pos('dt'), E.real('g', lo=0, hi=1, strict=True), E.real('h', lo=0, hi=1, strict=True), \
        E.real('k', lo=0, hi=1, strict=True)
    f = E.fp('gh').GHKFilter(0., 0., 0., dt, g, h, k)
    A, B = transition(E, gh_run(E, dt, g, h, k), 3)
    P, r = steady(E, A, B, list(f.VRF()))
    E.eq('stationary', r, E.np.zeros((3, 3)))
    v = E.np.array([E.num(1), dt, dt * dt / 2])
    E.eq('prediction', E.num(f.VRF_prediction()), E.dot(v, P, v))


@harness('C25', bounds='every g, h, k, dt and jerk')
def ghk_bias(E):
    dt, g, h, k, J = E.pos('dt'), E.pos('g'), E.pos('h'), E.pos('k'), E.real('J')
    f = E.fp('gh').GHKFilter(0., 0., 0., dt, g, h, k)
    b = f.bias_error(J)
    y = -b                        # residual at the steady bias
    # steady lag of the estimate behind the truth
    e2 = (h * y / dt - J * dt * dt / 2) / dt
    e1 = (g * y - J * dt * dt * dt / 6 - dt * dt / 2 * e2) / dt
    e0 = y - dt * e1 - dt * dt / 2 * e2 - J * dt * dt * dt / 6
    s = [E.real('s0'), E.real('s1'), E.real('s2')]
    f.x, f.dx, f.ddx = s[0] - e0, s[1] - e1, s[2] - e2
    t = [s[0] + s[1] * dt + s[2] * dt * dt / 2 + J * dt * dt * dt / 6, s[1] + s[2] * dt + J * dt * dt / 2, s[2] + J * dt]
    f.update(t[0])
    E.eq('bias of the prediction', f.x_prediction - t[0], b)
    for i, (a, e) in enumerate(((f.x, e0), (f.dx, e1), (f.ddx, e2))):
        E.eq('steady%d' % i, t[i] - a, e)


@harness('C25', [dict(order=o) for o in (2, 3)], bounds='every theta in [0,1] and dt')
def critical_damping(E, order):
    C = E.fp('gh.gh_filter').critical_damping_parameters
    th, dt = E.real('theta', lo=0, hi=1), E.pos('dt')
    p = C(th, order) if order == 3 else C(th)
    A, _ = transition(E, gh_run(E, dt, *p), order)
    M = A - th * E.np.eye(order)
    E.eq('poles', E.dot(*([M] * order)), E.np.zeros((order, order)))
    E.raises('theta', ValueError, C, -E.pos('d'))
    E.raises('theta', ValueError, C, 1 + E.pos('d'))
    E.raises('order', ValueError, C, th, 4)


@harness('C25', [dict(T=t) for t in (2, 3, 5)] + [dict(T=9)],
         [dict(T=30)], bounds='2-9 measurements (30 thorough), any start and dt')
def least_squares_gains(E, T):
    G = E.fp('gh.gh_filter').least_squares_parameters
    dt = E.pos('dt')
    f = E.fp('gh').GHFilter(E.real('x'), E.real('dx'), dt, 0., 0.)
    zs = []
    for k in range(T):
        g, h = G(k)
        z = E.real('z%d' % k)
        zs.append(z)
        f.update(z, g, h)
        if k:
            x = fit(E, zs, 1, dt)
            E.eq('x%d' % k, f.x, x[0])
            E.eq('dx%d' % k, f.dx, x[1])


@harness('C25', bounds='every g in (0,1)')
def design_formulas(E):
    m = E.fp('gh.gh_filter')
    g = E.real('g', lo=0, hi=1, strict=True)
    r = m.benedict_bornder_constants(g)
    E.eq('g', r[0], g)
    E.eq('Benedict-Bordner', r[1] * (2 - g), g * g)
    r = m.benedict_bornder_constants(g, critical=True)
    E.eq('g critical', r[0], g)
    q = 2 - g * g - r[1] * g * g / E.num(0.8)          # = 2 sqrt(1-g^2)
    E.check('critical sign', q >= 0)
    E.eq('critical', q * q, 4 * (1 - g * g))
    g2, h, k = m.optimal_noise_smoothing(g)
    E.eq('smoothing g', g2, g)
    E.eq('smoothing k', k * g, h * (2 - g) - g * g)
    w = 8 * (1 - g) * h - (2 * g * g * g - 4 * g * g)
    E.eq('smoothing h', w * w, 4 * g ** 6 - 64 * g ** 5 + 64 * g ** 4)


# ---------------------------------------------------------------- C26 fading memory polynomial filter

def fm(E, order, x):
    return E.fp('memory').FadingMemoryFilter(x, E.pos('dt'), order, E.real('beta', lo=0, hi=1, strict=True))


def taylor(x, dt):
    """polynomial state after dt"""
    n, out = len(x), []
    for i in range(n):
        t, f, v = 1, 1, x[i]
        for j in range(i + 1, n):
            t, f = t * dt, f * (j - i)
            v = v + x[j] * t / f
        out.append(v)
    return out


@harness('C26', [dict(order=o, start=s, steps=t) for o in (0, 1, 2) for s in ('scalar', 'vec', 'int') for t in (1, 3)] + [dict(order=2, start='vec', steps=6)],
         [dict(order=2, start='vec', steps=15)],
         bounds='orders 0-2, 1-6 updates (15 thorough), scalar, array and integer-array start; gains checked against the '
                'discounted least-squares gains')
def fading_update(E, order, start, steps):
    import numpy
    dt, b = E.pos('dt'), E.real('beta', lo=0, hi=1, strict=True)
    if start == 'scalar':
        x0, x = E.real('x'), [E.real('x')] + [E.num(0)] * order
    elif start == 'int':
        x0, x = numpy.array([3, 2, -1][:order + 1]), [E.num(v) for v in (3, 2, -1)][:order + 1]
    else:
        x0 = E.vec('x', order + 1)
        x = [x0[j] for j in range(order + 1)]
    before = snap(E, x0) if start == 'vec' else []
    f = fm(E, order, x0)
    gains = {0: [1 - b], 1: [1 - b * b, (1 - b) * (1 - b) / dt],
             2: [1 - b * b * b, (1 + b) * (1 - b) * (1 - b) * 3 / 2 / dt, (1 - b) * (1 - b) * (1 - b) / (dt * dt)]}[order]
    P, e = E.copy(f.P), E.copy(f.e)
    for k in range(steps):
        z = E.real('z%d' % k)
        f.update(z)
        p = taylor(x, dt)
        x = [p[i] + gains[i] * (z - p[0]) for i in range(order + 1)]
        E.eq('x%d' % k, f.x, E.np.array(x))
    E.eq('P constant', f.P, P)
    E.eq('e constant', f.e, e)
    E.same_inputs('x0', before)
    for bad in (-1, 3):
        E.raises('order %d' % bad, ValueError, fm, E, bad, E.num(0))


@harness('C26', [dict(order=o, steps=3) for o in (0, 1, 2)] + [dict(order=2, steps=8)],
         [dict(order=2, steps=20)],
         bounds='orders 0-2, 3-8 steps (20 thorough), every polynomial')
def fading_tracks(E, order, steps):
    s = E.vec('s', order + 1)
    f = fm(E, order, s)
    x = [s[j] for j in range(order + 1)]
    for k in range(steps):
        x = taylor(x, E.pos('dt'))
        f.update(x[0])
        E.eq('x%d' % k, f.x, E.np.array(x))


@harness('C26', [dict(order=o) for o in (0, 1, 2)], bounds='orders 0-2, every beta in (0,1) and dt', query_ms=60000)
def fading_variance(E, order):
    n = order + 1

    def go(x, z):
        f = fm(E, order, E.np.array(x))
        f.update(z)
        return [f.x[i] for i in range(n)]
    A, B = transition(E, go, n)
    f = fm(E, order, E.np.array([E.num(0)] * n))
    if order == 0:
        return E.eq('stationary', f.P[0], A[0, 0] * f.P[0] * A[0, 0] + B[0] * B[0])
    P, r = steady(E, A, B, [f.P[i] for i in range(n)])
    E.eq('stationary', r, E.np.zeros((n, n)))


@harness('C26', [dict(order=o) for o in (0, 1, 2)], bounds='orders 0-2, every beta in (0,1), dt and coefficient')
def fading_bias(E, order):
    n = order + 1
    a, dt = E.real('a'), E.pos('dt')
    fact = 1
    for j in range(1, n + 1):
        fact *= j
    s = [E.real('s%d' % i) for i in range(n)] + [a * fact]      # derivatives of the true polynomial
    e = E.copy(fm(E, order, E.num(0)).e)
    f = fm(E, order, E.np.array([s[i] - a * e[i] for i in range(n)]))
    t = taylor(s, dt)
    f.update(t[0])
    E.eq('steady error', E.np.array([t[i] - f.x[i] for i in range(n)]), a * e)


# ---------------------------------------------------------------- C27 recursive least squares

def fit_rows(n, order):
    """exact rows w_i: i-th derivative (per dt^i) at the last sample = sum_k w_i[k] z[k]; and the inverse normal matrix"""
    p = order + 1
    ts = [Fraction(k - (n - 1)) for k in range(n)]
    N = [[sum(t ** (i + j) for t in ts) for j in range(p)] for i in range(p)]
    M = [r[:] + [Fraction(int(i == j)) for j in range(p)] for i, r in enumerate(N)]
    for c in range(p):
        r = next(q for q in range(c, p) if M[q][c] != 0)
        M[c], M[r] = M[r], M[c]
        d = M[c][c]
        M[c] = [v / d for v in M[c]]
        for q in range(p):
            if q != c and M[q][c] != 0:
                m = M[q][c]
                M[q] = [a - m * b for a, b in zip(M[q], M[c])]
    inv = [r[p:] for r in M]
    f = [1, 1, 2]
    rows = [[f[i] * sum(inv[i][j] * t ** j for j in range(p)) for t in ts] for i in range(p)]
    var = [f[i] ** 2 * inv[i][i] for i in range(p)]
    return rows, var


def fit(E, zs, order, dt):
    rows, _ = fit_rows(len(zs), order)
    out, s = [], 1
    for r in rows:
        v = E.num(0)
        for c, z in zip(r, zs):
            v = v + z * E.num(c)
        out.append(v / s)
        s = s * dt
    return out


@harness('C27', [dict(order=o, T=t) for o in (0, 1, 2) for t in (1, 4, 7)] + [dict(order=o, T=15) for o in (0, 1, 2)],
         [dict(order=o, T=40) for o in (0, 1, 2)],
         bounds='orders 0-2, up to 15 measurements (40 thorough), twice with a reset in between')
def least_squares(E, order, T):
    dt, sg = E.pos('dt'), E.pos('sigma')
    f = E.fp('leastsq').LeastSquaresFilter(dt, order, sg)
    for rnd in range(2):
        zs = []
        E.eq('start x%d' % rnd, f.x, E.np.zeros(order + 1))
        E.check('start n%d' % rnd, f.n == 0)
        er, sd = f.errors()
        E.eq('start error%d' % rnd, er, E.np.zeros(order + 1))
        E.eq('start std%d' % rnd, sd, E.np.zeros(order + 1))
        for k in range(T):
            t = '%d.%d' % (rnd, k)
            z = E.real('z' + t)
            zs.append(z)
            xp = taylor([f.x[i] for i in range(order + 1)], dt)[0]
            r = f.update(z)
            E.check('n' + t, f.n == k + 1)
            E.eq('returned' + t, r, f.x)
            E.eqv('y' + t, f.y, z - xp)
            er, sd = f.errors()
            if k >= order:
                E.eq('x' + t, f.x, E.np.array(fit(E, zs, order, dt)))
                var = fit_rows(k + 1, order)[1]
                s = 1
                for i in range(order + 1):
                    for nm, v in (('error', er), ('std', sd)):
                        E.check('%s sign%s.%d' % (nm, t, i), v[i] >= 0)
                        E.eq('%s%s.%d' % (nm, t, i), v[i] * v[i], sg * sg * E.num(var[i]) / s)
                    s = s * dt * dt
        f.reset()
        E.eqv('reset y', f.y, E.num(0))
        E.eq('reset K', f.K, E.np.zeros(order + 1))
    for bad in (-1, 3):
        E.raises('order %d' % bad, ValueError, E.fp('leastsq').LeastSquaresFilter, dt, bad)
