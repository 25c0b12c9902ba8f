"""Extended Kalman filter."""
from engine.registry import harness
from harness._common import state, update_ref, snap, scribble


def model(E, n, m, shape):
    """measurement function and Jacobian: arbitrary coefficients, nonlinear in x, with extra arguments"""
    H, g, J0, J1 = E.mat('h', m, n), E.mat('g', m, 1), E.mat('J', m, n), E.mat('K', m, n)

    def hx(x, *a):
        c = x.reshape(n, 1)
        r = E.dot(H, c) + g * (c[0, 0] * c[0, 0])
        for q in a:
            r = r + g * q
        return r if shape == 'col' else r.reshape(-1)

    def jac(x, *a):
        r = J0 + J1 * x.reshape(-1)[0]
        for q in a:
            r = r + J1 * q
        return r
    return hx, jac


def build(E, n, m, shape, nu=0):
    f = E.fp('kalman').ExtendedKalmanFilter(dim_x=n, dim_z=m, dim_u=nu)
    v = dict(x=state(E, 'x', n, shape), P=E.psd('P', n), Q=E.psd('Q', n), R=E.psd('R', m), F=E.mat('F', n, n))
    if nu:
        v['B'] = E.mat('B', n, nu)
    for k in v:
        setattr(f, k, E.copy(v[k]))
    return f, v


def check_update(E, f, x, P, hx, H, z, R, y=None):
    """x, z, hx columns or 1-D alike"""
    S = E.dot(H, P, H.T) + R
    K = E.dot(P, H.T, E.linalg.inv(S))
    y = z - hx if y is None else y
    A = E.np.eye(P.shape[0]) - E.dot(K, H)
    E.eq('S', f.S, S)
    E.eq('SI', f.SI, E.linalg.inv(S))
    E.eq('K', f.K, K)
    E.eq('y', f.y, y)
    E.eq('x', f.x, x + E.dot(K, y))
    E.eq('P', f.P, E.dot(A, P))
    E.eq('P symmetric', f.P, f.P.T)
    E.eq('x_post', f.x_post, f.x)
    E.eq('P_post', f.P_post, f.P)


UPD = [dict(n=n, m=m, shape=s, extra=e, over=o) for n, m in ((1, 1), (2, 1), (2, 2), (3, 1)) for s in ('col', '1d')
       for e, o in ((0, ''), (1, 'R'), (2, 'r'), (3, ''))]


@harness('C11', UPD, [dict(n=3, m=2, shape='col', extra=1, over='')],
         bounds='dim_x 1-3, dim_z 1-2; measurement functions with symbolic coefficients, quadratic in the state; '
                'extra = none / a bare argument / tuples; per-call R matrix or scalar')
def update(E, n, m, shape, extra, over):
    f, v = build(E, n, m, shape)
    hx, jac = model(E, n, m, shape)
    a, b, c = E.real('a'), E.real('b'), E.real('c')
    kw, ja, ha = {}, (), ()
    if extra == 1:
        kw, ja, ha = dict(args=a, hx_args=b), (a,), (b,)
    if extra == 2:
        kw, ja, ha = dict(args=(a,), hx_args=(b, c)), (a,), (b, c)
    if extra == 3:
        kw, ja, ha = dict(args=(a, b)), (a, b), ()
    R = v['R']
    if over == 'R':
        R = kw['R'] = E.psd('R2', m)
    if over == 'r':
        r = kw['R'] = E.pos('r')
        R = E.np.eye(m) * r
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    before = snap(E, z, kw.get('R'))
    f.update(z, jac, hx, **kw)
    E.same_inputs('args', before)
    check_update(E, f, v['x'], v['P'], hx(v['x'], *ha), jac(v['x'], *ja), z, R)
    E.eq('z', f.z, z)
    for k in ('F', 'Q', 'R'):
        E.eq('stored ' + k, getattr(f, k), v[k])


@harness('C11', [dict(n=2, m=2, shape='col'), dict(n=2, m=1, shape='1d'), dict(n=1, m=1, shape='col')],
         bounds='arbitrary affine residual function')
def residual(E, n, m, shape):
    f, v = build(E, n, m, shape)
    hx, jac = model(E, n, m, shape)
    p, q = E.real('p'), E.real('q')
    seen = []

    def res(a, b):
        seen.append((a, b))
        return a * p - b * q
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    f.update(z, jac, hx, residual=res)
    E.check('used', len(seen) >= 1)
    E.eq('first is the measurement', seen[0][0], z)
    h = hx(v['x'])
    E.eq('second is the prediction', seen[0][1], h)
    check_update(E, f, v['x'], v['P'], h, jac(v['x']), z, v['R'], z * p - h * q)


@harness('C11', [dict(n=1), dict(n=2), dict(n=3)], bounds='dim_z 1, plain number as measurement, 1-D measurement function')
def scalar_measurement(E, n):
    f, v = build(E, n, 1, '1d')
    hx, jac = model(E, n, 1, '1d')
    z = E.real('z')
    f.update(z, jac, hx)
    check_update(E, f, v['x'], v['P'], hx(v['x']), jac(v['x']), E.array([z]), v['R'])


@harness('C11', [dict(n=n, shape=s, nu=u) for n in (1, 2, 3) for s in ('col', '1d') for u in (0, 1, 2)],
         bounds='dim_x 1-3, dim_u 0-2')
def predict(E, n, shape, nu):
    f, v = build(E, n, 1, shape, nu)
    x = E.dot(v['F'], v['x'])
    if nu:
        u = E.col('u', nu) if shape == 'col' else E.vec('u', nu)
        f.predict(u)
        x = x + E.dot(v['B'], u)
    else:
        f.predict()
    P = E.dot(v['F'], v['P'], v['F'].T) + v['Q']
    E.eq('x', f.x, x)
    E.eq('P', f.P, P)
    E.eq('x_prior', f.x_prior, x)
    E.eq('P_prior', f.P_prior, P)
    scribble(E, f.x)
    scribble(E, f.P)
    E.eq('x_prior copy', f.x_prior, x)
    E.eq('P_prior copy', f.P_prior, P)


@harness('C11', [dict(n=n, m=m, shape=s, nu=u, extra=e) for n, m in ((1, 1), (2, 1), (2, 2)) for s in ('col', '1d')
                 for u, e in ((0, False), (1, True))] + [dict(n=2, m=1, shape='col', nu=1, extra=None)],
         bounds='dim_x 1-2, dim_z 1-2; extra=None: missing measurement', query_ms=40000)
def predict_update(E, n, m, shape, nu, extra):
    f, v = build(E, n, m, shape, nu)
    g, _ = build(E, n, m, shape, nu)
    hx, jac = model(E, n, m, shape)
    a, b = E.real('a'), E.real('b')
    kw = dict(args=a, hx_args=(b,)) if extra else {}
    z = None if extra is None else (E.col('z', m) if shape == 'col' else E.vec('z', m))
    u = {}
    if nu:
        u['u'] = E.col('u', nu) if shape == 'col' else E.vec('u', nu)
    f.predict_update(z, jac, hx, **dict(kw, **u))
    g.predict(**u)
    g.update(z, jac, hx, **kw)
    for k in ('x_prior', 'P_prior', 'S', 'K', 'y', 'x', 'P', 'x_post', 'P_post'):
        E.eq(k, getattr(f, k), getattr(g, k))


@harness('C11', [dict(n=n, m=m, shape=s) for n, m in ((1, 1), (2, 1), (2, 2), (3, 1)) for s in ('col', '1d')],
         bounds='linear measurement function: same as the linear filter')
def linear(E, n, m, shape):
    f, v = build(E, n, m, shape)
    k = E.fp('kalman').KalmanFilter(dim_x=n, dim_z=m)
    H = E.mat('H', m, n)
    for a in v:
        setattr(k, a, E.copy(v[a]))
    k.H = E.copy(H)
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    f.update(z, lambda x: H, lambda x: E.dot(H, x))
    k.update(z)
    for a in ('x', 'P', 'y', 'K', 'S', 'SI', 'log_likelihood'):
        E.eq(a, getattr(f, a), getattr(k, a))
