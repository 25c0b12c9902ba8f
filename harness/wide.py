"""larger dimensions for the remaining properties: fixed rational model matrices, every state, control and measurement"""
from fractions import Fraction as Q_

from engine.registry import harness
from harness._common import snap, all_none, meas, as_state
from harness.long import build, cfull, cmat, cnum, cspd, croot, Ref
from harness.ukf import points, moments
from harness.prob import st, quad, logdens


def concrete(E, kind, n, m, nu, shape='col', v=0, scale=0):
    F, H, B = cfull(E, n, v), cmat(E, m, n, v), cmat(E, n, max(nu, 1), v + 2)
    Q, R, P = cspd(E, n, v + 1), cspd(E, m, v + 2), cspd(E, n, v)
    if scale:
        k = E.num(Q_(1, 10 ** -scale) if scale < 0 else Q_(10 ** scale))
        Q, R, P = k * Q, k * R, k * P
    x = E.col('x', n) if shape == 'col' else E.vec('x', n)
    f = build(E, kind, n, m, nu, F, H, P, Q, R, B, x, E.num(Q_(5, 4)))
    return f, dict(F=F, H=H, B=B, Q=Q, R=R, P=P, x=x)


@harness('C04', [dict(kind=k, n=n, m=m, shape=s) for k in ('KalmanFilter', 'FadingKalmanFilter', 'SquareRootKalmanFilter') for n, m in ((4, 2), (3, 3), (5, 1))
                 for s in (('col', '1d') if k == 'KalmanFilter' else ('col',)) if k[0] != 'S' or n == 4],
         bounds='dim_x 3-5, dim_z 1-3, 2 controls; asked twice, then the step itself')
def wide_queries(E, kind, n, m, shape):
    f, v = concrete(E, kind, n, m, 2, shape)
    if kind[0] == 'K':
        f.x_prior = E.copy(v['x'])          # residuals are those of the last prediction
    u, z, x1 = (E.col('u', 2), E.col('z', m), E.col('x1', n)) if shape == 'col' else (E.vec('u', 2), E.vec('z', m), E.vec('x1', n))
    names = [a for a in sorted(vars(f)) if getattr(vars(f)[a], 'shape', ())]
    was = [(a, E.copy(vars(f)[a])) for a in names if a != 'z']
    held = snap(E, u, z, x1)
    for r in range(2):
        E.eq('residual', f.residual_of(z), z - E.dot(v['H'], v['x']))
        E.eq('measurement', f.measurement_of_state(x1), E.dot(v['H'], x1))
        p = q = None
        if hasattr(f, 'get_prediction'):
            p = f.get_prediction(u)
        if hasattr(f, 'get_update'):
            q = f.get_update(z)
    for a, w in was:
        E.eq('unchanged ' + a, vars(f)[a], w)
    E.same_inputs('arguments', held)
    if q is not None:
        f.update(z)
        E.eq('x of the update', q[0], f.x)
        E.eq('P of the update', q[1], f.P)
        f.x, f.P = E.copy(v['x']), E.copy(v['P'])
    if isinstance(p, tuple):
        f.predict(u)
        E.eq('x of the prediction', p[0], f.x)
        E.eq('P of the prediction', p[1], f.P)


@harness('C08', [dict(n=n, part=p, order=o, shape=s) for n, p in ((4, [1, 2, 1]), (3, [2, 2]), (4, [1, 1, 1, 1]), (2, [3, 2])) for o in ('fwd', 'rev') for s in ('col', '1d')],
         bounds='sequential update in 2-4 pieces, dim_x 2-4, dim_z 4-5; block-diagonal noise')
def wide_sequential(E, n, part, order, shape):
    m = sum(part)
    f, v = concrete(E, 'KalmanFilter', n, m, 0, shape)
    R = E.np.zeros((m, m))
    at = [sum(part[:k]) for k in range(len(part))]
    for k, s in zip(at, part):
        R[k:k + s, k:k + s] = cspd(E, s, k)
    f.R = E.copy(R)
    z = E.col('z', m)
    own = z if shape == 'col' else z.reshape(-1)
    idx = list(range(len(part)))
    for k in (idx if order == 'fwd' else idx[::-1]):
        a, b = at[k], at[k] + part[k]
        f.update_sequential(a, own[a:b])
    ref = Ref(E, v['x'].reshape(n, 1), v['P'])
    ref.update(z, v['H'], R)
    E.eqv('x', f.x, ref.x)
    E.eq('P', f.P, ref.P)


@harness('C08', [dict(n=n, m=m, shape=s, zero=o) for n, m in ((4, 2), (3, 3), (5, 1)) for s in ('col', '1d') for o in (False, True)],
         bounds='correlated update, dim_x 3-5, dim_z 1-3')
def wide_correlated(E, n, m, shape, zero):
    f, v = concrete(E, 'KalmanFilter', n, m, 0, shape)
    M = E.np.zeros((n, m)) if zero else cmat(E, n, m, 5) / 8
    f.M = E.copy(M)
    z = E.col('z', m)
    f.update_correlated(z if shape == 'col' else z.reshape(-1))
    H, P, R = v['H'], v['P'], v['R']
    S = E.dot(H, P, H.T) + E.dot(H, M) + E.dot(M.T, H.T) + R
    C = E.dot(P, H.T) + M
    K = E.dot(C, E.linalg.inv(S))
    x = v['x'].reshape(n, 1)
    E.eqv('x', f.x, x + E.dot(K, z - E.dot(H, x)))
    E.eq('P', f.P, P - E.dot(K, C.T))


@harness('C08', [dict(n=n, m=m, shape=s) for n, m in ((4, 2), (3, 3), (5, 1)) for s in ('col', '1d')],
         bounds='twelve steady-state predictions and updates with a fixed gain, dim_x 3-5, dim_z 1-3')
def wide_steadystate(E, n, m, shape):
    f, v = concrete(E, 'KalmanFilter', n, m, 2, shape)
    K = cmat(E, n, m, 7) / 16
    f.K = E.copy(K)
    P = E.copy(v['P'])
    x = v['x'].reshape(n, 1)
    for k, c in enumerate('pupuNpuppuup'):
        if c == 'p':
            u = E.col('u%d' % k, 2)
            f.predict_steadystate(u if shape == 'col' else u.reshape(-1))
            x = E.dot(v['F'], x) + E.dot(v['B'], u)
        elif c == 'N':
            f.update_steadystate(None)
        else:
            z = E.col('z%d' % k, m)
            f.update_steadystate(z if shape == 'col' else z.reshape(-1))
            x = x + E.dot(K, z - E.dot(v['H'], x))
        E.eqv('x %d' % k, f.x, x)
        E.eq('P %d' % k, f.P, P)
        E.eq('K %d' % k, f.K, K)


@harness('C09', [dict(kind=k, n=n, m=m) for k in ('KalmanFilter', 'ExtendedKalmanFilter', 'UnscentedKalmanFilter', 'CubatureKalmanFilter', 'InformationFilter') for n, m in
                 ((4, 3), (3, 2), (1, 4), (2, 1)) if k[0] != 'I' or m == 1],
         bounds='three rounds, dim_x 1-4, dim_z 1-4; fixed covariances, every state and measurement')
def wide_likelihoods(E, kind, n, m):
    f, v = concrete(E, kind, n, m, 0)
    if kind[0] == 'U':
        f.x = v['x'].reshape(-1)
    H, R = v['H'], v['R']
    for k in range(3):
        x, P = E.col('x%d' % k, n), cspd(E, n, k)
        if kind[0] in 'UC':
            f.Q = E.copy(P)
            f.P = E.np.eye(n)
            flat = E.copy(x.reshape(-1))
            f.fx = lambda s, dt: flat
            f.predict()
        elif kind[0] == 'I':
            f.x, f.P_inv = E.copy(x), E.linalg.inv(P)
        else:
            f.x, f.P = E.copy(x), E.copy(P)
        z = E.col('z%d' % k, m)
        own = z.reshape(-1) if kind[0] == 'U' else z
        if kind[0] == 'E':
            f.update(own, lambda s: H, lambda s: E.dot(H, s))
        else:
            f.update(own)
        S = E.dot(H, P, H.T) + R
        y = z - E.dot(H, x)
        want = logdens(E, quad(E, y, S, m), E.linalg.det(S), m)
        E.eqv('residual %d' % k, f.y, y)
        E.eq('S %d' % k, f.S, S)
        E.eqv('log likelihood %d' % k, f.log_likelihood, want)
        E.eqv('likelihood %d' % k, f.likelihood, E.math.exp(want))
        if hasattr(type(f), 'mahalanobis'):
            E.eqv('mahalanobis %d' % k, f.mahalanobis * f.mahalanobis, quad(E, y, S, m))


@harness('C12', [dict(fam=f, n=n) for f in ('merwe', 'julier', 'simplex') for n in ((4, 5, 6) if f != 'simplex' else (3, 4))],
         bounds='dimension 3-6: every mean, a fixed covariance')
def wide_points(E, fam, n):
    p = points(E, fam, n)
    x, P = E.vec('x', n), cspd(E, n, 3)
    held = snap(E, x, P)
    for k in range(2):
        s = p.sigma_points(x, P)
        E.same_inputs('arguments', held)
        N = p.num_sigmas()
        E.check('count', E.shape(s) == (N, n) and E.shape(p.Wm) == (N,) and E.shape(p.Wc) == (N,))
        m, C = moments(E, s, p.Wm, p.Wc)
        E.eq('mean', m, x)
        E.eq('covariance', C, P)
        x, P = E.vec('y', n), cspd(E, n, 4)
        held += snap(E, x, P)


@harness('C13', [dict(N=N, n=n, noise=q, how=h) for N, n in ((11, 5), (7, 6), (4, 8), (12, 1)) for q in (False, True) for h in ('plain', 'subtract', 'custom')],
         bounds='4-12 points of dimension 1-8: every point and every weight of the mean, fixed weights of the covariance')
def wide_transform(E, N, n, noise, how):
    s, Wm, Wc = E.mat('s', N, n), E.vec('w', N), E.array([E.num(cnum(k, 2)) for k in range(N)])
    Q = cspd(E, n) if noise else None
    kw = dict(noise_cov=E.copy(Q)) if noise else {}
    if how == 'subtract':
        kw['residual_fn'] = E.np.subtract
    g = E.num(Q_(3, 2))
    if how == 'custom':
        kw.update(residual_fn=lambda a, b: g * (a - b), mean_fn=lambda sig, w: E.dot(w, sig) + sig[0])
    held = snap(E, s, Wm, Wc, kw.get('noise_cov'))
    x, P = E.fp('kalman').unscented_transform(s, Wm, Wc, **kw)
    E.same_inputs('arguments', held)
    mean = E.dot(Wm, s) + (s[0] if how == 'custom' else 0)
    E.eq('mean', x, mean)
    mean = x                    # and the covariance about it
    C = Q if noise else E.np.zeros((n, n))
    for k in range(N):
        d = (s[k] - mean) * (g if how == 'custom' else 1)
        C = C + Wc[k] * E.np.outer(d, d)
    E.eq('covariance', P, C)


@harness('C33', [dict(n=n, form=f) for n in (3, 4, 5) for f in ('array', 'list', 'col')], bounds='dimension 3-5, every point and mean, fixed covariances')
def wide_densities(E, n, form):
    s = st(E)
    x, m, S = E.vec('x', n), E.vec('m', n), cspd(E, n, 2)
    a = (x, m, S)
    if form == 'list':
        a = (x.tolist(), m.tolist(), S.tolist())
    if form == 'col':
        a = (E.copy(x).reshape(n, 1), E.copy(m).reshape(n, 1), S)
    held = snap(E, *a)
    q = quad(E, x - m, S, n)
    want = logdens(E, q, E.linalg.det(S), n)
    r = s.mahalanobis(*a)
    E.eq('mahalanobis squared', r * r, q)
    E.eq('log density', s.logpdf(a[0], a[1], S), want)
    E.eq('log of the density', E.math.log(s.multivariate_gaussian(*a)), want)
    E.same_inputs('arguments', held)


@harness('C33', [dict(n=n, m=m) for n, m in ((4, 3), (3, 1), (2, 4))], bounds='dim_x 2-4, dim_z 1-4')
def wide_measurement_likelihood(E, n, m):
    z, x, P, H, R = E.col('z', m), E.col('x', n), cspd(E, n), cmat(E, m, n), cspd(E, m, 2)
    S = E.dot(H, P, H.T) + R
    want = logdens(E, quad(E, z - E.dot(H, x), S, m), E.linalg.det(S), m)
    s = st(E)
    E.eq('log likelihood', s.log_likelihood(z, x, P, H, R), want)


@harness('C33', [dict(T=12, n=2, form=f) for f in ('array', 'list', 'col')] + [dict(T=5, n=4, form='array')], bounds='5-12 samples, dimension 2-4')
def wide_nees(E, T, n, form):
    xs, es, ps = E.mat('x', T, n), E.mat('e', T, n), [cspd(E, n, k) for k in range(T)]
    a = (xs, es, ps)
    if form == 'list':
        a = ([xs[k] for k in range(T)], [es[k] for k in range(T)], ps)
    if form == 'col':
        a = (E.copy(xs).reshape(T, n, 1), E.copy(es).reshape(T, n, 1), ps)
    r = st(E).NEES(*a)
    E.check('count', len(r) == T)
    for k in range(T):
        E.eqv('error%d' % k, r[k] if form != 'col' else r[k][0, 0], quad(E, xs[k] - es[k], ps[k], n))


@harness('C32', [dict(n=n, form=f) for n in (3, 4, 5) for f in ('vec', 'col', 'list')], bounds='dimension 3-5, every mean, fixed covariances')
def wide_product(E, n, form):
    s = st(E)
    a, b, A, B = E.vec('a', n), E.vec('b', n), cspd(E, n), cspd(E, n, 1)
    f = dict(vec=lambda v: v, col=lambda v: E.copy(v).reshape(n, 1), list=lambda v: v.tolist())[form]
    m, C = s.multivariate_multiply(f(a), A, f(b), B)
    S = E.linalg.inv(E.linalg.inv(A) + E.linalg.inv(B))
    E.eq('covariance', C, S)
    E.eqv('mean', m, E.dot(S, E.dot(E.linalg.inv(A), a) + E.dot(E.linalg.inv(B), b)))
    m2, C2 = s.multivariate_multiply(f(b), B, f(a), A)
    E.eqv('commutes', m, m2)
    E.eq('commutes P', C, C2)


@harness('C02', [dict(n=n, m=m, form=f, shape=s) for n, m in ((4, 3), (3, 4), (5, 2), (1, 5)) for f in ('col', '1d', 'row', 'list') for s in ('col', '1d')]
         + [dict(n=n, m=m, form='col', shape='col', scale=k) for n, m in ((1, 1), (2, 1), (2, 2), (4, 3), (3, 4)) for k in (-8, 8)],
         bounds='dim_x up to 5, dim_z up to 5; every measurement form; the gain and innovation attributes; covariances of the order of 1e-8 and 1e8')
def wide_update(E, n, m, form, shape, scale=0):
    f, v = concrete(E, 'KalmanFilter', n, m, 0, shape, scale=scale)
    z, zc = meas(E, 'z', m, form)
    held = snap(E, z)
    f.update(z)
    x, H, P, R = v['x'].reshape(n, 1), v['H'], v['P'], v['R']
    S = E.dot(H, P, H.T) + R
    K = E.dot(P, H.T, E.linalg.inv(S))
    y = zc - E.dot(H, x)
    E.eqv('y', f.y, y)
    E.eq('S', f.S, S)
    E.eq('SI', E.dot(f.SI, S), E.np.eye(m))
    E.eq('K', f.K, K)
    E.eq('x', f.x, as_state(E, x + E.dot(K, y), shape))
    E.eq('P', f.P, P - E.dot(K, S, K.T))
    E.eq('symmetric', f.P, f.P.T)
    E.same_inputs('measurement', held)


@harness('C01', [dict(n=n, nu=nu, shape=s, over=o) for n, nu in ((4, 1), (5, 3), (6, 2)) for s in ('col', '1d') for o in ('', 'F', 'B', 'FQB', 'Q')],
         bounds='dim_x 4-6, 1-3 controls; per-call matrices')
def wide_predict(E, n, nu, shape, over):
    f, v = concrete(E, 'KalmanFilter', n, 1, nu, shape)
    f.alpha = a = E.real('alpha', lo=1, hi=3)
    mk = dict(F=lambda: cfull(E, n, 4), Q=lambda: cspd(E, n, 5), B=lambda: cmat(E, n, nu, 6))
    kw = {o: mk[o]() for o in over}
    w = dict(v, **kw)
    u = E.col('u', nu) if shape == 'col' else E.vec('u', nu)
    held = snap(E, u, *list(kw.values()))
    f.predict(u, **kw)
    x = E.dot(w['F'], v['x'].reshape(n, 1)) + E.dot(w['B'], u.reshape(nu, 1))
    P = a * a * E.dot(w['F'], v['P'], w['F'].T) + w['Q']
    E.eq('x', f.x, as_state(E, x, shape))
    E.eq('P', f.P, P)
    E.eq('x_prior', f.x_prior, f.x)
    E.eq('P_prior', f.P_prior, P)
    for b in 'FQB':
        E.eq('stored ' + b, getattr(f, b), v[b])
    E.same_inputs('arguments', held)


@harness('C11', [dict(n=n, m=m) for n, m in ((4, 3), (3, 4), (5, 1))], bounds='dim_x 3-5, dim_z 1-4; quadratic measurement functions with fixed coefficients, two updates')
def wide_extended(E, n, m):
    f, v = concrete(E, 'ExtendedKalmanFilter', n, m, 0)
    A, b = v['H'], [E.num(cnum(k, 3)) for k in range(m)]

    def hx(s):
        return E.dot(A, s) + E.array([[b[i] * s[i % n, 0] * s[i % n, 0]] for i in range(m)])

    x, P = E.array([[E.num(cnum(k, 1))] for k in range(n)]), v['P']
    f.x = E.copy(x)
    for k in range(2):
        J = E.copy(A)
        for i in range(m):
            J[i, i % n] = J[i, i % n] + 2 * b[i] * x[i % n, 0]
        z = E.col('z%d' % k, m)
        f.update(z, lambda s: J, hx)
        S = E.dot(J, P, J.T) + v['R']
        K = E.dot(P, J.T, E.linalg.inv(S))
        E.eq('x %d' % k, f.x, x + E.dot(K, z - hx(x)))
        P = P - E.dot(K, S, K.T)
        E.eq('P %d' % k, f.P, P)
        x = E.array([[E.num(cnum(i, 5))] for i in range(n)])
        f.x = E.copy(x)


@harness('C03', [dict(kind=k, n=n, m=m) for k in ('KalmanFilter', 'ExtendedKalmanFilter', 'FadingKalmanFilter', 'InformationFilter', 'UnscentedKalmanFilter', 'CubatureKalmanFilter',
                                                  'SquareRootKalmanFilter') for n, m in ((4, 3), (1, 3), (5, 1)) if k[0] != 'S' or n < 5],
         bounds='dim_x up to 5, dim_z up to 3: twelve missing measurements between predictions')
def wide_missing(E, kind, n, m):
    f, v = concrete(E, kind, n, m, 0)
    if kind[0] == 'U':
        f.x = E.copy(v['x'].reshape(-1))
    names = ['x', 'P_inv' if kind[0] == 'I' else 'P']
    for k, c in enumerate('NNpNNNNNNNNNNN'):
        was = [(a, E.copy(getattr(f, a))) for a in names]
        if c == 'p':
            f.predict()
            continue
        f.update(*((None,) if kind[0] != 'E' else (None, lambda s: v['H'], lambda s: E.dot(v['H'], s))))
        for a, w in was:
            E.eq('unchanged %s %d' % (a, k), getattr(f, a), w)
            E.eq('%s_post %d' % (a, k), getattr(f, a + '_post'), w)
        E.check('no measurement %d' % k, all_none(f.z))


@harness('C35', [dict(kind=k, form=f) for k in ('GHFilter', 'GHKFilter', 'GHFilterOrder', 'FadingMemoryFilter') for f in ('array', 'int') if f == 'array' or k != 'GHKFilter'],
         bounds='g-h family and fading-memory filters with array states, four updates; nothing handed over changes, earlier estimates of the g-h filters stay')
def polynomial_aliasing(E, kind, form):
    G = E.fp('gh')
    g, h, k, dt = [E.real(a, lo=0, hi=1, strict=True) for a in ('g', 'h', 'k', 'dt')]

    def start(name, n=2):
        if form == 'int':
            import numpy
            return numpy.array([1, 2, 3][:n])
        return E.vec(name, n)
    x, dx, ddx = start('x'), start('dx'), start('ddx')
    if kind == 'GHFilter':
        f = G.GHFilter(x, dx, dt, g, h)
    elif kind == 'GHKFilter':
        f = G.GHKFilter(x, dx, ddx, dt, g, h, k)
    elif kind == 'GHFilterOrder':
        x = start('x', 3)
        f = G.GHFilterOrder(x, dt, 2, g, h, k)
    else:
        x = start('x', 3)
        f = E.fp('memory').FadingMemoryFilter(x, dt, 2, g)
    held = snap(E, x, dx, ddx)
    names = [a for a in ('x', 'dx', 'ddx', 'x_prediction', 'dx_prediction', 'ddx_prediction', 'y') if hasattr(f, a)] if kind in ('GHFilter', 'GHKFilter') else []
    seen = []
    for i in range(4):
        z = E.vec('z%d' % i, 2) if names else E.real('z%d' % i)
        held += snap(E, z)
        r = f.update(z)
        E.same_inputs('arguments after update %d' % i, held)
        for v, w in seen:
            E.eq('earlier estimates after update %d' % i, v, w)
        if names:
            seen += snap(E, *(list(r or ()) + [getattr(f, a) for a in names]))


@harness('C35', [dict(n=n, m=m, shape=s, nu=u) for n, m in ((1, 1), (2, 1), (2, 2)) for s in ('col', '1d') for u in (0, 1)],
         bounds='fixed-lag smoother: four measurements, the batch in between; matrices, measurements and controls are watched, the filtered estimates obtained earlier too')
def smoother_aliasing(E, n, m, shape, nu):
    f = E.fp('kalman').FixedLagSmoother(n, m, 2)
    own = dict(x=E.col('x', n) if shape == 'col' else E.vec('x', n), P=cspd(E, n), F=cfull(E, n), Q=cspd(E, n, 1), H=cmat(E, m, n), R=cspd(E, m, 2))
    if nu:
        own['B'] = cmat(E, n, nu, 3)
    for a in own:
        setattr(f, a, own[a])
    zs = [E.col('z%d' % k, m) if shape == 'col' else E.vec('z%d' % k, m) for k in range(4)]
    us = [E.col('u%d' % k, nu) if shape == 'col' else E.vec('u%d' % k, nu) for k in range(4)] if nu else None
    held = snap(E, *(list(own.values()) + zs + (us or [])))
    seen = []
    for k in range(4):
        f.smooth(zs[k], us[k]) if nu else f.smooth(zs[k])
        E.same_inputs('arguments after %d' % k, held)
        for a, w in seen:
            E.eq('earlier estimates after %d' % k, a, w)
        seen += snap(E, f.x, f.P)
        if k == 1:
            f.smooth_batch(zs, 2, us)
            E.same_inputs('arguments after the batch', held)
            for a, w in seen:
                E.eq('the filter after the batch', a, w)
