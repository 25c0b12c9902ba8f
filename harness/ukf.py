"""Sigma points, unscented transform, unscented filter."""
from engine.registry import harness
from harness._common import snap, scribble, update_ref


def points(E, fam, n, tag='', **k):
    """a sigma point generator with arbitrary admissible parameters"""
    K = E.fp('kalman')
    t = E.pos(tag + 't')
    if fam == 'merwe':
        a, b = E.pos(tag + 'alpha'), E.real(tag + 'beta')
        return K.MerweScaledSigmaPoints(n, a, b, t * t - n, **k)
    if fam == 'julier':
        return K.JulierSigmaPoints(n, t * t - n, **k)
    return K.SimplexSigmaPoints(n, **k)


def moments(E, sig, Wm, Wc):
    N, n = E.shape(sig)
    mean = E.dot(Wm, sig)
    P = E.np.zeros((n, n))
    for k in range(N):
        d = sig[k] - mean
        P = P + Wc[k] * E.np.outer(d, d)
    return mean, P


FAM = ('merwe', 'julier', 'simplex')


@harness('C12', [dict(fam=f, n=n) for f in FAM for n in (1, 2, 3)], [dict(fam=f, n=4) for f in FAM],
         bounds='dimension 1-3 (4 thorough); arbitrary alpha > 0, beta, kappa with n + kappa > 0', query_ms=60000)
def reproduce(E, fam, n):
    p = points(E, fam, n)
    x, P = E.vec('x', n), E.psd('P', n)
    before = snap(E, x, P)
    s = p.sigma_points(x, P)
    E.same_inputs('args', before)
    N = p.num_sigmas()
    E.check('count', E.shape(s) == (N, n) and E.shape(p.Wm) == (N,) and E.shape(p.Wc) == (N,))
    E.eq('weights', E.np.sum(p.Wm), E.num(1))
    m, C = moments(E, s, p.Wm, p.Wc)
    E.eq('mean', m, x)
    E.eq('covariance', C, P)


@harness('C12', [dict(fam=f, form=g) for f in FAM for g in ('scalar', 'array', 'mixed')] +
         [dict(fam=f, form='iso%d' % n) for f in FAM for n in (2, 3)],
         bounds='1-dimensional state as plain numbers; multi-dimensional state with a scalar covariance')
def forms(E, fam, form):
    n = 1 if not form.startswith('iso') else int(form[3])
    p = points(E, fam, n)
    c = E.pos('c')
    P = c
    if form == 'scalar':
        x = E.real('x')
    elif form == 'array':
        x, P = E.vec('x', 1), E.array([[c]])
    else:
        x = E.vec('x', n)
    s = p.sigma_points(x, P)
    m, C = moments(E, s, p.Wm, p.Wc)
    E.eqv('mean', m, x)
    E.eq('covariance', C, E.np.eye(n) * c)


@harness('C12', [dict(fam=f, n=n) for f in FAM for n in (2, 3)],
         bounds='user supplied square root (any factor U with U^T U equal to its argument) and subtraction')
def custom(E, fam, n):
    L = E.lower('L', n)
    got = []

    def root(A):
        # an arbitrary orthogonal change of the factor; its argument is scale * L L^T
        got.append(E.copy(A))
        s = scale[0]
        c, d = (1 - w * w) / (1 + w * w), 2 * w / (1 + w * w)
        G = E.np.eye(n)
        G[0, 0], G[0, 1], G[1, 0], G[1, 1] = c, -d, d, c
        return E.dot(G, L.T) * s
    calls = []

    def sub(a, b):
        calls.append(1)
        return a - b
    w = E.real('w')
    t = E.pos('t')
    K = E.fp('kalman')
    kw = dict(sqrt_method=root, subtract=sub)
    if fam == 'merwe':
        a, b = E.pos('alpha'), E.real('beta')
        scale = [a * t]
        p = K.MerweScaledSigmaPoints(n, a, b, t * t - n, **kw)
    elif fam == 'julier':
        scale = [t]
        p = K.JulierSigmaPoints(n, t * t - n, **kw)
    else:
        scale = [E.num(1)]
        p = K.SimplexSigmaPoints(n, **kw)
    x, P = E.vec('x', n), E.dot(L, L.T)
    s = p.sigma_points(x, P)
    E.check('used', len(got) >= 1 and len(calls) >= 1)
    E.eq('root argument', got[0], P * scale[0] * scale[0])
    m, C = moments(E, s, p.Wm, p.Wc)
    E.eq('mean', m, x)
    E.eq('covariance', C, P)


@harness('C12', [dict(fam=f) for f in FAM], bounds='wrong state size is rejected')
def size(E, fam):
    p = points(E, fam, 2)
    E.raises('size', ValueError, p.sigma_points, E.vec('x', 3), E.psd('P', 3))
    E.raises('size1', ValueError, p.sigma_points, E.vec('y', 1), E.psd('P1', 1))


# ---------------------------------------------------------------- C13 unscented transform

UT = [dict(n=n, N=N, noise=q, mean=mf, res=r) for n, N in ((1, 3), (2, 3), (2, 5), (3, 4), (1, 1)) for q in (False, True)
      for mf in (False, True) for r in (None, 'subtract', 'custom')]


@harness('C13', UT, [dict(n=3, N=7, noise=True, mean=False, res=None)],
         bounds='1-5 points of dimension 1-3, arbitrary weights; residual and mean functions with arbitrary '
                'coefficients (not the difference / the weighted mean)')
def transform(E, n, N, noise, mean, res):
    ut = E.fp('kalman').unscented_transform
    s, Wm, Wc = E.mat('s', N, n), E.vec('wm', N), E.vec('wc', N)
    kw, args = {}, []
    if noise:
        kw['noise_cov'] = E.psd('Q', n)
    seen = []
    if mean:
        g = E.real('g')

        def mf(sig, w):
            seen.append((E.copy(sig), E.copy(w)))
            return E.dot(w, sig) * g + sig[0]
        kw['mean_fn'] = mf
    p, q = E.real('p'), E.real('q')
    rf = lambda a, b: a - b
    if res == 'subtract':
        kw['residual_fn'] = E.np.subtract
    if res == 'custom':
        rf = lambda a, b: a * p - b * q
        kw['residual_fn'] = rf
    before = snap(E, s, Wm, Wc, kw.get('noise_cov'))
    x, P = ut(s, Wm, Wc, **kw)
    E.same_inputs('args', before)
    m = E.dot(Wm, s)
    if mean:
        m = m * g + s[0]
        E.check('mean called', len(seen) >= 1)
        E.eq('mean points', seen[0][0], s)
        E.eq('mean weights', seen[0][1], Wm)
    C = E.np.zeros((n, n))
    for k in range(N):
        d = rf(s[k], m)
        C = C + Wc[k] * E.np.outer(d, d)
    if noise:
        C = C + kw['noise_cov']
    E.eq('mean', x, m)
    E.eq('cov', P, C)
    E.eq('symmetric', P, P.T)


@harness('C13', [dict(n=n, noise=q) for n in (1, 2, 3) for q in (False, True)], bounds='dimension 1-3')
def cubature(E, n, noise):
    K = E.fp('kalman')
    from filterpy.kalman.CubatureKalmanFilter import ckf_transform, spherical_radial_sigmas
    s = E.mat('s', 2 * n, n)
    Q = E.psd('Q', n) if noise else E.np.zeros((n, n))
    before = snap(E, s, Q)
    x, P = ckf_transform(s, Q)
    E.same_inputs('args', before)
    w = E.np.ones(2 * n) / (2 * n)
    m, C = moments(E, s, w, w)
    E.eqv('mean', x, m)
    E.eq('cov', P, C + Q)


# ---------------------------------------------------------------- C14 linear equivalence

def build(E, fam, n, m, F, H, **kw):
    pts = points(E, fam, n)
    U = E.fp('kalman').UnscentedKalmanFilter
    f = U(dim_x=n, dim_z=m, dt=E.real('dt'), hx=lambda x: E.dot(H, x), fx=lambda x, dt: E.dot(F, x), points=pts, **kw)
    return f, pts


def against(E, f, x, P, z, H, R):
    n, m = len(x), len(z)
    u = update_ref(E, x.reshape(n, 1), P, z.reshape(m, 1), H, R)
    E.eq('S', f.S, u['S'])
    E.eq('SI', f.SI, u['SI'])
    E.eq('K', f.K, u['K'])
    E.eq('y', f.y, u['y'].reshape(-1))
    E.eq('x', f.x, u['x'].reshape(-1))
    E.eq('P', f.P, u['P'])
    E.eq('x_post', f.x_post, f.x)
    E.eq('P_post', f.P_post, f.P)
    E.eqv('z', f.z, z)


@harness('C14', [dict(fam=f, n=n, over=o) for f in FAM for n in (1, 2, 3) for o in ('', 'dt', 'fx', 'ut')],
         [dict(fam=f, n=4, over='') for f in FAM],
         bounds='predict: dim_x 1-3 (4 thorough), linear process; per-call dt, process function with keyword arguments, '
                'transform function', query_ms=60000)
def predict(E, fam, n, over):
    F, H, Q = E.mat('F', n, n), E.mat('H', 1, n), E.psd('Q', n)
    f, pts = build(E, fam, n, 1, F, H)
    B = E.vec('b', n)
    dt = E.real('dt')
    f.fx = lambda x, t: E.dot(F, x) + B * t
    x, P = E.vec('x', n), E.psd('P', n)
    f.x, f.P, f.Q = E.copy(x), E.copy(P), E.copy(Q)
    kw, xp, Pp, calls = {}, E.dot(F, x) + B * dt, E.dot(F, P, F.T) + Q, []
    if over == 'dt':
        t2 = kw['dt'] = E.real('dt2')
        xp = E.dot(F, x) + B * t2
    if over == 'fx':
        F2 = E.mat('G', n, n)
        kw.update(fx=lambda x, t, c=0, d=0: E.dot(F2, x) + B * t + c * B, c=E.real('c'))
        xp, Pp = E.dot(F2, x) + B * dt + kw['c'] * B, E.dot(F2, P, F2.T) + Q
    if over == 'ut':
        ut = E.fp('kalman').unscented_transform

        def my(*a, **k):
            calls.append(1)
            m, C = ut(*a, **k)
            return m * 2, C * 3
        kw['UT'] = my
        xp, Pp = xp * 2, Pp * 3
    f.predict(**kw)
    E.check('transform used', bool(calls) == (over == 'ut'))
    E.eq('x', f.x, xp)
    E.eq('P', f.P, Pp)
    E.eq('x_prior', f.x_prior, xp)
    E.eq('P_prior', f.P_prior, Pp)
    E.eq('Q', f.Q, Q)
    scribble(E, f.x)
    scribble(E, f.P)
    E.eq('x_prior copy', f.x_prior, xp)
    E.eq('P_prior copy', f.P_prior, Pp)


def hinted(E, x, P, z, H, R):
    n, m = x.shape[0], z.shape[0]
    u = update_ref(E, x.reshape(n, 1), P, z.reshape(m, 1), H, R)
    E.hint(P, x, E.dot(H, x), E.dot(H, P, H.T), E.dot(P, H.T), u['S'], u['K'], u['y'], u['x'], u['P'])
    return u


def with_prior(E, f, n, tag=''):
    """reach an arbitrary prior (x, P) through a prediction with a constant process function"""
    x, P = E.vec(tag + 'x', n), E.psd(tag + 'P', n)
    f.Q = E.copy(P)
    f.x, f.P = E.vec(tag + 'xo', n), E.np.eye(n)
    E.hint(x, P)
    f.predict(fx=lambda s, dt: x)
    return x, P


@harness('C14', [dict(fam=f, n=n, m=m, over=o) for f in FAM for n, m in ((1, 1), (2, 1), (1, 2))
                 for o in ('', 'R', 'r', 'hx', 'ut')] + [dict(fam=f, n=2, m=2, over='') for f in FAM],
         [dict(fam=f, n=3, m=1, over='') for f in FAM],
         bounds='update from an arbitrary prior: dim_x 1-2 (3 thorough), dim_z 1-2, linear measurement; per-call R '
                '(matrix, scalar), measurement function with keyword arguments, transform function', query_ms=60000)
def update(E, fam, n, m, over):
    F, H, R = E.mat('F', n, n), E.mat('H', m, n), E.psd('R', m)
    f, pts = build(E, fam, n, m, F, H)
    f.R = E.copy(R)
    x, P = with_prior(E, f, n)
    E.eq('prior x', f.x, x)
    E.eq('prior P', f.P, P)
    z = E.vec('z', m)
    kw, off, calls = {}, 0, []
    if over == 'R':
        R = kw['R'] = E.psd('R2', m)
    if over == 'r':
        r = kw['R'] = E.pos('r')
        R = E.np.eye(m) * r
    if over == 'hx':
        H = E.mat('H2', m, n)
        b = E.vec('b', m)
        kw.update(hx=lambda s, c=0: E.dot(H, s) + c * b, c=E.real('c'))
        off = kw['c'] * b
    if over == 'ut':
        ut = E.fp('kalman').unscented_transform

        def my(*a, **k):
            calls.append(1)
            return ut(*a, **k)
        kw['UT'] = my
    before = snap(E, z, kw.get('R'))
    u = hinted(E, x, P, z - off, H, R)
    f.update(z, **kw)
    E.same_inputs('args', before)
    E.check('transform used', bool(calls) == (over == 'ut'))
    E.eq('S', f.S, u['S'])
    E.eq('SI', f.SI, u['SI'])
    E.eq('K', f.K, u['K'])
    E.eq('y', f.y, u['y'].reshape(-1))
    E.eq('x', f.x, u['x'].reshape(-1))
    E.eq('P', f.P, u['P'])
    E.eq('x_post', f.x_post, f.x)
    E.eq('P_post', f.P_post, f.P)
    E.eqv('z', f.z, z)
    E.eq('x_prior', f.x_prior, x)
    E.eq('P_prior', f.P_prior, P)
    xs, Ps = E.copy(f.x), E.copy(f.P)
    scribble(E, f.x)
    scribble(E, f.P)
    E.eq('x_post copy', f.x_post, xs)
    E.eq('P_post copy', f.P_post, Ps)


@harness('C14', [dict(fam=f, n=n, m=m, how=h) for f in FAM for n, m in ((1, 1), (2, 1)) for h in ('assigned', 'again')],
         bounds='update of an estimate assigned after a prediction or left by another update; dim_x 1-2 (assigned), 1 (left), dim_z 1', query_ms=60000)
def repeated_update(E, fam, n, m, how):
    F, H, R = E.mat('F', n, n), E.mat('H', m, n), E.psd('R', m)
    f, pts = build(E, fam, n, m, F, H)
    f.R = E.copy(R)
    x, P = with_prior(E, f, n)
    if how == 'assigned' or n > 1:
        if how == 'again':
            f.update(E.vec('z0', m))
        x, P = E.vec('x1', n), E.psd('P1', n)
        f.x, f.P = E.copy(x), E.copy(P)
    else:
        z = E.vec('z0', m)
        u = update_ref(E, x.reshape(n, 1), P, z.reshape(m, 1), H, R)
        f.update(z)
        E.eq('x', f.x, u['x'].reshape(-1))
        E.eq('P', f.P, u['P'])
        E.assume(u['P'][0, 0] > 0)
        x, P = E.let('x1', u['x'].reshape(-1)), E.let('P1', u['P'])
        E.hint(x, P)
    H2 = E.mat('H2', m, n)
    z = E.vec('z', m)
    u = hinted(E, x, P, z, H2, R)
    f.update(z, hx=lambda s: E.dot(H2, s))
    for a in ('S', 'K', 'P'):
        E.eq('second ' + a, getattr(f, a), u[a])
    E.eq('second x', f.x, u['x'].reshape(-1))
    E.eq('second y', f.y, u['y'].reshape(-1))


@harness('C14', [dict(fam=f, n=n, m=m) for f in FAM for n, m in ((1, 1), (2, 1), (2, 2))],
         [dict(fam=f, n=3, m=1) for f in ('merwe', 'julier')] + [dict(fam='merwe', n=3, m=2)],
         bounds='predict, update, predict, update; the second round starts from an arbitrary state; dim_x 1-2, dim_z 1-2 '
                '(3x2 thorough)', query_ms=60000)
def chain(E, fam, n, m):
    F, H, Q, R = E.mat('F', n, n), E.mat('H', m, n), E.psd('Q', n), E.psd('R', m)
    f, pts = build(E, fam, n, m, F, H)
    f.Q, f.R = E.copy(Q), E.copy(R)
    for k in range(2):
        x, P = E.vec('x%d' % k, n), E.psd('P%d' % k, n)
        f.x, f.P = E.copy(x), E.copy(P)
        xp, Pp = E.dot(F, x), E.dot(F, P, F.T) + Q
        z = E.vec('z%d' % k, m)
        xp, Pp = E.let('xp%d' % k, xp), E.let('Pp%d' % k, Pp)
        u = hinted(E, xp, Pp, z, H, R)
        f.predict()
        E.eq('xp%d' % k, f.x, xp)
        E.eq('Pp%d' % k, f.P, Pp)
        f.update(z)
        for a in ('S', 'K', 'P'):
            E.eq('%s%d' % (a, k), getattr(f, a), u[a])
        E.eq('x%d' % k, f.x, u['x'].reshape(-1))
        E.eq('y%d' % k, f.y, u['y'].reshape(-1))
        E.eq('x_post%d' % k, f.x_post, f.x)
        E.eq('P_post%d' % k, f.P_post, f.P)


@harness('C14', [dict(n=n, m=m) for n, m in ((1, 1), (2, 1), (1, 2))],
         bounds='scaled points; arbitrary affine residual, mean and addition functions for each space: each function is '
                'used for its own space only', query_ms=60000)
def spaces(E, n, m):
    """custom functions: state residual/mean/add for states, measurement residual/mean for measurements"""
    F, H, Q, R = E.mat('F', n, n), E.mat('H', m, n), E.psd('Q', n), E.psd('R', m)
    a, b, c, d, e, g, h = [E.real(q) for q in 'abcdegh']
    rx = lambda p, q: p * a - q * b
    rz = lambda p, q: p * c - q * d
    mx = lambda s, w: E.dot(w, s) * e
    mz = lambda s, w: E.dot(w, s) * g
    add = lambda p, q: p + q * h
    f, pts = build(E, 'merwe', n, m, F, H, residual_x=rx, residual_z=rz, x_mean_fn=mx, z_mean_fn=mz, state_add=add)
    f.R = E.copy(R)
    # prior: through a prediction with constant process function
    c0 = E.vec('c', n)
    W = E.psd('W', n)
    f.Q = E.copy(W)
    x = c0 * e
    dx = rx(c0, x)
    P = E.np.outer(dx, dx) * E.np.sum(pts.Wc) + W
    E.assume(P[0, 0] > 0)
    if n == 2:
        E.assume(P[0, 0] * P[1, 1] - P[0, 1] * P[0, 1] > 0)
    E.hint(x, P)
    f.predict(fx=lambda s, dt: c0)
    E.eq('xp', f.x, x)
    E.eq('Pp', f.P, P)
    z = E.vec('z', m)
    sig = pts.sigma_points(x, P)
    sh = [E.dot(H, s) for s in sig]
    zp = E.dot(H, x) * g
    S = R
    C = E.np.zeros((n, m))
    for k in range(len(sh)):
        q = rz(sh[k], zp)
        S = S + pts.Wc[k] * E.np.outer(q, q)
        C = C + pts.Wc[k] * E.np.outer(rx(sig[k], x), q)
    E.hint(zp, S, C)
    f.update(z)
    K = E.dot(C, E.linalg.inv(S))
    y = rz(z, zp)
    E.eq('S', f.S, S)
    E.eq('K', f.K, K)
    E.eq('y', f.y, y)
    E.eq('x', f.x, x + E.dot(K, y) * h)
    E.eq('P', f.P, P - E.dot(K, S, K.T))


# ---------------------------------------------------------------- C15 batch and RTS

class Count(object):
    n = 0

    def save(self):
        self.n += 1


BF = []
for m in (1, 2):
    for zs in ('zz', 'z-z', '-z', 'z'):
        for per in ('', 'R', 'd', 'Rd', 's'):
            if m == 2 and per in ('R', 's') or zs == 'z' and per:
                continue
            BF.append(dict(fam='merwe', n=2, m=m, zs=zs, per=per))
BF += [dict(fam=f, n=2, m=1, zs='zz', per='Rd') for f in ('julier', 'simplex')]
BF += [dict(fam='merwe', n=1, m=1, zs='vv', per=''), dict(fam='merwe', n=1, m=1, zs='ll', per='')]


@harness('C15', BF, bounds='1-3 steps (measurements, missing measurements, plain numbers or 1-element vectors), per-step '
                           'R and dt lists, scalar dt; nonlinear process and measurement functions')
def batch(E, fam, n, m, zs, per):
    F, H, Q, R = E.mat('F', n, n), E.mat('H', m, n), E.psd('Q', n), E.psd('R', m)
    b = E.vec('b', n)
    fs = []
    for i in range(2):
        f, pts = build(E, fam, n, m, F, H)
        f.fx = lambda x, dt: E.dot(F, x) + b * (dt * x[0])
        f.x, f.P, f.Q, f.R = E.vec('x', n), E.psd('P', n), E.copy(Q), E.copy(R)
        fs.append(f)
    f, g = fs
    T = len(zs)
    Z = [None if c == '-' else (E.real('z%d' % i) if (m == 1 and c == 'z') else
                                [E.real('z%d' % i)] if c == 'l' else E.vec('z%d' % i, m)) for i, c in enumerate(zs)]
    kw = {}
    if 'R' in per:
        kw['Rs'] = [E.psd('R%d' % i, m) for i in range(T)]
    if 'd' in per:
        kw['dts'] = [E.real('d%d' % i) for i in range(T)]
    if 's' in per:
        kw['dts'] = E.real('ds')
    before = snap(E, *([z for z in Z] + kw.get('Rs', [])))
    sv = Count()
    means, covs = f.batch_filter([E.copy(z) for z in Z], saver=sv, **kw)
    E.same_inputs('args', before)
    E.check('saver', sv.n == T)
    E.check('shapes', E.shape(means) == (T, n) and E.shape(covs) == (T, n, n))
    for i in range(T):
        d = kw['dts'][i] if 'd' in per else kw.get('dts')
        g.predict(dt=d)
        g.update(Z[i], R=kw['Rs'][i] if 'R' in per else None)
        E.eq('mean', means[i], g.x)
        E.eq('cov', covs[i], g.P)
    E.eq('x', f.x, g.x)
    E.eq('P', f.P, g.P)
    if T:
        E.check('bad size', True)
        E.raises('wrong length', TypeError, g.batch_filter, [E.vec('w', m + 1)])
        E.raises('not a list', TypeError, g.batch_filter, 3)


@harness('C15', [dict(fam=f, n=n, T=T, q=q, d=d) for f in FAM for n, T in ((1, 3), (2, 2)) for q in (False, True)
                 for d in ('', 'list', 'scalar')] + [dict(fam=f, n=2, T=3, q=True, d='list') for f in ('merwe', 'simplex')],
         [dict(fam='merwe', n=3, T=2, q=True, d='list')],
         bounds='arbitrary filtered means and covariances, 2-3 steps, dim_x 1-2 (3 thorough): the linear smoother with '
                'the F(dt), Q of each step', query_ms=60000)
def rts(E, fam, n, T, q, d):
    A, Bm, H = E.mat('A', n, n), E.mat('B', n, n), E.mat('H', 1, n)
    f, pts = build(E, fam, n, 1, A, H)
    f.fx = lambda x, dt: E.dot(A + Bm * dt, x)
    Q = E.psd('Q', n)
    f.Q = E.copy(Q)
    Xs = E.array([E.vec('m%d' % k, n) for k in range(T)])
    Ps = E.array([E.psd('C%d' % k, n) for k in range(T)])
    X0, P0 = E.copy(Xs), E.copy(Ps)
    kw = {}
    Qs = [Q] * T
    dts = [E.real('dt')] * T
    if q:
        Qs = kw['Qs'] = [E.psd('Q%d' % k, n) for k in range(T)]
    if d == 'list':
        dts = kw['dts'] = [E.real('d%d' % k) for k in range(T)]
    if d == 'scalar':
        kw['dts'] = E.real('ds')
        dts = [kw['dts']] * T
    before = snap(E, Xs, Ps, *kw.get('Qs', []))
    ref = {}
    xn, Pn = X0[T - 1], P0[T - 1]
    for k in range(T - 2, -1, -1):
        F = A + Bm * dts[k + 1]
        xb = E.let('xb%d' % k, E.dot(F, X0[k]))
        pb = E.let('pb%d' % k, E.dot(F, P0[k], F.T) + Qs[k + 1])
        C = E.let('c%d' % k, E.dot(P0[k], F.T))
        G = E.let('g%d' % k, E.dot(C, E.linalg.inv(pb)))
        xn = E.let('xs%d' % k, X0[k] + E.dot(G, xn - xb))
        Pn = E.let('ps%d' % k, P0[k] + E.dot(G, Pn - pb, G.T))
        ref[k] = G, xn, Pn
    x, P, K = f.rts_smoother(Xs, Ps, **kw)
    E.same_inputs('args', before)
    E.eq('last x', x[T - 1], X0[T - 1])
    E.eq('last P', P[T - 1], P0[T - 1])
    for k in ref:
        E.eq('K', K[k], ref[k][0])
        E.eq('x', x[k], ref[k][1])
        E.eq('P', P[k], ref[k][2])
