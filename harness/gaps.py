"""documented defaults, argument forms, rejected configurations."""
from engine.registry import harness
from harness._common import kf_model, state, snap, scribble, update_ref, all_none, as_state, meas
from harness.generic import Rig
from harness.ukf import points, moments, FAM


# ---------------------------------------------------------------- C05 argument forms of the functions

@harness('C05', [dict(n=2, m=m, shape=s, form=f) for s in ('col', '1d') for m, f in
                 ((1, 'scalar'), (1, 'list'), (1, '1d'), (1, 'row'), (1, 'col'), (2, 'list'), (2, '1d'), (2, 'row'), (2, 'col'))],
         bounds='every measurement form of the module-level update functions, R as a matrix and as a number; dim_x 2, dim_z 1-2')
def proc_forms(E, n, m, shape, form):
    K = E.fp('kalman')
    x, P, R, H, G = state(E, 'x', n, shape), E.psd('P', n), E.psd('R', m), E.mat('H', m, n), E.mat('K', n, m)
    z, zc = meas(E, 'z', m, form)
    xc = x.reshape(n, 1)
    u = update_ref(E, xc, P, zc, H, R)
    held = snap(E, x, P, R, H, G, z)
    r = K.update(x, P, z, R, H, return_all=True)
    E.eq('x', r[0], as_state(E, u['x'], shape))
    E.eq('P', r[1], u['P'])
    E.eqv('y', r[2], u['y'])
    E.eq('K', r[3], u['K'])
    E.eq('S', r[4], u['S'])
    rho = E.pos('rho')
    a, b = K.update(x, P, z, rho, H)
    w = update_ref(E, xc, P, zc, H, rho * E.np.eye(m))
    E.eq('x, scalar R', a, as_state(E, w['x'], shape))
    E.eq('P, scalar R', b, w['P'])
    E.eq('steady state x', K.update_steadystate(x, z, G, H), as_state(E, xc + E.dot(G, zc - E.dot(H, xc)), shape))
    E.same_inputs('arguments', held)


@harness('C05', [dict(n=n, shape=s) for n in (1, 2, 3) for s in ('col', '1d')],
         bounds='default arguments of the module-level functions; dim_x 1-3')
def proc_defaults(E, n, shape):
    K = E.fp('kalman')
    x, P, Q, F = state(E, 'x', n, shape), E.psd('P', n), E.psd('Q', n), E.mat('F', n, n)
    a, b = K.predict(x, P)
    E.eq('x', a, x)
    E.eq('P', b, P)
    a, b = K.predict(x, P, F)
    E.eq('Fx', a, E.dot(F, x))
    E.eq('FPF', b, E.dot(F, P, F.T))
    a, b = K.predict(x, P, F, Q)
    E.eq('FPF + Q', b, E.dot(F, P, F.T) + Q)
    u = state(E, 'u', n, shape)
    a, b = K.predict(x, P, F, Q, u)
    E.eq('u added', a, E.dot(F, x) + u)
    E.eq('steady', K.predict_steadystate(x), x)
    E.eq('steady Fx', K.predict_steadystate(x, F), E.dot(F, x))
    E.eq('steady u', K.predict_steadystate(x, F, u), E.dot(F, x) + u)
    E.check('pair by default', len(K.update(x, P, state(E, 'z', 1, shape), E.psd('R', 1), E.mat('H', 1, n))) == 2)


class Recorder(object):
    n = 0

    def save(self):
        self.n += 1


@harness('C05', [dict(nu=nu, gaps=g, shape=s, first=f) for nu in (1, 2) for g in ('u-', '-u', '--', 'uu') for s in ('col', '1d') for f in (False, True)],
         bounds='two steps, 1-2 controls, some steps without a control; dim_x 2; a saver')
def proc_batch_controls(E, nu, gaps, shape, first):
    K = E.fp('kalman')
    x, P, F, Q, H, R = state(E, 'x', 2, shape), E.psd('P', 2), E.mat('F', 2, 2), E.psd('Q', 2), E.mat('H', 1, 2), E.psd('R', 1)
    Bs = [E.mat('B%d' % i, 2, nu) for i in range(2)]
    us = [state(E, 'u%d' % i, nu, shape) if g == 'u' else None for i, g in enumerate(gaps)]
    zs = [state(E, 'z0', 1, shape), None]
    s = Recorder()
    held = snap(E, x, P, *Bs)
    out = K.batch_filter(x, P, zs, [F] * 2, [Q] * 2, [H] * 2, [R] * 2, Bs, us, update_first=first, saver=s)
    E.check('saved', s.n == 2)
    E.same_inputs('arguments', held)
    for i in range(2):
        for c in ('up' if first else 'pu'):
            if c == 'u':
                if zs[i] is not None:
                    x, P = K.update(x, P, zs[i], R, H)
                E.eq('mean%d' % i, out[0][i], x)
                E.eq('covariance%d' % i, out[1][i], P)
            else:
                x, P = E.dot(F, x), E.dot(F, P, F.T) + Q
                if us[i] is not None:
                    x = x + E.dot(Bs[i], us[i])
                E.eq('prior%d' % i, out[2][i], x)
                E.eq('prior covariance%d' % i, out[3][i], P)


@harness('C06', [dict(nu=nu, gaps=g, shape=s, first=f) for nu in (1, 2) for g in ('u-', '-u', '--') for s in ('col', '1d') for f in (False, True)],
         bounds='two steps, 1-2 controls, some steps without a control or with the stored control matrix; dim_x 2')
def batch_controls(E, nu, gaps, shape, first):
    kf, v = kf_model(E, 2, 1, nu, shape)
    k2, _ = kf_model(E, 2, 1, nu, shape)
    us = [state(E, 'u%d' % i, nu, shape) if g == 'u' else None for i, g in enumerate(gaps)]
    Bs = [None, E.mat('B1', 2, nu)]
    zs = [state(E, 'z0', 1, shape), None]
    out = kf.batch_filter(zs, Bs=Bs, us=us, update_first=first)
    for i in range(2):
        for c in ('up' if first else 'pu'):
            if c == 'u':
                k2.update(zs[i])
            else:
                k2.predict(u=us[i], B=Bs[i])
            q = 0 if c == 'u' else 2
            E.eq('x%s%d' % (c, i), out[q][i], k2.x)
            E.eq('P%s%d' % (c, i), out[q + 1][i], k2.P)


# ---------------------------------------------------------------- C12 weights and forms

@harness('C12', [dict(n=n) for n in (1, 2, 3, 4, 6)], bounds='dimension 1-6, every alpha, beta, kappa with n + kappa > 0', query_ms=60000)
def scaled_weights(E, n):
    p = points(E, 'merwe', n)
    a, b, k = p.alpha, p.beta, p.kappa
    lam = a * a * (n + k) - n
    for i in range(2 * n + 1):
        w = lam / (n + lam) if i == 0 else 1 / (2 * (n + lam))
        E.eq('mean weight%d' % i, p.Wm[i], w)
        E.eq('covariance weight%d' % i, p.Wc[i], w + (1 - a * a + b if i == 0 else 0))
    E.check('count', len(p.Wm) == len(p.Wc) == p.num_sigmas() == 2 * n + 1)


@harness('C12', [dict(n=n) for n in (1, 2, 3, 4, 6)], bounds='dimension 1-6, every kappa with n + kappa > 0')
def julier_simplex_weights(E, n):
    p = points(E, 'julier', n)
    k = p.kappa
    for i in range(2 * n + 1):
        w = k / (n + k) if i == 0 else 1 / (2 * (n + k))
        E.eq('julier mean%d' % i, p.Wm[i], w)
        E.eq('julier covariance%d' % i, p.Wc[i], w)
    s = points(E, 'simplex', n)
    for i in range(n + 1):
        E.eq('simplex mean%d' % i, s.Wm[i], E.num(1) / (n + 1))
        E.eq('simplex covariance%d' % i, s.Wc[i], E.num(1) / (n + 1))
    E.check('count', len(p.Wm) == len(p.Wc) == p.num_sigmas() == 2 * n + 1 and len(s.Wm) == len(s.Wc) == s.num_sigmas() == n + 1)


@harness('C12', [dict(fam=f, n=n, P=P) for f in FAM for n in (1, 2) for P in ('list', 'array', 'number')],
         bounds='state as a list, covariance as nested list, array or number; dimension 1-2', query_ms=60000)
def list_forms(E, fam, n, P):
    p = points(E, fam, n)
    x = E.vec('x', n)
    C = E.psd('P', n)
    if P == 'number':
        c = E.pos('c')
        C = E.np.eye(n) * c
    arg = c if P == 'number' else C if P == 'array' else [[C[i, j] for j in range(n)] for i in range(n)]
    s = p.sigma_points([x[i] for i in range(n)], arg)
    m, S = moments(E, s, p.Wm, p.Wc)
    E.eq('mean', m, x)
    E.eq('covariance', S, C)


# ---------------------------------------------------------------- C15 the transform given to the batch

@harness('C15', [dict(n=n, m=m) for n, m in ((1, 1), (2, 1), (2, 2))], bounds='a transform function with arbitrary offsets, two steps; dim_x 1-2, dim_z 1-2')
def batch_transform(E, n, m):
    from harness.ukf import build
    F, H = E.mat('F', n, n), E.mat('H', m, n)
    c = E.real('c')
    ut = E.fp('kalman').unscented_transform

    def mine(sigmas, Wm, Wc, noise_cov=None, mean_fn=None, residual_fn=None):
        x, P = ut(sigmas, Wm, Wc, noise_cov)
        return x + c, P
    fs = []
    for i in range(2):
        f, _ = build(E, 'merwe', n, m, F, H)
        f.x, f.P, f.Q, f.R = E.vec('x', n), E.psd('P', n), E.psd('Q', n), E.psd('R', m)
        fs.append(f)
    f, g = fs
    zs = [E.real('z0') if m == 1 else E.vec('z0', m), None]
    means, covs = f.batch_filter(zs, UT=mine)
    for i in range(2):
        g.predict(UT=mine)
        g.update(zs[i], UT=mine)
        E.eq('mean%d' % i, means[i], g.x)
        E.eq('covariance%d' % i, covs[i], g.P)


# ---------------------------------------------------------------- C22 smoothing a batch with its own lag

@harness('C22', [dict(T=T, own=o, lag=l) for T in (2, 3, 4) for o, l in ((1, 2), (3, 1), (0, 2), (2, 0), (5, 1))],
         bounds='2-4 measurements, a lag for the batch that differs from that of the object; dim_x 1-2')
def batch_lag(E, T, own, lag):
    n = 2 if T < 4 else 1
    out = []
    x, P, F, Q, H, R = E.col('x', n), E.psd('P', n), E.mat('F', n, n), E.psd('Q', n), E.mat('H', 1, n), E.psd('R', 1)
    zs = [E.col('z%d' % i, 1) for i in range(T)]
    for N in (own, lag):
        f = E.fp('kalman').FixedLagSmoother(n, 1, N)
        f.x, f.P, f.F, f.Q, f.H, f.R = [E.copy(a) for a in (x, P, F, Q, H, R)]
        out.append(f.smooth_batch([E.copy(z) for z in zs], lag))
    for a, b in zip(out[0], out[1]):
        E.eq('the same', E.array(a) if isinstance(a, list) else a, E.array(b) if isinstance(b, list) else b)


# ---------------------------------------------------------------- C25

@harness('C25', bounds='every g in (0,1)')
def smoothing_branch(E):
    g = E.real('g', lo=0, hi=1, strict=True)
    _, h, k = E.fp('gh').optimal_noise_smoothing(g)
    E.check('h nonnegative', h >= 0)


# ---------------------------------------------------------------- C30, C31 default arguments

@harness('C30', [dict(dim=d, b=b) for d in (2, 3, 4) for b in (1, 2, 3)], bounds='dim 2-4, 1-3 blocks: arguments left out')
def q_defaults(E, dim, b):
    c = E.fp('common')
    dt, v = E.real('dt'), E.pos('v')
    for f, names in ((c.Q_discrete_white_noise, 'var'), (c.Q_continuous_white_noise, 'spectral_density')):
        E.eq('ordering', f(dim, dt, v, b), f(dim, dt, v, b, True))
        E.eq('one block', f(dim, dt, v), f(dim, dt, v, 1, True))
        E.eq('unit noise', f(dim, dt), f(dim, dt, E.num(1), 1, True))
        E.eq('by name', f(dim, dt=dt, block_size=b, **{names: v}), f(dim, dt, v, b, True))
        E.eq('unit step', f(dim), f(dim, E.num(1), E.num(1), 1, True))


@harness('C30', [dict(dim=d, b=b) for d in (1, 2, 3) for b in (1, 2, 3)], bounds='1-3 x 1-3 blocks given as nested lists')
def by_derivative_list(E, dim, b):
    f = E.fp('common.discretization').order_by_derivative
    Q = E.mat('Q', dim, dim)
    E.eq('the same', f([[Q[i, j] for j in range(dim)] for i in range(dim)], dim, b), f(Q, dim, b))


@harness('C31', [dict(dim=d, order=o) for d in (1, 2, 3) for o in (0, 1, 2)], bounds='1-3 dimensions, orders 0-2: arguments left out; the rest of a new filter is standard')
def kinematic_defaults(E, dim, order):
    f = E.fp('common').kinematic_kf
    a, b = f(dim, order), f(dim, order, dt=E.num(1), dim_z=1, order_by_dim=True)
    n = dim * (order + 1)
    for q in ('F', 'H', 'x', 'P', 'Q', 'R'):
        E.eq(q, getattr(a, q), getattr(b, q))
    E.eq('P is the identity', a.P, E.np.eye(n))
    E.eq('R is the identity', a.R, E.np.eye(1))
    E.eq('x is zero', a.x, E.np.zeros((n, 1)))
    E.check('dimensions', a.dim_x == n and a.dim_z == 1)


# ---------------------------------------------------------------- C33

@harness('C33', bounds='all points, means, variances')
def gaussian_default(E):
    s = E.fp('stats')
    x, m, v = E.real('x'), E.real('m'), E.pos('v')
    E.eqv('normalised', s.gaussian(x, m, v), s.gaussian(x, m, v, normed=True))
    a, b = E.real('a'), E.real('b')
    E.eqv('norm_cdf standard', s.norm_cdf((a, b), 0), s.norm_cdf((a, b), 0, 1))
    E.eqv('norm_cdf by deviation', s.norm_cdf((a, b), m, v * v), s.norm_cdf((a, b), m, std=v))


# ---------------------------------------------------------------- C34 Saver arrays

class Cols(object):
    def __init__(self, E, m):
        self.x, self.s, self.P, self.c, self.row, self.lst = E.col('x', 2), E.col('s', 1), E.mat('P', 2, 2), E.real('c'), E.mat('r', 1, 2), [E.real('l0'), E.real('l1')]


@harness('C34', [dict(n=n, flat=f) for n in (1, 2, 3) for f in (False, True)], bounds='1-3 saves of columns, matrices, rows, numbers, lists')
def saver_arrays(E, n, flat):
    o = Cols(E, 2)
    s = E.fp('common').Saver(o)
    want = []
    for k in range(n):
        o.c = E.real('c%d' % k)
        scribble(E, o.x)
        scribble(E, o.P)
        s.save()
        want.append(dict(x=E.copy(o.x), s=E.copy(o.s), P=E.copy(o.P), c=o.c, row=E.copy(o.row), lst=E.array(o.lst)))
    s.to_array(flatten=True) if flat else s.to_array()
    for a in ('x', 's', 'P', 'c', 'row', 'lst'):
        w = E.array([q[a] for q in want])
        if flat and a in ('x', 's'):
            w = w.reshape(n, -1) if a == 'x' else w.reshape(-1)
        E.eq(a, getattr(s, a), w)
    if flat:
        s.flatten()
        E.eq('flat x again', s.x, E.array([q['x'] for q in want]).reshape(n, -1))
    for k in range(n):
        E.eq('history kept', s['x'][k], want[k]['x'])
    new = [E.real('n%d' % k) for k in range(n)]
    s['x'] = new
    E.eq('replaced', E.array(s['x']), E.array(new))
    E.eq('replaced attribute', E.array(s.x), E.array(new))


@harness('C34', [dict(n=n) for n in (1, 2)], bounds='attribute whose shape changed between saves')
def saver_ragged(E, n):
    o = Cols(E, 2)
    s = E.fp('common').Saver(o)
    s.save()
    x0 = E.copy(o.x)
    o.x = E.vec('other', 3)
    for k in range(n):
        s.save()
    E.raises('not an array', ValueError, s.to_array)
    E.eq('first kept', s.x[0], x0)
    E.eq('last kept', s.x[n], o.x)


@harness('C34', bounds='KalmanFilters (2, 1) that differ in one attribute')
def compare_quiet(E):
    import contextlib
    import io
    K, c = E.fp('kalman'), E.fp('common.helpers')
    a, b = K.KalmanFilter(2, 1), K.KalmanFilter(2, 1)
    b.x = a.x + E.np.ones((2, 1)) * E.real('d', lo=1)
    out = []
    for kw in ({}, dict(log=True), dict(log=False)):
        t = io.StringIO()
        with contextlib.redirect_stdout(t):
            r = c.compare_kf(a, b, **kw)
        out.append((r, t.getvalue()))
    E.check('same answer', list(out[0][0]) == list(out[1][0]) == list(out[2][0]))
    E.check('prints by default', 'x is different' in out[0][1] and 'x is different' in out[1][1])
    E.check('log=False is silent', out[2][1] == '')


# ---------------------------------------------------------------- C36 impossible configurations

def rejected(E, what):
    K, C, G = E.fp('kalman'), E.fp('common'), E.fp('gh')
    neg = E.real('neg', hi=0, slo=-9)
    below0 = E.real('below0', hi=0, strict=True, slo=-9)
    small = E.real('small', hi=1, strict=True, slo=-9)
    big = E.real('big', lo=2, strict=True, shi=9)
    half = E.real('half', lo=0, hi=1, strict=True)
    V = ValueError
    r = E.raises
    x1 = E.vec('x1', 1)
    P1 = E.psd('P1', 1)
    if what in ('KalmanFilter', 'SquareRootKalmanFilter', 'InformationFilter'):
        k = getattr(K, what)
        r('dim_x', V, k, neg, 1)
        r('dim_z', V, k, 1, neg)
        r('dim_u', V, k, 1, 1, below0)
        r('dim_x below one', V, k, small, 1)
        r('dim_z below one', V, k, 1, small)
    elif what == 'EnsembleKalmanFilter':
        k = K.EnsembleKalmanFilter
        r('dim_z', V, k, x1, P1, neg, 1, 3, None, None)
        r('N', V, k, x1, P1, 1, 1, neg, None, None)
        r('column', V, k, E.col('xc', 2), E.psd('P2', 2), 1, 1, 3, None, None)
        f = k(x1, P1, 1, 1, 2, None, None)
        r('initialize', V, f.initialize, E.col('xc', 2), E.psd('P2', 2))
    elif what == 'banks':
        a, b, c = [kf_model(E, n, 1, 0, 'col', tag=t)[0] for n, t in ((2, 'a'), (2, 'b'), (1, 'c'))]
        mu = E.simplex('mu', 2)
        T = E.array([[half, 1 - half], [1 - half, half]])
        r('dim_x', V, K.MMAEFilterBank, [a, b], mu, small)
        r('probabilities', V, K.MMAEFilterBank, [a, b], E.simplex('m3', 3), 2)
        r('probabilities missing', V, K.MMAEFilterBank, [a, b], E.vec('m1', 1), 2)
        r('one model', V, K.IMMEstimator, [a], E.vec('m1', 1), E.array([[E.num(1)]]))
        r('no model', V, K.IMMEstimator, [], E.vec('m1', 1), E.array([[E.num(1)]]))
        r('sizes', V, K.IMMEstimator, [a, c], mu, T)
        r('sizes', V, K.IMMEstimator, [c, b], mu, T)
    elif what == 'smoothers':
        kf = kf_model(E, 1, 1)[0]
        X, P = E.array([E.col('x%d' % i, 1) for i in range(3)]), E.array([E.psd('p%d' % i, 1) for i in range(3)])
        F = E.mat('F', 1, 1)
        r('class', V, kf.rts_smoother, X, P[:2])
        r('class', V, kf.rts_smoother, X[:2], P)
        r('function', V, K.rts_smoother, X, P[:2], [F] * 3, [P1] * 3)
        r('function', V, K.rts_smoother, X[:2], P, [F] * 3, [P1] * 3)
        u = Rig(E, 'UnscentedKalmanFilter', 1, 1).f
        r('unscented', V, u.rts_smoother, X[:, :, 0], P[:2])
        r('unscented', V, u.rts_smoother, X[:2, :, 0], P)
    elif what == 'kinematic':
        r('dim', V, C.kinematic_kf, small, 1)
        r('order', V, C.kinematic_kf, 1, below0)
        r('dim_z', V, C.kinematic_kf, 1, 1, 1.0, small)
        r('order', V, C.kinematic_state_transition, below0, E.real('dt'))
        r('order', V, C.kinematic_state_transition, half, E.real('dt'))
    elif what == 'noise':
        for f in (C.Q_discrete_white_noise, C.Q_continuous_white_noise):
            r('dim', V, f, E.real('dim1', hi=2, strict=True, slo=-9), E.real('dt'))
            r('dim', V, f, E.real('dim4', lo=4, strict=True, shi=9), E.real('dt'))
            r('dim', V, f, 2 + half, E.real('dt'))
    elif what == 'order':
        x0 = E.vec('x0', 2)
        for o in (below0, big):
            r('gh', V, G.gh_filter.GHFilterOrder if hasattr(G, 'gh_filter') else G.GHFilterOrder, x0, 1.0, o, 0.5, 0.5, 0.5)
            r('least squares', V, E.fp('leastsq').LeastSquaresFilter, 1.0, o)
            r('fading', V, E.fp('memory').FadingMemoryFilter, x0, 1.0, o, half)
    elif what == 'theta':
        f = G.critical_damping_parameters
        for o in (2, 3):
            r('negative', V, f, below0, o)
            r('above one', V, f, E.real('above', lo=1, strict=True, shi=9), o)
        for o in (0, 1, 4):
            r('order', V, f, half, o)
    elif what == 'alpha':
        kf = kf_model(E, 1, 1)[0]
        r('alpha', V, setattr, kf, 'alpha', small)
        r('alpha', V, setattr, kf, 'alpha', E.vec('al', 2))
        kf.alpha = 1 + half
        E.eqv('accepted', kf.alpha, 1 + half)
    elif what == 'sigma':
        for f in FAM:
            p = points(E, f, 2, tag=f)
            r(f, V, p.sigma_points, E.vec('x3', 3), E.psd('P3', 3))
            r(f, V, p.sigma_points, x1, P1)
            r(f, V, p.sigma_points, E.real('xs'), E.pos('ps'))
    elif what == 'density':
        s = E.fp('stats')
        r('mahalanobis', V, s.mahalanobis, E.vec('x2', 2), x1, P1)
        r('matrix', V, s.mahalanobis, E.mat('xm', 2, 2), E.vec('m2', 2), E.psd('P2', 2))
    elif what == 'measurement':
        kf = kf_model(E, 2, 2)[0]
        for a in (E.vec('z3', 3), E.col('z1', 1), E.mat('zm', 2, 2), E.real('zs')):
            r('size', V, kf.update, a)
            r('size', V, kf.update_correlated, a)
            r('size', V, kf.update_steadystate, a)


@harness('C36', [dict(what=w) for w in ('KalmanFilter', 'SquareRootKalmanFilter', 'InformationFilter', 'EnsembleKalmanFilter', 'banks', 'smoothers', 'kinematic', 'noise',
                                         'order', 'theta', 'alpha', 'sigma', 'density', 'measurement')],
         bounds='every offending number (arbitrary real); shapes as listed')
def rejects(E, what):
    rejected(E, what)


# ---------------------------------------------------------------- C37 a new filter

NEW = ('KalmanFilter', 'ExtendedKalmanFilter', 'FadingKalmanFilter', 'SquareRootKalmanFilter', 'InformationFilter', 'UnscentedKalmanFilter',
       'CubatureKalmanFilter', 'EnsembleKalmanFilter', 'HInfinityFilter', 'FixedLagSmoother')


@harness('C37', [dict(kind=k, n=n, m=m) for k in NEW for n, m in ((1, 1), (2, 1), (2, 2), (3, 1))],
         bounds='dim_x 1-3, dim_z 1-2: a filter on which only the measurement function (and the process function) was set; any measurement')
def new_filter(E, kind, n, m):
    K = E.fp('kalman')
    I, Iz = E.np.eye(n), E.np.eye(m)
    H = E.mat('H', m, n)
    z = E.col('z', m)
    x0 = E.np.zeros((n, 1))
    flat = kind in ('UnscentedKalmanFilter', 'EnsembleKalmanFilter')
    F = I
    if kind == 'FadingKalmanFilter':
        f = K.FadingKalmanFilter(E.num(1), n, m)
    elif kind == 'UnscentedKalmanFilter':
        F = E.mat('F', n, n)
        f = K.UnscentedKalmanFilter(n, m, E.real('dt'), lambda s: E.dot(H, s), lambda s, dt: E.dot(F, s), points(E, 'merwe', n))
    elif kind == 'CubatureKalmanFilter':
        f = K.CubatureKalmanFilter(n, m, E.real('dt'), lambda s: E.dot(H, s), lambda s, dt: s)
    elif kind == 'EnsembleKalmanFilter':
        f = K.EnsembleKalmanFilter(E.vec('x', n), E.psd('P', n), m, E.real('dt'), 2, lambda s: E.dot(H, s), lambda s, dt: s)
    elif kind == 'HInfinityFilter':
        f = E.fp('hinfinity').HInfinityFilter(n, m, 0, E.real('gamma'))
    else:
        f = getattr(K, kind)(n, m)
    E.check('sizes', getattr(f, 'dim_x', n) == n and getattr(f, 'dim_z', m) == m)
    if kind != 'EnsembleKalmanFilter':
        E.eq('x', f.x, x0.reshape(-1) if flat or kind[0] == 'C' else x0)
        if kind != 'InformationFilter':
            E.eq('P', f.P, I)
        else:
            E.eq('P_inv', f.P_inv, I)
    E.eq('Q', f.Q, I)
    if kind == 'InformationFilter':
        E.eq('R_inv', f.R_inv, Iz)
    elif kind != 'HInfinityFilter':
        E.eq('R', f.R, Iz)
    if kind not in ('UnscentedKalmanFilter', 'CubatureKalmanFilter', 'EnsembleKalmanFilter', 'InformationFilter'):
        E.eq('F', f.F, I)
    if kind in ('KalmanFilter', 'ExtendedKalmanFilter', 'FadingKalmanFilter', 'SquareRootKalmanFilter', 'UnscentedKalmanFilter', 'CubatureKalmanFilter', 'EnsembleKalmanFilter'):
        E.check('no measurement yet', all_none(f.z))
        E.check('shape of the measurement', E.shape(f.z) == (m, 1))
    if hasattr(f, 'x_prior'):
        for a in ('x_prior', 'x_post'):
            E.eq(a, getattr(f, a), f.x)
        for a in ('P_prior', 'P_post', 'P_inv_prior', 'P_inv_post'):
            if hasattr(f, a):
                E.eq(a, getattr(f, a), f.P_inv if 'inv' in a else f.P)
    if kind in ('EnsembleKalmanFilter', 'HInfinityFilter', 'FixedLagSmoother'):
        return
    # and it behaves so
    if kind not in ('UnscentedKalmanFilter', 'CubatureKalmanFilter', 'ExtendedKalmanFilter'):
        f.H = E.copy(H)
    if kind == 'InformationFilter':
        f.F = I
    f.predict()
    P = E.dot(F, F.T) + I
    if kind == 'InformationFilter':
        E.eq('predicted P_inv', f.P_inv, E.linalg.inv(P))
    else:
        E.eq('predicted P', f.P, P)
    E.eq('predicted x', f.x, x0.reshape(-1) if flat else x0)
    if kind in ('UnscentedKalmanFilter', 'CubatureKalmanFilter') and n > 1:
        return
    if kind == 'ExtendedKalmanFilter':
        f.update(z, lambda x: H, lambda x: E.dot(H, x))
    else:
        f.update(z.reshape(-1) if flat else z)
    u = update_ref(E, x0, P, z, H, Iz)
    E.eq('x after update', f.x, u['x'].reshape(-1) if flat else u['x'])
    if kind == 'InformationFilter':
        E.eq('P_inv after update', f.P_inv, E.linalg.inv(P) + E.dot(H.T, H))
    else:
        E.eq('P after update', f.P, u['P'])
