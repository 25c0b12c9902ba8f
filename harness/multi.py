"""Ensemble filter, model banks, fixed-lag smoother, H-infinity filter."""
from engine.registry import harness
from harness._common import snap, scribble, update_ref, state, meas, kf_model


# ---------------------------------------------------------------- C19 ensemble filter

def sample_moments(E, s):
    N, n = s.shape
    m = E.np.zeros(n)
    for k in range(N):
        m = m + s[k] / N
    C = E.np.zeros((n, n))
    for k in range(N):
        C = C + E.np.outer(s[k] - m, s[k] - m) / (N - 1)
    return m, C


def enkf(E, n, m, N, hx, fx):
    x, P = E.vec('x', n), E.psd('P', n)
    before = snap(E, x, P)
    f = E.fp('kalman').EnsembleKalmanFilter(x=x, P=P, dim_z=m, dt=E.real('dt'), N=N, hx=hx, fx=fx)
    return f, x, P, before


@harness('C19', [dict(n=n, N=N) for n in (1, 2) for N in (2, 3)] + [dict(n=3, N=4)],
         [dict(n=4, N=8)],
         bounds='initialisation: 2-4 members (8 thorough), dim_x 1-3 (4 thorough)')
def ensemble_init(E, n, N):
    f, x, P, before = enkf(E, n, 1, N, None, None)
    E.same_inputs('args', before)
    c = E.mvn_calls()
    E.check('one draw per member', len(c) == 1 and tuple(c[0][2]) == (N,))
    E.eq('draw mean', c[0][0], x)
    E.eq('draw covariance', c[0][1], P)
    E.check('members', E.shape(f.sigmas) == (N, n))
    E.eq('x', f.x, x)
    E.eq('P', f.P, P)
    for a, b in ((f.x_prior, x), (f.x_post, x), (f.P_prior, P), (f.P_post, P)):
        E.eq('prior and posterior', a, b)
    E.raises('x dimension', ValueError, f.initialize, E.np.zeros((n, 1)), P)


def draws(E, k):
    """the k-th recorded multivariate draw as (mean, cov, size, values)"""
    return E.mvn_calls()[k]


@harness('C19', [dict(n=n, N=N, kind=k) for n in (1, 2) for N in (2, 3) for k in ('linear', 'nonlinear')] + [dict(n=3, N=4, kind='linear')],
         [dict(n=4, N=6, kind='linear')],
         bounds='predict twice: 2-4 members (6 thorough), dim_x 1-3 (4 thorough), linear and quadratic process function')
def ensemble_predict(E, n, N, kind):
    F, b = E.mat('F', n, n), E.vec('b', n)
    seen = []

    def fx(s, dt):
        seen.append((E.copy(s), dt))
        r = E.dot(F, s) + b * dt
        return r if kind == 'linear' else r + s * s * dt
    f, x, P, _ = enkf(E, n, 1, N, None, fx)
    Q = E.psd('Q', n)
    f.Q = E.copy(Q)
    s = E.mat('s', N, n)
    f.sigmas = E.copy(s)
    for k in range(2):
        before = snap(E, f.Q)
        f.predict()
        E.same_inputs('Q', before)
        c = draws(E, 1 + k)
        E.eq('noise mean%d' % k, c[0], E.np.zeros(n))
        E.eq('noise covariance%d' % k, c[1], Q)
        E.check('noise draws%d' % k, tuple(c[2]) == (N,))
        E.check('calls%d' % k, len(seen) == (k + 1) * N)
        e = E.drawn(1 + k)
        want = []
        for i in range(N):
            E.eq('argument%d.%d' % (k, i), seen[k * N + i][0], s[i])
            E.eq('dt%d.%d' % (k, i), E.num(seen[k * N + i][1]), E.real('dt'))
            r = E.dot(F, s[i]) + b * E.real('dt')
            want.append((r if kind == 'linear' else r + s[i] * s[i] * E.real('dt')) + e[i])
        want = E.np.array(want)
        E.eq('members%d' % k, f.sigmas, want)
        m, C = sample_moments(E, want)
        E.eq('x%d' % k, f.x, m)
        E.eq('P%d' % k, f.P, C)
        E.eq('x_prior%d' % k, f.x_prior, m)
        E.eq('P_prior%d' % k, f.P_prior, C)
        scribble(E, f.x)
        scribble(E, f.P)
        E.eq('x_prior copy%d' % k, f.x_prior, m)
        E.eq('P_prior copy%d' % k, f.P_prior, C)
        s = E.mat('t', N, n)
        f.sigmas = E.copy(s)


@harness('C19', [dict(n=n, m=m, N=N, over=o) for n, m, N in ((1, 1, 2), (1, 1, 3), (2, 1, 2), (2, 1, 3), (1, 2, 2), (2, 2, 3))
                 for o in ('', 'R', 'r', 'quad')],
         [dict(n=3, m=2, N=4, over='')],
         bounds='update: 2-3 members (4 thorough), dim_x 1-2 (3 thorough), dim_z 1-2; per-call R (matrix, scalar), '
                'linear or quadratic measurement function', query_ms=60000)
def ensemble_update(E, n, m, N, over):
    H = E.mat('H', m, n)

    def hx(s):
        r = E.dot(H, s)
        return r if over != 'quad' else r + E.dot(H, s * s)
    f, x, P, _ = enkf(E, n, m, N, hx, lambda s, dt: s)
    R, kw = E.psd('R', m), {}
    f.R = E.copy(R)
    if over == 'R':
        R = kw['R'] = E.psd('R2', m)
    if over == 'r':
        kw['R'] = E.pos('r')
        R = E.np.eye(m) * kw['R']
    # reach an arbitrary ensemble whose mean and covariance are x, P
    s = E.mat('s', N, n)
    f.sigmas = E.copy(s)
    f.x, P = sample_moments(E, s)
    Pq = E.psd('Pq', n)
    f.P = E.copy(Pq)
    z = E.vec('z', m)
    before = snap(E, z, kw.get('R'))
    h = E.np.array([hx(s[i]) for i in range(N)])
    hm, Czz = sample_moments(E, h)
    Pxz = E.np.zeros((n, m))
    for i in range(N):
        Pxz = Pxz + E.np.outer(s[i] - f.x, h[i] - hm) / (N - 1)
    S, Pxz = E.let('S', Czz + R), E.let('Pxz', Pxz)
    K = E.dot(Pxz, E.linalg.inv(S))
    E.hint(S, Pxz, K)
    f.update(z, **kw)
    E.same_inputs('args', before)
    c = draws(E, 1)
    E.check('draws', len(E.mvn_calls()) == 2 and tuple(c[2]) == (N,))
    E.eq('noise mean', c[0], E.np.zeros(m))
    E.eq('noise covariance', c[1], R)
    e = E.drawn(1)
    E.eq('S', f.S, S)
    E.eq('SI', E.dot(f.SI, S), E.np.eye(m))
    E.eq('K', f.K, K)
    want = E.np.array([s[i] + E.dot(K, z + e[i] - h[i]) for i in range(N)])
    E.eq('members', f.sigmas, want)
    E.eq('x', f.x, sample_moments(E, want)[0] if N > 1 else want[0])
    E.eq('P', f.P, Pq - E.dot(K, S, K.T))
    E.eq('x_post', f.x_post, f.x)
    E.eq('P_post', f.P_post, f.P)
    E.eqv('z', f.z, z)
    xs, Ps = E.copy(f.x), E.copy(f.P)
    scribble(E, f.x)
    scribble(E, f.P)
    E.eq('x_post copy', f.x_post, xs)
    E.eq('P_post copy', f.P_post, Ps)


# ---------------------------------------------------------------- C20 / C21 model banks

class Model(object):
    """a model with arbitrary behaviour: predict and update replace its estimate by new arbitrary values"""

    def __init__(self, E, tag, n, shape):
        self.E, self.tag, self.n, self.shape = E, tag, n, shape
        self.step = 0
        self.given = []
        self.calls = []
        self.z = None
        self._fresh()

    def next_likelihood(self):
        return self.E.pos('%s%dl' % (self.tag, self.step))

    def _fresh(self):
        t = '%s%d' % (self.tag, self.step)
        self.x = state(self.E, t + 'x', self.n, self.shape)
        self.P = self.E.psd(t + 'P', self.n)
        self.likelihood = self.E.pos(t + 'l')
        self.step += 1

    def predict(self, u=None):
        self.given.append((self.E.copy(self.x), self.E.copy(self.P)))
        self.calls.append(('predict', u))
        self._fresh()

    def update(self, z, R=None, H=None):
        self.calls.append(('update', z, R, H))
        if z is not None:
            self._fresh()


def mixture(E, w, xs, Ps):
    x = w[0] * xs[0]
    for k in range(1, len(xs)):
        x = x + w[k] * xs[k]
    P = E.np.zeros(Ps[0].shape)
    for k in range(len(xs)):
        d = (xs[k] - x).reshape(-1)
        P = P + w[k] * (E.np.outer(d, d) + Ps[k])
    return x, P


def stochastic(E, name, M):
    return E.np.array([E.simplex('%s%d' % (name, i), M) for i in range(M)])


def mixing(E, t, mu, T):
    M = len(mu)
    full = E.dot(mu, T)
    cbar = E.let('cbar' + t, full)
    for j in range(M):
        E.lemma('predicted probability%s.%d' % (t, j), full[j] > 0)
        E.lemma('predicted probability named%s.%d' % (t, j), cbar[j] > 0)
    E.hint(cbar)
    w = [E.let('w%s_%d' % (t, j), E.np.array([T[i, j] * mu[i] / cbar[j] for i in range(M)])) for j in range(M)]
    E.hint(*w)
    return cbar, w


@harness('C20', [dict(M=2, n=n, shape=s, order=o) for n, s in ((1, 'col'), (2, 'col'), (2, 'vec')) for o in ('pup', 'up', 'uup')] +
         [dict(M=3, n=1, shape='col', order='pu'), dict(M=3, n=2, shape='vec', order='pup')],
         [dict(M=3, n=2, shape='col', order='pupup'), dict(M=4, n=1, shape='col', order='pup')],
         bounds='2-3 models (4 thorough) with arbitrary behaviour, state size 1-2, up to 3 steps (5 thorough)',
         query_ms=60000)
def imm(E, M, n, shape, order):
    fs = [Model(E, 'm%d_' % k, n, shape) for k in range(M)]
    mu, T = E.simplex('mu', M), stochastic(E, 'T', M)
    scale = E.pos('scale')
    given = mu * scale                  # need not be normalised
    before = snap(E, given, T)
    E.hint(mu)
    cbar, w = mixing(E, '', mu, T)
    f = E.fp('kalman').IMMEstimator(fs, given, T)
    E.same_inputs('args', before)
    E.eq('mu', f.mu, mu)

    def check(tag, mu):
        x, P = mixture(E, mu, [m.x for m in fs], [m.P for m in fs])
        E.eq('x' + tag, f.x, x)
        E.eq('P' + tag, f.P, P)
        return x, P
    check('0', mu)
    for k, c in enumerate(order):
        t = '%d%s' % (k, c)
        if c == 'p':
            u = E.col('u%d' % k, 1)
            xs, Ps = [m.x for m in fs], [m.P for m in fs]
            want = [mixture(E, w[j], xs, Ps) for j in range(M)]
            f.predict(u)
            for j, m in enumerate(fs):
                E.check('predicted once' + t, m.calls[-1][0] == 'predict')
                E.eq('u' + t, m.calls[-1][1], u)
                E.eq('mixed x%s.%d' % (t, j), m.given[-1][0], want[j][0])
                E.eq('mixed P%s.%d' % (t, j), m.given[-1][1], want[j][1])
            x, P = check(t, mu)
            E.eq('x_prior' + t, f.x_prior, x)
            E.eq('P_prior' + t, f.P_prior, P)
        else:
            z = E.col('z%d' % k, 1)
            l = [m.next_likelihood() for m in fs]
            tot = cbar[0] * l[0]
            for j in range(1, M):
                tot = tot + cbar[j] * l[j]
            full = E.np.array([cbar[j] * l[j] / tot for j in range(M)])
            mu = E.let('mu' + t, full)
            E.hint(mu)
            cbar, w = mixing(E, t, mu, T)
            f.update(z)
            for m in fs:
                E.check('updated' + t, m.calls[-1][0] == 'update' and m.calls[-1][1] is z)
            E.eq('mu' + t, f.mu, mu)
            E.eq('sum' + t, E.np.sum(full), E.num(1))
            for j in range(M):
                E.lemma('positive%s.%d' % (t, j), full[j] > 0)
                E.lemma('positive named%s.%d' % (t, j), mu[j] > 0)
            E.eq('likelihood' + t, f.likelihood, E.np.array(l))
            x, P = check(t, mu)
            E.eq('x_post' + t, f.x_post, x)
            E.eq('P_post' + t, f.P_post, P)
        E.same_inputs('args' + t, before)
        # snapshots
        xp, Pp = E.copy(f.x_prior), E.copy(f.P_prior)
        xq, Pq = E.copy(f.x_post), E.copy(f.P_post)
        held = snap(E, f.x_prior, f.P_prior, f.x_post, f.P_post)
        scribble(E, f.x)
        scribble(E, f.P)
        E.same_inputs('snapshots' + t, held)


@harness('C20', bounds='constructor checks')
def imm_errors(E):
    I = E.fp('kalman').IMMEstimator
    a, b = Model(E, 'a', 2, 'col'), Model(E, 'b', 2, 'col')
    c = Model(E, 'c', 3, 'col')
    E.raises('one model', ValueError, I, [a], E.np.array([1.]), E.np.array([[1.]]))
    E.raises('shapes', ValueError, I, [a, c], E.simplex('mu', 2), stochastic(E, 'T', 2))


@harness('C20', [dict(order=o) for o in ('pu', 'pNpu')], bounds='2 linear Kalman filters of dimension 1', query_ms=60000)
def imm_kalman(E, order):
    fs, vs = zip(*[kf_model(E, 1, 1, tag='m%d' % k) for k in range(2)])
    twins, _ = zip(*[kf_model(E, 1, 1, tag='m%d' % k) for k in range(2)])
    mu, T = E.simplex('mu', 2), stochastic(E, 'T', 2)
    f = E.fp('kalman').IMMEstimator(list(fs), mu, T)
    for k, c in enumerate(order):
        if c == 'p':
            cbar = E.dot(mu, T)
            mixed = [mixture(E, [T[i, j] * mu[i] / cbar[j] for i in range(2)], [t.x for t in twins], [t.P for t in twins])
                     for j in range(2)]
            for t, (x, P) in zip(twins, mixed):
                t.x, t.P = E.copy(x), E.copy(P)
                t.predict()
            f.predict()
        elif c == 'N':
            f.update(None)
            E.eq('mu unchanged', f.mu, mu)
        else:
            z = E.real('z%d' % k)
            for t in twins:
                t.update(z)
            f.update(z)
            cbar = E.dot(mu, T)
            w = [cbar[j] * twins[j].likelihood for j in range(2)]
            mu = E.np.array([w[0] / (w[0] + w[1]), w[1] / (w[0] + w[1])])
            E.eq('mu%d' % k, f.mu, mu)
        x, P = mixture(E, mu, [t.x for t in twins], [t.P for t in twins])
        E.eq('x%d' % k, f.x, x)
        E.eq('P%d' % k, f.P, P)


@harness('C21', [dict(M=M, n=n, shape=s, order=o, H=h) for M, n, s in ((2, 1, 'col'), (2, 2, 'col'), (2, 2, 'vec'), (3, 2, 'col'))
                 for o in ('pu', 'up', 'upu') for h in (False, True)],
         [dict(M=3, n=3, shape='col', order='pupu', H=False)],
         bounds='2-3 models with arbitrary behaviour, state size 1-2 (3 thorough), up to 3 steps (4 thorough); bank-wide and '
                'per-call H and R passed on', query_ms=60000)
def mmae(E, M, n, shape, order, H):
    fs = [Model(E, 'm%d_' % k, n, shape) for k in range(M)]
    p = E.simplex('p', M)
    own = E.copy(p)
    before = snap(E, own)
    Hb = E.mat('H', 1, n) if H else None
    f = E.fp('kalman').MMAEFilterBank(fs, own, n, H=Hb)
    for k, c in enumerate(order):
        t = '%d%s' % (k, c)
        if c == 'p':
            u = E.col('u%d' % k, 1)
            f.predict(u)
            for m in fs:
                E.check('predict' + t, m.calls[-1][0] == 'predict' and m.calls[-1][1] is u)
            x, P = mixture(E, p, [m.x for m in fs], [m.P for m in fs])
            E.eq('x_prior' + t, f.x_prior, x)
            E.eq('P_prior' + t, f.P_prior, P)
        else:
            z, a = E.col('z%d' % k, 1), {}
            if H and k:
                a = dict(R=E.psd('R%d' % k, 1), H=E.mat('H%d' % k, 1, n))
            held = snap(E, z, *a.values())
            w = [p[j] * fs[j].next_likelihood() for j in range(M)]
            tot = sum(w[1:], w[0])
            full = E.np.array([v / tot for v in w])
            p = E.let('p' + t, full)
            E.hint(p)
            f.update(z, **a)
            E.same_inputs('update args' + t, held)
            for m in fs:
                E.check('update' + t, m.calls[-1][0] == 'update' and m.calls[-1][1] is z)
                E.eq('R' + t, m.calls[-1][2], a.get('R'))
                E.eq('H' + t, m.calls[-1][3], a.get('H', Hb))
            E.eq('p' + t, f.p, p)
            E.eq('sum' + t, E.np.sum(full), E.num(1))
            x, P = mixture(E, p, [m.x for m in fs], [m.P for m in fs])
            E.eq('x' + t, f.x, x)
            E.eq('P' + t, f.P, P)
            E.eq('x_post' + t, f.x_post, x)
            E.eq('P_post' + t, f.P_post, P)
            held = snap(E, f.x_post, f.P_post)
            scribble(E, f.x)
            scribble(E, f.P)
            E.same_inputs('snapshot' + t, held)
        E.same_inputs('p of the caller' + t, before)


@harness('C21', bounds='2 linear Kalman filters of dimension 1-2, missing measurement in between, integer probabilities')
def mmae_kalman(E):
    fs, vs = zip(*[kf_model(E, 2, 1, tag='m%d' % k) for k in range(2)])
    twins, _ = zip(*[kf_model(E, 2, 1, tag='m%d' % k) for k in range(2)])
    f = E.fp('kalman').MMAEFilterBank(list(fs), [1, 1], 2)
    p = [E.num(1) / 2, E.num(1) / 2]
    for k, z in enumerate((E.real('z0'), None, E.real('z1'))):
        for t in twins:
            t.predict()
            t.update(z)
            if z is not None:
                t.likelihood
        f.predict()
        f.update(z)
        if z is None:
            continue
        w = [p[j] * twins[j].likelihood for j in range(2)]
        p = E.np.array([w[0] / (w[0] + w[1]), w[1] / (w[0] + w[1])])
        E.eq('p%d' % k, f.p, p)
        if k == 0:
            x, P = mixture(E, p, [t.x for t in twins], [t.P for t in twins])
            E.eq('x', f.x, x)
            E.eq('P', f.P, P)
        E.raises('lengths', ValueError, E.fp('kalman').MMAEFilterBank, list(fs), [1], 2)


# ---------------------------------------------------------------- C22 fixed lag

def fls_model(E, n, m, N, shape, nu=0):
    f = E.fp('kalman').FixedLagSmoother(dim_x=n, dim_z=m, N=N)
    v = dict(x=state(E, 'x', n, shape), P=E.psd('P', n), F=E.mat('F', n, n), H=E.mat('H', m, n), Q=E.psd('Q', n),
             R=E.psd('R', m))
    if nu:
        v['B'] = E.mat('B', n, nu)
    for k in v:
        setattr(f, k, E.copy(v[k]))
    return f, v


FLS = [(1, 1, T, N) for T, N in ((1, 0), (1, 2), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (3, 5), (6, 2))] + \
      [(2, 1, 3, 1), (2, 1, 4, 2), (2, 1, 5, 1), (2, 2, 3, 1), (3, 1, 3, 1)]


@harness('C22', [dict(n=n, m=m, T=T, N=N, shape=s, nu=0) for n, m, T, N in FLS for s in ('col', 'vec')] +
         [dict(n=1, m=1, T=2, N=1, shape=s, nu=1) for s in ('col', 'vec')] + [dict(n=2, m=1, T=3, N=1, shape='col', nu=2)],
         [dict(n=n, m=m, T=T, N=N, shape='col', nu=1) for n, m, T, N in ((1, 1, 10, 3), (2, 1, 8, 3), (3, 2, 4, 2), (4, 1, 3, 1))],
         bounds='dim_x 1-3 (4 thorough), dim_z 1-2, up to 6 measurements (10 thorough), lags 0-5, controls; the '
                'reference conditions the joint Gaussian of the states on the measurements', query_ms=60000)
def fixed_lag(E, n, m, T, N, shape, nu):
    f, v = fls_model(E, n, m, N, shape, nu)
    F, H, Q, R = v['F'], v['H'], v['Q'], v['R']
    zs = [E.col('z%d' % k, m) if shape == 'col' else E.vec('z%d' % k, m) for k in range(T)]
    us = [E.col('u%d' % k, nu) if shape == 'col' else E.vec('u%d' % k, nu) for k in range(T)] if nu else None
    before = snap(E, *(zs + (us or []) + [getattr(f, k) for k in v]))
    # reference: sequential conditioning of the joint (x_0 .. x_k)
    x, P = v['x'].reshape(n, 1), v['P']
    mean, filt, C = [], [], {}
    for k in range(T):
        x = E.let('xp%d' % k, E.dot(F, x) + (E.dot(v['B'], us[k].reshape(nu, 1)) if nu else 0))
        mean.append(x)
        for j in range(k):
            C[j, k] = E.let('C%d.%d' % (j, k), E.dot(C[j, k - 1], F.T))
        C[k, k] = let_sym(E, 'Pp%d' % k, E.dot(F, P, F.T) + Q)
        S = let_sym(E, 'S%d' % k, E.dot(H, C[k, k], H.T) + R)
        SI = E.linalg.inv(S)
        y = E.let('y%d' % k, zs[k].reshape(m, 1) - E.dot(H, mean[k]))
        E.hint(S, SI, y, E.dot(H.T, SI))
        G = {j: E.let('G%d.%d' % (j, k), E.dot(C[j, k], H.T)) for j in range(k + 1)}
        K = {j: E.let('K%d.%d' % (j, k), E.dot(G[j], SI)) for j in range(k + 1)}
        for j in range(k + 1):
            if j >= k - N:
                mean[j] = E.let('m%d.%d' % (j, k), mean[j] + E.dot(K[j], y))
            if j < k:
                C[j, k] = E.let('D%d.%d' % (j, k), C[j, k] - E.dot(K[j], G[k].T))
        C[k, k] = let_sym(E, 'P%d' % k, C[k, k] - E.dot(K[k], G[k].T))
        x, P = mean[k], C[k, k]
        filt.append(x)
    xs, xh = f.smooth_batch(zs, N, us)
    E.same_inputs('smooth_batch arguments and filter', before)
    for k in range(T):
        E.eqv('filtered%d' % k, xh[k], filt[k])
        E.eqv('smoothed%d' % k, xs[k], mean[k])
    for k in range(T):
        f.smooth(zs[k], us[k]) if nu else f.smooth(zs[k])
        E.eq('recursive filtered%d' % k, f.x, xh[k])
    E.same_inputs('smooth arguments', before[:T])
    E.check('count', len(f.xSmooth) == T)
    for k in range(T):
        E.eq('recursive equals batch%d' % k, f.xSmooth[k], xs[k])
    E.eqv('x', f.x, x)
    E.eqv('P', f.P, P)


def let_sym(E, name, A):
    """abbreviate a symmetric matrix by its lower triangle"""
    r = A.copy()
    for i in range(A.shape[0]):
        for j in range(i + 1):
            r[i, j] = r[j, i] = E.let('%s!%d%d' % (name, i, j), A[i, j])
    return r


# ---------------------------------------------------------------- C23 H infinity

def hinf(E, n, m, nu=0, gamma=None):
    f = E.fp('hinfinity').HInfinityFilter(n, m, nu, gamma=E.real('gamma') if gamma is None else gamma)
    v = dict(x=E.col('x', n), P=E.psd('P', n), F=E.mat('F', n, n), H=E.mat('H', m, n), Q=E.psd('Q', n), W=E.psd('W', n),
             V=E.psd('V', m))
    if nu:
        v['B'] = E.mat('B', n, nu)
    for k in v:
        setattr(f, k, E.copy(v[k]))
    return f, v


@harness('C23', [dict(n=n, m=m, form=g) for n, m in ((1, 1), (2, 1)) for g in ('col', 'scalar')] +
         [dict(n=1, m=2, form='col'), dict(n=2, m=2, form='col')], [dict(n=3, m=1, form='col')],
         bounds='update: dim_x 1-2 (3 thorough), dim_z 1-2, every gamma', query_ms=60000)
def hinf_update(E, n, m, form):
    f, v = hinf(E, n, m)
    F, H, P, Q, W, VI, g = v['F'], v['H'], v['P'], v['Q'], v['W'], E.linalg.inv(v['V']), E.real('gamma')
    HV = E.dot(H.T, VI)
    E.hint(VI, HV)
    A = E.np.eye(n) - g * E.dot(Q, P) + E.dot(HV, H, P)
    E.assume(E.linalg.det(A) != 0)
    E.hint(A)
    PL = E.dot(P, E.linalg.inv(A))
    E.hint(PL)
    K = E.dot(F, PL, HV)
    z, zc = meas(E, 'z', m, form)
    before = snap(E, z)
    f.update(z)
    E.same_inputs('z', before)
    y = zc - E.dot(H, v['x'])
    E.eq('y', f.y, y)
    E.eq('K', f.K, K)
    E.eq('x', f.x, v['x'] + E.dot(K, y))
    C = E.dot(F, PL, F.T) + W
    E.eq('P', f.P, (C + C.T) / 2)
    E.eqv('z', f.z, zc)
    for k in 'FHQWV':
        E.eq(k, getattr(f, k), v[k])


@harness('C23', [dict(n=n, m=m) for n, m in ((1, 1), (2, 1))],
         bounds='gamma zero: the covariance recursion is the Kalman prediction covariance; dim_x 1-2, dim_z 1', query_ms=60000)
def hinf_kalman(E, n, m):
    f, v = hinf(E, n, m, gamma=0)
    F, H, P = v['F'], v['H'], v['P']
    f.update(E.col('z', m))
    S = E.dot(H, P, H.T) + v['V']
    Pp = P - E.dot(P, H.T, E.linalg.inv(S), H, P)
    E.eq('P', f.P, E.dot(F, Pp, F.T) + v['W'])
    E.eq('K', f.K, E.dot(F, P, H.T, E.linalg.inv(S)))


@harness('C23', [dict(n=n, nu=u) for n in (1, 2) for u in (0, 1, 2)], bounds='predict and queries: dim_x 1-2, 0-2 controls')
def hinf_predict(E, n, nu):
    f, v = hinf(E, n, 1, nu)
    a = [E.col('u', nu)] if nu else []
    before = snap(E, *a)
    xp = E.dot(v['F'], v['x']) + (E.dot(v['B'], a[0]) if nu else 0)
    E.eq('get_prediction', f.get_prediction(*a), xp)
    E.eq('x untouched', f.x, v['x'])
    f.predict(*a)
    E.same_inputs('u', before)
    E.eq('x', f.x, xp)
    E.eq('P', f.P, v['P'])
    z = E.col('z', 1)
    E.eq('residual_of', f.residual_of(z), z - E.dot(v['H'], xp))
    E.eq('measurement_of_state', f.measurement_of_state(v['x']), E.dot(v['H'], v['x']))
    s = E.pos('s')
    f.V = s
    E.eq('scalar V', f.V, E.array([[s]]))


@harness('C23', [dict(n=n, first=u, zs=z) for n in (1, 2) for u in (False, True) for z in ('zz', 'zN', 'Nz', 'zzz')],
         bounds='2-3 measurements, missing ones included; dim_x 1-2, dim_z 1; default arguments and a saver', query_ms=60000)
def hinf_batch(E, n, first, zs):
    f, v = hinf(E, n, 1)
    g, _ = hinf(E, n, 1)
    if len(zs) == 3 and n == 2:
        return E.check('skipped', True)
    Z = [E.col('z%d' % k, 1) if c == 'z' else None for k, c in enumerate(zs)]
    saves = []

    class Saver(object):
        def save(self):
            saves.append(1)
    before = snap(E, *[z for z in Z if z is not None])
    kw = dict(update_first=True) if first else {}
    if zs == 'zzz':
        kw['saver'] = Saver()
    M, C = f.batch_filter(Z, **kw)
    E.same_inputs('zs', before)
    for k, z in enumerate(Z):
        if not first:
            g.predict()
        g.update(z)
        E.eq('mean%d' % k, M[k], g.x)
        E.eq('cov%d' % k, C[k], g.P)
        if first:
            g.predict()
    E.eq('x', f.x, g.x)
    E.eq('P', f.P, g.P)
    if zs == 'zzz':
        E.check('saves', len(saves) == 3)
