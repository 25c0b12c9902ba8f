"""guarantees shared by every filter class: missing measurements, no aliasing, likelihoods, fading memory."""
from engine.registry import harness
from harness._common import kf_model, state, snap, scribble, update_ref, all_none, as_state
from harness.ukf import points

KINDS = ('KalmanFilter', 'Kalman1d', 'ExtendedKalmanFilter', 'UnscentedKalmanFilter', 'CubatureKalmanFilter', 'SquareRootKalmanFilter',
         'InformationFilter', 'FadingKalmanFilter', 'EnsembleKalmanFilter', 'HInfinityFilter', 'IMMEstimator', 'MMAEFilterBank')


class Rig(object):
    """one filter with an arbitrary linear model; own = arrays that belong to the caller"""

    def __init__(self, E, kind, n, m, tag=''):
        self.E, self.kind, self.n, self.m = E, kind, n, m
        k = E.fp('kalman')
        self.own = own = {}
        flat = kind in ('UnscentedKalmanFilter', 'Kalman1d', 'EnsembleKalmanFilter', 'CubatureKalmanFilter')
        self.flat = flat
        x = own['x'] = E.vec(tag + 'x', n) if flat and kind != 'CubatureKalmanFilter' else E.col(tag + 'x', n)
        P, Q, R = E.psd(tag + 'P', n), E.psd(tag + 'Q', n), E.psd(tag + 'R', m)
        F, H = E.mat(tag + 'F', n, n), E.mat(tag + 'H', m, n)
        self.H, self.R = H, R
        self.names = ['x', 'P']
        self.lin = True
        if kind in ('KalmanFilter', 'Kalman1d', 'ExtendedKalmanFilter', 'FadingKalmanFilter'):
            f = k.FadingKalmanFilter(E.real('alpha', lo=1, hi=3), n, m) if kind[0] == 'F' else \
                (k.ExtendedKalmanFilter if kind[0] == 'E' else k.KalmanFilter)(dim_x=n, dim_z=m)
            own.update(P=P, Q=Q, R=R, F=F)
            if kind[0] != 'E':
                own['H'] = H
        elif kind == 'UnscentedKalmanFilter':
            f = k.UnscentedKalmanFilter(n, m, E.real('dt'), hx=lambda s: E.dot(H, s), fx=lambda s, dt: E.dot(F, s),
                                        points=points(E, 'merwe', n))
            own.update(P=P, Q=Q, R=R)
        elif kind == 'CubatureKalmanFilter':
            f = k.CubatureKalmanFilter(n, m, E.real('dt'), hx=lambda s: E.dot(H, s), fx=lambda s, dt: E.dot(F, s))
            own.update(P=P, Q=Q, R=R)
        elif kind == 'SquareRootKalmanFilter':
            f = k.SquareRootKalmanFilter(n, m)
            own.update(P=P, Q=Q, R=R, F=F, H=H)
        elif kind == 'InformationFilter':
            f = k.InformationFilter(n, m)
            FI = E.mat(tag + 'FI', n, n)
            E.assume(E.linalg.det(FI) != 0)
            F = E.linalg.inv(FI)
            E.hint(FI, F)
            own.update(P_inv=P, Q=Q, R_inv=R, F=F, H=H)
            self.names = ['x', 'P_inv']
        elif kind == 'EnsembleKalmanFilter':
            f = k.EnsembleKalmanFilter(x=x, P=P, dim_z=m, dt=E.real('dt'), N=2, hx=lambda s: E.dot(H, s), fx=lambda s, dt: E.dot(F, s))
            own.update(Q=Q, R=R)
            del own['x']
            self.caller = [x, P]
        elif kind == 'HInfinityFilter':
            f = E.fp('hinfinity').HInfinityFilter(n, m, 0, gamma=E.real('gamma'))
            own.update(P=P, Q=Q, F=F, H=H, V=R, W=E.psd(tag + 'W', n))
        else:
            self.bank = [Rig(E, 'KalmanFilter', n, m, 'ab'[i]) for i in range(2)]
            mu = E.simplex('mu', 2)
            if kind == 'IMMEstimator':
                t0, t1 = E.real('t0', lo=0, hi=1, strict=True), E.real('t1', lo=0, hi=1, strict=True)
                T = E.array([[t0, 1 - t0], [t1, 1 - t1]])
                f = k.IMMEstimator([b.f for b in self.bank], mu, T)
                self.names = ['x', 'P', 'mu']
                self.caller = [mu, T]
            else:
                f = k.MMAEFilterBank([b.f for b in self.bank], mu, n)
                f.x, f.P = E.copy(x), E.copy(P)
                self.names = ['x', 'P', 'p']
                self.caller = [mu]
            self.caller += [a for b in self.bank for a in b.own.values()]
            own.clear()
        for a in own:
            setattr(f, a, own[a])
        self.caller = getattr(self, 'caller', []) + list(own.values())
        self.f = f

    def z(self, name):
        return self.E.vec(name, self.m) if self.flat else self.E.col(name, self.m)

    def predict(self):
        self.f.predict()

    def update(self, z):
        E, H = self.E, self.H
        if self.kind == 'ExtendedKalmanFilter':
            self.f.update(z, lambda x: H, lambda x: E.dot(H, x))
        else:
            self.f.update(z)

    def estimates(self):
        r = [(a, getattr(self.f, a)) for a in self.names]
        for b in getattr(self, 'bank', ()):
            r += [('model ' + a, v) for a, v in b.estimates()]
        return r

    def records(self):
        return [a for a in ('x_prior', 'P_prior', 'x_post', 'P_post', 'P_inv_prior', 'P_inv_post') if hasattr(self.f, a)]


# ---------------------------------------------------------------- C03 missing measurements

@harness('C03', [dict(kind=k, n=n, m=m, order=o) for k in KINDS for n, m in ((1, 1), (2, 1), (2, 2))
                 for o in (('N', 'NN', 'pN') if (n, m) != (2, 1) else ('N', 'pN', 'puN'))],
         [dict(kind=k, n=3, m=2, order='pNN') for k in KINDS if k not in ('InformationFilter', 'SquareRootKalmanFilter')],
         bounds='every filter class and model bank; dim_x 1-2, dim_z 1-2 (3, 2 thorough); at the start, after a prediction, after '
                'an update, once or twice in a row', query_ms=30000)
def missing(E, kind, n, m, order):
    r = Rig(E, kind, n, m)
    for k, c in enumerate(order):
        if c == 'p':
            r.predict()
        elif c == 'u':
            r.update(r.z('z%d' % k))
        else:
            before = [(a, E.copy(v)) for a, v in r.estimates()]
            shapes = [E.shape(v) for a, v in before]
            r.update(None)
            after = r.estimates()
            E.check('shapes', [E.shape(v) for a, v in after] == shapes)
            for (a, v), (b, w) in zip(before, after):
                E.eq('unchanged ' + a, w, v)
            if hasattr(r.f, 'z') and kind != 'HInfinityFilter':
                E.check('z is missing', all_none(r.f.z))
            for a in ('x', 'P', 'P_inv'):
                if hasattr(r.f, a + '_post') and a in r.names:
                    E.eq(a + '_post', getattr(r.f, a + '_post'), getattr(r.f, a))
            # the posterior is a record, not the estimate itself
            for a in r.records():
                scribble(E, getattr(r.f, a))
            for (a, v), (b, w) in zip(before, r.estimates()):
                E.eq('posterior is a copy ' + a, w, v)


@harness('C03', [dict(kind=k, n=n, order=o) for k in KINDS for n, o in ((1, 'NpNuNNpNuN'), (2, 'pNuN'))],
         [dict(kind=k, n=1, order='pNuNpNuNNpNuNuN') for k in KINDS],
         bounds='a filter that also sees missing measurements ends where its twin without them ends; up to 4 real and 7 missing '
                '(more thorough); dim_x 1-2, dim_z 1', query_ms=30000)
def missing_twin(E, kind, n, order):
    if kind == 'EnsembleKalmanFilter':
        n = min(n, 1)
        order = order[:4]
    r, t = Rig(E, kind, n, 1), Rig(E, kind, n, 1)
    if kind == 'EnsembleKalmanFilter':
        t.f.sigmas = E.copy(r.f.sigmas)
    k = 0
    for c in order:
        if c == 'N':
            r.update(None)
            continue
        if kind == 'EnsembleKalmanFilter' and c != 'N':
            continue                    # its steps draw fresh noise; the ensemble itself is compared below
        for q in (r, t):
            q.predict() if c == 'p' else q.update(q.z('z%d' % k))
        k += 1
    for (a, v), (b, w) in zip(r.estimates(), t.estimates()):
        E.eq('same ' + a, v, w)
    if kind == 'EnsembleKalmanFilter':
        E.eq('same ensemble', r.f.sigmas, t.f.sigmas)


# ---------------------------------------------------------------- C35 no aliasing

@harness('C35', [dict(kind=k, n=n, m=m, order=o) for k in KINDS for n, m in ((1, 1), (2, 1), (2, 2))
                 for o in (('pu', 'up') if (n, m) != (1, 1) else ('pu', 'uu', 'pNp'))
                 if (n, m) != (2, 2) or k in ('KalmanFilter', 'Kalman1d', 'HInfinityFilter', 'FadingKalmanFilter')] +
                [dict(kind=k, n=1, m=1, order='pupu') for k in ('KalmanFilter', 'Kalman1d', 'ExtendedKalmanFilter', 'FadingKalmanFilter',
                                                                 'InformationFilter', 'HInfinityFilter')],
         [dict(kind=k, n=2, m=1, order='pup') for k in ('KalmanFilter', 'Kalman1d', 'ExtendedKalmanFilter', 'FadingKalmanFilter', 'HInfinityFilter')],
         bounds='every filter class and model bank; dim_x 1-2, dim_z 1-2, up to 4 steps; every array of the caller and every '
                'recorded prior and posterior is watched and the current state is overwritten in between', query_ms=30000)
def no_aliasing(E, kind, n, m, order):
    r = Rig(E, kind, n, m)
    held = snap(E, *r.caller)
    mine = dict(r.own)           # an estimate the filter has not replaced yet is the caller's own array
    seen = []                    # (label, recorded array, what it was when obtained)

    def look(k):
        E.same_inputs('caller%d' % k, held)
        for label, a, was in seen:
            E.eq('%s still what it was after step %d' % (label, k), a, was)
    for k, c in enumerate(order):
        z = None
        if c == 'p':
            r.predict()
        else:
            z = r.z('z%d' % k) if c == 'u' else None
            if z is not None:
                held += snap(E, z)
            r.update(z)
        look(k)
        for a in r.records():
            v = getattr(r.f, a)
            seen.append(('%s of step %d' % (a, k), v, E.copy(v)))
        was = [(a, getattr(r.f, a), E.copy(getattr(r.f, a))) for a in r.records()]
        # edit the current estimate in place: nothing recorded may move
        for a in ('x', 'P', 'P_inv'):
            if a in r.names and not (kind == 'SquareRootKalmanFilter' and a == 'P') and getattr(r.f, a) is not mine.get(a):
                scribble(E, getattr(r.f, a))
        for a, v, w in was:
            E.eq('%s unaffected by edits after step %d' % (a, k), getattr(r.f, a), w)
        look(k)
        # a fresh arbitrary estimate that belongs to the caller
        if k + 1 < len(order) and kind not in ('IMMEstimator', 'MMAEFilterBank', 'EnsembleKalmanFilter'):
            for a in ('x', 'P', 'P_inv'):
                if a in r.names:
                    old = getattr(r.f, a)
                    v = E.psd('%s_%d' % (a, k), n) if a != 'x' else E.vec('x_%d' % k, n).reshape(E.shape(old))
                    setattr(r.f, a, v)
                    mine[a] = v
                    held += snap(E, v)


@harness('C35', [dict(shape=s, step=t) for s in ('col', '1d') for t in ('predict', 'update', 'sequential', 'correlated', 'steadystate',
                                                                         'predict_steadystate', 'get_prediction', 'get_update', 'batch', 'rts')],
         bounds='every array handed to a single Kalman filter call (dim_x 2, dim_z 1-2, control 1)')
def call_arguments(E, shape, step):
    n, m = 2, 2 if step == 'sequential' else 1
    kf, v = kf_model(E, n, m, 1, shape)
    F, B, Q, H, R = E.mat('F1', n, n), E.mat('B1', n, 1), E.psd('Q1', n), E.mat('H1', m, n), E.psd('R1', m)
    u, z = state(E, 'u', 1, shape), state(E, 'z', m, shape)
    held = snap(E, F, B, Q, H, R, u, z)
    if step == 'predict':
        kf.predict(u, B, F, Q)
    elif step == 'update':
        kf.update(z, R, H)
    elif step == 'sequential':
        kf.update_sequential(0, z[:1], R_i=R[:1, :1], H_i=H[:1])
    elif step == 'correlated':
        kf.M = M = E.mat('M', n, m)
        held += snap(E, M)
        kf.update_correlated(z, R, H)
    elif step == 'steadystate':
        kf.K = K = E.mat('K', n, m)
        held += snap(E, K)
        kf.update_steadystate(z)
    elif step == 'predict_steadystate':
        kf.predict_steadystate(u, B)
    elif step == 'get_prediction':
        r = kf.get_prediction(u, B, F, Q)
        for a in r:
            scribble(E, a)
    elif step == 'get_update':
        r = kf.get_update(z)
        for a in r:
            scribble(E, a)
    elif step == 'batch':
        kf.batch_filter([z, None], Fs=[F, F], Qs=[Q, Q], Hs=[H, H], Rs=[R, R], Bs=[B, B], us=[u, u])
    else:
        xs = E.array([[[E.real('s%d%d' % (i, j))] for j in range(n)] for i in range(2)]) if shape == 'col' else E.mat('s', 2, n)
        Ps = E.np.array([E.psd('S0', n), E.psd('S1', n)])
        held += snap(E, xs, Ps)
        r = kf.rts_smoother(xs, Ps, [F, F], [Q, Q])
        for a in r[:2]:
            scribble(E, a)
    E.same_inputs('arguments', held)
    if step.startswith('get_'):
        E.eq('x', kf.x, v['x'])
        E.eq('P', kf.P, v['P'])
    scribble(E, kf.x)
    scribble(E, kf.P)
    E.same_inputs('arguments after edits', held)


# ---------------------------------------------------------------- C09 likelihoods

def log_density(E, y, S):
    m = S.shape[0]
    y = y.reshape(m, 1)
    return -(m * E.math.log(2 * E.math.pi) + E.math.log(E.linalg.det(S)) + E.dot(y.T, E.linalg.inv(S), y)[0, 0]) / 2


LIKE = ('KalmanFilter', 'Kalman1d', 'ExtendedKalmanFilter', 'UnscentedKalmanFilter', 'CubatureKalmanFilter', 'InformationFilter', 'FadingKalmanFilter')


@harness('C09', [dict(kind=k, n=n, m=m, read=r) for k in LIKE for n, m in ((1, 1), (2, 1), (2, 2)) for r in ('lLm', 'mLl')
                 if k != 'InformationFilter' or m == 1],
         [dict(kind=k, n=3, m=1, read='lLm') for k in LIKE if k not in ('InformationFilter', 'UnscentedKalmanFilter')],
         bounds='dim_x 1-2 (3 thorough), dim_z 1-2 (1 for the information filter); two updates in a row from arbitrary estimates, with the values read in different '
                'orders and after a prediction in between', query_ms=60000)
def likelihoods(E, kind, n, m, read):
    r = Rig(E, kind, n, m)
    f, H = r.f, r.H
    for k in range(2):
        x, P = E.vec('x%d' % k, n), E.psd('P%d' % k, n)
        z = r.z('z%d' % k)
        if kind == 'InformationFilter':
            Y, W = P, r.R
            P, R = E.linalg.inv(P), E.linalg.inv(W)
        else:
            R = r.R
        xc, zc = E.copy(x).reshape(n, 1), E.copy(z).reshape(m, 1)
        u = update_ref(E, xc, P, zc, H, R)
        E.hint(P, R, E.dot(H, xc), E.dot(H, P, H.T), E.dot(P, H.T), u['S'], u['K'], u['y'])
        if kind in ('UnscentedKalmanFilter', 'CubatureKalmanFilter'):
            # reach the arbitrary prior through a prediction, as these filters expect
            f.Q = E.copy(P)
            f.x, f.P = E.vec('xo', n) if kind[0] == 'U' else E.col('xo', n), E.np.eye(n)
            if kind[0] == 'U':
                f.predict(fx=lambda s, dt: x)
            else:
                f.fx = lambda s, dt: x
                f.predict()
        elif kind == 'InformationFilter':
            f.x, f.P_inv = xc, E.copy(Y)
        else:
            f.x, f.P = E.copy(x).reshape(E.shape(f.x)), E.copy(P)
        r.update(z)
        S, y = u['S'], u['y']
        E.eqv('y%d' % k, f.y, y)
        E.eq('S%d' % k, f.S, S)
        want = log_density(E, y, S)
        for c in read:
            if c == 'l':
                E.eqv('log likelihood%d' % k, f.log_likelihood, want)
            elif c == 'L':
                E.eqv('likelihood%d' % k, f.likelihood, E.math.exp(want))
                E.check('likelihood positive%d' % k, f.likelihood > 0)
            elif hasattr(type(f), 'mahalanobis'):
                E.eqv('mahalanobis%d' % k, f.mahalanobis * f.mahalanobis, E.dot(y.T, E.linalg.inv(S), y)[0, 0])
                E.le('mahalanobis nonnegative%d' % k, 0, f.mahalanobis)
        if k == 0 and kind not in ('UnscentedKalmanFilter', 'CubatureKalmanFilter'):
            f.predict()
            E.eqv('log likelihood after a prediction', f.log_likelihood, want)


@harness('C09', [dict(n=n, m=m, how=h) for n, m in ((1, 1), (2, 1), (2, 2)) for h in ('update', 'of', 'correlated')], [dict(n=3, m=2, how='update')],
         bounds='dim_x 1-2 (3 thorough), dim_z 1-2: function update(), log_likelihood_of, correlated update, per-call R and H', query_ms=60000)
def other_likelihoods(E, n, m, how):
    kf, v = kf_model(E, n, m)
    x, P, H, R = v['x'], v['P'], v['H'], v['R']
    z = E.col('z', m)
    k = E.fp('kalman')
    if how == 'correlated':
        M = kf.M = E.mat('M', n, m)
        T = E.dot(M.T, H.T)
        # S = H P H' + H M + M' H' + R has to be positive definite
        S = E.dot(H, P, H.T) + E.dot(H, M) + E.dot(M.T, H.T) + R
        E.hint(S)
        E.assume(E.linalg.det(S) > 0)
        kf.update_correlated(z)
        E.eqv('log likelihood', kf.log_likelihood, log_density(E, z - E.dot(H, x), S))
        return
    u = update_ref(E, x, P, z, H, R)
    E.hint(E.dot(H, P, H.T), u['S'], u['K'], u['y'], E.dot(H, x))
    want = log_density(E, u['y'], u['S'])
    if how == 'update':
        r = k.update(x, P, z, R, H, return_all=True)
        E.eqv('log likelihood', r[5], want)
        H2, R2 = E.mat('H2', m, n), E.psd('R2', m)
        u2 = update_ref(E, x, P, z, H2, R2)
        E.hint(E.dot(H2, P, H2.T), u2['S'], u2['K'], u2['y'])
        kf.update(z, R2, H2)
        E.eqv('log likelihood of a call with its own R and H', kf.log_likelihood, log_density(E, u2['y'], u2['S']))
    else:
        kf.update(z)
        w = E.col('w', m)
        kf.x = E.copy(x)
        E.eqv('log likelihood of another measurement', kf.log_likelihood_of(w), log_density(E, w - E.dot(H, x), u['S']))


# ---------------------------------------------------------------- C10 fading memory

def fading(E, n, m, nu=0):
    a = E.real('alpha', lo=1, hi=3)
    f = E.fp('kalman').FadingKalmanFilter(a, n, m, nu)
    g, v = kf_model(E, n, m, nu)
    for k in v:
        setattr(f, k, E.copy(v[k]))
    g.alpha = a
    return f, g, v, a


@harness('C10', [dict(n=n, nu=u) for n in (1, 2, 3) for u in (0, 1, 2)], [dict(n=4, nu=1)], bounds='dim_x 1-3 (4 thorough), 0-2 controls, any alpha >= 1')
def fading_predict(E, n, nu):
    f, g, v, a = fading(E, n, 1, nu)
    u = E.col('u', nu) if nu else None
    before = snap(E, u) if nu else []
    (f.predict(u), g.predict(u)) if nu else (f.predict(), g.predict())
    x = E.dot(v['F'], v['x']) + (E.dot(v['B'], u) if nu else 0)
    P = a * a * E.dot(v['F'], v['P'], v['F'].T) + v['Q']
    for t, q in (('fading', f), ('option', g)):
        E.eq(t + ' x', q.x, x)
        E.eq(t + ' P', q.P, P)
        E.eq(t + ' x_prior', q.x_prior, x)
        E.eq(t + ' P_prior', q.P_prior, P)
        E.eqv(t + ' alpha', q.alpha * q.alpha, a * a)
        scribble(E, q.x)
        scribble(E, q.P)
        E.eq(t + ' x_prior copy', q.x_prior, x)
        E.eq(t + ' P_prior copy', q.P_prior, P)
    E.same_inputs('u', before)


@harness('C10', [dict(n=n, m=m, over=o) for n, m in ((1, 1), (2, 1), (2, 2), (3, 1)) for o in ('', 'R', 'r')], [dict(n=3, m=2, over='')],
         bounds='dim_x 1-3, dim_z 1-2, per-call R matrix or scalar', query_ms=60000)
def fading_update(E, n, m, over):
    f, g, v, a = fading(E, n, m)
    z, R, kw = E.col('z', m), v['R'], []
    if over == 'R':
        R = E.psd('R2', m)
        kw = [R]
    if over == 'r':
        kw = [E.pos('r')]
        R = kw[0] * E.np.eye(m)
    u = update_ref(E, v['x'], v['P'], z, v['H'], R)
    E.hint(E.dot(v['H'], v['P'], v['H'].T), E.dot(v['P'], v['H'].T), u['S'], u['K'], u['y'])
    f.update(z, *kw)
    for k in ('x', 'P', 'y', 'K', 'S', 'SI'):
        E.eq(k, getattr(f, k), u[k])
    E.eq('x_post', f.x_post, u['x'])
    E.eq('P_post', f.P_post, u['P'])
    E.eq('symmetric', f.P, f.P.T)
    E.eqv('z', f.z, z)
    E.eq('stored R', f.R, v['R'])
    E.check('z is a copy', f.z is not z)


@harness('C10', [dict(n=n, m=m, steps=s) for n, m in ((1, 1), (2, 1)) for s in ('pupu', 'uppu')], [dict(n=2, m=2, steps='pupupu')],
         bounds='the class and the alpha option side by side over 4 steps (6 thorough), re-anchored to arbitrary estimates')
def fading_history(E, n, m, steps):
    f, g, v, a = fading(E, n, m)
    for k, c in enumerate(steps):
        x, P = E.col('x%d' % k, n), E.psd('P%d' % k, n)
        for q in (f, g):
            q.x, q.P = E.copy(x), E.copy(P)
            q.predict() if c == 'p' else q.update(E.col('z%d' % k, m))
        if c == 'p':
            E.eq('predicted covariance%d' % k, f.P, a * a * E.dot(v['F'], P, v['F'].T) + v['Q'])
        for t in ('x', 'P', 'x_prior', 'P_prior') + (('x_post', 'P_post', 'y', 'S', 'K') if 'u' in steps[:k + 1] else ()):
            E.eq('%s%d' % (t, k), getattr(f, t), getattr(g, t))


@harness('C10', [dict(n=n, shape=s) for n in (1, 2) for s in ('col', '1d')], bounds='dim_x 1-2: alpha = 1 is the standard filter')
def alpha_one(E, n, shape):
    kf, v = kf_model(E, n, 1, 0, shape)
    kf.alpha = E.num(1)
    g, _ = kf_model(E, n, 1, 0, shape)
    for q in (kf, g):
        q.predict()
        q.update(state(E, 'z', 1, shape))
    E.eq('x', kf.x, g.x)
    E.eq('P', kf.P, g.P)
    E.raises('alpha below one', ValueError, setattr, kf, 'alpha', 0.5)


@harness('C10', [dict(n=n, m=m, first=u, zs=z, R=r) for n, m in ((1, 1), (2, 1)) for u in (False, True) for z in ('z', 'zz', '-z', 'z-') for r in (False, True)],
         [dict(n=2, m=2, first=u, zs='zzz', R=True) for u in (False, True)],
         bounds='1-2 steps (3 thorough) with missing measurements, both orders, per-step R')
def fading_batch(E, n, m, first, zs, R):
    f, _, v, a = fading(E, n, m)
    t, _, _, _ = fading(E, n, m)
    Z = [E.col('z%d' % i, m) if c == 'z' else None for i, c in enumerate(zs)]
    Rs = [E.psd('R%d' % i, m) for i in range(len(zs))] if R else None
    held = snap(E, *([z for z in Z if z is not None] + (Rs or [])))
    out = f.batch_filter(Z, Rs, update_first=first) if R else f.batch_filter(Z, update_first=first)
    for i, z in enumerate(Z):
        for c in ('up' if first else 'pu'):
            if c == 'p':
                t.predict()
            else:
                t.update(z, Rs[i]) if R else t.update(z)
            q = 0 if c == 'u' else 2
            E.eq('mean %s%d' % (c, i), out[q][i], t.x)
            E.eq('covariance %s%d' % (c, i), out[q + 1][i], t.P)
    for k in ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'):
        E.eq('final ' + k, getattr(f, k), getattr(t, k))
    E.same_inputs('arguments', held)
