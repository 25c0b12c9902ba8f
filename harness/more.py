"""variants of the filter calls, records, queries of the remaining classes."""
from engine.registry import harness
from harness._common import kf_model, state, snap, scribble, update_ref, all_none, as_state, meas
from harness.generic import Rig, KINDS, LIKE, log_density


# ---------------------------------------------------------------- C03 the variants of update

@harness('C03', [dict(how=h, n=n, m=m, shape=s) for h in ('correlated', 'steadystate') for n, m in ((1, 1), (2, 1), (2, 2)) for s in ('col', '1d')],
         bounds='the correlated and the steady-state update of the linear filter; dim_x 1-2, dim_z 1-2')
def missing_variants(E, how, n, m, shape):
    kf, v = kf_model(E, n, m, 0, shape)
    call = kf.update_correlated if how == 'correlated' else kf.update_steadystate
    if how == 'correlated':
        kf.M = E.mat('M', n, m)
    else:
        kf.K = E.mat('K', n, m)
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    for k in range(3):
        if k == 1:
            # from another estimate, after a real update
            kf.x, kf.P = state(E, 'x1', n, shape), E.psd('P1', n)
            if how == 'correlated':
                S = E.dot(v['H'], kf.P, v['H'].T) + E.dot(v['H'], kf.M) + E.dot(kf.M.T, v['H'].T) + v['R']
                E.assume(E.linalg.det(S) > 0)
            call(z)
        if k == 2:
            kf.predict()
        x, P = E.copy(kf.x), E.copy(kf.P)
        call(None)
        E.eq('x%d' % k, kf.x, x)
        E.eq('P%d' % k, kf.P, P)
        E.check('z%d' % k, all_none(kf.z))
        E.eq('x_post%d' % k, kf.x_post, x)
        E.eq('P_post%d' % k, kf.P_post, P)
        scribble(E, kf.x)
        scribble(E, kf.P)
        E.eq('x_post copy%d' % k, kf.x_post, x)
        E.eq('P_post copy%d' % k, kf.P_post, P)


# ---------------------------------------------------------------- C04 queries of the other classes

@harness('C04', [dict(kind=k, n=n, m=m) for k in ('FadingKalmanFilter', 'SquareRootKalmanFilter', 'HInfinityFilter')
                 for n, m in ((1, 1), (2, 1), (2, 2))],
         bounds='the queries of the fading-memory, square-root and H-infinity filters; dim_x 1-2, dim_z 1-2, one control')
def queries(E, kind, n, m):
    r = Rig(E, kind, n, m)
    f = r.f
    B, u = E.mat('B', n, 1), E.col('u', 1)
    f.B = E.copy(B)
    z, x1 = E.col('z', m), E.col('x1', n)
    names = [a for a in ('x', 'P', 'F', 'Q', 'H', 'R', 'B', 'K', 'y', 'x_prior', 'x_post', 'V', 'W') if hasattr(f, a)]
    was = [(a, E.copy(getattr(f, a))) for a in names]
    held = snap(E, z, x1, u)
    E.eq('residual', f.residual_of(z), z - E.dot(r.H, f.x))
    E.eq('measurement', f.measurement_of_state(x1), E.dot(r.H, x1))
    p = q = None
    if hasattr(f, 'get_prediction'):
        p, q = f.get_prediction(u), f.get_prediction()
    for a, w in was:
        E.eq('unchanged ' + a, getattr(f, a), w)
    E.same_inputs('arguments', held)
    if p is not None:
        x, P = E.copy(f.x), E.copy(f.P)
        for s, t, uu in (('with u', p, u), ('without u', q, None)):
            f.x, f.P = E.copy(x), E.copy(P)
            f.predict(uu) if uu is not None else f.predict()
            if isinstance(t, tuple):
                E.eq('x ' + s, t[0], f.x)
                E.eq('P ' + s, t[1], f.P)
            else:
                E.eq('x ' + s, t, f.x)


# ---------------------------------------------------------------- C08 forms and records of the variants

@harness('C08', [dict(how=h, n=2, m=m, shape=s, form=f) for h in ('correlated', 'steadystate', 'sequential') for s in ('col', '1d')
                 for m, f in ((1, 'scalar'), (1, 'list'), (1, '1d'), (1, 'row'), (1, 'col'), (2, 'list'), (2, '1d'), (2, 'row'), (2, 'col'))]
         + [dict(how='correlated', n=2, m=m, shape=s, form=f, over=o) for s in ('col', '1d') for o in ('H', 'RH', 'R')
            for m, f in ((1, 'scalar'), (1, 'list'), (2, '1d'), (2, 'row'), (2, 'col'))],
         bounds='every measurement form, column and 1-D state; dim_x 2, dim_z 1-2; the records are copies; with per-call H and R (correlated)')
def variant_forms(E, how, n, m, shape, form, over=''):
    kf, v = kf_model(E, n, m, 0, shape)
    given = dict(v)
    if 'R' in over:
        given['R'] = E.psd('R2', m)
    if 'H' in over:
        given['H'] = E.mat('H2', m, n)
    kw = {k: E.copy(given[k]) for k in over}
    z, zc = meas(E, 'z', m, form)
    zc = E.copy(zc)
    held = snap(E, z)
    xc = v['x'].reshape(n, 1)
    if how == 'correlated':
        M = kf.M = E.mat('M', n, m)
        H, R, P = given['H'], given['R'], v['P']
        S = E.dot(H, P, H.T) + E.dot(H, M) + E.dot(M.T, H.T) + R
        K = E.dot(E.dot(P, H.T) + M, E.linalg.inv(S))
        x, P = xc + E.dot(K, zc - E.dot(H, xc)), P - E.dot(K, S, K.T)
        kf.update_correlated(z, **kw)
    elif how == 'steadystate':
        K = kf.K = E.mat('K', n, m)
        x, P = xc + E.dot(K, zc - E.dot(v['H'], xc)), v['P']
        kf.update_steadystate(z)
    else:
        if form == 'row':
            z = E.copy(zc)
        u = update_ref(E, xc, v['P'], zc, v['H'], v['R'])
        x, P = u['x'], u['P']
        kf.update_sequential(0, z)
    E.eq('x', kf.x, as_state(E, x, shape))
    E.eq('P', kf.P, P)
    E.eqv('y', kf.y, zc - E.dot(given['H'], xc))
    E.eqv('z', kf.z, zc)
    for k in ('R', 'H'):
        E.eq('stored ' + k, getattr(kf, k), v[k])
    E.eq('x_post', kf.x_post, as_state(E, x, shape))
    E.eq('P_post', kf.P_post, P)
    E.same_inputs('z', held)
    scribble(E, z)
    scribble(E, kf.x)
    scribble(E, kf.P)
    E.eqv('z is a copy', kf.z, zc)
    E.eq('x_post is a copy', kf.x_post, as_state(E, x, shape))
    E.eq('P_post is a copy', kf.P_post, P)


@harness('C08', [dict(n=n, nu=nu, shape=s, own=o, u=u) for n, nu, o, u in ((1, 1, True, True), (2, 1, False, True), (2, 1, True, True), (2, 2, True, True),
                                                                     (2, 1, False, False), (2, 0, False, False), (2, 0, True, True)) for s in ('col', '1d')],
         bounds='steady-state prediction: dim_x 1-2, 0-2 controls, per-call control matrix')
def predict_variant(E, n, nu, shape, own, u):
    kf, v = kf_model(E, n, 1, nu, shape)
    mu = max(nu, 1)
    B = v.get('B')
    kw = {}
    if own:
        B = kw['B'] = E.mat('B2', n, mu)
    x = E.dot(v['F'], v['x'])
    if u:
        kw['u'] = state(E, 'u', mu, shape)
        x = x + E.dot(B, kw['u'])
    held = snap(E, *kw.values())
    kf.predict_steadystate(**kw)
    E.eq('x', kf.x, x)
    E.eq('P', kf.P, v['P'])
    E.same_inputs('arguments', held)
    if nu:
        E.eq('stored B', kf.B, v['B'])
    scribble(E, kf.x)
    scribble(E, kf.P)
    E.eq('x_prior', kf.x_prior, x)
    E.eq('P_prior', kf.P_prior, v['P'])


# ---------------------------------------------------------------- C09 never zero, after every kind of update

@harness('C09', [dict(kind=k, m=m) for k in LIKE for m in (1, 2) if k != 'InformationFilter' or m == 1],
         bounds='dim_x 1, dim_z 1-2; exp underflows to zero for arguments below -745.2, as in double precision', underflow=True, query_ms=30000)
def never_zero(E, kind, m):
    r = Rig(E, kind, 1, m)
    z = E.array([E.real('far%d' % i, slo=-400, shi=400) for i in range(m)])
    if not r.flat:
        z = z.reshape(m, 1)
    if kind in ('UnscentedKalmanFilter', 'CubatureKalmanFilter'):
        r.predict()
    r.update(z)
    E.check('likelihood is positive', r.f.likelihood > 0)
    E.check('and stays so when read again', r.f.likelihood > 0)


@harness('C09', [dict(n=n, m=m, how=h) for n, m in ((1, 1), (2, 1), (2, 2)) for h in ('correlated', 'steadystate')],
         bounds='an ordinary update whose values are read, then a correlated or steady-state one (innovation covariance as stored); dim_x 1-2, dim_z 1-2',
         query_ms=60000)
def variant_likelihoods(E, n, m, how):
    kf, v = kf_model(E, n, m)
    z, w = E.col('z', m), E.col('w', m)
    H, R = v['H'], v['R']
    u = update_ref(E, v['x'], v['P'], z, H, R)
    E.hint(E.dot(H, v['P'], H.T), u['S'], u['K'], u['y'])
    kf.update(z)
    E.eqv('log likelihood', kf.log_likelihood, log_density(E, u['y'], u['S']))
    E.eqv('likelihood', kf.likelihood, E.math.exp(log_density(E, u['y'], u['S'])))
    kf.mahalanobis
    x, P = E.col('x1', n), E.psd('P1', n)
    kf.x, kf.P = E.copy(x), E.copy(P)
    S, y = u['S'], w - E.dot(H, x)
    if how == 'correlated':
        M = kf.M = E.mat('M', n, m)
        S = E.dot(H, P, H.T) + E.dot(H, M) + E.dot(M.T, H.T) + R
        E.hint(S)
        E.assume(E.linalg.det(S) > 0)
        kf.update_correlated(w)
    else:
        kf.update_steadystate(w)
    want = log_density(E, y, S)
    E.eqv('new log likelihood', kf.log_likelihood, want)
    E.eqv('new likelihood', kf.likelihood, E.math.exp(want))
    if m == 1 or how == 'steadystate':
        d = E.dot(y.T, E.linalg.inv(S), y)[0, 0]
        if how == 'steadystate':
            E.eqv('new mahalanobis', kf.mahalanobis * kf.mahalanobis, d)
        else:
            E.assume(S[0, 0] > 0)
            E.eqv('new mahalanobis', kf.mahalanobis * kf.mahalanobis, d)


# ---------------------------------------------------------------- C35 records of a fresh filter, recorded measurements

def fresh(E, kind, n):
    k = E.fp('kalman')
    if kind == 'KalmanFilter':
        return k.KalmanFilter(n, 1)
    if kind == 'ExtendedKalmanFilter':
        return k.ExtendedKalmanFilter(n, 1)
    if kind == 'UnscentedKalmanFilter':
        return k.UnscentedKalmanFilter(n, 1, 1, None, None, k.MerweScaledSigmaPoints(n, E.num(1) / 2, 2, 1))
    if kind == 'CubatureKalmanFilter':
        return k.CubatureKalmanFilter(n, 1, 1, None, None)
    if kind == 'FadingKalmanFilter':
        return k.FadingKalmanFilter(1, n, 1)
    if kind == 'InformationFilter':
        return k.InformationFilter(n, 1)
    if kind == 'SquareRootKalmanFilter':
        return k.SquareRootKalmanFilter(n, 1)
    if kind == 'EnsembleKalmanFilter':
        return k.EnsembleKalmanFilter(E.vec('x', n), E.psd('P', n), 1, 1, 2, None, None)
    rs = [Rig(E, 'KalmanFilter', n, 1, 'ab'[i]) for i in range(2)]
    mu = E.simplex('mu', 2)
    if kind == 'IMMEstimator':
        return k.IMMEstimator([r.f for r in rs], mu, E.array([[E.num(1) / 2, E.num(1) / 2], [E.num(1) / 4, E.num(3) / 4]]))
    return k.MMAEFilterBank([r.f for r in rs], mu, n)


@harness('C35', [dict(kind=k, n=n) for k in KINDS if k not in ('Kalman1d', 'HInfinityFilter') for n in (1, 2)],
         bounds='a filter which has not run yet: dim_x 1-2')
def fresh_records(E, kind, n):
    f = fresh(E, kind, n)
    names = [a for a in ('x_prior', 'P_prior', 'x_post', 'P_post', 'P_inv_prior', 'P_inv_post') if hasattr(f, a)]
    was = [(a, E.copy(getattr(f, a))) for a in names]
    E.check('records', len(names) >= 4)
    members = [(q, a, E.copy(getattr(q, a))) for q in getattr(f, 'filters', ()) for a in ('x', 'P')]
    for a in ('x', 'P', 'P_inv'):
        if hasattr(f, a) and not (kind in ('SquareRootKalmanFilter', 'InformationFilter') and a == 'P'):
            scribble(E, getattr(f, a))
    for a, w in was:
        E.eq('initial ' + a, getattr(f, a), w)
    for q, a, w in members:
        E.eq('model ' + a, getattr(q, a), w)


@harness('C35', [dict(kind=k, n=n, m=m) for k in KINDS for n, m in ((1, 1), (2, 2)) if k != 'IMMEstimator' and ((n, m) == (1, 1) or k not in ('InformationFilter', 'SquareRootKalmanFilter'))],
         bounds='the measurement recorded by update: dim_x 1-2, dim_z 1-2')
def recorded_measurement(E, kind, n, m):
    r = Rig(E, kind, n, m)
    if kind in ('UnscentedKalmanFilter', 'CubatureKalmanFilter', 'IMMEstimator'):
        r.predict()
    z = r.z('z')
    want = E.copy(z)
    r.update(z)
    E.eqv('recorded', r.f.z, want)
    scribble(E, z)
    E.eqv('recorded copy', r.f.z, want)
    for b in getattr(r, 'bank', ()):
        E.eqv('recorded by the model', b.f.z, want)


# ---------------------------------------------------------------- a control input, and none

def control(E, kind, n, nu, own):
    r = Rig(E, kind, n, 1)
    if kind == 'SquareRootKalmanFilter':
        r.f.P = E.array([[E.real('pd', lo=0, strict=True)]]) if n == 1 else E.psd('Pq', n)
    B, u = E.mat('B', n, nu), E.col('u', nu)
    r.f.B = E.copy(B)
    x = E.copy(r.f.x)
    x = E.dot(r.own['F'], x)
    if own:
        r.f.predict(u)
        x = x + E.dot(B, u)
    else:
        r.f.predict()
    if kind == 'InformationFilter' and getattr(r.f, '_no_information', False):
        return
    E.eq('x', r.f.x, x)
    if hasattr(r.f, 'x_prior'):
        E.eq('x_prior', r.f.x_prior, x)


for _c, _k in (('C08', 'KalmanFilter'), ('C10', 'FadingKalmanFilter'), ('C11', 'ExtendedKalmanFilter'), ('C17', 'SquareRootKalmanFilter'),
               ('C18', 'InformationFilter'), ('C23', 'HInfinityFilter')):
    @harness(_c, [dict(kind=_k, n=n, nu=nu, own=o) for n, nu in ((1, 1), (2, 1), (2, 2)) for o in (False, True) if n == 1 or _k != 'InformationFilter'],
             bounds='prediction with and without a control vector of 1-2 entries while a control matrix is set; dim_x 1-2')
    def control_input(E, kind, n, nu, own):
        control(E, kind, n, nu, own)


@harness('C21', [dict(n=2, nu=nu, own=o) for nu in (1, 2) for o in (False, True)],
         bounds='a bank of two models with control matrices, 1-2 controls, with and without a control vector; dim_x 2')
def bank_control(E, n, nu, own):
    r = Rig(E, 'MMAEFilterBank', n, 1)
    u = E.col('u', nu)
    want = []
    for i, b in enumerate(r.bank):
        b.f.B = E.mat('B%d' % i, n, nu)
        x = E.dot(b.own['F'], b.own['x'])
        want.append(x + E.dot(b.f.B, u) if own else x)
    p = E.copy(r.f.p)
    r.f.predict(u) if own else r.f.predict()
    for b, x in zip(r.bank, want):
        E.eq('model x', b.f.x, x)
    E.eq('mixture', r.f.x, p[0] * want[0] + p[1] * want[1])


@harness('C21', [dict(n=n) for n in (1, 2)], bounds='a bank of two unscented filters: each predicts over its own time step; dim_x 1-2')
def bank_step(E, n):
    bs = [Rig(E, 'UnscentedKalmanFilter', n, 1, t) for t in 'ab']
    seen = []
    for b in bs:
        F = E.mat('F' + b.f.__class__.__name__ + str(len(seen)), n, n)
        def fx(s, dt, F=F):
            seen.append(dt)
            return E.dot(F, s)
        b.f.fx = fx
        b.f._dt = E.real('step%d' % bs.index(b))
    f = E.fp('kalman').MMAEFilterBank([b.f for b in bs], E.simplex('mu', 2), n)
    f.predict()
    k = len(seen) // 2
    for i, b in enumerate(bs):
        for d in seen[i * k:(i + 1) * k]:
            E.eqv('dt', d, b.f._dt)
