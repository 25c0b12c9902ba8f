"""Linear Kalman filter: predict, update, queries, procedural forms, batch, smoothing."""
import itertools

from engine.registry import harness
from harness._common import (kf_model, meas, state, update_ref, as_state, all_none, scribble, snap)

DIMS = [dict(n=1, m=1), dict(n=2, m=1), dict(n=2, m=2), dict(n=3, m=1), dict(n=1, m=2)]
MORE = [dict(n=3, m=2), dict(n=3, m=3), dict(n=4, m=1), dict(n=4, m=2), dict(n=2, m=3)]


# ---------------------------------------------------------------- C01 predict

PRED = []
for sh in ('col', '1d'):
    for n, nu in ((1, 1), (2, 1), (3, 2)):
        for over in ('', 'F', 'Q', 'q', 'B', 'FQB', 'FqB'):
            PRED.append(dict(n=n, nu=nu, shape=sh, over=over, u=True))
        PRED.append(dict(n=n, nu=nu, shape=sh, over='', u=False))
    PRED.append(dict(n=2, nu=0, shape=sh, over='', u=True))
    PRED.append(dict(n=2, nu=0, shape=sh, over='', u=False))
    PRED.append(dict(n=2, nu=0, shape=sh, over='B', u=True))


@harness('C01', PRED, [dict(n=4, nu=2, shape='col', over=o, u=True) for o in ('', 'FQB')],
         bounds='dim_x 1-3 (4 thorough), dim_u 0-2, column or 1-D state, all override combinations listed '
                '(q = scalar Q), symbolic alpha')
def predict(E, n, nu, shape, over, u):
    kf, v = kf_model(E, n, 1, nu, shape)
    a = E.real('alpha', lo=1, hi=3)
    kf.alpha = a
    E.eq('alpha', kf.alpha, a)
    mu = max(nu, 1)
    uu = (E.col('u', mu) if shape == 'col' else E.vec('u', mu)) if u else None
    kw = {}
    F, Q, B = v['F'], v['Q'], v.get('B')
    if 'F' in over:
        F = kw['F'] = E.mat('F2', n, n)
    if 'Q' in over:
        Q = kw['Q'] = E.psd('Q2', n)
    if 'q' in over:
        q = kw['Q'] = E.pos('q')
        Q = E.np.eye(n) * q
    if 'B' in over:
        B = kw['B'] = E.mat('B2', n, mu)
    if u:
        kw['u'] = uu
    before = snap(E, *kw.values())
    stored = {k: E.copy(getattr(kf, k)) for k in ('F', 'Q', 'H', 'R')}
    kf.predict(**kw)
    x = E.dot(F, v['x'])
    if u and B is not None:
        x = x + E.dot(B, uu)
    P = a * a * E.dot(F, v['P'], F.T) + Q
    E.eq('x', kf.x, x)
    E.eq('P', kf.P, P)
    E.eq('x_prior', kf.x_prior, x)
    E.eq('P_prior', kf.P_prior, P)
    E.same_inputs('args', before)
    for k in stored:
        E.eq('stored ' + k, getattr(kf, k), stored[k])
    if nu:
        E.eq('stored B', kf.B, v['B'])
    scribble(E, kf.x)
    scribble(E, kf.P)
    E.eq('x_prior copy', kf.x_prior, x)
    E.eq('P_prior copy', kf.P_prior, P)


@harness('C01', [dict(n=2, shape='col'), dict(n=2, shape='1d')],
         bounds='two consecutive predictions with updates of the stored model in between')
def predict_twice(E, n, shape):
    kf, v = kf_model(E, n, 1, 1, shape)
    u = E.vec('u', 1) if shape == '1d' else E.col('u', 1)
    kf.predict(u=u, F=E.mat('F2', n, n), Q=E.psd('Q2', n), B=E.mat('B2', n, 1))
    x, P = E.copy(kf.x), E.copy(kf.P)
    kf.predict()
    E.eq('x', kf.x, E.dot(v['F'], x))
    E.eq('P', kf.P, E.dot(v['F'], P, v['F'].T) + v['Q'])
    F3 = E.mat('F3', n, n)
    kf.F = E.copy(F3)
    x, P = E.copy(kf.x), E.copy(kf.P)
    kf.predict()
    E.eq('x new F', kf.x, E.dot(F3, x))
    E.eq('P new F', kf.P, E.dot(F3, P, F3.T) + v['Q'])


# ---------------------------------------------------------------- C02 update

UPD = []
for d in DIMS:
    UPD.append(dict(d, shape='col', form='col', over=''))
    UPD.append(dict(d, shape='1d', form='1d', over=''))
for form in ('scalar', 'list', '1d', 'row', 'col'):
    UPD.append(dict(n=2, m=1, shape='col', form=form, over=''))
    UPD.append(dict(n=2, m=1, shape='1d', form=form, over=''))
for form in ('list', '1d', 'row'):
    UPD.append(dict(n=2, m=2, shape='col', form=form, over='R'))
    UPD.append(dict(n=3, m=2, shape='1d', form=form, over='r'))
for over in ('R', 'r', 'H', 'RH', 'rH'):
    UPD.append(dict(n=2, m=2, shape='col', form='col', over=over))
    UPD.append(dict(n=2, m=1, shape='col', form='col', over=over))
for form in ('scalar', 'list', '1d', 'row', 'col'):
    for m in ((1, 2) if form != 'scalar' else (1,)):
        for shape in ('col', '1d'):
            UPD.append(dict(n=2, m=m, shape=shape, form=form, over='H'))
UPD2 = []
for _u in UPD:
    if _u not in UPD2:
        UPD2.append(_u)
UPDX = [dict(d, shape='col', form='col', over=o) for d in MORE for o in ('', 'rH')]


@harness('C02', UPD2, UPDX,
         bounds='dim_x 1-3, dim_z 1-2 (up to 4x2, 3x3 thorough); measurement forms and override combinations '
                'as listed (r = scalar R)')
def update(E, n, m, shape, form, over):
    kf, v = kf_model(E, n, m, 0, shape)
    z, zc = meas(E, 'z', m, form)
    kw = {}
    R, H = v['R'], v['H']
    if 'R' in over:
        R = kw['R'] = E.psd('R2', m)
    if 'r' in over:
        r = kw['R'] = E.pos('r')
        R = E.np.eye(m) * r
    if 'H' in over:
        H = kw['H'] = E.mat('H2', m, n)
    before = snap(E, z, *kw.values())
    kf.update(z, **kw)
    xc = v['x'].reshape(n, 1)
    u = update_ref(E, xc, v['P'], zc, H, R)
    E.eq('S', kf.S, u['S'])
    E.eq('SI', kf.SI, u['SI'])
    E.eq('K', kf.K, u['K'])
    E.eq('y', kf.y, as_state(E, u['y'], shape))
    E.eq('x', kf.x, as_state(E, u['x'], shape))
    E.eq('P', kf.P, u['P'])
    E.eq('P symmetric', kf.P, kf.P.T)
    E.eq('x_post', kf.x_post, kf.x)
    E.eq('P_post', kf.P_post, kf.P)
    E.eqv('z recorded', kf.z, zc)
    E.same_inputs('args', before)
    for k in ('F', 'Q', 'H', 'R'):
        E.eq('stored ' + k, getattr(kf, k), v[k])
    xs, Ps = E.copy(kf.x), E.copy(kf.P)
    scribble(E, kf.x)
    scribble(E, kf.P)
    E.eq('x_post copy', kf.x_post, xs)
    E.eq('P_post copy', kf.P_post, Ps)


@harness('C02', [dict(n=1, m=1), dict(n=2, m=1), dict(n=2, m=2), dict(n=3, m=1)],
         bounds='P_prior - P_post = (PH^T) S^-1 (PH^T)^T written as a sum of squares via S = L L^T; '
                'P_post = A P A^T + K R K^T likewise')
def posterior_psd(E, n, m):
    """posterior is a sum of squares (hence PSD) and so is the decrease from the prior"""
    K = E.fp('kalman').KalmanFilter
    kf = K(dim_x=n, dim_z=m)
    P, R, H = E.psd('P', n), E.psd('R', m), E.mat('H', m, n)
    kf.P, kf.R, kf.H, kf.x = E.copy(P), E.copy(R), E.copy(H), E.col('x', n)
    kf.update(E.col('z', m))
    A = E.np.eye(n) - E.dot(kf.K, H)
    E.eq('joseph', kf.P, E.dot(A, P, A.T) + E.dot(kf.K, R, kf.K.T))
    PH = E.dot(P, H.T)
    E.eq('decrease', P - kf.P, E.dot(PH, kf.SI, PH.T))
    # information form: inverse of posterior = inverse of prior + H^T R^-1 H
    I = E.dot(kf.P, E.linalg.inv(P) + E.dot(H.T, E.linalg.inv(R), H))
    E.eq('information', I, E.np.eye(n))


@harness('C02', [dict(n=2, m=2), dict(n=2, m=1)], bounds='user supplied inverse function is used for S only')
def custom_inverse(E, n, m):
    kf, v = kf_model(E, n, m)
    calls = []

    def inv(S):
        calls.append(E.copy(S))
        return E.linalg.inv(S) * 2
    kf.inv = inv
    z = E.col('z', m)
    kf.update(z)
    E.check('called', len(calls) >= 1)
    S = E.dot(v['H'], v['P'], v['H'].T) + v['R']
    E.eq('S', calls[0], S)
    E.eq('SI', kf.SI, 2 * E.linalg.inv(S))
    Kg = E.dot(v['P'], v['H'].T, 2 * E.linalg.inv(S))
    E.eq('K', kf.K, Kg)
    # the covariance formula stays valid for a non-optimal gain
    A = E.np.eye(n) - E.dot(Kg, v['H'])
    E.eq('P', kf.P, E.dot(A, v['P'], A.T) + E.dot(Kg, v['R'], Kg.T))
    E.eq('x', kf.x, v['x'] + E.dot(Kg, z - E.dot(v['H'], v['x'])))


@harness('C02', [dict(n=2, m=1, shape='col'), dict(n=2, m=1, shape='1d'), dict(n=1, m=1, shape='col')],
         [dict(n=2, m=2, shape='col')],
         bounds='three predict/update rounds; the state is re-anchored to arbitrary values between rounds, so a round '
                'may depend on earlier rounds only through x and P')
def history(E, n, m, shape):
    kf, v = kf_model(E, n, m, 0, shape)
    for k in range(3):
        x, P = state(E, 'x%d' % k, n, shape), E.psd('P%d' % k, n)
        kf.x, kf.P = E.copy(x), E.copy(P)
        kf.predict()
        E.eq('xp%d' % k, kf.x, E.dot(v['F'], x))
        E.eq('Pp%d' % k, kf.P, E.dot(v['F'], P, v['F'].T) + v['Q'])
        x, P = state(E, 'y%d' % k, n, shape), E.psd('W%d' % k, n)
        kf.x, kf.P = E.copy(x), E.copy(P)
        z = E.col('z%d' % k, m)
        H, R = v['H'], v['R']
        kw = {}
        if k == 1:
            H, R = kw['H'], kw['R'] = E.mat('H%d' % k, m, n), E.psd('R%d' % k, m)
        kf.update(z if shape == 'col' else z.reshape(-1), **kw)
        u = update_ref(E, x.reshape(n, 1), P, z, H, R)
        E.eqv('x%d' % k, kf.x, u['x'])
        E.eq('P%d' % k, kf.P, u['P'])
        E.eqv('y%d' % k, kf.y, u['y'])
        E.eq('S%d' % k, kf.S, u['S'])


# ---------------------------------------------------------------- C04 queries

GP = [dict(n=2, nu=1, shape=s, over=o, u=w) for s in ('col', '1d') for o in ('', 'F', 'Q', 'q', 'B', 'FQB')
      for w in (True, False)] + [dict(n=3, nu=0, shape='col', over='', u=False)]


@harness('C04', GP, bounds='dim_x 2-3; all override combinations; column and 1-D state; symbolic alpha')
def get_prediction(E, n, nu, shape, over, u):
    kf, v = kf_model(E, n, 1, nu, shape)
    kf.alpha = E.real('alpha', lo=1, hi=3)
    kw = {}
    if 'F' in over:
        kw['F'] = E.mat('F2', n, n)
    if 'Q' in over:
        kw['Q'] = E.psd('Q2', n)
    if 'q' in over:
        kw['Q'] = E.pos('q')
    if 'B' in over:
        kw['B'] = E.mat('B2', n, 1)
    if u:
        kw['u'] = E.col('u', 1) if shape == 'col' else E.vec('u', 1)
    before = snap(E, kf.x, kf.P, kf.F, kf.Q, kf.H, kf.R, kf.x_prior, kf.P_prior, kf.x_post, kf.P_post,
                  *kw.values())
    x, P = kf.get_prediction(**kw)
    E.same_inputs('unchanged', before)
    kf.predict(**kw)
    E.eq('x', x, kf.x)
    E.eq('P', P, kf.P)


GU = [dict(n=n, m=m, shape=s, form=f) for s in ('col', '1d')
      for n, m, f in ((1, 1, 'scalar'), (2, 1, 'scalar'), (2, 1, '1d'), (2, 2, '1d'), (2, 2, 'list'), (2, 2, 'col'),
                      (3, 1, 'col'), (2, 2, None))]


@harness('C04', GU, [dict(n=3, m=2, shape='col', form='col')],
         bounds='dim_x 1-3, dim_z 1-2; all measurement forms incl. missing')
def get_update(E, n, m, shape, form):
    kf, v = kf_model(E, n, m, 0, shape)
    z = meas(E, 'z', m, form)[0] if form else None
    before = snap(E, kf.x, kf.P, kf.F, kf.Q, kf.H, kf.R, kf.K, kf.S, kf.y, kf.x_prior, kf.P_prior, kf.x_post,
                  kf.P_post, z)
    x, P = kf.get_update(z) if form else kf.get_update()
    E.same_inputs('unchanged', before)
    kf.update(z)
    E.eq('x', x, kf.x)
    E.eq('P', P, kf.P)


@harness('C04', GU, bounds='as get_update')
def residual_of(E, n, m, shape, form):
    if form is None:
        form = 'col'
    kf, v = kf_model(E, n, m, 0, shape)
    kf.predict()
    xp = E.copy(kf.x)
    z0 = E.col('w', m)
    kf.update(z0 if shape == 'col' else z0.reshape(-1))
    z, zc = meas(E, 'z', m, form)
    before = snap(E, kf.x, kf.P, kf.H, kf.y, kf.x_prior, z)
    r = kf.residual_of(z)
    E.eqv('residual', r, zc - E.dot(v['H'], xp.reshape(n, 1)))
    E.check('shape', E.shape(r) == ((m, 1) if shape == 'col' else (m,)))
    xs = state(E, 'q', n, shape)
    E.eq('measurement_of_state', kf.measurement_of_state(xs), E.dot(v['H'], xs))
    E.same_inputs('unchanged', before)


@harness('C04', [dict(n=2, m=1), dict(n=2, m=2)], bounds='fading-memory filter queries, if it offers them')
def residual_of_fading(E, n, m):
    K = E.fp('kalman').FadingKalmanFilter
    kf = K(alpha=E.real('alpha', lo=1, hi=3), dim_x=n, dim_z=m)
    H, x = E.mat('H', m, n), E.col('x', n)
    kf.H, kf.x = E.copy(H), E.copy(x)
    z = E.col('z', m)
    before = snap(E, kf.x, kf.P, kf.H, kf.y, z)
    E.eq('residual', kf.residual_of(z), z - E.dot(H, x))
    E.eq('measurement', kf.measurement_of_state(x), E.dot(H, x))
    E.same_inputs('unchanged', before)


# ---------------------------------------------------------------- C05 procedural

@harness('C05', [dict(n=n, m=m, shape=s, ra=ra) for n, m, s in ((1, 1, 'col'), (2, 1, 'col'), (2, 2, 'col'),
                                                                 (3, 1, 'col'), (2, 1, '1d'), (2, 2, '1d'))
                 for ra in (False, True)],
         bounds='dim_x 1-3, dim_z 1-2, column or 1-D state')
def proc_update(E, n, m, shape, ra):
    K = E.fp('kalman')
    kf, v = kf_model(E, n, m, 0, shape)
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    args = [E.copy(v['x']), E.copy(v['P']), E.copy(z), E.copy(v['R']), E.copy(v['H'])]
    before = snap(E, *args)
    r = K.update(*args, return_all=ra)
    E.same_inputs('args', before)
    kf.update(z)
    E.eq('x', r[0], kf.x)
    E.eq('P', r[1], kf.P)
    if ra:
        E.eq('y', r[2], kf.y)
        E.eq('K', r[3], kf.K)
        E.eq('S', r[4], kf.S)
        E.eqv('log_likelihood', r[5], kf.log_likelihood)
    else:
        E.check('len', len(r) == 2)


@harness('C05', [dict(ra=ra, h=h, wrap=w) for ra in (False, True) for h in (False, True) for w in (False, True)],
         bounds='one-dimensional problems given as plain numbers (or 1-element arrays)')
def proc_update_scalar(E, ra, h, wrap):
    K = E.fp('kalman')
    x, P, z, R = E.real('x'), E.pos('P'), E.real('z'), E.pos('R')
    H = E.real('H') if h else 1
    S = H * P * H + R
    Kg = P * H / S
    f = (lambda q: E.array([q])) if wrap else (lambda q: q)
    r = K.update(f(x), P, z, R, H, return_all=ra) if h else K.update(f(x), P, z, R, return_all=ra)
    E.eqv('x', r[0], x + Kg * (z - H * x))
    E.eqv('P', r[1], (1 - Kg * H) * P)
    if ra:
        E.eqv('y', r[2], z - H * x)
        E.eqv('K', r[3], Kg)
        E.eqv('S', r[4], S)
        E.eqv('loglik', r[5], E.stats.multivariate_normal.logpdf(E.array([z - H * x]), E.array([E.num(0)]),
                                                                 E.array([[S]])))


@harness('C05', [dict(n=n, shape=s, u=u) for n in (1, 2, 3) for s in ('col', '1d') for u in (0, 1, 2)],
         bounds='dim_x 1-3, control absent / present')
def proc_predict(E, n, shape, u):
    K = E.fp('kalman')
    kf, v = kf_model(E, n, 1, u, shape)
    a = E.real('alpha', lo=1, hi=3)
    kf.alpha = a
    kw = dict(F=E.copy(v['F']), Q=E.copy(v['Q']), alpha=a)
    if u:
        kw['u'] = E.col('u', u) if shape == 'col' else E.vec('u', u)
        kw['B'] = E.copy(v['B'])
    x0, P0 = E.copy(v['x']), E.copy(v['P'])
    before = snap(E, x0, P0, *kw.values())
    x, P = K.predict(x0, P0, **kw)
    E.same_inputs('args', before)
    kf.predict(u=kw.get('u'))
    E.eq('x', x, kf.x)
    E.eq('P', P, kf.P)
    kw.pop('Q'), kw.pop('alpha')
    xs = K.predict_steadystate(x0, **kw)
    E.eq('steady x', xs, kf.x)
    E.same_inputs('args ss', before)


@harness('C05', [dict(full=True), dict(full=False)], bounds='one-dimensional prediction with plain numbers')
def proc_predict_scalar(E, full):
    K = E.fp('kalman')
    x, P, F, Q, u, B, a = E.real('x'), E.pos('P'), E.real('F'), E.pos('Q'), E.real('u'), E.real('B'), \
        E.real('alpha', lo=1, hi=3)
    if full:
        x2, P2 = K.predict(x, P, F=F, Q=Q, u=u, B=B, alpha=a)
        E.eqv('x', x2, F * x + B * u)
        E.eqv('P', P2, a * a * F * P * F + Q)
        E.eqv('xs', K.predict_steadystate(x, F, u, B), F * x + B * u)
    else:
        x2, P2 = K.predict(x, P, Q=Q)
        E.eqv('x', x2, x)
        E.eqv('P', P2, P + Q)
        x2, P2 = K.predict(x, P, u=u)
        E.eqv('xu', x2, x + u)


@harness('C05', [dict(n=n, m=m, shape=s) for n, m in ((1, 1), (2, 1), (2, 2)) for s in ('col', '1d')],
         bounds='dim_x 1-2, dim_z 1-2')
def proc_update_steadystate(E, n, m, shape):
    K = E.fp('kalman')
    kf, v = kf_model(E, n, m, 0, shape)
    Kg = E.mat('K', n, m)
    kf.K = E.copy(Kg)
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    x0, H = E.copy(v['x']), E.copy(v['H'])
    before = snap(E, x0, z, Kg, H)
    x = K.update_steadystate(x0, z, Kg, H)
    E.same_inputs('args', before)
    kf.update_steadystate(z)
    E.eq('x', x, kf.x)
    E.check('none', K.update_steadystate(x0, None, Kg, H) is x0)


@harness('C05', [dict(h=False), dict(h=True)], bounds='plain numbers')
def proc_update_steadystate_scalar(E, h):
    K = E.fp('kalman')
    x, z, Kg, H = E.real('x'), E.real('z'), E.real('K'), E.real('H')
    if h:
        E.eqv('x', K.update_steadystate(x, z, Kg, H), x + Kg * (z - H * x))
    else:
        E.eqv('x', K.update_steadystate(x, z, Kg), x + Kg * (z - x))


@harness('C05', [dict(ra=True), dict(ra=False)], bounds='missing measurement')
def proc_update_none(E, ra):
    K = E.fp('kalman')
    x, P = E.col('x', 2), E.psd('P', 2)
    r = K.update(x, P, None, E.psd('R', 1), E.mat('H', 1, 2), return_all=ra)
    E.eq('x', r[0], x)
    E.eq('P', r[1], P)
    E.check('len', len(r) == (6 if ra else 2))


@harness('C05', [dict(n=n, m=m, steps=s, uf=uf, u=u, shape=sh)
                 for n, m, s, sh in ((1, 1, 2, 'col'), (2, 1, 2, 'col'), (2, 1, 1, '1d'), (1, 1, 2, '1d'))
                 for uf in (False, True) for u in (False, True)],
         bounds='dim_x 1-2, dim_z 1, up to 2 steps with per-step matrices; second measurement may be missing',
         query_ms=40000)
def proc_batch(E, n, m, steps, uf, u, shape):
    K = E.fp('kalman')
    x, P = state(E, 'x', n, shape), E.psd('P', n)
    L = [dict(F=E.mat('F%d' % k, n, n), Q=E.psd('Q%d' % k, n), H=E.mat('H%d' % k, m, n), R=E.psd('R%d' % k, m),
              B=E.mat('B%d' % k, n, 1), u=E.col('u%d' % k, 1) if shape == 'col' else E.vec('u%d' % k, 1),
              z=E.col('z%d' % k, m) if shape == 'col' else E.vec('z%d' % k, m)) for k in range(steps)]
    g = lambda k: [E.copy(s[k]) for s in L]
    kw = {}
    if u:
        kw = dict(Bs=g('B'), us=g('u'))
    zs, Fs, Qs, Hs, Rs = g('z'), g('F'), g('Q'), g('H'), g('R')
    before = snap(E, x, P, *(zs + Fs + Qs + Hs + Rs))
    out = K.batch_filter(x, P, zs, Fs, Qs, Hs, Rs, update_first=uf, **kw)
    E.same_inputs('args', before)
    cx, cP = E.copy(x), E.copy(P)
    for k, s in enumerate(L):
        def pred(cx, cP):
            kw = dict(u=s['u'], B=s['B']) if u else {}
            return K.predict(cx, cP, F=s['F'], Q=s['Q'], **kw)

        def upd(cx, cP):
            return K.update(cx, cP, s['z'], s['R'], s['H'])
        if uf:
            cx, cP = upd(cx, cP)
            E.eq('mean%d' % k, out[0][k], cx)
            E.eq('cov%d' % k, out[1][k], cP)
            cx, cP = pred(cx, cP)
            E.eq('mean_p%d' % k, out[2][k], cx)
            E.eq('cov_p%d' % k, out[3][k], cP)
        else:
            cx, cP = pred(cx, cP)
            E.eq('mean_p%d' % k, out[2][k], cx)
            E.eq('cov_p%d' % k, out[3][k], cP)
            cx, cP = upd(cx, cP)
            E.eq('mean%d' % k, out[0][k], cx)
            E.eq('cov%d' % k, out[1][k], cP)
    if not u and steps == 2:
        # a missing measurement leaves the state alone
        zs = [None, E.copy(L[1]['z'])]
        o2 = K.batch_filter(x, P, zs, Fs, Qs, Hs, Rs, update_first=uf)
        if uf:
            E.eq('none mean', o2[0][0], x)
            E.eq('none cov', o2[1][0], P)
        else:
            E.eq('none mean', o2[0][0], o2[2][0])
            E.eq('none cov', o2[1][0], o2[3][0])


# ---------------------------------------------------------------- C06 batch_filter

BF = []
for n, m, sh in ((1, 1, 'col'), (2, 1, 'col'), (2, 2, 'col'), (2, 1, '1d'), (2, 2, '1d')):
    for uf in (False, True):
        BF.append(dict(n=n, m=m, shape=sh, uf=uf, zs='zz', per='FQHRBu', nu=1))
        BF.append(dict(n=n, m=m, shape=sh, uf=uf, zs='z-z', per='', nu=0))
for uf in (False, True):
    BF.append(dict(n=2, m=1, shape='col', uf=uf, zs='zz', per='', nu=1))      # B stored, no us
    BF.append(dict(n=2, m=1, shape='1d', uf=uf, zs='zz', per='', nu=1))
    BF.append(dict(n=2, m=1, shape='col', uf=uf, zs='z', per='', nu=2))
    BF.append(dict(n=2, m=1, shape='col', uf=uf, zs='-z', per='u', nu=2))
    BF.append(dict(n=2, m=1, shape='col', uf=uf, zs='zz-', per='FQ', nu=0))
    BF.append(dict(n=2, m=1, shape='col', uf=uf, zs='zz', per='HR', nu=0))
    BF.append(dict(n=2, m=1, shape='1d', uf=uf, zs='z-z', per='HR', nu=0))
    BF.append(dict(n=1, m=1, shape='1d', uf=uf, zs='s-s', per='', nu=0))
    BF.append(dict(n=2, m=1, shape='col', uf=uf, zs='sss', per='', nu=0))
    for m, zs in ((1, 'lv-'), (2, 'l-v'), (2, 'rc')):
        for shape in ('col', '1d'):
            BF.append(dict(n=2, m=m, shape=shape, uf=uf, zs=zs, per='', nu=0))


@harness('C06', BF, [dict(n=3, m=2, shape='col', uf=uf, zs='z-z', per='FQHRBu', nu=2) for uf in (False, True)],
         bounds='1-3 steps; z = measurement shaped like the state, s = number, l = list, v = 1-D, r = row, c = column, - = missing; per-step lists as listed')
def batch_filter(E, n, m, shape, uf, zs, per, nu):
    kf, v = kf_model(E, n, m, nu, shape)
    k2, _ = kf_model(E, n, m, nu, shape)
    kf.alpha = k2.alpha = E.real('alpha', lo=1, hi=3)
    T = len(zs)
    Z = [None if c == '-' else (E.col('z%d' % i, m) if shape == 'col' else E.vec('z%d' % i, m)) if c == 'z' else
         meas(E, 'z%d' % i, m, dict(s='scalar', l='list', v='1d', r='row', c='col')[c])[0]
         for i, c in enumerate(zs)]
    mk = dict(F=lambda i: E.mat('F%d' % i, n, n), Q=lambda i: E.psd('Q%d' % i, n),
              H=lambda i: E.mat('H%d' % i, m, n), R=lambda i: E.psd('R%d' % i, m),
              B=lambda i: E.mat('B%d' % i, n, nu),
              u=lambda i: E.col('u%d' % i, nu) if shape == 'col' else E.vec('u%d' % i, nu))
    lists = {p: [mk[p](i) for i in range(T)] for p in per}
    kw = {p + 's': [E.copy(a) for a in l] for p, l in lists.items()}
    before = snap(E, *[a for l in kw.values() for a in l] + [z for z in Z if z is not None])
    saver = Count()
    means, covs, mp, cp = kf.batch_filter([list(z) if isinstance(z, list) else E.copy(z) for z in Z], update_first=uf, saver=saver, **kw)
    E.check('saver', saver.n == T)
    E.same_inputs('args', before)
    E.check('means shape', E.shape(means) == ((T, n, 1) if shape == 'col' else (T, n)))
    E.check('cov shape', E.shape(covs) == (T, n, n) and E.shape(cp) == (T, n, n))
    for i in range(T):
        P = {p: lists[p][i] for p in lists}

        def pred():
            k2.predict(u=P.get('u'), B=P.get('B'), F=P.get('F'), Q=P.get('Q'))

        def upd():
            k2.update(Z[i], R=P.get('R'), H=P.get('H'))
        if uf:
            upd()
            E.eq('mean', means[i], k2.x)
            E.eq('cov', covs[i], k2.P)
            pred()
            E.eq('mean_p', mp[i], k2.x)
            E.eq('cov_p', cp[i], k2.P)
        else:
            pred()
            E.eq('mean_p', mp[i], k2.x)
            E.eq('cov_p', cp[i], k2.P)
            upd()
            E.eq('mean', means[i], k2.x)
            E.eq('cov', covs[i], k2.P)
    for a in ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'):
        E.eq('final ' + a, getattr(kf, a), getattr(k2, a))


class Count(object):
    n = 0

    def save(self):
        self.n += 1


# ---------------------------------------------------------------- C07 RTS

def joint(E, n, m, T, x0, P0, Fs, Qs, H, R, zs):
    """exact posterior of x_1..x_T given all z by conditioning the joint Gaussian"""
    np = E.np
    N = n * T
    mu = E.np.zeros((N, 1))
    C = E.np.zeros((N, N))
    mean, cov = x0, P0
    covs = []
    for k in range(T):
        mean = E.dot(Fs[k], mean)
        cov = E.dot(Fs[k], cov, Fs[k].T) + Qs[k]
        covs.append(cov)
        mu[k * n:(k + 1) * n] = mean
    for i in range(T):
        c = covs[i]
        C[i * n:(i + 1) * n, i * n:(i + 1) * n] = c
        for j in range(i + 1, T):
            c = E.dot(Fs[j], c)
            C[j * n:(j + 1) * n, i * n:(i + 1) * n] = c
            C[i * n:(i + 1) * n, j * n:(j + 1) * n] = c.T
    obs = [k for k in range(T) if zs[k] is not None]
    if not obs:
        return mu, C
    A = E.np.zeros((m * len(obs), N))
    z = E.np.zeros((m * len(obs), 1))
    RR = E.np.zeros((m * len(obs), m * len(obs)))
    for r, k in enumerate(obs):
        A[r * m:(r + 1) * m, k * n:(k + 1) * n] = H
        z[r * m:(r + 1) * m] = zs[k]
        RR[r * m:(r + 1) * m, r * m:(r + 1) * m] = R
    S = E.dot(A, C, A.T) + RR
    G = E.dot(C, A.T, E.linalg.inv(S))
    return mu + E.dot(G, z - E.dot(A, mu)), C - E.dot(G, A, C)


RTS = [dict(n=1, m=1, zs='zz', per=True, how='class'), dict(n=1, m=1, zs='zzz', per=True, how='class'),
       dict(n=1, m=1, zs='z-z', per=True, how='class'), dict(n=1, m=1, zs='zz', per=False, how='class'),
       dict(n=1, m=1, zs='zz', per=True, how='func'), dict(n=1, m=1, zs='zzz', per=True, how='func'),
       dict(n=1, m=1, zs='z', per=True, how='class'), dict(n=1, m=1, zs='z', per=True, how='func')]


@harness('C07', RTS, bounds='dim_x 1: 1-3 steps fully symbolic against conditioning of the joint Gaussian',
         query_ms=60000)
def rts_joint(E, n, m, zs, per, how):
    kf, v = kf_model(E, n, m)
    T = len(zs)
    Fs = [E.mat('F%d' % k, n, n) for k in range(T)] if per else [v['F']] * T
    Qs = [E.psd('Q%d' % k, n) for k in range(T)] if per else [v['Q']] * T
    Z = [E.col('z%d' % k, m) if c == 'z' else None for k, c in enumerate(zs)]
    kw = dict(Fs=Fs, Qs=Qs) if per else {}
    mu, cov, _, _ = kf.batch_filter(Z, **kw)
    mu0, cov0 = E.copy(mu), E.copy(cov)
    if how == 'class':
        x, P, K, Pp = kf.rts_smoother(mu, cov, **kw)
    else:
        x, P, K, Pp = E.fp('kalman').rts_smoother(mu, cov, Fs, Qs)
    E.eq('Xs unchanged', mu, mu0)
    E.eq('Ps unchanged', cov, cov0)
    mj, cj = joint(E, n, m, T, v['x'], v['P'], Fs, Qs, v['H'], v['R'], Z)
    for k in range(T):
        E.eq('x', x[k], mj[k * n:(k + 1) * n])
        E.eq('P', P[k], cj[k * n:(k + 1) * n, k * n:(k + 1) * n])
    E.eq('last x', x[T - 1], mu0[T - 1])
    E.eq('last P', P[T - 1], cov0[T - 1])


RTS2 = [dict(n=n, T=T, how=h, shape=s, per=p, inv=i) for n, T in ((1, 3), (2, 2), (2, 3), (3, 2)) for h in ('class', 'func')
        for s in ('col', '1d') for p in (True, False) for i in (False, True)
        if not (h == 'func' and i) and not (n == 2 and T == 3 and (s == '1d' or i)) and not (n == 3 and (s == '1d' or i or not p))]


@harness('C07', RTS2, [],
         bounds='one backward step for arbitrary filtered means/covariances (dim_x 1-3, 2-3 steps): smoothed '
                'values equal the exact conditional of x_k given x_{k+1}, with the F, Q of step k+1')
def rts_step(E, n, T, how, shape, per, inv):
    kf, v = kf_model(E, n, 1, 0, shape)
    Fs = [E.mat('F%d' % k, n, n) for k in range(T)] if per else [v['F']] * T
    Qs = [E.psd('Q%d' % k, n) for k in range(T)] if per else [v['Q']] * T
    Xs = E.array([state(E, 'm%d' % k, n, shape) for k in range(T)])
    Ps = E.array([E.psd('C%d' % k, n) for k in range(T)])
    X0, P0 = E.copy(Xs), E.copy(Ps)
    before = snap(E, Xs, Ps, *(Fs + Qs))
    kw = {}
    calls = []
    if inv:
        def myinv(A):
            calls.append(1)
            return E.linalg.inv(A)
        kw['inv'] = myinv
    if how == 'class':
        if per:
            kw.update(Fs=Fs, Qs=Qs)
        x, P, K, Pp = kf.rts_smoother(Xs, Ps, **kw)
    else:
        x, P, K, Pp = E.fp('kalman').rts_smoother(Xs, Ps, Fs, Qs)
    E.same_inputs('args', before)
    if inv:
        E.check('inv used', len(calls) == T - 1)
    E.eq('last x', x[T - 1], X0[T - 1])
    E.eq('last P', P[T - 1], P0[T - 1])
    for k in range(T - 2, -1, -1):
        F, Q = Fs[k + 1], Qs[k + 1]
        pp = E.dot(F, P0[k], F.T) + Q
        E.eq('Pp', Pp[k], pp)
        G = E.dot(P0[k], F.T, E.linalg.inv(pp))
        E.eq('K', K[k], G)
        E.eq('x', x[k], X0[k] + E.dot(G, x[k + 1] - E.dot(F, X0[k])))
        E.eq('P', P[k], P0[k] + E.dot(G, P[k + 1] - pp, G.T))


# ---------------------------------------------------------------- C08 variants

def partitions(m):
    if m == 1:
        return [[1]]
    if m == 2:
        return [[1, 1], [2]]
    return [[1, 1, 1], [1, 2], [2, 1], [3]]


SEQ = [dict(n=n, m=m, part=p, order=o, over='') for n, m in ((1, 1), (2, 2), (1, 2), (1, 3)) for p in partitions(m)
       for o in (['fwd', 'rev'] if len(p) > 1 else ['fwd'])]
SEQ += [dict(n=2, m=2, part=[1, 1], order='fwd', over=o) for o in ('R', 'H', 'RH', 'rH')]
SEQ += [dict(n=2, m=3, part=[1, 2], order='fwd', over='r')]


@harness('C08', SEQ, [dict(n=2, m=3, part=p, order='fwd', over='') for p in partitions(3)] +
         [dict(n=3, m=2, part=[1, 1], order='fwd', over='')],
         bounds='dim_x 1-2, dim_z 1-3, noise block-diagonal over the partition; any listed partition and order',
         query_ms=60000)
def sequential(E, n, m, part, order, over):
    kf, v = kf_model(E, n, m)
    # noise correlated only inside a part
    R = E.np.zeros((m, m))
    starts = []
    s = 0
    for i, p in enumerate(part):
        R[s:s + p, s:s + p] = E.psd('R%d' % i, p)
        starts.append((s, p))
        s += p
    H = v['H']
    kf.R = E.copy(R)
    if 'R' in over or 'r' in over:
        kf.R = E.np.eye(m) * 7
    if 'H' in over:
        kf.H = E.np.zeros((m, n))
    z = E.col('z', m)
    todo = starts if order == 'fwd' else starts[::-1]
    x0 = kf.x
    if 'r' in over:
        for s, p in starts:
            r = E.pos('rs%d' % s)
            R[s:s + p, s:s + p] = E.np.eye(p) * r
    for s, p in todo:
        kw = {}
        if 'R' in over:
            kw['R_i'] = R[s:s + p, s:s + p].copy()
        if 'r' in over:
            kw['R_i'] = R[s, s]
        if 'H' in over:
            kw['H_i'] = H[s:s + p].copy()
        zi = z[s:s + p, 0] if p > 1 else z[s, 0]
        xb, Pb = E.copy(kf.x), E.copy(kf.P)
        before = snap(E, zi, *kw.values())
        kf.update_sequential(s, zi, **kw)
        E.same_inputs('args', before)
        u = update_ref(E, xb, Pb, z[s:s + p], H[s:s + p], R[s:s + p, s:s + p])
        E.eq('part x', kf.x, u['x'])
        E.eq('part P', kf.P, u['P'])
        E.eq('part y', kf.y[s:s + p], u['y'])
        E.eq('part K', kf.K[:, s:s + p], u['K'])
        E.eq('part z', kf.z[s:s + p], z[s:s + p])
        E.eq('x_post', kf.x_post, kf.x)
        E.eq('P_post', kf.P_post, kf.P)
    u = update_ref(E, v['x'], v['P'], z, H, R)
    E.eq('joint x', kf.x, u['x'])
    E.eq('joint P', kf.P, u['P'])


@harness('C08', [dict(n=n, m=m, shape=s, over=o) for n, m in ((1, 1), (2, 1), (2, 2)) for s in ('col', '1d')
                 for o in ('', 'R', 'r')] + [dict(n=2, m=1, shape='col', over='RH'), dict(n=2, m=2, shape='col', over='H')],
         [dict(n=3, m=2, shape='col', over='')],
         bounds='dim_x 1-2, dim_z 1-2; arbitrary cross-covariance M')
def correlated(E, n, m, shape, over):
    kf, v = kf_model(E, n, m, 0, shape)
    M = E.mat('M', n, m)
    kf.M = E.copy(M)
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    kw = {}
    R, H = v['R'], v['H']
    if 'R' in over:
        R = kw['R'] = E.psd('R2', m)
    if 'r' in over:
        r = kw['R'] = E.pos('r')
        R = E.np.eye(m) * r
    if 'H' in over:
        H = kw['H'] = E.mat('H2', m, n)
    before = snap(E, z, *kw.values())
    kf.update_correlated(z, **kw)
    E.same_inputs('args', before)
    P = v['P']
    xc, zc = v['x'].reshape(n, 1), z.reshape(m, 1)
    S = E.dot(H, P, H.T) + E.dot(H, M) + E.dot(M.T, H.T) + R
    G = E.dot(P, H.T) + M
    K = E.dot(G, E.linalg.inv(S))
    E.eq('S', kf.S, S)
    E.eq('K', kf.K, K)
    E.eqv('y', kf.y, zc - E.dot(H, xc))
    E.eqv('x', kf.x, xc + E.dot(K, zc - E.dot(H, xc)))
    E.eq('P', kf.P, P - E.dot(K, S, K.T))
    E.eq('x_post', kf.x_post, kf.x)
    E.eq('P_post', kf.P_post, kf.P)
    for k in ('F', 'Q', 'H', 'R'):
        E.eq('stored ' + k, getattr(kf, k), v[k])


@harness('C08', [dict(n=2, m=1, shape='col'), dict(n=2, m=2, shape='col'), dict(n=2, m=1, shape='1d')],
         bounds='M = 0')
def correlated_zero(E, n, m, shape):
    kf, v = kf_model(E, n, m, 0, shape)
    k2, _ = kf_model(E, n, m, 0, shape)
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    kf.update_correlated(z)
    k2.update(z)
    for a in ('x', 'P', 'K', 'S', 'y', 'x_post', 'P_post'):
        E.eq(a, getattr(kf, a), getattr(k2, a))


@harness('C08', [dict(n=n, m=m, shape=s, nu=u) for n, m in ((1, 1), (2, 1), (2, 2)) for s in ('col', '1d')
                 for u in (0, 1)], bounds='dim_x 1-2, dim_z 1-2, dim_u 0-1')
def steadystate(E, n, m, shape, nu):
    kf, v = kf_model(E, n, m, nu, shape)
    K = E.mat('K', n, m)
    kf.K = E.copy(K)
    S0 = E.copy(kf.S)
    if nu:
        u = E.col('u', nu) if shape == 'col' else E.vec('u', nu)
        kf.predict_steadystate(u)
        x = E.dot(v['F'], v['x']) + E.dot(v['B'], u)
    else:
        kf.predict_steadystate()
        x = E.dot(v['F'], v['x'])
    E.eq('x', kf.x, x)
    E.eq('P', kf.P, v['P'])
    E.eq('x_prior', kf.x_prior, x)
    E.eq('P_prior', kf.P_prior, v['P'])
    z = E.col('z', m) if shape == 'col' else E.vec('z', m)
    kf.update_steadystate(z)
    y = z - E.dot(v['H'], x)
    E.eq('y', kf.y, y)
    E.eq('x upd', kf.x, x + E.dot(K, y))
    E.eq('P upd', kf.P, v['P'])
    E.eq('K', kf.K, K)
    E.eq('S', kf.S, S0)
    E.eq('x_post', kf.x_post, kf.x)
    E.eq('P_post', kf.P_post, v['P'])
    E.eqv('z', kf.z, z)
    xs = E.copy(kf.x)
    kf.update_steadystate(None)
    E.eq('none x', kf.x, xs)
    E.eq('none P', kf.P, v['P'])
    E.check('none z', all_none(kf.z))
