"""Cubature, square-root and information filters."""
from engine.registry import harness
from harness._common import snap, scribble, update_ref, state, meas, as_state


def hints(E, x, P, z, H, R):
    n, m = x.shape[0], z.shape[0]
    u = update_ref(E, x.reshape(n, 1), P, z.reshape(m, 1), H, R)
    E.hint(P, x, E.dot(H, x), E.dot(H, P, H.T), E.dot(P, H.T), u['S'], u['K'], u['y'], u['x'], u['P'])
    return u


# ---------------------------------------------------------------- C16 cubature

@harness('C16', [dict(n=n, form=f) for n in (1, 2, 3) for f in ('1d', 'col', 'row')], [dict(n=4, form='1d')],
         bounds='dimension 1-3 (4 thorough); state given 1-D, as column or row')
def cubature_points(E, n, form):
    from filterpy.kalman.CubatureKalmanFilter import spherical_radial_sigmas
    c, P = E.vec('x', n), E.psd('P', n)
    x = c if form == '1d' else c.reshape((n, 1) if form == 'col' else (1, n))
    before = snap(E, x, P)
    s = spherical_radial_sigmas(x, P)
    E.same_inputs('args', before)
    E.check('count', E.shape(s) == (2 * n, n))
    mean = E.np.zeros(n)
    for k in range(2 * n):
        mean = mean + s[k] / (2 * n)
    E.eq('mean', mean, c)
    C = E.np.zeros((n, n))
    for k in range(2 * n):
        C = C + E.np.outer(s[k] - c, s[k] - c) / (2 * n)
    E.eq('covariance', C, P)


def ckf(E, n, m, F, H, **kw):
    C = E.fp('kalman').CubatureKalmanFilter
    return C(dim_x=n, dim_z=m, dt=E.real('dt'), hx=lambda s: E.dot(H, s), fx=lambda s, dt: E.dot(F, s), **kw)


@harness('C16', [dict(n=n, form=f, over=o) for n in (1, 2, 3) for f in ('col', '1d') for o in ('', 'dt', 'args', 'arg')],
         [dict(n=4, form='col', over='')],
         bounds='predict: dim_x 1-3 (4 thorough), linear process with a time-step dependent offset, per-call dt and arguments')
def cubature_predict(E, n, form, over):
    F, B, G, Q = E.mat('F', n, n), E.vec('b', n), E.vec('g', n), E.psd('Q', n)
    f = ckf(E, n, 1, F, E.mat('H', 1, n))
    f.fx = lambda s, dt, c=0, d=0: E.dot(F, s) + B * dt + G * (c + 2 * d)
    x, P = state(E, 'x', n, form if form == 'col' else 'vec'), E.psd('P', n)
    f.x, f.P, f.Q = E.copy(x), E.copy(P), E.copy(Q)
    kw, dt, off = {}, E.real('dt'), 0
    if over == 'dt':
        dt = kw['dt'] = E.real('dt2')
    if over == 'args':
        kw['fx_args'] = (E.real('c'), E.real('d'))
        off = G * (E.real('c') + 2 * E.real('d'))
    if over == 'arg':
        kw['fx_args'] = E.real('c')
        off = G * E.real('c')
    f.predict(**kw)
    xp = (E.dot(F, x.reshape(-1)) + B * dt + off).reshape(n, 1)
    Pp = E.dot(F, P, F.T) + Q
    E.eqv('x', f.x, xp)
    E.eq('P', f.P, Pp)
    E.eqv('x_prior', f.x_prior, xp)
    E.eq('P_prior', f.P_prior, Pp)
    E.eq('Q', f.Q, Q)
    scribble(E, f.x)
    scribble(E, f.P)
    E.eqv('x_prior copy', f.x_prior, xp)
    E.eq('P_prior copy', f.P_prior, Pp)


@harness('C16', [dict(n=n, m=m, form=g, over='') for n, m in ((1, 1), (2, 1)) for g in ('scalar', '1d', 'col', 'list')] +
         [dict(n=n, m=2, form=g, over='') for n in (1, 2) for g in ('1d', 'col', 'list')] +
         [dict(n=2, m=1, form='1d', over=o) for o in ('R', 'r', 'args', 'arg', 'vec', 'resid')] +
         [dict(n=2, m=2, form='1d', over=o) for o in ('R', 'r')],
         [dict(n=3, m=1, form='1d', over=''), dict(n=1, m=3, form='1d', over='')],
         bounds='update from an arbitrary estimate: dim_x 1-2 (3 thorough), dim_z 1-2 (3 thorough), every measurement form, '
                'per-call R (matrix, scalar), arguments of the measurement function, residual function, 1-D or column state',
         query_ms=60000)
def cubature_update(E, n, m, form, over):
    F, H, R = E.mat('F', n, n), E.mat('H', m, n), E.psd('R', m)
    kw, ck, off = {}, {}, 0
    b = E.vec('b', m)
    if over == 'resid':
        ck['residual_z'] = lambda a, c: 2 * (a - c)
    f = ckf(E, n, m, F, H, **ck)
    f.R = E.copy(R)
    if over == 'R':
        R = kw['R'] = E.psd('R2', m)
    if over == 'r':
        kw['R'] = E.pos('r')
        R = E.np.eye(m) * kw['R']
    if over in ('args', 'arg'):
        f.hx = lambda s, c=0, d=0: E.dot(H, s) + b * (c + 2 * d)
        kw['hx_args'] = (E.real('c'), E.real('d')) if over == 'args' else E.real('c')
        off = b * (E.real('c') + (2 * E.real('d') if over == 'args' else 0))
    x, P = E.vec('x', n), E.psd('P', n)
    f.x, f.P = E.copy(x if over == 'vec' else x.reshape(n, 1)), E.copy(P)
    z, zc = meas(E, 'z', m, form)
    zv = zc.reshape(-1) - off
    u = hints(E, x, P, zv, H, R)
    before = snap(E, z, kw.get('R'))
    f.update(z, **kw)
    E.same_inputs('args', before)
    k = 2 if over == 'resid' else 1
    E.eq('S', f.S, u['S'])
    E.eq('SI', f.SI, u['SI'])
    E.eq('K', f.K, u['K'])
    E.eqv('y', f.y, k * u['y'])
    E.eqv('x', f.x, x + k * E.dot(u['K'], u['y']).reshape(-1))
    E.check('x shape', E.shape(f.x) == ((n,) if over == 'vec' else (n, 1)))
    E.eq('P', f.P, u['P'])
    E.eqv('x_post', f.x_post, f.x)
    E.eq('P_post', f.P_post, f.P)
    xs, Ps = E.copy(f.x), E.copy(f.P)
    scribble(E, f.x)
    scribble(E, f.P)
    E.eq('x_post copy', f.x_post, xs)
    E.eq('P_post copy', f.P_post, Ps)


@harness('C16', [dict(n=n, m=m) for n, m in ((1, 1), (2, 1), (2, 2))], [dict(n=3, m=1)],
         bounds='predict then update, twice, each round from an arbitrary estimate; dim_x 1-2 (3 thorough), dim_z 1-2',
         query_ms=60000)
def cubature_chain(E, n, m):
    F, H, Q, R = E.mat('F', n, n), E.mat('H', m, n), E.psd('Q', n), E.psd('R', m)
    f = ckf(E, n, m, F, H)
    f.Q, f.R = E.copy(Q), E.copy(R)
    for k in range(2):
        x, P, z = E.col('x%d' % k, n), E.psd('P%d' % k, n), E.vec('z%d' % k, m)
        f.x, f.P = E.copy(x), E.copy(P)
        xp, Pp = E.let('xp%d' % k, E.dot(F, x)), E.let('Pp%d' % k, E.dot(F, P, F.T) + Q)
        u = hints(E, xp, Pp, z, H, R)
        f.predict()
        f.update(z)
        E.eqv('x%d' % k, f.x, u['x'])
        E.eq('P%d' % k, f.P, u['P'])
        E.eqv('x_prior%d' % k, f.x_prior, xp)
        E.eq('P_prior%d' % k, f.P_prior, Pp)
        E.eqv('y%d' % k, f.y, u['y'])
        E.eq('S%d' % k, f.S, u['S'])


# ---------------------------------------------------------------- C17 square root

def let_hints(E, x, P, z, H, R, tag=''):
    """like hints, with the innovation covariance and P H^T abbreviated and the gain applied one component
    at a time (the order in which a triangularisation eliminates)"""
    m = z.shape[0]
    S, G = E.let(tag + 'S', E.dot(H, P, H.T) + R), E.let(tag + 'G', E.dot(P, H.T))
    E.hint(P, x)
    K = E.dot(G, E.linalg.inv(S))
    y = z - E.dot(H, x)
    E.hint(S, G, K, y)
    if m == 2:
        s2 = S[1, 1] - S[0, 1] * S[0, 1] / S[0, 0]
        E.hint(E.array([s2]), G[:, 1] - G[:, 0] * S[0, 1] / S[0, 0], P - E.np.outer(G[:, 0], G[:, 0]) / S[0, 0])
    u = dict(S=S, K=K, y=y, x=x + E.dot(K, y), P=P - E.dot(K, G.T))
    E.hint(u['x'], u['P'])
    return u


def sqrt_model(E, n, m, nu=0, tag=''):
    f = E.fp('kalman').SquareRootKalmanFilter(dim_x=n, dim_z=m, dim_u=nu)
    v = dict(x=E.col(tag + 'x', n), F=E.mat(tag + 'F', n, n), H=E.mat(tag + 'H', m, n))
    f.x, f.F, f.H = E.copy(v['x']), E.copy(v['F']), E.copy(v['H'])
    for k, d in (('P', n), ('Q', n), ('R', m)):
        v[k] = E.psd(tag + k, d)
        setattr(f, k, E.copy(v[k]))
    if nu:
        v['B'] = f.B = E.mat(tag + 'B', n, nu)
    return f, v


@harness('C17', [dict(n=n, m=m) for n in (1, 2, 3) for m in (1, 2)], [dict(n=4, m=1)],
         bounds='dimensions 1-3: covariances read back as assigned, factors lower triangular and multiplying back')
def roots(E, n, m):
    f, v = sqrt_model(E, n, m)
    for k in 'PQR':
        E.eq(k, getattr(f, k), v[k])
        L = getattr(f, k + '1_2')
        E.eq(k + ' factor', E.dot(L, L.T), v[k])
    # assigning keeps no reference
    Q2 = E.psd('Q2', n)
    mine = E.copy(Q2)
    f.Q = mine
    scribble(E, mine)
    E.eq('Q again', f.Q, Q2)


@harness('C17', [dict(n=n, nu=u) for n in (1, 2, 3) for u in (0, 1, 2)],
         [dict(n=4, nu=0)],
         bounds='predict: dim_x 1-3 (4 thorough), 0-2 controls', query_ms=60000)
def sqrt_predict(E, n, nu):
    f, v = sqrt_model(E, n, 1, nu)
    u = E.col('u', nu) if nu else None
    xp = E.dot(v['F'], v['x']) + (E.dot(v['B'], u) if nu else 0)
    Pp = E.dot(v['F'], v['P'], v['F'].T) + v['Q']
    before = snap(E, u)
    if nu:
        f.predict(u)
    else:
        f.predict()
    E.same_inputs('u', before)
    E.eq('x', f.x, xp)
    E.eq('P', f.P, Pp)
    E.eq('x_prior', f.x_prior, xp)
    E.eq('P_prior', f.P_prior, Pp)
    E.eq('Q', f.Q, v['Q'])
    E.eq('R', f.R, v['R'])
    E.eq('F', f.F, v['F'])
    scribble(E, f.x)
    E.eq('x_prior copy', f.x_prior, xp)


@harness('C17', [dict(n=n, m=m, over=o, form=g) for n, m in ((1, 1), (2, 1)) for o in ('', 'R', 'r') for g in ('col', 'scalar')] +
         [dict(n=n, m=2, over=o, form='col') for n, o in ((1, ''), (1, 'R'), (2, ''))],
         [dict(n=3, m=1, over='', form='col'), dict(n=2, m=2, over='R', form='col'), dict(n=3, m=2, over='', form='col')],
         bounds='update: dim_x 1-2 (3 thorough), dim_z 1-2; per-call square root of R as matrix or scalar', query_ms=60000)
def sqrt_update(E, n, m, over, form):
    f, v = sqrt_model(E, n, m)
    R, a = v['R'], []
    if over == 'R':
        L = E.lower('L', m)
        a, R = [L], E.dot(L, L.T)
    if over == 'r':
        a = [E.pos('r')]
        R = E.np.eye(m) * a[0] * a[0]
    z, zc = meas(E, 'z', m, form)
    u = let_hints(E, v['x'], v['P'], zc, v['H'], R)
    before = snap(E, z, *a)
    f.update(z, *a)
    E.same_inputs('args', before)
    E.eq('y', f.y, u['y'])
    E.eq('S', f.S, u['S'])
    E.eq('K', f.K, u['K'])
    E.eq('x', f.x, u['x'])
    E.eq('P', f.P, u['P'])
    E.eq('SI', E.dot(f.SI, u['S']), E.np.eye(m))
    E.eq('x_post', f.x_post, u['x'])
    E.eq('P_post', f.P_post, u['P'])
    E.eq('R', f.R, v['R'])
    E.eqv('residual_of', f.residual_of(zc), zc - E.dot(v['H'], f.x))
    E.eq('measurement_of_state', f.measurement_of_state(v['x']), E.dot(v['H'], v['x']))
    scribble(E, f.x)
    E.eq('x_post copy', f.x_post, u['x'])


@harness('C17', [dict(n=2, m=1, order=o) for o in ('pu', 'up', 'pup', 'pp')] + [dict(n=1, m=1, order=o) for o in ('pupu', 'ppuup')],
         [dict(n=2, m=2, order='pu')],
         bounds='sequences of up to 5 predicts and updates with dim_x 1, up to 3 with dim_x 2; dim_z 1 (2 thorough)', query_ms=60000)
def sqrt_chain(E, n, m, order):
    f, v = sqrt_model(E, n, m)
    x, P = v['x'], v['P']
    xp = Pp = xq = Pq = None
    for k, c in enumerate(order):
        if c == 'p':
            x, P = E.dot(v['F'], x), E.dot(v['F'], P, v['F'].T) + v['Q']
            x, P = E.let('x%d' % k, x), E.let('P%d' % k, P)
            E.hint(x, P)
            f.predict()
            xp, Pp = x, P
        else:
            z = E.col('z%d' % k, m)
            u = let_hints(E, x, P, z, v['H'], v['R'], 'u%d' % k)
            f.update(z)
            x, P = E.let('x%d' % k, u['x']), E.let('P%d' % k, u['P'])
            xq, Pq = x, P
        E.eq('x%d' % k, f.x, x)
        E.eq('P%d' % k, f.P, P)
        if xp is not None:
            E.eq('x_prior%d' % k, f.x_prior, xp)
            E.eq('P_prior%d' % k, f.P_prior, Pp)
        if xq is not None:
            E.eq('x_post%d' % k, f.x_post, xq)
            E.eq('P_post%d' % k, f.P_post, Pq)


# ---------------------------------------------------------------- C18 information filter

def info_model(E, n, m, nu=0, shape='col'):
    f = E.fp('kalman').InformationFilter(dim_x=n, dim_z=m, dim_u=nu)
    FI = E.mat('FI', n, n)          # the transition given by its inverse: arbitrary invertible
    E.assume(E.linalg.det(FI) != 0)
    v = dict(x=state(E, 'x', n, shape), F=E.linalg.inv(FI), H=E.mat('H', m, n), Q=E.psd('Q', n), PI=E.psd('PI', n),
             RI=E.psd('RI', m))
    E.hint(FI, v['F'])
    v['FI'] = FI
    f.x, f.F, f.H, f.Q = (E.copy(v[k]) for k in 'xFHQ')
    v['P'], v['R'] = E.linalg.inv(v['PI']), E.linalg.inv(v['RI'])
    f.P_inv, f.R_inv = E.copy(v['PI']), E.copy(v['RI'])
    if nu:
        v['B'] = E.mat('B', n, nu)
        f.B = E.copy(v['B'])
    return f, v


@harness('C18', [dict(n=n, nu=u, shape=s) for n in (1, 2) for u in (0, 1, 2) for s in ('col', 'vec')], [dict(n=3, nu=0, shape='col')],
         bounds='predict: dim_x 1-2 (3 thorough), 0-2 controls, invertible F', query_ms=60000)
def info_predict(E, n, nu, shape):
    f, v = info_model(E, n, 1, nu, shape)
    u = None
    if nu:
        u = E.col('u', nu) if shape == 'col' else E.vec('u', nu)
    xp = E.dot(v['F'], v['x']) + (E.dot(v['B'], u) if nu else 0)
    Pp = E.dot(v['F'], v['P'], v['F'].T) + v['Q']
    E.hint(v['P'], E.dot(v['F'], v['P'], v['F'].T), Pp)
    before = snap(E, u)
    f.predict(u) if nu else f.predict()
    E.same_inputs('u', before)
    E.eq('x', f.x, xp)
    E.eq('P', f.P, Pp)
    E.eq('information', E.dot(f.P_inv, Pp), E.np.eye(n))
    E.eq('x_prior', f.x_prior, xp)
    E.eq('P_inv_prior', f.P_inv_prior, f.P_inv)
    E.eq('Q', f.Q, v['Q'])
    E.eq('F', f.F, v['F'])
    I = E.copy(f.P_inv)
    scribble(E, f.x)
    scribble(E, f.P_inv)
    E.eq('x_prior copy', f.x_prior, xp)
    E.eq('P_inv_prior copy', f.P_inv_prior, I)


@harness('C18', [dict(n=n, m=m, over=o, form='col', shape='col') for n, m in ((1, 1), (2, 1), (1, 2)) for o in ('', 'R', 'r')] +
         [dict(n=2, m=1, over='', form=g, shape='col') for g in ('scalar', '1d')] +
         [dict(n=2, m=2, over='', form=g, shape=s) for g, s in (('col', 'col'), ('1d', 'col'), ('1d', 'vec'))],
         [dict(n=3, m=1, over='', form='col', shape='col')],
         bounds='update: dim_x 1-2 (3 thorough), dim_z 1-2, measurement forms, per-call inverse noise as matrix or scalar',
         query_ms=60000)
def info_update(E, n, m, over, form, shape):
    f, v = info_model(E, n, m, shape=shape)
    R, a = v['R'], []
    if over == 'R':
        R = E.psd('R2', m)
        a = [E.linalg.inv(R)]
    if over == 'r':
        r = E.pos('r')
        a, R = [1 / r], E.np.eye(m) * r
    z, zc = meas(E, 'z', m, form)
    u = hints(E, v['x'], v['P'], zc, v['H'], R)
    before = snap(E, z, *a)
    f.update(z, *a)
    E.same_inputs('args', before)
    E.eq('y', f.y, as_state(E, u['y'], shape))
    E.eq('S', f.S, u['S'])
    E.eq('K', f.K, u['K'])
    E.eq('x', f.x, as_state(E, u['x'], shape))
    E.eq('P', f.P, u['P'])
    E.eq('information', E.dot(f.P_inv, u['P']), E.np.eye(n))
    E.eq('x_post', f.x_post, f.x)
    E.eq('P_inv_post', f.P_inv_post, f.P_inv)
    E.eqv('z', f.z, zc)
    E.eq('R_inv', f.R_inv, v['RI'])
    I, xs = E.copy(f.P_inv), E.copy(f.x)
    scribble(E, f.x)
    scribble(E, f.P_inv)
    E.eq('x_post copy', f.x_post, xs)
    E.eq('P_inv_post copy', f.P_inv_post, I)


def definite(E, name, Y, P):
    """abbreviation for an information matrix, shown to be the inverse of the covariance P and therefore
    positive definite; returns it and its inverse"""
    n = P.shape[0]
    E.eq(name + ' reference', E.dot(Y, P), E.np.eye(n))
    Y = E.let(name + 'Y', Y)
    for k in range(1, n + 1):
        E.assume(E.linalg.det(Y[:k, :k]) > 0)
    P = E.linalg.inv(Y)
    E.hint(P, Y)
    return Y, P


def predicted_information(E, tag, FI, Y, Q):
    A = E.let(tag + 'A', E.dot(FI.T, Y, FI))
    return E.dot(E.linalg.inv(E.np.eye(len(Y)) + E.dot(A, Q)), A)


@harness('C18', [dict(n=1, m=1, order=o) for o in ('pu', 'up', 'ppuup', 'pupup')], [dict(n=2, m=1, order='up')],
         bounds='sequences of up to 5 predicts and updates, dim_x 1 (2 thorough), dim_z 1', query_ms=60000)
def info_chain(E, n, m, order):
    f, v = info_model(E, n, m)
    FI, F, H, Q, x, Y, P = (v[k] for k in ('FI', 'F', 'H', 'Q', 'x', 'PI', 'P'))
    for k, c in enumerate(order):
        if c == 'p':
            x = E.let('x%d' % k, E.dot(F, x))
            Y, P = definite(E, 'p%d' % k, predicted_information(E, 'p%d' % k, FI, Y, Q), E.dot(F, P, F.T) + Q)
            f.predict()
        else:
            z = E.col('z%d' % k, m)
            u = hints(E, x, P, z, H, v['R'])
            x = E.let('x%d' % k, u['x'])
            Y, P = definite(E, 'u%d' % k, Y + E.dot(H.T, v['RI'], H), u['P'])
            f.update(z)
        E.eq('x%d' % k, f.x, x)
        E.eq('P_inv%d' % k, f.P_inv, Y)


@harness('C18', [dict(n=2, m=1, order=o) for o in ('pup', 'upu')], [dict(n=2, m=2, order='pu')],
         bounds='sequences of predicts and updates on one filter object, each step from an arbitrary estimate; dim_x 2, '
                'dim_z 1 (2 thorough)', query_ms=60000)
def info_steps(E, n, m, order):
    f, v = info_model(E, n, m)
    F, H, Q = v['F'], v['H'], v['Q']
    for k, c in enumerate(order):
        x, Y = E.col('x%d' % k, n), E.psd('Y%d' % k, n)
        P = E.linalg.inv(Y)
        f.x, f.P_inv = E.copy(x), E.copy(Y)
        if c == 'p':
            E.hint(P, E.dot(F, P, F.T) + Q)
            x, P = E.dot(F, x), E.dot(F, P, F.T) + Q
            f.predict()
        else:
            z = E.col('z%d' % k, m)
            u = hints(E, x, P, z, H, v['R'])
            f.update(z)
            x, P = u['x'], u['P']
        E.eq('x%d' % k, f.x, x)
        E.eq('information%d' % k, E.dot(f.P_inv, P), E.np.eye(n))


@harness('C18', [dict(order=o, nu=u) for o in ('pupu', 'upu', 'pppu', 'puup', 'uu') for u in (0, 1)],
         [dict(order=o, nu=0) for o in ('upupu', 'pupup', 'upuu', 'ppupu', 'uppu')],
         bounds='dim_x 2, dim_z 1, arbitrary invertible F, no prior information, up to 4 steps (5 thorough); the reference is '
                'the information recursion in closed form (zero, then rank one, then full rank)', query_ms=60000)
def no_information(E, order, nu):
    f = E.fp('kalman').InformationFilter(dim_x=2, dim_z=1, dim_u=nu)
    FI, H, Q, r = E.mat('FI', 2, 2), E.mat('H', 1, 2), E.psd('Q', 2), E.pos('r')
    E.assume(E.linalg.det(FI) != 0)
    F = E.linalg.inv(FI)
    E.hint(FI, F)
    E.assume(H[0, 0] != 0)
    E.assume(H[0, 1] != 0)
    f.F, f.H, f.Q, f.R_inv = E.copy(F), E.copy(H), E.copy(Q), E.array([[r]])
    if nu:
        B = f.B = E.mat('B', 2, nu)
    f.P_inv, f.x = E.np.zeros((2, 2)), E.np.zeros((2, 1))
    h = H.T
    mode = 'zero'
    for k, c in enumerate(order):
        if c == 'p':
            u = E.col('u%d' % k, nu) if nu else None
            if mode == 'rank1':                     # Y = rho g g', y = eta g
                g = E.let('g%d' % k, E.dot(FI.T, g))
                fresh = False
                if not E.true(g[0, 0] != 0) or not E.true(g[1, 0] != 0):
                    return
                t = 1 + rho * E.dot(g.T, Q, g)[0, 0]
                A = rho * E.dot(g, g.T)
                E.hint(g, A, E.np.eye(2) + E.dot(A, Q), eta * g)
                rho, eta = E.let('rho%d' % k, rho / t), eta / t
                E.assume(rho > 0)
                eta = E.let('eta%d' % k, eta + (rho * E.dot(g.T, B, u)[0, 0] if nu else 0))
                E.hint(rho * E.dot(g, g.T), eta * g)
            if mode == 'full':
                x = E.let('x%d' % k, E.dot(F, x) + (E.dot(B, u) if nu else 0))
                Y, P = definite(E, 'p%d' % k, predicted_information(E, 'p%d' % k, FI, Y, Q), E.dot(F, P, F.T) + Q)
            f.predict(u) if nu else f.predict()
        else:
            z = E.col('z%d' % k, 1)
            zz = z[0, 0]
            if mode == 'zero':
                g, rho, eta, mode, fresh = h, r, r * zz, 'rank1', True
            elif mode == 'rank1' and fresh:         # the same direction again
                rho, eta = rho + r, eta + r * zz
            elif mode == 'rank1':
                cross = g[0, 0] * h[1, 0] - g[1, 0] * h[0, 0]
                if not E.true(cross != 0):
                    return
                mode = 'full'
                Y0 = rho * E.dot(g, g.T) + r * E.dot(h, h.T)
                Y, P = definite(E, 'u%d' % k, Y0, E.linalg.inv(Y0))
                x = E.let('x%d' % k, E.dot(P, eta * g + r * zz * h))
            else:
                q = hints(E, x, P, z, H, E.array([[1 / r]]))
                x = E.let('x%d' % k, q['x'])
                Y, P = definite(E, 'u%d' % k, Y + r * E.dot(h, h.T), q['P'])
            f.update(z)
        if mode == 'zero':
            E.eq('no information%d' % k, f.P_inv, E.np.zeros((2, 2)))
        elif mode == 'rank1':
            E.eq('partial information%d' % k, f.P_inv, rho * E.dot(g, g.T))
        else:
            E.eq('information%d' % k, f.P_inv, Y)
            E.eq('state%d' % k, f.x, x)
        E.eq('posterior%d' % k if c == 'u' else 'prior%d' % k, f.P_inv_post if c == 'u' else f.P_inv_prior, f.P_inv)


@harness('C18', [dict(order=o) for o in ('pu', 'up', 'pup', 'ppu', 'upu')],
         bounds='dim_x 1, dim_z 1: after the first measurement the filter equals the Kalman filter with prior variance '
                'tending to infinity (the limit taken on the closed form)', query_ms=60000)
def no_information_1d(E, order):
    f = E.fp('kalman').InformationFilter(1, 1)
    F, H, Q, R = E.real('F'), E.real('H'), E.pos('Q'), E.pos('R')
    E.assume(F != 0)
    E.assume(H != 0)
    f.F, f.H, f.Q, f.R_inv = E.array([[F]]), E.array([[H]]), E.array([[Q]]), E.array([[1 / R]])
    f.P_inv = E.array([[0]])
    x = P = None
    for k, c in enumerate(order):
        if c == 'p':
            f.predict()
            if P is not None:
                x, P = F * x, F * P * F + Q
        else:
            z = E.real('z%d' % k)
            f.update(z)
            if P is None:
                x, P = z / H, R / (H * H)
            else:
                S = H * P * H + R
                x, P = x + P * H / S * (z - H * x), P - P * H / S * H * P
        if P is not None:
            E.eq('x%d' % k, f.x[0, 0], x)
            E.eq('P%d' % k, f.P[0, 0], P)
        else:
            E.eq('zero%d' % k, f.P_inv[0, 0], E.num(0))
