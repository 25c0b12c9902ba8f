"""sequences handed over as lists, tuples or stacked arrays; scalar measurements and controls; missing measurements of a filter without information."""
from engine.registry import harness
from harness._common import snap, meas
from harness.long import build, batch_models, Ref, rts_ref, cfull, cmat, cspd, cnum, Q_
from harness.ukf import points

BOXES = ('tuple', 'array')


def boxed(E, seq, how):
    return tuple(seq) if how == 'tuple' else E.array(seq) if how == 'array' else list(seq)


def series(E, name, T, m, form):
    """measurements or controls of one form, and the same as columns"""
    if form == 'number':
        v = [E.real('%s%d' % (name, k)) for k in range(T)]
        return v, [E.array([[a]]) for a in v]
    v = [E.col('%s%d' % (name, k), m) if form == 'col' else E.vec('%s%d' % (name, k), m) for k in range(T)]
    return v, [a.reshape(m, 1) for a in v]


KB = [dict(n=n, m=m, nu=nu, box=b, zf=zf, uf=uf, shape=s, per=p, first=f)
      for n, m, nu, zf, uf, s in ((1, 1, 1, 'number', 'number', 'col'), (2, 1, 1, 'number', 'number', 'col'), (2, 1, 1, 'number', 'vec', '1d'),
                                  (2, 2, 2, 'col', 'col', 'col'), (3, 2, 2, 'vec', 'vec', '1d'), (2, 2, 1, 'vec', 'number', 'col'))
      for b, p in (('tuple', 'FQHRBu'), ('array', 'FQHRBu'), ('array', 'u'), ('array', 'HR'), ('list', 'u')) for f in (False, True)]


def kalman_batch(E, proc, n, m, nu, box, zf, uf, shape, per, first):
    T = 3
    L = batch_models(E, n, m, nu, T, per)
    x = E.col('x', n) if shape == 'col' else E.vec('x', n)
    P = cspd(E, n)
    Z, zc = series(E, 'z', T, m, zf)
    us, uc = series(E, 'u', T, nu, uf) if 'u' in per else (None, None)
    names = 'FQHR' if proc else [a for a in 'FQHR' if a in per]
    kw = {a + 's': boxed(E, L[a], box) for a in names}
    if us is not None:
        kw['us'] = boxed(E, us, box)
        if proc or 'B' in per:
            kw['Bs'] = boxed(E, L['B'], box)
    Z = boxed(E, Z, box)
    held = snap(E, *[a for a in [Z] + list(kw.values()) if hasattr(a, 'shape')])
    if proc:
        got = E.fp('kalman').batch_filter(x, P, Z, update_first=first, **kw)
    else:
        f = build(E, 'KalmanFilter', n, m, nu, L['F'][0], L['H'][0], P, L['Q'][0], L['R'][0], L['B'][0], x, None)
        got = f.batch_filter(Z, update_first=first, **kw)
    E.same_inputs('sequences', held)
    ref = Ref(E, x.reshape(n, 1), P)
    for k in range(T):
        for c in ('up' if first else 'pu'):
            i = 0 if c == 'u' else 2
            if c == 'p':
                ref.predict(L['F'][k], L['Q'][k], E.dot(L['B'][k], uc[k]) if us is not None else None)
            else:
                ref.update(zc[k], L['H'][k], L['R'][k])
            E.eqv('x %s%d' % (c, k), got[i][k], ref.x)
            E.eq('P %s%d' % (c, k), got[i + 1][k], ref.P)


@harness('C06', KB, bounds='measurements, controls and per-step matrices as tuples and stacked arrays, scalar measurements and controls; three steps, dim_x 1-3')
def batch_sequences(E, **kw):
    kalman_batch(E, False, **kw)


@harness('C05', KB, bounds='measurements, controls and per-step matrices as tuples and stacked arrays, scalar measurements and controls; three steps, dim_x 1-3')
def batch_sequences_proc(E, **kw):
    kalman_batch(E, True, **kw)


@harness('C07', [dict(n=n, box=b, shape=s, proc=p) for n in (1, 2, 3) for b in ('list', 'tuple', 'array') for s in ('col', '1d') for p in (False, True)],
         bounds='transition and process matrices per step as lists, tuples and stacked arrays; four steps, dim_x 1-3')
def smoother_sequences(E, n, box, shape, proc):
    T = 4
    Fs, Qs, C = [cfull(E, n, k) for k in range(T)], [cspd(E, n, k + 1) for k in range(T)], [cspd(E, n, 2 * k) for k in range(T)]
    M = [E.col('m%d' % k, n) for k in range(T)]
    X, P = E.array([a.reshape(-1) if shape == '1d' else a for a in M]), E.array(C)
    fs, qs = boxed(E, Fs, box), boxed(E, Qs, box)
    held = snap(E, X, P, *([fs, qs] if box == 'array' else Fs + Qs))
    if proc:
        got = E.fp('kalman').rts_smoother(X, P, fs, qs)
    else:
        f = build(E, 'KalmanFilter', n, 1, 0, Fs[0], cmat(E, 1, n), C[0], Qs[0], cspd(E, 1), None, M[0], None)
        got = f.rts_smoother(X, P, fs, qs)
    E.same_inputs('arguments', held)
    m, c = rts_ref(E, M, C, Fs, Qs)
    for k in range(T):
        E.eqv('x%d' % k, got[0][k], m[k])
        E.eq('P%d' % k, got[1][k], c[k])


OTHER = [dict(n=n, m=m, box=b, zf=z, R=r) for n, m, z in ((1, 1, 'number'), (2, 1, 'number'), (2, 2, 'col'), (2, 2, 'vec')) for b in ('list',) + BOXES for r in (False, True)]


def other_batch(E, kind, n, m, box, zf, R, first):
    T = 3
    L = batch_models(E, n, m, 0, T, 'R' if R else '')
    a = E.num(Q_(9, 8)) if kind[0] == 'F' else E.num(1)
    x, P = E.col('x', n), cspd(E, n)
    f = build(E, kind, n, m, 0, L['F'][0], L['H'][0], P, L['Q'][0], L['R'][0], None, x, a)
    Z, zc = series(E, 'z', T, m, zf)
    Z = boxed(E, Z, box)
    Rs = [E.linalg.inv(r) for r in L['R']] if kind[0] == 'I' else L['R']
    got = f.batch_filter(Z, boxed(E, Rs, box), update_first=first) if R else f.batch_filter(Z, update_first=first)
    ref = Ref(E, x, P)
    for k in range(T):
        for c in ('up' if first else 'pu'):
            if c == 'p':
                ref.predict(L['F'][k], L['Q'][k], None, a * a)
            else:
                ref.update(zc[k], L['H'][k], L['R'][k])
            if kind[0] == 'F':
                i = 0 if c == 'u' else 2
                E.eqv('x %s%d' % (c, k), got[i][k], ref.x)
                E.eq('P %s%d' % (c, k), got[i + 1][k], ref.P)
        if kind[0] == 'I':
            E.eqv('x %d' % k, got[0][k], ref.x)
            E.eq('P %d' % k, E.dot(got[1][k], ref.P), E.np.eye(n))


for _p, _k in (('C10', 'FadingKalmanFilter'),):
    @harness(_p, [dict(o, kind=_k, first=f) for o in OTHER for f in (False, True)],
             bounds='measurements and their covariances as lists, tuples and stacked arrays, scalar measurements; three steps, dim_x 1-2')
    def batch_sequences_other(E, **kw):
        other_batch(E, **kw)


@harness('C03', [dict(order=o, n=n) for o in ('NpNuN', 'uNpNuN', 'NuNpNNu', 'upNuN', 'uNu', 'uNNNpu', 'NNpu') for n in (1, 2)],
         bounds='information filter without prior information, missing measurements anywhere in up to 7 steps; dim_x 1-2: same as without them')
def missing_without_information(E, order, n):
    fs = []
    F, H, Q, r = cfull(E, n), E.array([[E.num(1 + i) for i in range(n)]]), cspd(E, n, 1), E.num(2)
    for _ in range(2):
        f = E.fp('kalman').InformationFilter(n, 1)
        f.F, f.H, f.Q, f.R_inv = E.copy(F), E.copy(H), E.copy(Q), E.array([[r]])
        f.P_inv, f.x = E.np.zeros((n, n)), E.np.zeros((n, 1))
        fs.append(f)
    f, g = fs
    for k, c in enumerate(order):
        if c == 'p':
            f.predict()
            g.predict()
        elif c == 'u':
            z = E.col('z%d' % k, 1)
            f.update(z)
            g.update(z)
        else:
            f.update(None)
            E.eq('x_post%d' % k, f.x_post, f.x)
            E.eq('P_inv_post%d' % k, f.P_inv_post, f.P_inv)
        E.eq('x%d' % k, f.x, g.x)
        E.eq('P_inv%d' % k, f.P_inv, g.P_inv)


FORMS = [dict(n=n, m=m, form=f) for n, m in ((2, 1), (2, 2), (3, 2), (1, 2)) for f in ('col', '1d', 'row', 'list')] + [dict(n=n, m=1, form='scalar') for n in (1, 2)]


def forms_run(E, kind, n, m, form):
    one = kind[0] == 'S' and m > 1
    F, H, R, Q, P = cfull(E, n), cmat(E, m, n), cspd(E, m, 2), cspd(E, n, 1), cspd(E, n)
    a = E.num(Q_(9, 8)) if kind[0] == 'F' else E.num(1)
    x = E.col('x', n)
    f = build(E, kind, n, m, 0, F, H, P, Q, R, None, x, a)
    ref = Ref(E, x, P)
    for k in range(2):
        z, zc = meas(E, 'z%d' % k, m, form)
        f.update(z)
        ref.update(zc, H, R)
        E.eq('x%d' % k, f.x, ref.x)
        E.eq('P%d' % k, f.P, ref.P)
        if one:
            return
        f.predict()
        ref.predict(F, Q, None, a * a)


for _p, _k in (('C10', 'FadingKalmanFilter'), ('C17', 'SquareRootKalmanFilter')):
    @harness(_p, [dict(o, kind=_k) for o in FORMS if _k[0] == 'F' or o['n'] < 3],
             bounds='measurements as columns, rows, one-dimensional arrays, lists and numbers; two updates, dim_x 1-3, dim_z 1-2')
    def measurement_forms(E, kind, n, m, form):
        forms_run(E, kind, n, m, form)
