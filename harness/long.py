"""long histories and larger dimensions: the numbers of the model are fixed rationals (one or two of them symbolic), the initial estimate,
controls and measurements are arbitrary."""
from fractions import Fraction as Q_

from engine.registry import harness
from harness._common import snap, all_none
from harness.ukf import points


def cnum(i, j=0, k=0):
    """a fixed, irregular rational in [-2, 2]"""
    v = (7 * i + 11 * j + 5 * k + 3 * i * j + 2 * i * k + i * i + 4) % 17
    return Q_(v - 8, 4)


def cmat(E, r, c, k=0):
    return E.array([[E.num(cnum(i + 1, j + 1, k)) for j in range(c)] for i in range(r)])


def cfull(E, n, k=0):
    """a transition matrix: identity plus small irregular entries, invertible (unit lower times unit upper)"""
    L = E.array([[E.num(1 if i == j else Q_(0) if i < j else cnum(i, j, k) / 4) for j in range(n)] for i in range(n)])
    U = E.array([[E.num(1 if i == j else Q_(0) if i > j else cnum(i, j, k + 1) / 4) for j in range(n)] for i in range(n)])
    return E.dot(L, U)


def croot(E, n, k=0):
    """a fixed lower triangular matrix with positive diagonal"""
    return E.array([[E.num(0 if i < j else Q_(2 + (i + k) % 3, 2) if i == j else cnum(i, j, k) / 4) for j in range(n)] for i in range(n)])


def cspd(E, n, k=0):
    L = croot(E, n, k)
    return E.dot(L, L.T)


class Ref(object):
    """the textbook recursion"""

    def __init__(self, E, x, P):
        self.E, self.x, self.P = E, x, P

    def predict(self, F, Q, Bu=None, a2=1):
        E = self.E
        self.x = E.dot(F, self.x)
        if Bu is not None:
            self.x = self.x + Bu
        self.P = a2 * E.dot(F, self.P, F.T) + Q

    def update(self, z, H, R):
        E = self.E
        S = E.dot(H, self.P, H.T) + R
        K = E.dot(self.P, H.T, E.linalg.inv(S))
        self.x = self.x + E.dot(K, z - E.dot(H, self.x))
        self.P = self.P - E.dot(K, H, self.P)


FREE = 'puupNpupupuupNNpupu'
SHORT = 'pupNup'


def build(E, kind, n, m, nu, F, H, P, Q, R, B, x, a, fam='merwe', variant=0):
    K = E.fp('kalman')
    if kind == 'FadingKalmanFilter':
        f = K.FadingKalmanFilter(a, n, m, dim_u=nu)
    elif kind == 'UnscentedKalmanFilter':
        f = K.UnscentedKalmanFilter(n, m, E.num(1), lambda s: E.dot(H, s), lambda s, dt: E.dot(F, s), points(E, fam, n))
    elif kind == 'CubatureKalmanFilter':
        f = K.CubatureKalmanFilter(n, m, E.num(1), lambda s: E.dot(H, s), lambda s, dt: E.dot(F, s))
    else:
        f = getattr(K, kind)(n, m, nu) if nu else getattr(K, kind)(n, m)
    if kind[0] not in 'UC':
        f.F = E.copy(F)
        if kind[0] != 'E':
            f.H = E.copy(H)
        if nu:
            f.B = E.copy(B)
    f.Q = E.copy(Q)
    if kind == 'InformationFilter':
        f.R_inv = E.linalg.inv(R)
        f.P_inv = E.linalg.inv(P)
    else:
        f.R = E.copy(R)
        f.P = E.copy(P)
    f.x = E.copy(x)
    return f


def run(E, kind, n, m, nu, order, anchor, variant=0):
    """one object through a long sequence of steps; anchor: a fresh arbitrary state with a fixed covariance before each step"""
    flat = kind[0] == 'U'
    a = E.num(Q_(5, 4)) if kind[0] == 'F' else E.num(1)
    F, H, B = cfull(E, n, variant), cmat(E, m, n, variant), cmat(E, n, max(nu, 1), variant + 2)
    Q, R, P = cspd(E, n, variant + 1), cspd(E, m, variant + 2), cspd(E, n, variant)
    x = E.vec('x', n) if flat else E.col('x', n)
    f = build(E, kind, n, m, nu, F, H, P, Q, R, B, x, a, variant=variant)
    ref = Ref(E, x.reshape(n, 1), P)
    watch = []

    def compare(k, c):
        E.eqv('x after step %d' % k, f.x, ref.x)
        if kind == 'InformationFilter':
            E.eq('P_inv after step %d' % k, E.dot(f.P_inv, ref.P), E.np.eye(n))
        else:
            E.eq('P after step %d' % k, f.P, ref.P)
        for s in ('_prior', '_post'):
            if c == 'p' and s == '_post' or c != 'p' and s == '_prior':
                continue
            E.eq('x%s after step %d' % (s, k), getattr(f, 'x' + s), f.x)
            for p in ('P', 'P_inv'):
                if hasattr(f, p + s):
                    E.eq('%s%s after step %d' % (p, s, k), getattr(f, p + s), getattr(f, p))
        for lab, arr, was in watch[-4:]:
            E.eq('%s still the same at step %d' % (lab, k), arr, was)
        lab = 'x_prior' if c == 'p' else 'x_post'
        watch.append(('%s of step %d' % (lab, k), getattr(f, lab), E.copy(getattr(f, lab))))

    for k, c in enumerate(order):
        if anchor and k and c != 'N':
            ref.x, ref.P = E.col('x%d' % k, n), cspd(E, n, variant + k)
            if kind[0] == 'U' and c == 'u':         # its measurement points come from the prediction; a linear one keeps them consistent
                pass
            else:
                f.x = ref.x.reshape(E.shape(f.x))
                f.x = E.copy(f.x)
                if kind == 'InformationFilter':
                    f.P_inv = E.linalg.inv(ref.P)
                else:
                    f.P = E.copy(ref.P)
        if c == 'p':
            u = E.col('u%d' % k, nu) if nu and k % 3 != 2 else None
            if kind[0] in 'UC':
                f.predict()
            elif u is None:
                f.predict()
            else:
                f.predict(u)
            ref.predict(F, Q, None if u is None else E.dot(B, u), a * a)
        elif c == 'N':
            f.update(*((None,) if kind[0] != 'E' else (None, lambda s: H, lambda s: E.dot(H, s))))
            if hasattr(f, 'z'):
                E.check('no measurement at step %d' % k, all_none(f.z))
        else:
            z = E.col('z%d' % k, m)
            own = z.reshape(-1) if flat else z
            held = snap(E, own)
            if kind[0] == 'E':
                f.update(own, lambda s: H, lambda s: E.dot(H, s))
            else:
                f.update(own)
            ref.update(z, H, R)
            E.same_inputs('measurement of step %d' % k, held)
            if hasattr(f, 'z') and kind != 'UnscentedKalmanFilter':
                E.eqv('z of step %d' % k, f.z, z)
        compare(k, c)


def free(prop, kind, dims, thorough):
    @harness(prop, [dict(kind=kind, n=n, m=m, nu=nu, order=o, variant=v) for n, m, nu, o, v in dims],
             [dict(kind=kind, n=n, m=m, nu=nu, order=o, variant=v) for n, m, nu, o, v in thorough],
             bounds='one object through up to 19 (30 thorough) predictions, updates and missing measurements, and dim_x up to 6, dim_z up to 4: '
                    'fixed rational model matrices, every initial state, control and measurement')
    def long_run(E, kind, n, m, nu, order, variant):
        run(E, kind, n, m, nu, order, False, variant)


for prop, kind in (('C01', 'KalmanFilter'), ('C02', 'KalmanFilter'), ('C10', 'FadingKalmanFilter'), ('C11', 'ExtendedKalmanFilter'),
                   ('C18', 'InformationFilter')):
    nu = 1
    free(prop, kind, [(1, 1, nu, FREE, 0), (2, 1, nu, FREE, 1), (2, 2, 0, FREE, 2), (4, 1, nu, SHORT, 3), (4, 3, 2 * nu, SHORT, 4), (5, 2, 0, 'pup', 5),
                      (6, 4, 0, 'pu', 6)],
         [(1, 1, nu, 'pu' * 15, 7), (3, 2, nu, FREE, 8), (6, 3, 3, SHORT, 9)])


def rounds(E, kind, n, m, order, fam, variant):
    """one sigma-point or square-root filter through many steps; before each step the estimate is set to an arbitrary state with a fixed covariance"""
    flat = kind[0] == 'U'
    H = cmat(E, m, n, variant)
    R, Q = cspd(E, m, variant + 2), cspd(E, n, variant + 1)
    F = cfull(E, n, variant)
    f = build(E, kind, n, m, 0, F, H, cspd(E, n, variant), Q, R, None, E.vec('x', n) if flat else E.col('x', n), None, fam=fam)
    ref = Ref(E, E.col('x', n), cspd(E, n, variant))
    prior = False
    seen = []
    for k, c in enumerate(order):
        if c == 'p' or c == 'u' and (kind[0] != 'U' or k == 0 or order[k - 1] != 'p'):
            ref.x, ref.P = E.col('x%d' % k, n), cspd(E, n, variant + k)
            f.x = E.copy(ref.x.reshape(E.shape(f.x)))
            f.P = E.copy(ref.P)
        if c == 'p':
            if kind[0] == 'U':
                # sigma points of the prediction are drawn: give it a covariance with a rational root
                L = croot(E, n, variant + k + 3) * E.num(4)
                Q = E.dot(L, L.T) - E.dot(F, ref.P, F.T)
                f.Q = E.copy(Q)
            f.predict()
            ref.predict(F, Q)
        elif c == 'N':
            f.update(None)
            E.check('no measurement at step %d' % k, all_none(f.z))
        else:
            z = E.col('z%d' % k, m)
            own = z.reshape(-1) if flat else z
            held = snap(E, own)
            f.update(own)
            ref.update(z, H, R)
            E.same_inputs('measurement of step %d' % k, held)
            E.eqv('z of step %d' % k, f.z, z)
        E.eqv('x after step %d' % k, f.x, ref.x)
        E.eq('P after step %d' % k, f.P, ref.P)
        s = '_prior' if c == 'p' else '_post'
        E.eq('x%s after step %d' % (s, k), getattr(f, 'x' + s), f.x)
        E.eq('P%s after step %d' % (s, k), getattr(f, 'P' + s), f.P)
        for lab, arr, was in seen[-4:]:
            E.eq('%s still the same at step %d' % (lab, k), arr, was)
        seen.append(('x%s of step %d' % (s, k), getattr(f, 'x' + s), E.copy(getattr(f, 'x' + s))))


def anchored(prop, kind, dims, thorough):
    @harness(prop, [dict(kind=kind, n=n, m=m, order=o, fam=fam, variant=v) for n, m, o, fam, v in dims],
             [dict(kind=kind, n=n, m=m, order=o, fam=fam, variant=v) for n, m, o, fam, v in thorough],
             bounds='one object through many predictions, updates and missing measurements, each round from an arbitrary state with a fixed '
                    'covariance; dim_x up to 6, dim_z up to 4; fixed rational model matrices, every state and measurement')
    def long_rounds(E, kind, n, m, order, fam, variant):
        rounds(E, kind, n, m, order, fam, variant)


ROUNDS = 'pupNuppupuNNpupupu'
anchored('C14', 'UnscentedKalmanFilter', [(1, 1, ROUNDS, 'merwe', 0), (2, 2, 'upNupuupu', 'julier', 1), (3, 2, 'pupu', 'merwe', 2), (2, 1, 'pupu', 'simplex', 2),
                                          (4, 1, 'pu', 'merwe', 3), (4, 4, 'pu', 'julier', 3), (5, 2, 'pu', 'julier', 4), (6, 1, 'pu', 'merwe', 4)],
         [(1, 1, 'pu' * 15, 'julier', 0), (3, 3, 'pupNpupu', 'merwe', 1)])
anchored('C16', 'CubatureKalmanFilter', [(1, 1, ROUNDS, None, 0), (2, 2, 'pupNpupu', None, 1), (3, 2, 'pupu', None, 2), (4, 1, 'pu', None, 3),
                                         (4, 4, 'pu', None, 3), (5, 2, 'pu', None, 4), (6, 1, 'pu', None, 4)], [(1, 1, 'pu' * 15, None, 0), (3, 3, ROUNDS, None, 1)])
anchored('C17', 'SquareRootKalmanFilter', [(1, 1, ROUNDS, None, 0), (2, 1, 'pupNpupu', None, 1), (2, 2, 'pupu', None, 1), (3, 1, 'pu', None, 2), (3, 2, 'pu', None, 2), (4, 1, 'pu', None, 3),
                                           (5, 1, 'p', None, 3)], [(1, 1, 'pu' * 15, None, 0), (3, 1, ROUNDS, None, 1)])


# ---------------------------------------------------------------- batches and smoothers

class Count(object):
    n = 0

    def save(self):
        self.n += 1


def measurements(E, zs, m, shape):
    return [None if c == '-' else E.col('z%d' % k, m) if shape == 'col' else E.vec('z%d' % k, m) for k, c in enumerate(zs)]


BATCH = [dict(n=2, m=1, nu=1, zs='zz-zzz--zzz-', per='FQHRBu', shape='col', first=f) for f in (False, True)] + \
        [dict(n=2, m=2, nu=1, zs='zzzz-zzz', per='', shape=s, first=f) for s, f in (('col', True), ('1d', False))] + \
        [dict(n=3, m=1, nu=2, zs='zzz-zzz', per='Ru', shape='1d', first=True), dict(n=4, m=2, nu=1, zs='zz-z', per='FQHRBu', shape='col', first=False),
         dict(n=6, m=3, nu=0, zs='zz', per='FQ', shape='col', first=False)]


def batch_models(E, n, m, nu, T, per, variant=0):
    mk = dict(F=lambda k: cfull(E, n, k), Q=lambda k: cspd(E, n, k + 1), H=lambda k: cmat(E, m, n, k), R=lambda k: cspd(E, m, k + 2),
              B=lambda k: cmat(E, n, max(nu, 1), k + 3))
    return {a: [f(k + variant if a in per else variant) for k in range(T)] for a, f in mk.items()}


@harness('C06', BATCH, [dict(n=2, m=1, nu=1, zs='zz-' * 10, per='FQHRBu', shape='1d', first=False)],
         bounds='batches of up to 12 (30 thorough) measurements, missing ones included, dim_x up to 6: fixed rational matrices per step, every '
                'initial state, control and measurement; against the textbook recursion')
def long_batch(E, n, m, nu, zs, per, shape, first):
    T = len(zs)
    L = batch_models(E, n, m, nu, T, per)
    x = E.col('x', n) if shape == 'col' else E.vec('x', n)
    P = cspd(E, n)
    f = build(E, 'KalmanFilter', n, m, nu, L['F'][0], L['H'][0], P, L['Q'][0], L['R'][0], L['B'][0], x, None)
    Z = measurements(E, zs, m, shape)
    us = [E.col('u%d' % k, nu) if shape == 'col' else E.vec('u%d' % k, nu) for k in range(T)] if 'u' in per and nu else None
    kw = {a + 's': [E.copy(v) for v in L[a]] for a in per if a in L and (a != 'B' or nu)}
    if us:
        kw['us'] = us
    saver = Count()
    held = snap(E, *[a for a in Z if a is not None] + [a for l in kw.values() for a in l])
    xs, Ps, xp, Pp = f.batch_filter(Z, update_first=first, saver=saver, **kw)
    E.same_inputs('arguments', held)
    E.check('saved', saver.n == T)
    ref = Ref(E, x.reshape(n, 1), P)
    for k in range(T):
        for c in ('up' if first else 'pu'):
            if c == 'p':
                ref.predict(L['F'][k], L['Q'][k], E.dot(L['B'][k], us[k].reshape(nu, 1)) if us else None)
                E.eqv('predicted x%d' % k, xp[k], ref.x)
                E.eq('predicted P%d' % k, Pp[k], ref.P)
            else:
                if Z[k] is not None:
                    ref.update(Z[k].reshape(m, 1), L['H'][k], L['R'][k])
                E.eqv('x%d' % k, xs[k], ref.x)
                E.eq('P%d' % k, Ps[k], ref.P)
    E.eqv('final x', f.x, ref.x)
    E.eq('final P', f.P, ref.P)


@harness('C05', [d for d in BATCH if d['n'] < 5], bounds='batches of up to 12 measurements, dim_x up to 4: fixed rational matrices per step, every initial state, control and '
                                                        'measurement; against the textbook recursion')
def long_proc_batch(E, n, m, nu, zs, per, shape, first):
    T = len(zs)
    L = batch_models(E, n, m, nu, T, 'FQHRB')
    x = E.col('x', n) if shape == 'col' else E.vec('x', n)
    P = cspd(E, n)
    Z = measurements(E, zs, m, shape)
    us = [E.col('u%d' % k, nu) if shape == 'col' else E.vec('u%d' % k, nu) for k in range(T)] if 'u' in per and nu else None
    kw = dict(us=us, Bs=L['B']) if us else {}
    saver = Count()
    held = snap(E, x, P, *[a for a in Z if a is not None] + [a for l in L.values() for a in l] + (us or []))
    xs, Ps, xp, Pp = E.fp('kalman').batch_filter(x, P, Z, L['F'], L['Q'], L['H'], L['R'], update_first=first, saver=saver, **kw)
    E.same_inputs('arguments', held)
    E.check('saved', saver.n == T)
    ref = Ref(E, x.reshape(n, 1), P)
    for k in range(T):
        for c in ('up' if first else 'pu'):
            if c == 'p':
                ref.predict(L['F'][k], L['Q'][k], E.dot(L['B'][k], us[k].reshape(nu, 1)) if us else None)
                E.eqv('predicted x%d' % k, xp[k], ref.x)
                E.eq('predicted P%d' % k, Pp[k], ref.P)
            else:
                if Z[k] is not None:
                    ref.update(Z[k].reshape(m, 1), L['H'][k], L['R'][k])
                E.eqv('x%d' % k, xs[k], ref.x)
                E.eq('P%d' % k, Ps[k], ref.P)


def rts_ref(E, X, P, Fs, Qs):
    T = len(X)
    X, P = [E.copy(a) for a in X], [E.copy(a) for a in P]
    for k in range(T - 2, -1, -1):
        F, Q = Fs[k + 1], Qs[k + 1]
        pp = E.dot(F, P[k], F.T) + Q
        G = E.dot(P[k], F.T, E.linalg.inv(pp))
        X[k] = X[k] + E.dot(G, X[k + 1] - E.dot(F, X[k]))
        P[k] = P[k] + E.dot(G, P[k + 1] - pp, G.T)
    return X, P


@harness('C07', [dict(n=n, T=T, how=h, per=p, shape=s) for n, T, p, s in ((1, 12, True, 'col'), (2, 9, True, '1d'), (2, 8, False, 'col'), (3, 5, True, 'col'), (5, 3, True, '1d'),
                                                                         (6, 2, False, 'col')) for h in ('class', 'func')],
         [dict(n=1, T=30, how='class', per=True, shape='col')],
         bounds='2-12 steps (30 thorough), dim_x up to 6: fixed rational covariances and matrices per step, every sequence of filtered means')
def long_rts(E, n, T, how, per, shape):
    Fs = [cfull(E, n, k if per else 0) for k in range(T)]
    Qs = [cspd(E, n, k + 1 if per else 1) for k in range(T)]
    C = [cspd(E, n, 2 * k) for k in range(T)]
    M = [E.col('m%d' % k, n) for k in range(T)]
    X = E.array([a if shape == 'col' else a.reshape(-1) for a in M])
    P = E.array(C)
    held = snap(E, X, P, *(Fs + Qs))
    if how == 'class':
        kf = E.fp('kalman').KalmanFilter(n, 1)
        kf.F, kf.Q = Fs[0], Qs[0]
        x, p, _, _ = kf.rts_smoother(X, P, Fs, Qs) if per else kf.rts_smoother(X, P)
    else:
        x, p, _, _ = E.fp('kalman').rts_smoother(X, P, Fs, Qs)
    E.same_inputs('arguments', held)
    M, C = rts_ref(E, M, C, Fs, Qs)
    for k in range(T):
        E.eqv('x%d' % k, x[k], M[k])
        E.eq('P%d' % k, p[k], C[k])


@harness('C10', [dict(n=n, m=m, zs=z, first=u) for n, m, z in ((1, 1, 'zz-zzz--zz'), (2, 2, 'zzzz-z'), (4, 2, 'zz-z')) for u in (False, True)],
         bounds='batches of up to 10 measurements, dim_x up to 4; fixed rational matrices, every initial state and measurement')
def long_fading_batch(E, n, m, zs, first):
    T = len(zs)
    L = batch_models(E, n, m, 0, T, 'R')
    x, P, a = E.col('x', n), cspd(E, n), E.num(Q_(9, 8))
    f = build(E, 'FadingKalmanFilter', n, m, 0, L['F'][0], L['H'][0], P, L['Q'][0], L['R'][0], None, x, a)
    Z = measurements(E, zs, m, 'col')
    xs, Ps, xp, Pp = f.batch_filter(Z, Rs=L['R'], update_first=first)
    ref = Ref(E, x, P)
    for k in range(T):
        for c in ('up' if first else 'pu'):
            if c == 'p':
                ref.predict(L['F'][k], L['Q'][k], None, a * a)
                E.eqv('predicted x%d' % k, xp[k], ref.x)
                E.eq('predicted P%d' % k, Pp[k], ref.P)
            else:
                if Z[k] is not None:
                    ref.update(Z[k], L['H'][k], L['R'][k])
                E.eqv('x%d' % k, xs[k], ref.x)
                E.eq('P%d' % k, Ps[k], ref.P)


@harness('C15', [dict(n=n, T=T, fam=g) for n, T, g in ((1, 12, 'merwe'), (2, 6, 'julier'), (3, 4, 'merwe'), (4, 2, 'julier'), (2, 3, 'simplex'))],
         bounds='2-12 steps, dim_x up to 4: fixed rational covariances, linear process, time step and noise per step, every sequence of filtered means')
def long_unscented_rts(E, n, T, fam):
    Gs, Qs = [cfull(E, n, k) for k in range(T)], [cspd(E, n, k + 1) for k in range(T)]
    C = [cspd(E, n, 2 * k) for k in range(T)]
    M = [E.col('m%d' % k, n) for k in range(T)]
    dts = [E.num(k + 1) for k in range(T)]
    which = {k + 1: k for k in range(T)}

    def fx(s, dt):
        return E.dot(Gs[which[int(dt)]], s)
    f = E.fp('kalman').UnscentedKalmanFilter(n, 1, dts[0], lambda s: s[:1], fx, points(E, fam, n))
    X, P = E.array([a.reshape(-1) for a in M]), E.array(C)
    held = snap(E, X, P, *Qs)
    x, p, _ = f.rts_smoother(X, P, Qs, dts)
    E.same_inputs('arguments', held)
    M, C = rts_ref(E, M, C, Gs, Qs)
    for k in range(T):
        E.eqv('x%d' % k, x[k], M[k])
        E.eq('P%d' % k, p[k], C[k])


@harness('C22', [dict(n=n, m=m, T=T, N=N, nu=u) for n, m, T, N, u in ((1, 1, 14, 3, 1), (2, 1, 9, 4, 1), (2, 1, 10, 2, 0), (1, 1, 12, 11, 0), (1, 1, 8, 9, 0), (2, 2, 6, 1, 1), (4, 2, 4, 2, 0))],
         [dict(n=1, m=1, T=30, N=7, nu=1)],
         bounds='up to 14 measurements (30 thorough), lags 1-11, dim_x up to 4; fixed rational matrices, every initial state, control and measurement; the reference '
                'is the Rauch-Tung-Striebel smoother over the measurements the lag allows')
def long_fixed_lag(E, n, m, T, N, nu):
    F, H, B = cfull(E, n), cmat(E, m, n), cmat(E, n, max(nu, 1), 2)
    Q, R, P = cspd(E, n, 1), cspd(E, m, 2), cspd(E, n)
    x = E.col('x', n)
    zs = [E.col('z%d' % k, m) for k in range(T)]
    us = [E.col('u%d' % k, nu) for k in range(T)] if nu else None
    f = E.fp('kalman').FixedLagSmoother(n, m, N)
    for a, v in (('x', x), ('P', P), ('F', F), ('H', H), ('Q', Q), ('R', R)) + ((('B', B),) if nu else ()):
        setattr(f, a, E.copy(v))
    ref = Ref(E, x, P)
    pr, po = [], []
    for k in range(T):
        ref.predict(F, Q, E.dot(B, us[k]) if nu else None)
        pr.append((ref.x, ref.P))
        ref.update(zs[k], H, R)
        po.append((ref.x, ref.P))
    want = []
    for k in range(T):
        last = min(k + N, T - 1)
        s = po[last][0]
        for j in range(last - 1, k - 1, -1):
            G = E.dot(po[j][1], F.T, E.linalg.inv(pr[j + 1][1]))
            s = po[j][0] + E.dot(G, s - pr[j + 1][0])
        want.append(s)
    xs, xh = f.smooth_batch(zs, N, us)
    for k in range(T):
        E.eqv('filtered %d' % k, xh[k], po[k][0])
        E.eqv('smoothed %d' % k, xs[k], want[k])
    for k in range(T):
        f.smooth(zs[k], us[k]) if nu else f.smooth(zs[k])
        E.eqv('recursive filtered %d' % k, f.x, po[k][0])
    E.check('count', len(f.xSmooth) == T)
    for k in range(T):
        E.eqv('recursive smoothed %d' % k, f.xSmooth[k], want[k])


@harness('C23', [dict(n=n, m=m, nu=u, order=o) for n, m, u, o in ((1, 1, 1, 'upupNpuupupNNpup'), (2, 1, 0, 'upupupNpuu'), (2, 2, 1, 'upup'), (4, 2, 1, 'upup'), (5, 1, 0, 'up'))],
         bounds='one object through up to 16 steps, dim_x up to 5; fixed rational matrices, every initial state, control and measurement')
def long_hinf(E, n, m, nu, order):
    F, H, B = cfull(E, n), cmat(E, m, n), cmat(E, n, max(nu, 1), 2)
    Q, V, P, W = cspd(E, n, 1), cspd(E, m, 2), cspd(E, n), cspd(E, n, 3)
    g = E.num(Q_(1, 64))
    f = E.fp('hinfinity').HInfinityFilter(n, m, nu, gamma=g)
    x = E.col('x', n)
    for a, v in (('x', x), ('P', P), ('F', F), ('H', H), ('Q', Q), ('V', V), ('W', W)) + ((('B', B),) if nu else ()):
        setattr(f, a, E.copy(v))
    I = E.np.eye(n)
    VI = E.linalg.inv(V)
    for k, c in enumerate(order):
        if c == 'p':
            u = E.col('u%d' % k, nu) if nu and k % 3 else None
            f.predict() if u is None else f.predict(u)
            x = E.dot(F, x) + (E.dot(B, u) if u is not None else 0)
        elif c == 'N':
            f.update(None)
        else:
            z = E.col('z%d' % k, m)
            f.update(z)
            L = E.linalg.inv(I - g * E.dot(Q, P) + E.dot(H.T, VI, H, P))
            K = E.dot(F, P, L, H.T, VI)
            x = x + E.dot(K, z - E.dot(H, x))
            P = E.dot(F, P, L, F.T) + W
            P = (P + P.T) / 2
        E.eq('x %d' % k, f.x, x)
        E.eq('P %d' % k, f.P, P)


# ---------------------------------------------------------------- model banks

class Told(object):
    """a model whose estimates are arbitrary means with fixed covariances and likelihoods"""
    z = None

    def __init__(self, E, j, n, shape):
        self.E, self.j, self.n, self.shape, self.step, self.given = E, j, n, shape, 0, []
        self.fresh()

    def lik(self, step):
        return self.E.num(Q_(1 + (3 * self.j + 5 * step) % 7, 3))

    def fresh(self):
        E = self.E
        c = E.col('m%d_%d' % (self.j, self.step), self.n)
        self.x = c if self.shape == 'col' else c.reshape(-1)
        self.P = cspd(E, self.n, self.j + 2 * self.step)
        self.likelihood = self.lik(self.step)
        self.step += 1

    def predict(self, *a):
        self.given.append((self.E.copy(self.x), self.E.copy(self.P)))
        self.fresh()

    def update(self, z, *a):
        if z is not None:
            self.fresh()


def mix(E, w, xs, Ps):
    x = sum((w[k] * xs[k] for k in range(1, len(xs))), w[0] * xs[0])
    P = 0
    for k in range(len(xs)):
        d = (xs[k] - x).reshape(-1)
        P = P + w[k] * (E.np.outer(d, d) + Ps[k])
    return x, P


BANK = [dict(M=2, n=1, shape='col', order='pupupNpuupup'), dict(M=2, n=3, shape='1d', order='pupu'), dict(M=3, n=2, shape='col', order='pupupup'), dict(M=5, n=1, shape='1d', order='pupuN'),
        dict(M=4, n=4, shape='col', order='pu')]


@harness('C20', BANK, [dict(M=3, n=1, shape='col', order='pu' * 12)],
         bounds='2-5 models with arbitrary means, fixed covariances, likelihoods and transition probabilities; up to 12 steps (24 thorough), state size up to 4')
def long_imm(E, M, n, shape, order):
    fs = [Told(E, j, n, shape) for j in range(M)]
    mu = E.array([E.num(Q_(j + 1, M * (M + 1) // 2)) for j in range(M)])
    T = [[Q_(1 + (2 * i + 3 * j) % 5 + (6 if i == j else 0)) for j in range(M)] for i in range(M)]
    T = E.array([[E.num(v / sum(r)) for v in r] for r in T])
    f = E.fp('kalman').IMMEstimator(fs, mu, T)
    own = snap(E, mu, T)
    rec = []
    for k, c in enumerate(order):
        if c == 'p':
            cbar = [sum(T[i, j] * mu[i] for i in range(M)) for j in range(M)]
            xs, Ps = [m.x for m in fs], [m.P for m in fs]
            want = [mix(E, [T[i, j] * mu[i] / cbar[j] for i in range(M)], xs, Ps) for j in range(M)]
            f.predict()
            for j, m in enumerate(fs):
                E.eq('mixed x %d.%d' % (k, j), m.given[-1][0], want[j][0])
                E.eq('mixed P %d.%d' % (k, j), m.given[-1][1], want[j][1])
        elif c == 'N':
            f.update(None)
        else:
            cbar = [sum(T[i, j] * mu[i] for i in range(M)) for j in range(M)]
            l = [m.lik(m.step) for m in fs]
            tot = sum(cbar[j] * l[j] for j in range(M))
            f.update(E.col('z%d' % k, 1))
            mu = E.array([cbar[j] * l[j] / tot for j in range(M)])
        E.eq('mu %d' % k, f.mu, mu)
        x, P = mix(E, mu, [m.x for m in fs], [m.P for m in fs])
        E.eq('x %d' % k, f.x, x)
        E.eq('P %d' % k, f.P, P)
        a = '_prior' if c == 'p' else '_post'
        E.eq('x%s %d' % (a, k), getattr(f, 'x' + a), x)
        E.eq('P%s %d' % (a, k), getattr(f, 'P' + a), P)
        for v, was in rec[-4:]:
            E.eq('record kept at %d' % k, v, was)
        rec.append((getattr(f, 'P' + a), P))
    E.same_inputs('arguments', own)


@harness('C21', BANK, [dict(M=3, n=1, shape='col', order='pu' * 12)],
         bounds='2-5 models with arbitrary means, fixed covariances and likelihoods; up to 12 steps (24 thorough), state size up to 4')
def long_mmae(E, M, n, shape, order):
    fs = [Told(E, j, n, shape) for j in range(M)]
    p = E.array([E.num(Q_(j + 1, M * (M + 1) // 2)) for j in range(M)])
    f = E.fp('kalman').MMAEFilterBank(fs, p, n)
    own = snap(E, p)
    for k, c in enumerate(order):
        if c == 'p':
            f.predict()
            x, P = mix(E, p, [m.x for m in fs], [m.P for m in fs])
            E.eq('x_prior %d' % k, f.x_prior, x)
            E.eq('P_prior %d' % k, f.P_prior, P)
            continue
        if c == 'N':
            f.update(None)
            E.eq('p %d' % k, f.p, p)
            continue
        l = [m.lik(m.step) for m in fs]
        tot = sum(p[j] * l[j] for j in range(M))
        f.update(E.col('z%d' % k, 1))
        p = E.array([p[j] * l[j] / tot for j in range(M)])
        E.eq('p %d' % k, f.p, p)
        x, P = mix(E, p, [m.x for m in fs], [m.P for m in fs])
        E.eq('x %d' % k, f.x, x)
        E.eq('P %d' % k, f.P, P)
        E.eq('x_post %d' % k, f.x_post, x)
        E.eq('P_post %d' % k, f.P_post, P)
    E.same_inputs('arguments', own)


# ---------------------------------------------------------------- ensembles

@harness('C19', [dict(n=n, m=m, N=N, order=o) for n, m, N, o in ((1, 1, 8, 'pupupu'), (2, 1, 6, 'pupu'), (4, 2, 5, 'pu'), (5, 1, 4, 'pu'), (3, 3, 7, 'pu'), (2, 2, 12, 'pu'))],
         bounds='4-12 members, dim_x up to 5, dim_z up to 3, up to 6 steps; each round from an ensemble with arbitrary mean and fixed shape; every measurement and '
                'draw of the process noise')
def long_ensemble(E, n, m, N, order):
    F, H, Q, R = cfull(E, n), cmat(E, m, n), cspd(E, n, 1), cspd(E, m, 2)
    f = E.fp('kalman').EnsembleKalmanFilter(E.vec('x', n), cspd(E, n), m, E.num(1), N, lambda s: E.dot(H, s), lambda s, dt: E.dot(F, s))
    f.Q, f.R = E.copy(Q), E.copy(R)
    calls = 1

    def moments(s):
        mean = sum((s[i] for i in range(1, N)), s[0]) / N
        return mean, [s[i] - mean for i in range(N)]
    P = f.P
    for k, c in enumerate(order):
        c0 = E.vec('c%d' % k, n)
        off = cmat(E, N, n, k)
        s = E.array([[c0[j] + off[i, j] for j in range(n)] for i in range(N)])
        f.sigmas = E.copy(s)
        if c == 'p':
            f.predict()
            e = E.drawn(calls)
            s = E.array([E.dot(F, s[i]) + e[i] for i in range(N)])
            mean, d = moments(s)
            E.eq('members %d' % k, f.sigmas, s)
            E.eq('x %d' % k, f.x, mean)
            P = sum((E.np.outer(v, v) for v in d[1:]), E.np.outer(d[0], d[0])) / (N - 1)
            E.eq('P %d' % k, f.P, P)
            P = cspd(E, n, k)
            f.P = E.copy(P)
        else:
            mean, d = moments(s)
            f.x = E.copy(mean)
            h = [E.dot(H, v) for v in d]
            S = sum((E.np.outer(a, a) for a in h[1:]), E.np.outer(h[0], h[0])) / (N - 1) + R
            C = sum((E.np.outer(a, b) for a, b in list(zip(d, h))[1:]), E.np.outer(d[0], h[0])) / (N - 1)
            K = E.dot(C, E.linalg.inv(S))
            z = E.vec('z%d' % k, m)
            f.update(z)
            e = E.drawn(calls)
            s = E.array([s[i] + E.dot(K, z + e[i] - E.dot(H, s[i])) for i in range(N)])
            E.eq('members %d' % k, f.sigmas, s)
            E.eq('x %d' % k, f.x, moments(s)[0])
            P = P - E.dot(K, S, K.T)
            E.eq('P %d' % k, f.P, P)
        calls += 1


# ---------------------------------------------------------------- models that change, whole numbers, degenerate covariances

CSPD = cspd
CHANGES = (('C01', 'KalmanFilter'), ('C02', 'KalmanFilter'), ('C10', 'FadingKalmanFilter'), ('C11', 'ExtendedKalmanFilter'), ('C14', 'UnscentedKalmanFilter'),
           ('C16', 'CubatureKalmanFilter'), ('C17', 'SquareRootKalmanFilter'), ('C18', 'InformationFilter'))


def changing(E, kind, n, m, how, order, scale=0):
    """the model is replaced or edited in place between the steps of one object"""
    root = E.num(Q_(10) ** (scale // 2))
    cspd = lambda *q: root * root * CSPD(*q) if scale else CSPD(*q)
    nu = 0 if kind[0] in 'UC' else 1
    a = E.num(Q_(5, 4)) if kind[0] == 'F' else E.num(1)
    v = dict(F=cfull(E, n), H=cmat(E, m, n), B=cmat(E, n, 1, 2), Q=cspd(E, n, 1), R=cspd(E, m, 2), P=cspd(E, n), x=E.col('x', n))
    cur = dict(v)
    flat = kind[0] == 'U'
    x0 = E.copy(v['x'].reshape(-1) if flat else v['x'])
    if kind[0] in 'UC':
        K = E.fp('kalman')
        args = (n, m, E.num(1), lambda s: E.dot(cur['H'], s), lambda s, dt: E.dot(cur['F'], s))
        f = K.UnscentedKalmanFilter(*(args + (points(E, 'merwe', n),))) if flat else K.CubatureKalmanFilter(*args)
        f.Q, f.R, f.P, f.x = E.copy(v['Q']), E.copy(v['R']), E.copy(v['P']), x0
    else:
        f = build(E, kind, n, m, nu, v['F'], v['H'], v['P'], v['Q'], v['R'], v['B'], x0, a)
    ref = Ref(E, v['x'], v['P'])
    attrs = [c for c in 'FHBQR' if (c != 'B' or nu) and not (kind[0] in 'UC' and c in 'FHB') and not (kind[0] == 'E' and c == 'H')]
    for k, c in enumerate(order):
        # one matrix changes before every step, in turn
        if k:
            t = attrs[k % len(attrs)]
            mk = dict(F=lambda: cfull(E, n, k), H=lambda: cmat(E, m, n, k), B=lambda: cmat(E, n, 1, k), Q=lambda: cspd(E, n, k), R=lambda: cspd(E, m, k + 1))
            new = cur[t] = mk[t]()
            name = 'R_inv' if (t, kind[0]) == ('R', 'I') else t
            val = E.linalg.inv(new) if name == 'R_inv' else new
            if how == 'assign' or kind[0] == 'S' and t in 'QR':      # factors are kept: only assignment is a change
                setattr(f, name, E.copy(val))
            else:
                getattr(f, name)[...] = val
            for q in 'FH':
                if kind[0] in 'UC' or (kind[0] == 'E' and q == 'H'):
                    cur[q] = mk[q]()
            # the covariance is set to a fixed one (rational roots), the state is kept
            if kind[0] in 'CS' or flat and (c == 'p' or order[k - 1] == 'u'):
                ref.P = cspd(E, n, k)
                f.P = E.copy(ref.P)
        if c == 'p':
            if kind[0] == 'U':
                L = croot(E, n, k + 3) * E.num(4) * root
                cur['Q'] = E.dot(L, L.T) - E.dot(cur['F'], ref.P, cur['F'].T)
                if how == 'assign':
                    f.Q = E.copy(cur['Q'])
                else:
                    f.Q[...] = cur['Q']
            u = E.col('u%d' % k, 1) if nu else None
            f.predict(u) if nu else f.predict()
            ref.predict(cur['F'], cur['Q'], E.dot(cur['B'], u) if nu else None, a * a)
        else:
            z = E.col('z%d' % k, m)
            if kind[0] == 'E':
                f.update(z, lambda s: cur['H'], lambda s: E.dot(cur['H'], s))
            else:
                f.update(z.reshape(-1) if flat else z)
            ref.update(z, cur['H'], cur['R'])
        E.eqv('x after step %d' % k, f.x, ref.x)
        if kind[0] == 'I':
            E.eq('P_inv after step %d' % k, E.dot(f.P_inv, ref.P), E.np.eye(n))
        else:
            E.eq('P after step %d' % k, f.P, ref.P)


def declare_changing(prop, kind):
    order = 'puuppupuupu'
    @harness(prop, [dict(kind=kind, n=n, m=m, how=h, order=o) for n, m, o in ((1, 1, order), (2, 2, order[:6]), (3, 1, order[:4])) for h in ('assign', 'edit')]
             + [dict(kind=kind, n=n, m=m, how='assign', order=order[:4], scale=k) for n, m in ((1, 1), (2, 2), (3, 1)) for k in (-8, 8)],
             bounds='one object through up to 11 steps while one matrix of the model is replaced or edited in place before every step; dim_x 1-3; covariances of the order of 1, 1e-8 or 1e8; fixed '
                    'rational matrices, every initial state, control and measurement')
    def changing_model(E, kind, n, m, how, order, scale=0):
        changing(E, kind, n, m, how, order, scale)


for _p, _k in CHANGES:
    declare_changing(_p, _k)


def whole(E, kind, n, m, order):
    """all arrays hold machine integers"""
    import numpy
    flat = kind[0] == 'U'
    F = numpy.array([[1 if i == j else 2 if j == i + 1 else 0 for j in range(n)] for i in range(n)])
    H = numpy.array([[1 + (i + j) % 3 for j in range(n)] for i in range(m)])
    P = numpy.array([[(4 if i % 2 == 0 else 9) if i == j else 0 for j in range(n)] for i in range(n)])
    Q, R = numpy.array([[16 if i == j else 0 for j in range(n)] for i in range(n)]), numpy.array([[4 if i == j else 0 for j in range(m)] for i in range(m)])
    x = numpy.array([[3 - i] for i in range(n)])
    B = numpy.array([[1 + i] for i in range(n)])
    K = E.fp('kalman')
    nu = 0 if kind[0] in 'UC' else 1
    if kind[0] in 'UC':
        args = (n, m, 1, lambda s: E.dot(H, s), lambda s, dt: E.dot(F, s))
        f = K.UnscentedKalmanFilter(*(args + (points(E, 'merwe', n),))) if flat else K.CubatureKalmanFilter(*args)
    else:
        f = K.FadingKalmanFilter(2, n, m, 1) if kind[0] == 'F' else getattr(K, kind)(n, m, 1)
        f.F, f.B = F, B
        if kind[0] != 'E':
            f.H = H
    a = 2 if kind[0] == 'F' else 1
    f.Q = Q
    f.x = x.reshape(-1) if flat else x
    ref = Ref(E, E.array([[E.num(int(v)) for v in r] for r in x]), E.array([[E.num(int(v)) for v in r] for r in P]))
    if kind[0] == 'I':
        f.R_inv, f.P_inv = R, P
        ref.P = E.linalg.inv(ref.P)
        rr = E.linalg.inv(E.array([[E.num(int(v)) for v in r] for r in R]))
    else:
        f.R, f.P = R, P
        rr = R
    held = [(v, v.copy()) for v in (F, H, P, Q, R, x, B)]
    for k, c in enumerate(order):
        if kind[0] in 'UC' and (c == 'p' or k == 0):
            # whole covariances with whole roots before every draw of sigma points
            f.P = P.copy()
            ref.P = E.array([[E.num(int(v)) for v in r] for r in P])
        if kind[0] in 'UC' and c == 'p':
            L = numpy.array([[8 if i == j == 0 else 5 if i == j else 3 if j < i else 0 for j in range(n)] for i in range(n)])
            Q = f.Q = L.dot(L.T) - F.dot(P).dot(F.T)
            held.append((Q, Q.copy()))
        if c == 'p':
            u = numpy.array([[k + 1]]) if nu else None
            ref.predict(F, Q, E.dot(B, u) if nu else None, a * a)
            f.predict(u) if nu else f.predict()
        elif c == 'i':
            z = numpy.array([[2 + k + i] for i in range(m)])
            w = z.reshape(-1) if flat else z
            f.update(w, lambda s: H, lambda s: E.dot(H, s)) if kind[0] == 'E' else f.update(w)
            ref.update(E.array([[E.num(int(v)) for v in r] for r in z]), H, rr)
        else:
            z = E.col('z%d' % k, m)
            w = z.reshape(-1) if flat else z
            f.update(w, lambda s: H, lambda s: E.dot(H, s)) if kind[0] == 'E' else f.update(w)
            ref.update(z, H, rr)
        E.eqv('x after step %d' % k, f.x, ref.x)
        if kind[0] == 'I':
            E.eq('P_inv after step %d' % k, E.dot(f.P_inv, ref.P), E.np.eye(n))
        else:
            E.eq('P after step %d' % k, f.P, ref.P)
        for v, w in held:
            E.check('arrays of the caller unchanged', bool((v == w).all()))


def declare_whole(prop, kind):
    @harness(prop, [dict(kind=kind, n=n, m=m, order=o) for n, m in ((1, 1), (2, 1), (2, 2)) for o in (('pi', 'up') if kind[0] == 'S' and m == 2 else ('pupi', 'ipu'))],
             bounds='all matrices, the initial state, controls and some measurements are arrays of machine integers, the other measurements arbitrary; dim_x 1-2')
    def whole_numbers(E, kind, n, m, order):
        whole(E, kind, n, m, order)


for _p, _k in CHANGES:
    declare_whole(_p, _k)


def degenerate(E, kind, n, m, which):
    """covariances of reduced rank"""
    v = E.array([[E.num(cnum(i, 1)) for i in range(n)]])
    zero, one = E.np.zeros((n, n)), E.dot(v.T, v)
    P = dict(z=zero, r=one)[which[0]]
    Q = dict(z=zero, r=one)[which[1]]
    F, H, R, B = cfull(E, n), cmat(E, m, n), cspd(E, m, 2), cmat(E, n, 1, 2)
    a = E.num(Q_(5, 4)) if kind[0] == 'F' else E.num(1)
    x = E.col('x', n)
    f = build(E, kind, n, m, 1, F, H, P, Q, R, B, x, a)
    ref = Ref(E, x, P)
    for k, c in enumerate('upupu'):
        if c == 'p':
            u = E.col('u%d' % k, 1)
            f.predict(u)
            ref.predict(F, Q, E.dot(B, u), a * a)
        else:
            z = E.col('z%d' % k, m)
            f.update(z, lambda s: H, lambda s: E.dot(H, s)) if kind[0] == 'E' else f.update(z)
            ref.update(z, H, R)
        E.eq('x after step %d' % k, f.x, ref.x)
        E.eq('P after step %d' % k, f.P, ref.P)


def declare_degenerate(prop, kind):
    @harness(prop, [dict(kind=kind, n=n, m=m, which=w) for n, m in ((1, 1), (2, 1), (2, 2), (3, 2)) for w in ('zz', 'rz', 'zr', 'rr')],
             bounds='state and process covariances zero or of rank one, dim_x 1-3, dim_z 1-2, five steps')
    def degenerate_covariance(E, kind, n, m, which):
        degenerate(E, kind, n, m, which)


for _p, _k in (('C01', 'KalmanFilter'), ('C02', 'KalmanFilter'), ('C10', 'FadingKalmanFilter'), ('C11', 'ExtendedKalmanFilter')):
    declare_degenerate(_p, _k)
