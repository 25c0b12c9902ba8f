"""discrete Bayes, resampling, discretisation, kinematic models."""
from fractions import Fraction
from math import factorial
from engine.registry import harness
from harness._common import snap, scribble


def belief(E, name, n, form='array'):
    """nonnegative entries, at least one positive"""
    if form == 'int':
        return [0] * (n // 2) + [1] + [0] * (n - n // 2 - 1)
    if form == 'intarray':
        return E.np.array([0] * (n // 2) + [1] + [0] * (n - n // 2 - 1))
    v = [E.real('%s_%d' % (name, i), lo=0, slo=Fraction(1, 8), shi=2) for i in range(n)]
    E.assume(sum(v) > 0)
    return v if form == 'list' else E.array(v)


# ---------------------------------------------------------------- C28 discrete Bayes

@harness('C28', [dict(n=n, chain=c) for n in (1, 2, 3, 4) for c in (1, 2)] + [dict(n=8, chain=1), dict(n=3, chain=4)],
         [dict(n=12, chain=1), dict(n=3, chain=6)],
         bounds='vectors of 1-4 entries and 8 (12 thorough), one or two successive updates up to 4 (6 thorough)')
def bayes_update(E, n, chain):
    f = E.fp('discrete_bayes')
    p = belief(E, 'p', n)
    prior, tot = [p[i] for i in range(n)], 1
    cur = p
    for k in range(chain):
        l = belief(E, 'l%d' % k, n)
        w = [prior[i] * l[i] for i in range(n)]
        E.assume(sum(w) > 0)
        held = snap(E, cur, l)
        post = f.update(l, cur)
        E.same_inputs('arguments%d' % k, held)
        E.check('shape%d' % k, E.shape(post) == (n,))
        for i in range(n):
            E.eq('posterior%d_%d' % (k, i), post[i], w[i] / sum(w))
            E.le('nonnegative%d_%d' % (k, i), 0, post[i])
        E.eq('sum%d' % k, sum(post[i] for i in range(n)), E.num(1))
        scribble(E, post)
        E.same_inputs('arguments after%d' % k, held)
        prior = w
        cur = f.update(l, cur)


@harness('C28', [dict(n=n) for n in (1, 2, 3, 5)] + [dict(n=10)],
         [dict(n=40)], bounds='vectors of 1-10 entries (40 thorough)')
def bayes_normalize(E, n):
    f = E.fp('discrete_bayes')
    p = belief(E, 'p', n)
    old = E.copy(p)
    r = f.normalize(p)
    E.check('returns its argument', r is p)
    E.eq('sum', sum(p[i] for i in range(n)), E.num(1))
    for i in range(n):
        E.eq('proportion%d' % i, p[i] * sum(old), old[i])


@harness('C28', [dict(n=n, m=m, off=o, mode=d, form='array') for d in ('wrap', 'constant')
                 for n, m in ((1, 1), (2, 1), (3, 3), (4, 3), (5, 3)) for o in (0, 1, -1, 2)] +
                [dict(n=4, m=3, off=o, mode=d, form=f) for o in (1, -3, 5) for d in ('wrap', 'constant')
                 for f in ('list', 'int', 'intarray')] +
                [dict(n=5, m=5, off=-6, mode='wrap', form='array'), dict(n=3, m=5, off=1, mode='constant', form='array'),
                 dict(n=3, m=5, off=1, mode='wrap', form='list'), dict(n=4, m=3, off=1, mode='other', form='array')] + [dict(n=8, m=5, off=o, mode=d, form='array') for o in (-9, 3, 12) for d in ('wrap', 'constant')],
         [dict(n=15, m=9, off=o, mode=d, form='array') for o in (-31, 14, 40) for d in ('wrap', 'constant')],
         bounds='beliefs of 1-8 cells (15 thorough), kernels of 1, 3, 5 cells, offsets -6..5 and -9..12 (-31..40 thorough), any cval')
def bayes_predict(E, n, m, off, mode, form):
    f = E.fp('discrete_bayes')
    p = belief(E, 'p', n, form)
    k = [E.real('k_%d' % j) for j in range(m)]
    kern = k if form == 'list' else E.array(k)
    held, was = snap(E, p, kern), list(p)
    c = m // 2
    if mode == 'wrap':
        r = f.predict(p, off, kern)
        want = [sum(k[j] * p[(i - (j - c) - off) % n] for j in range(m)) for i in range(n)]
        E.eq('conserved', sum(r[i] for i in range(n)), sum(k) * sum(p))
    else:
        cv = E.real('cval')
        r = f.predict(p, off, kern, mode=mode, cval=cv)
        moved = [p[i - off] if 0 <= i - off < n else cv for i in range(n)]
        want = [sum(k[j] * (moved[i - (j - c)] if 0 <= i - (j - c) < n else cv) for j in range(m)) for i in range(n)]
    E.check('shape', E.shape(r) == (n,))
    for i in range(n):
        E.eq('cell%d' % i, r[i], want[i])
    E.same_inputs('arguments', held)
    E.check('list unchanged', len(p) == n and all(p[i] is was[i] for i in range(n)) if isinstance(p, list) else True)
    scribble(E, r)
    E.same_inputs('arguments after', held)


@harness('C28', [dict(n=n, off=o, mode=d) for n in (2, 4) for o in (0, 1, -2) for d in ('constant',)],
         bounds='without cval nothing flows in: 2 or 4 cells, kernel of 3')
def bayes_predict_default(E, n, off, mode):
    f = E.fp('discrete_bayes')
    p, k = belief(E, 'p', n), [E.real('k_%d' % j) for j in range(3)]
    r = f.predict(p, off, E.array(k), mode=mode)
    moved = [p[i - off] if 0 <= i - off < n else 0 for i in range(n)]
    for i in range(n):
        E.eq('cell%d' % i, r[i], sum(k[j] * moved[i - (j - 1)] for j in range(3) if 0 <= i - (j - 1) < n))


@harness('C28', [dict(n=n, m=m, off=o) for n in (2, 3, 4) for m in (2, 4) for o in (0, 1, -2)],
         bounds='conservation with wrapping for kernels of even length 2 and 4, 2-4 cells')
def bayes_even_kernel(E, n, m, off):
    f = E.fp('discrete_bayes')
    p, k = belief(E, 'p', n), [E.real('k_%d' % j) for j in range(m)]
    r = f.predict(p, off, E.array(k))
    E.eq('conserved', sum(r[i] for i in range(n)), sum(k) * sum(p))


@harness('C28', [dict(n=3, steps=3, offs=(1, -1, 2)), dict(n=2, steps=4, offs=(1, 1, 1, 1))] + [dict(n=5, steps=5, offs=(1, 0, -2, 7, 3))],
         [dict(n=6, steps=6, offs=(1, 0, -2, 7, 3, -1))], bounds='3-5 (6 thorough) predict/update cycles with wrapping, 2-6 cells')
def bayes_cycle(E, n, steps, offs):
    f = E.fp('discrete_bayes')
    p = f.normalize(belief(E, 'p', n))
    for s in range(steps):
        k0, k1 = E.real('k%d_0' % s, lo=0, hi=1), E.real('k%d_1' % s, lo=0, hi=1)
        E.assume(k0 + k1 <= 1)
        p = f.predict(p, offs[s], E.array([k0, k1, 1 - k0 - k1]))
        E.eq('predicted total%d' % s, sum(p[i] for i in range(n)), E.num(1))
        l = belief(E, 'l%d' % s, n)
        w = sum(p[i] * l[i] for i in range(n))
        E.assume(w > 0)
        p = f.update(l, p)
        E.eq('updated total%d' % s, sum(p[i] for i in range(n)), E.num(1))
        p = E.simplex('q%d' % s, n)     # continue from an arbitrary distribution


# ---------------------------------------------------------------- C29 resampling

def weights(E, n, form):
    w = E.simplex('w', n, strict=False) if n > 1 else E.array([E.num(1)])
    if form == 'list':
        return [w[i] for i in range(n)], w
    return w, w


RS = [dict(n=n, form=f) for n in (1, 2, 3) for f in ('array', 'list')]


def common(E, r, n, w, held):
    E.check('shape', E.shape(r) == (n,))
    r = [int(r[i]) for i in range(n)]
    E.check('range', all(0 <= j < n for j in r))
    E.same_inputs('weights', held)
    for k, j in enumerate(r):
        E.check('positive weight%d' % k, w[j] > 0)
    return r


@harness('C29', RS + [dict(n=4, form='array')], [dict(n=5, form='array')],
         bounds='1-4 particles (5 thorough), every value of the draw and every weight vector, zeros included')
def systematic(E, n, form):
    given, w = weights(E, n, form)
    held = snap(E, given)
    r = common(E, E.fp('monte_carlo.resampling').systematic_resample(given), n, w, held)
    for i in range(n):
        E.check('at least floor(N w)%d' % i, r.count(i) > n * w[i] - 1)
        E.check('at most ceil(N w)%d' % i, r.count(i) < n * w[i] + 1)
    inverse_cdf(E, r, w, [(k + E.randvar('rnd0', 'u')) / n for k in range(n)])


def inverse_cdf(E, r, w, u):
    for k, j in enumerate(r):
        lo = sum((w[i] for i in range(j)), E.num(0))
        E.le('draw%d above' % k, lo, u[k])
        E.check('draw%d below' % k, u[k] < lo + w[j])


@harness('C29', RS, [dict(n=4, form='array')],
         bounds='1-3 particles (4 thorough), every value of the draws and every weight vector, zeros included')
def stratified(E, n, form):
    given, w = weights(E, n, form)
    held = snap(E, given)
    r = common(E, E.fp('monte_carlo.resampling').stratified_resample(given), n, w, held)
    for i in range(n):
        E.check('more than N w - 2 copies%d' % i, r.count(i) > n * w[i] - 2)
        E.check('less than N w + 2 copies%d' % i, r.count(i) < n * w[i] + 2)
    inverse_cdf(E, r, w, [(k + E.randvar('rnd%d' % k, 'u')) / n for k in range(n)])


@harness('C29', RS, [dict(n=4, form='array')],
         bounds='1-3 particles (4 thorough), every value of the draws and every weight vector, zeros included')
def multinomial(E, n, form):
    given, w = weights(E, n, form)
    held = snap(E, given)
    r = common(E, E.fp('monte_carlo.resampling').multinomial_resample(given), n, w, held)
    inverse_cdf(E, r, w, [E.randvar('rnd%d' % k, 'u') for k in range(n)])


@harness('C29', RS, [dict(n=4, form='array')],
         bounds='1-3 particles (4 thorough), every value of the draws and every weight vector, zeros included')
def residual(E, n, form):
    given, w = weights(E, n, form)
    held = snap(E, given)
    r = common(E, E.fp('monte_carlo.resampling').residual_resample(given), n, w, held)
    whole = []
    for i in range(n):
        c = 0
        while E.true(n * w[i] >= c + 1):
            c += 1
        whole.append(c)
        E.check('at least floor(N w)%d' % i, r.count(i) >= c)
    k = sum(whole)
    # the copies that are not deterministic, in the order they were drawn
    rest, left = [], list(whole)
    for j in r:
        if left[j]:
            left[j] -= 1
        else:
            rest.append(j)
    if k < n:
        frac = [n * w[i] - whole[i] for i in range(n)]
        inverse_cdf(E, r[k:], [q / (n - k) for q in frac], [E.randvar('rnd%d' % q, 'u') for q in range(n - k)])
        E.check('deterministic copies come first', sorted(r[:k]) == [i for i in range(n) for _ in range(whole[i])])


# ---------------------------------------------------------------- C30 discretisation

def quad(E, G):
    n = len(G)
    return [[G[i] * G[j] for j in range(n)] for i in range(n)]


def block(E, Q, b, by_dim):
    n = len(Q)
    R = E.np.zeros((n * b, n * b))
    for i in range(n):
        for j in range(n):
            for q in range(b):
                if by_dim:
                    R[q * n + i, q * n + j] = Q[i][j]
                else:
                    R[i * b + q, j * b + q] = Q[i][j]
    return R


DIMS = [dict(dim=d, b=b, by_dim=o, default=False) for d in (2, 3, 4) for b in (1, 2, 3) for o in (True, False)]


@harness('C30', DIMS + [dict(dim=3, b=1, by_dim=True, default=True)] + [dict(dim=4, b=5, by_dim=o, default=False) for o in (True, False)],
         [dict(dim=4, b=9, by_dim=o, default=False) for o in (True, False)],
         bounds='dim 2-4, 1-5 blocks (9 thorough), both orderings, any dt and variance')
def q_discrete(E, dim, b, by_dim, default):
    f = E.fp('common')
    if default:
        dt, var = E.num(1), E.num(1)
        Q = f.Q_discrete_white_noise(dim)
    else:
        dt, var = E.real('dt'), E.real('var')
        Q = f.Q_discrete_white_noise(dim, dt, var, b, by_dim)
    # noise acts over one step through the lowest-order terms of the Taylor expansion
    G = {2: [dt * dt / 2, dt], 3: [dt * dt / 2, dt, 1], 4: [dt * dt * dt / 6, dt * dt / 2, dt, 1]}[dim]
    E.eq('Q', Q, block(E, [[q * var for q in row] for row in quad(E, G)], b, by_dim))


@harness('C30', DIMS + [dict(dim=3, b=1, by_dim=True, default=True)] + [dict(dim=4, b=5, by_dim=o, default=False) for o in (True, False)],
         [dict(dim=4, b=9, by_dim=o, default=False) for o in (True, False)],
         bounds='dim 2-4, 1-5 blocks (9 thorough), both orderings, any dt and spectral density')
def q_continuous(E, dim, b, by_dim, default):
    f = E.fp('common')
    if default:
        dt, sd = E.num(1), E.num(1)
        Q = f.Q_continuous_white_noise(dim)
    else:
        dt, sd = E.real('dt'), E.real('sd')
        Q = f.Q_continuous_white_noise(dim, dt, sd, b, by_dim)
    R = [[None] * dim for _ in range(dim)]
    for i in range(dim):
        for j in range(dim):
            a, c = dim - 1 - i, dim - 1 - j      # integral of s^a/a! s^c/c! over one step
            t = E.num(1)
            for _ in range(a + c + 1):
                t = t * dt
            R[i][j] = sd * t / ((a + c + 1) * factorial(a) * factorial(c))
    E.eq('Q', Q, block(E, R, b, by_dim))


@harness('C30', [dict(dim=d, b=b) for d in (1, 2, 3) for b in (1, 2, 3)] + [dict(dim=5, b=4)],
         [dict(dim=7, b=6)], bounds='1-3 x 1-3 blocks and 5x4 (7x6 thorough)')
def by_derivative(E, dim, b):
    f = E.fp('common')
    Q = E.mat('Q', dim, dim)
    held = snap(E, Q)
    D = f.order_by_derivative(Q, dim, b)
    E.eq('permuted', D, block(E, Q, b, False))
    E.same_inputs('Q', held)


@harness('C30', [dict(fn=f, dim=d) for f in ('Q_discrete_white_noise', 'Q_continuous_white_noise') for d in (0, 1, 5, 6)],
         bounds='dim 0, 1, 5, 6')
def q_bad_dim(E, fn, dim):
    E.raises('unsupported dimension', ValueError, getattr(E.fp('common'), fn), dim)


@harness('C30', [dict(dim=d, kind=k) for d in (2, 3, 4) for k in ('discrete', 'continuous')],
         bounds='dim 2-4, any dt >= 0 and nonnegative intensity: v^T Q v >= 0 for every v')
def q_psd(E, dim, kind):
    f = E.fp('common')
    dt, s = E.pos('dt'), E.pos('s')
    Q = (f.Q_discrete_white_noise if kind == 'discrete' else f.Q_continuous_white_noise)(dim, dt, s)
    E.eq('symmetric', Q, Q.T)
    # a symmetric matrix is positive semidefinite iff every principal minor is nonnegative
    for mask in range(1, 2 ** dim):
        ix = [i for i in range(dim) if mask >> i & 1]
        M = E.array([[Q[i, j] for j in ix] for i in ix])
        E.le('minor%d' % mask, 0, det(M, len(ix)))


def det(M, n):
    if n == 1:
        return M[0, 0]
    r = 0
    for j in range(n):
        sub = [[M[i, k] for k in range(n) if k != j] for i in range(1, n)]
        import numpy as np
        q = M[0, j] * det(np.array(sub, dtype=object if M.dtype == object else float), n - 1)
        r = r + q if j % 2 == 0 else r - q
    return r


def nilpotent(E, n, kind):
    """strictly triangular (either way), or shifted by a permutation similarity"""
    F = E.np.zeros((n, n))
    order = list(range(n)) if kind == 'upper' else list(range(n))[::-1] if kind == 'lower' else [(i * 2) % n if n % 2 else i ^ 1 for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            F[order[i], order[j]] = E.real('f_%d%d' % (i, j))
    return F


def exp_nil(E, F, t, n):
    R, T = E.np.eye(n), E.np.eye(n)
    for k in range(1, n):
        T = E.dot(T, F) * t / k
        R = R + T
    return R


def noise_integral(E, F, W, t, n):
    """integral over s in [0, t] of exp(F s) W exp(F s)^T"""
    R = E.np.zeros((n, n))
    pw = [E.np.eye(n)]
    for k in range(1, n):
        pw.append(E.dot(pw[-1], F))
    for a in range(n):
        for c in range(n):
            p = E.num(1)
            for _ in range(a + c + 1):
                p = p * t
            R = R + E.dot(pw[a], W, pw[c].T) * (p / ((a + c + 1) * factorial(a) * factorial(c)))
    return R


NIL = [dict(n=n, m=m, kind=k) for n, m in ((1, 1), (2, 1), (2, 2), (3, 1)) for k in ('upper', 'lower', 'mixed')]


@harness('C30', NIL, [dict(n=3, m=3, kind='mixed'), dict(n=4, m=1, kind='upper')],
         bounds='nilpotent F of size 1-3 (4 thorough), noise input of 1-2 columns (3 thorough), any dt')
def van_loan(E, n, m, kind):
    F, G, dt = nilpotent(E, n, kind), E.mat('G', n, m), E.real('dt')
    held = snap(E, F, G)
    sigma, Q = E.fp('common').van_loan_discretization(F, G, dt)
    E.eq('transition', sigma, exp_nil(E, F, dt, n))
    E.eq('noise', Q, noise_integral(E, F, E.dot(G, G.T), dt, n))
    E.same_inputs('arguments', held)


@harness('C30', NIL, [dict(n=3, m=3, kind='mixed')], bounds='nilpotent F of size 1-3, noise input of 1-2 columns (3 thorough), any dt')
def linear_ode(E, n, m, kind):
    F, L, Qc, dt = nilpotent(E, n, kind), E.mat('L', n, m), E.psd('Q', m), E.real('dt')
    held = snap(E, F, L, Qc)
    A, Q = E.fp('common').linear_ode_discretation(F, L, Qc, dt)
    E.eq('transition', A, exp_nil(E, F, dt, n))
    E.eq('noise', Q, noise_integral(E, F, E.dot(L, Qc, L.T), dt, n))
    E.same_inputs('arguments', held)


@harness('C30', [dict(n=n, q=q) for n in (1, 2, 3) for q in (False, True)], bounds='default noise arguments; nilpotent F of size 1-3')
def linear_ode_defaults(E, n, q):
    F, dt = nilpotent(E, n, 'upper'), E.real('dt')
    f = E.fp('common')
    W = E.psd('Q', n) if q else E.np.zeros((n, n))
    A, Q = f.linear_ode_discretation(F, Q=W, dt=dt) if q else f.linear_ode_discretation(F, dt=dt)
    E.eq('transition', A, exp_nil(E, F, dt, n))
    E.eq('noise', Q, noise_integral(E, F, W, dt, n))


@harness('C30', [dict(dim=d) for d in (2, 3)], [dict(dim=4)],
         bounds='the continuous white-noise matrix equals van Loan discretisation of its own model; dim 2-3 (4 thorough)')
def q_agrees_with_van_loan(E, dim):
    f = E.fp('common')
    dt, s = E.pos('dt'), E.pos('s')
    F, G = E.np.zeros((dim, dim)), E.np.zeros((dim, 1))
    for i in range(dim - 1):
        F[i, i + 1] = 1
    G[dim - 1, 0] = s
    A, Q = f.van_loan_discretization(F, G, dt)
    E.eq('noise', Q, f.Q_continuous_white_noise(dim, dt, s * s))
    E.eq('transition', A, f.kinematic_state_transition(dim - 1, dt))


# ---------------------------------------------------------------- C31 kinematic models

def taylor(E, order, dt):
    n = order + 1
    R = E.np.zeros((n, n))
    for i in range(n):
        p = E.num(1)
        for j in range(i, n):
            R[i, j] = p / factorial(j - i)
            p = p * dt
    return R


@harness('C31', [dict(order=o) for o in range(6)] + [dict(order=9)],
         [dict(order=15)], bounds='orders 0-9 (15 thorough), any dt')
def transition(E, order):
    f = E.fp('common').kinematic_state_transition
    a, b = E.real('a'), E.real('b')
    A = f(order, a)
    E.eq('Taylor', A, taylor(E, order, a))
    E.eq('composition', E.dot(A, f(order, b)), f(order, a + b))
    E.eq('inverse', E.dot(A, f(order, -a)), E.np.eye(order + 1))
    E.eq('zero', f(order, E.num(0)), E.np.eye(order + 1))


@harness('C31', [dict(order=o) for o in (-1, -2, 0.5, 1.5)], bounds='orders -2, -1, 0.5, 1.5')
def transition_bad_order(E, order):
    E.raises('rejected', ValueError, E.fp('common').kinematic_state_transition, order, E.real('dt'))


@harness('C31', [dict(dim=d, order=o, dim_z=z, by_dim=b, own=w) for d in (1, 2, 3) for o in (0, 1, 2, 3) for z in (1, 2)
                 for b in (True, False) for w in (False, True)] + [dict(dim=4, order=4, dim_z=3, by_dim=b, own=False) for b in (True, False)],
         [dict(dim=6, order=5, dim_z=4, by_dim=b, own=False) for b in (True, False)],
         bounds='1-4 dimensions (6 thorough), orders 0-4 (5), 1-3 measurement rows (4), both orderings, new or given filter')
def kinematic_filter(E, dim, order, dim_z, by_dim, own):
    f = E.fp('common')
    dt, n = E.real('dt'), (order + 1) * dim
    kw = {}
    if own:
        kw['kf'] = E.fp('kalman').KalmanFilter(dim_x=n, dim_z=dim_z)
        kw['kf'].F = E.mat('oldF', n, n)
    kf = f.kinematic_kf(dim, order, dt=dt, dim_z=dim_z, order_by_dim=by_dim, **kw)
    if own:
        E.check('same filter', kf is kw['kf'])
    E.check('sizes', kf.dim_x == n and kf.dim_z == dim_z and E.shape(kf.x) == (n, 1) and E.shape(kf.P) == (n, n))
    A = taylor(E, order, dt)
    E.eq('F', kf.F, block(E, A, dim, by_dim))
    H = E.np.zeros((dim_z, n))
    for i in range(dim_z):
        for j in range(dim):
            H[i, j * (order + 1) if by_dim else j] = 1
    E.eq('H', kf.H, H)
    # every dimension moves on its own
    x = E.col('x', n)
    kf.x = E.copy(x)
    kf.predict()
    for d in range(dim):
        ix = [d * (order + 1) + i if by_dim else i * dim + d for i in range(order + 1)]
        part = E.dot(A, E.array([[x[i, 0]] for i in ix]))
        for q, i in enumerate(ix):
            E.eq('moved%d' % i, kf.x[i, 0], part[q, 0])


@harness('C31', [dict(what=w) for w in ('dim', 'order', 'dim_z', 'kf_x', 'kf_z')], bounds='invalid sizes')
def kinematic_rejects(E, what):
    f, k = E.fp('common').kinematic_kf, E.fp('kalman').KalmanFilter
    if what == 'dim':
        E.raises('dim', ValueError, f, 0, 1)
    elif what == 'order':
        E.raises('order', ValueError, f, 1, -1)
    elif what == 'dim_z':
        E.raises('dim_z', ValueError, f, 1, 1, 1.0, 0)
    elif what == 'kf_x':
        E.raises('dim_x', AssertionError, f, 2, 1, kf=k(dim_x=3, dim_z=1))
    else:
        E.raises('dim_z', AssertionError, f, 2, 1, kf=k(dim_x=4, dim_z=2))
