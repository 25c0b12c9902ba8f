"""shared model builders and reference formulas"""
import numpy as np


def kf_model(E, n, m, nu=0, shape='col', cls='KalmanFilter', tag=''):
    """a KalmanFilter with an arbitrary model; v holds the caller's own arrays"""
    K = getattr(E.fp('kalman'), cls)
    kf = K(dim_x=n, dim_z=m, dim_u=nu)
    v = dict(x=state(E, tag + 'x', n, shape), P=E.psd(tag + 'P', n), Q=E.psd(tag + 'Q', n),
             R=E.psd(tag + 'R', m), F=E.mat(tag + 'F', n, n), H=E.mat(tag + 'H', m, n))
    if nu:
        v['B'] = E.mat(tag + 'B', n, nu)
    for k in v:
        setattr(kf, k, E.copy(v[k]))
    return kf, v


def state(E, name, n, shape):
    return E.col(name, n) if shape == 'col' else E.vec(name, n)


def meas(E, name, m, form):
    """a measurement in one of the accepted forms and its column form"""
    c = E.col(name, m)
    if form == 'col':
        return c, c
    if form == 'row':
        return E.np.array([[c[i, 0] for i in range(m)]]), c
    if form == '1d':
        return E.vec(name, m), c
    if form == 'list':
        return [c[i, 0] for i in range(m)], c
    if form == 'scalar':
        return c[0, 0], c
    raise ValueError(form)


def as_state(E, c, shape):
    """column -> the shape of the state"""
    return c if shape == 'col' else c.reshape(-1)


def update_ref(E, x, P, z, H, R):
    """textbook update; x, z columns"""
    S = E.dot(H, P, H.T) + R
    SI = E.linalg.inv(S)
    K = E.dot(P, H.T, SI)
    y = z - E.dot(H, x)
    return dict(S=S, SI=SI, K=K, y=y, x=x + E.dot(K, y), P=P - E.dot(K, H, P))


def all_none(z):
    return z is None or all(v is None for v in np.asarray(z, dtype=object).reshape(-1))


def scribble(E, a):
    """overwrite an array in place"""
    if isinstance(a, np.ndarray) and a.ndim:
        a[...] = a + E.np.ones(a.shape)


def snap(E, *arrays):
    """list of (array, independent copy)"""
    return [(a, E.copy(a)) for a in arrays if isinstance(a, np.ndarray)]
