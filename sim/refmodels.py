"""Small executable reference models, numpy float64, written from the mathematics (not from the library)."""
import math

import numpy as np
import scipy.linalg as sl


# ---------------------------------------------------------------- Gaussian priors

def chain_prior(F, L, h):
    """lti_prior of an integrator chain driven at its last component, in units in which one step is of length 1 (the entries of Q
    span h^1 ... h^(2q+1): without the change of units the smallest would be rounding)."""
    n = F.shape[0]
    T = h ** np.arange(n - 1, -1, -1.0)
    xi, Q, A = lti_prior(h * F * T[None, :] / T[:, None], np.zeros(n), math.sqrt(h) * L / T[:, None], 1.0)
    return xi * T, Q * T[:, None] * T[None, :], A * T[:, None] / T[None, :]


def lti_prior(F, u, L, h):
    """Exact transition of dX = (F X + u) dt + L dW over h, by van Loan block exponentials. -> xi, Q, A"""
    F, L = np.asarray(F, float), np.asarray(L, float)
    n = F.shape[0]
    size = np.abs(F).sum(1).max() * h
    if size > 4.0:  # the block exponential contains exp(-F h): halve the step and compose
        xi, Q, A = lti_prior(F, u, L, 0.5 * h)
        return A @ xi + xi, A @ Q @ A.T + Q, A @ A
    A = sl.expm(F * h)
    M = np.zeros((2 * n, 2 * n))
    M[:n, :n], M[:n, n:], M[n:, n:] = -F, L @ L.T, F.T
    E = sl.expm(M * h)
    Q = E[n:, n:].T @ E[:n, n:]
    Q = 0.5 * (Q + Q.T)
    Z = np.zeros((n + 1, n + 1))
    Z[:n, :n], Z[:n, n] = F, np.asarray(u, float)
    xi = sl.expm(Z * h)[:n, n]
    return xi, Q, A


def ibm_prior(q, sigma, h, theta=0.0):
    F = np.diag(np.ones(q), 1)
    F[q, q] = -theta
    L = np.zeros((q + 1, 1))
    L[q, 0] = sigma
    return chain_prior(F, L, h)


def matern_prior(k, magnitude, length, h):
    lam = math.sqrt(2 * (k + 0.5)) / length
    F = np.diag(np.ones(k), 1)
    F[k, :] = [-math.comb(k + 1, i) * lam ** (k + 1 - i) for i in range(k + 1)]
    L = np.zeros((k + 1, 1))
    L[k, 0] = magnitude
    return chain_prior(F, L, h)


def kron_prior(prior, dim):
    xi, Q, A = prior
    return np.tile(xi, dim), np.kron(np.eye(dim), Q), np.kron(np.eye(dim), A)


def block_prior(priors):
    return (np.concatenate([p[0] for p in priors]), sl.block_diag(*[p[1] for p in priors]),
            sl.block_diag(*[p[2] for p in priors]))


# ---------------------------------------------------------------- Kalman pieces (batched over leading axes)

def _mv(M, v):
    return np.einsum("...ij,...j->...i", M, v)


def _T(M):
    return np.swapaxes(M, -1, -2)


ROUND = None  # (RandomState, unit): kf_predict rounds its result at random by that unit, to measure how far rounding alone carries


def kf_predict(m, P, A, Q, xi):
    m, P = _mv(A, m) + xi, A @ P @ _T(A) + Q
    if ROUND is not None:
        g, u = ROUND
        E = g.uniform(-u, u, size=P.shape)
        m, P = m * (1 + g.uniform(-u, u, size=m.shape)), P * (1 + E + _T(E))
    return m, P


def rounding_spread(call, nominal, seed, unit=2e-16, n=4):
    """Largest deviation of the leading outputs of call() from `nominal` when every prediction is rounded at random."""
    global ROUND
    dev = 0.0
    try:
        for i in range(n):
            ROUND = (np.random.RandomState((seed + i) % 2 ** 32), unit)
            with np.errstate(all="ignore"):
                out = call()
            for x, y in zip(nominal, out):
                e = np.abs(np.asarray(x) - np.asarray(y)).max()
                dev = max(dev, float(e) if np.isfinite(e) else np.inf)
    finally:
        ROUND = None
    return dev


def kf_update(m, P, c, H, R):
    """Condition N(m, P) on the linearised residual c + H (x - m) + noise(R) = 0 (Joseph form)."""
    S = H @ P @ _T(H) + R
    K = _T(np.linalg.solve(S, H @ P))
    m2 = m - _mv(K, c)
    IKH = np.eye(P.shape[-1]) - K @ H
    P2 = IKH @ P @ _T(IKH) + K @ R @ _T(K)
    return m2, 0.5 * (P2 + _T(P2)), S


def filter_interval(m, P, field, prior, h, M, ekf0, n, R=None):
    """Gaussian ODE filter on M steps of size h. State layout: coordinate-major (coordinate i, derivative j) at i*n+j."""
    xi, Q, A = prior
    d = m.shape[-1] // n
    R = np.zeros((d, d)) if R is None else R
    E0 = np.zeros((d, d * n))
    E1 = np.zeros((d, d * n))
    for i in range(d):
        E0[i, i * n], E1[i, i * n + 1] = 1.0, 1.0
    S = c = None
    for j in range(1, M + 1):
        u = j * h
        m, P = kf_predict(m, P, A, Q, xi)
        x = m[..., ::n]
        c = m[..., 1::n] - field.f(x, u)
        H = E1 if ekf0 else E1 - field.fx(x, u) @ E0
        H = np.broadcast_to(H, P.shape[:-2] + E1.shape)
        m, P, S = kf_update(m, P, c, H, R)
    return m, P, S, c


def exact_init(x, field, n):
    """Exact initialisation from a point: (x, f, f_x f + f_t), unit variance beyond."""
    d = x.shape[-1]
    f0 = field.f(x, 0.0)
    cols = [x, f0]
    if n >= 3:
        cols.append(_mv(field.fx(x, 0.0), f0) + field.ft(x, 0.0))
    while len(cols) < n:
        cols.append(np.zeros_like(x))
    m = np.stack(cols, -1).reshape(x.shape[:-1] + (d * n,))
    P = np.zeros(x.shape[:-1] + (d * n, d * n))
    for i in range(d):
        for j in range(3, n):
            P[..., i * n + j, i * n + j] = 1.0
    return m, P


def ref_alg2(x, field, prior, h, M, ekf0, n=2, R=None):
    m, P = exact_init(x, field, n)
    m, P, S, c = filter_interval(m, P, field, prior, h, M, ekf0, n, R)
    return m, P


def ref_alg3(m0, P00, field, prior, h, M, ekf0, R=None):
    """Gaussian mixture form: starts from the previous marginal law N(m0, P00) of the state."""
    d = m0.shape[-1]
    f0 = field.f(m0, 0.0)
    H = np.zeros(m0.shape[:-1] + (d, d)) if ekf0 else field.fx(m0, 0.0)
    m = np.stack([m0, f0], -1).reshape(m0.shape[:-1] + (2 * d,))
    P = np.zeros(m0.shape[:-1] + (2 * d, 2 * d))
    P[..., ::2, ::2] = P00
    P[..., ::2, 1::2] = P00 @ _T(H)
    P[..., 1::2, ::2] = H @ P00
    P[..., 1::2, 1::2] = H @ P00 @ _T(H)
    return filter_interval(m, P, field, prior, h, M, ekf0, 2, R)


def ref_alg4(x, ref, t0, delta, prior1, h, M, ekf0, R=None):
    """Marginalised parabola: coordinates (x_i, x'_i, W_i, I_i); the parabola coefficients are part of the state."""
    d = x.shape[-1]
    bs = x.shape[:-1]
    xi1, Q1, A1 = prior1
    R = np.zeros((d, d)) if R is None else R
    n = 4
    s6 = math.sqrt(6.0)
    sig0 = ref.sigma(x, t0)
    m = np.zeros(bs + (d, n))
    m[..., 0], m[..., 1] = x, ref.drift(x, t0)
    m = m.reshape(bs + (d * n,))
    # joint law of (x', W, I) at time 0: x' = drift + sigma (W + sqrt(6) I)/delta, W~N(0,delta), I~N(0,delta/2)
    P = np.zeros(bs + (d * n, d * n))
    G = np.zeros(bs + (d * n, 2 * d))
    for i in range(d):
        for j in range(d):
            G[..., i * n + 1, j] = sig0[..., i, j] / delta
            G[..., i * n + 1, d + j] = sig0[..., i, j] * s6 / delta
        G[..., i * n + 2, i] = 1.0
        G[..., i * n + 3, d + i] = 1.0
    D = np.diag([delta] * d + [delta / 2] * d)
    P = G @ D @ _T(G)
    A = np.kron(np.eye(d), sl.block_diag(A1, np.eye(2)))
    Q = np.kron(np.eye(d), sl.block_diag(Q1, np.zeros((2, 2))))
    xi = np.tile(np.concatenate([xi1, np.zeros(2)]), d)
    for j in range(1, M + 1):
        u = j * h
        m, P = kf_predict(m, P, A, Q, xi)
        mm = m.reshape(bs + (d, n))
        z, vf, W, I = mm[..., 0], mm[..., 1], mm[..., 2], mm[..., 3]
        t = t0 + u
        gI = s6 * (1 - 2 * u / delta) / delta
        w = W / delta + gI * I
        sg = ref.sigma(z, t)
        c = vf - ref.drift(z, t) - np.einsum("...ij,...j->...i", sg, w)
        H = np.zeros(bs + (d, d, n))
        Jx = ref.drift_x(z, t) + np.einsum("...ijl,...j->...il", ref.sigma_x(z, t), w)
        for i in range(d):
            H[..., i, i, 1] += 1.0
            for l in range(d):
                if not ekf0:
                    H[..., i, l, 0] -= Jx[..., i, l]
                H[..., i, l, 2] -= sg[..., i, l] / delta
                H[..., i, l, 3] -= sg[..., i, l] * gI
        H = H.reshape(bs + (d, d * n))
        m, P, _ = kf_update(m, P, c, H, R)
    return m, P


def euler_ode(x, field, h, M):
    for j in range(M):
        x = x + h * field.f(x, j * h)
    return x


def rk4_ode(x, field, h, M):
    for j in range(M):
        u = j * h
        k1 = field.f(x, u)
        k2 = field.f(x + h / 2 * k1, u + h / 2)
        k3 = field.f(x + h / 2 * k2, u + h / 2)
        k4 = field.f(x + h * k3, u + h)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x


def em_path(x0, ref, dWs, h):
    xs = [np.asarray(x0, float)]
    for k, dW in enumerate(dWs):
        x, t = xs[-1], k * h
        xs.append(x + h * ref.drift(x, t) + ref.sigma(x, t) @ dW)
    return np.array(xs)


# ---------------------------------------------------------------- parabola geometry

def parabola_of_path(path):
    """path: (n+1, d) values on a regular grid of [0, 1] -> (a, b): end point and sqrt(6)*(mean - a/2), trapezoid rule."""
    n = path.shape[0] - 1
    mean = (path[:-1] + path[1:]).sum(0) / (2.0 * n)
    a = path[-1]
    return a, math.sqrt(6.0) * (mean - a / 2)


def parabola_of_fine(e0, e1):
    """Aggregate fine (increment e0, normalised area e1 with mean-of-piece = start + e0/2 + e1) pieces."""
    n, d = e0.shape
    start = np.concatenate([np.zeros((1, d)), np.cumsum(e0, 0)[:-1]])
    mean = (start + 0.5 * e0 + e1).mean(0)
    a = e0.sum(0)
    return a, math.sqrt(6.0) * (mean - a / 2)
