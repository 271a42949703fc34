"""Problem family shared by the library side (jax) and the reference side (numpy, analytic derivatives).

drift(x, t)      = A x + c + B sin(x + w t)
sigma_ij(x, t)   = S_ij * (1 + rho * sin(kap * x_{p(i,j)} + nu t))
All parameters are arrays in a dict, so one compiled solve serves many problems.
"""
import numpy as np

KINDS = ("full", "additive", "diag", "diag_additive", "scalar", "autonomous", "time_additive")


def make(rs, d, m, kind="full", scale=1.0):
    """rs: numpy RandomState. Returns dict of float64 arrays and the static index matrix p (nested list)."""
    A = rs.uniform(-1, 1, (d, d)) * scale - 0.5 * np.eye(d)
    c = rs.uniform(-1, 1, d)
    B = rs.uniform(-1, 1, (d, d)) * 0.7 * scale
    w = rs.uniform(-2, 2, d)
    S = rs.uniform(0.2, 0.9, (d, m)) * rs.choice([-1.0, 1.0], (d, m))
    rho, kap, nu = 0.5, rs.uniform(0.5, 1.5), rs.uniform(-2, 2)
    p = rs.randint(0, d, (d, m))
    if kind in ("diag", "diag_additive"):
        S = np.diag(np.diag(S)) if d == m else S
        p = np.tile(np.arange(d)[:, None], (1, m))
    if kind in ("additive", "diag_additive"):
        rho = 0.0
    if kind == "time_additive":
        rho, kap = 0.5, 0.0
    if kind == "autonomous":
        w, nu = np.zeros(d), 0.0
    return {"A": A, "c": c, "B": B, "w": w, "S": S, "rho": np.float64(rho), "kap": np.float64(kap),
            "nu": np.float64(nu), "p": p}


# ------------------------------------------------------------------ jax side

def jfuncs(P):
    import jax.numpy as jnp
    p = np.asarray(P["p"])

    amp = P.get("amp", 1.0)  # the same dynamics in other units

    def drift(x, t):
        return amp * drift0(x / amp, t) if "amp" in P else drift0(x, t)

    def sigma(x, t):
        return amp * sigma0(x / amp, t) if "amp" in P else sigma0(x, t)

    def drift0(x, t):
        v = P["A"] @ x + P["c"] + P["B"] @ jnp.sin(x + P["w"] * t)
        if "tstar" in P:  # injected fault: the dynamics change (or break) after time tstar
            v = v + jnp.where(t > P["tstar"], P["jump"], 0.0)
        if "tblow" in P:  # injected fault: super-linear growth
            v = jnp.where(t > P["tblow"], (1e150 if v.dtype == jnp.float64 else 1e20) * x ** 3, v)
        if "tlo" in P:  # injected outage: the dynamics are undefined outside [tlo, thi]
            v = v + jnp.where((t < P["tlo"]) | (t > P["thi"]), jnp.nan, 0.0)
        return v

    def sigma0(x, t):
        s = P["S"] * (1.0 + P["rho"] * jnp.sin(P["kap"] * x[p] + P["nu"] * t))
        if "tlo" in P:
            s = s + jnp.where((t < P["tlo"]) | (t > P["thi"]), jnp.nan, 0.0)
        if "tstar_s" in P:
            s = s + jnp.where(t > P["tstar_s"], P["jump_s"], 0.0)
        return s

    return drift, sigma


# ------------------------------------------------------------------ numpy side (batched over leading axes)

class Ref:
    def __init__(self, P):
        self.P = {k: (np.asarray(v) if k == "p" else np.asarray(v, dtype=np.float64)) for k, v in P.items()}
        self.d, self.m = self.P["S"].shape[-2:]
        self.amp = float(self.P.get("amp", 1.0))

    def drift(self, x, t):
        P = self.P
        x = x / self.amp
        t = np.asarray(t, float)[..., None]
        return self.amp * (x @ P["A"].T + P["c"] + np.sin(x + P["w"] * t) @ P["B"].T)

    def drift_x(self, x, t):
        P = self.P
        x = x / self.amp
        t = np.asarray(t, float)[..., None]
        return P["A"] + P["B"] * np.cos(x + P["w"] * t)[..., None, :]

    def drift_t(self, x, t):
        P = self.P
        x = x / self.amp
        t = np.asarray(t, float)[..., None]
        return self.amp * ((np.cos(x + P["w"] * t) * P["w"]) @ P["B"].T)

    def _arg(self, x, t):
        P = self.P
        return P["kap"] / self.amp * x[..., P["p"]] + P["nu"] * np.asarray(t, float)[..., None, None]

    def sigma(self, x, t):
        P = self.P
        return self.amp * P["S"] * (1.0 + P["rho"] * np.sin(self._arg(x, t)))

    def sigma_x(self, x, t):
        """d sigma_ij / d x_l, shape (..., d, m, d)"""
        P = self.P
        v = P["S"] * P["rho"] * P["kap"] * np.cos(self._arg(x, t))
        out = np.zeros(v.shape + (self.d,))
        eye = np.eye(self.d)[P["p"]]  # (d, m, d)
        out[...] = v[..., None] * eye
        return out

    def sigma_t(self, x, t):
        P = self.P
        return self.amp * P["S"] * P["rho"] * P["nu"] * np.cos(self._arg(x, t))

    def correction(self, x, t):
        """Ito -> Stratonovich correction vector sum_{j,k} sigma_jk d sigma_ik/dx_j"""
        return np.einsum("...jk,...ikj->...i", self.sigma(x, t), self.sigma_x(x, t))


class Field:
    """Random ODE vector field on one interval starting at t0: drift + sigma * d(parabola)/dt, local time u."""

    def __init__(self, ref, t0, delta, a, b):
        self.r, self.t0, self.delta = ref, np.asarray(t0, float), float(delta)
        self.a, self.b = np.asarray(a, float), np.asarray(b, float)

    def rate(self, u):
        return (self.a + self.b * np.sqrt(6.0) * (1.0 - 2.0 * u / self.delta)) / self.delta

    def rate_u(self, u):
        return -2.0 * np.sqrt(6.0) * self.b / self.delta ** 2

    def f(self, z, u):
        t = self.t0 + u
        return self.r.drift(z, t) + np.einsum("...ij,...j->...i", self.r.sigma(z, t), self.rate(u))

    def fx(self, z, u):
        t = self.t0 + u
        return self.r.drift_x(z, t) + np.einsum("...ijl,...j->...il", self.r.sigma_x(z, t), self.rate(u))

    def ft(self, z, u):
        t = self.t0 + u
        return (self.r.drift_t(z, t) + np.einsum("...ij,...j->...i", self.r.sigma_t(z, t), self.rate(u))
                + np.einsum("...ij,...j->...i", self.r.sigma(z, t), self.rate_u(u)))


class PlainField:
    """The drift alone as an ODE vector field."""

    def __init__(self, ref, t0=0.0):
        self.r, self.t0 = ref, t0

    def f(self, z, u):
        return self.r.drift(z, self.t0 + u)

    def fx(self, z, u):
        return self.r.drift_x(z, self.t0 + u)

    def ft(self, z, u):
        return self.r.drift_t(z, self.t0 + u)
