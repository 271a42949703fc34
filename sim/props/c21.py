"""C21: simulating a bundled benchmark reproduces the moments stated with it (noise is a fault-injectable, enumerated input here)."""
import math

import numpy as np
import scipy.linalg as sl

from ..engine import Violation, digest, rng_for
from ..simlib import driver_keys, lib, np64, rs, setup, tape_bm

ID = "C21"
RULE = ("one run = one benchmark equation simulated by the library's drivers while the simulator owns the Brownian coefficients: a quiet lane and one lane per "
        "unit impulse (linear equations), or Gauss-Hermite nodes of the coefficients (nonlinear ones), possibly interrupted and resumed; the resulting "
        "moments are compared with the stated ones; non-trivial when a covariance or an expansion of it is compared")
MEASURE = "distinct digests of the simulated moments"
REAL = ["utils.ivp benchmark definitions", "sde_solver", "euler_maruyama_pathwise", "to_stratonovich"]
STUB = ["RK4 step inside the driver", "Brownian coefficients enumerated by the simulator"]
ASSUMPTIONS = ["exact moments to 2e-4 relative (Euler-Maruyama, extrapolated: 2e-3)", "local expansions: the error against the simulated moment shrinks at the "
               "stated order when the time is halved (exponent short by at most 0.4)"]
EXACT = ("ibm", "square_matrix_ibm", "double_ibm", "harmonic_oscillator", "harmonic_oscillator_square")
LOCAL = ("fhn", "square_matrix_fhn", "harmonic_oscillator_square", "synaptic_conductance", "synaptic_conductance_reduced")
PROBES = tuple(f"probe.{b}" for b in sorted(set(EXACT + LOCAL + ("gbm",)))) + ("probe.em", "probe.driver", "fault.interrupted", "probe.expansion")
QUICK_WALL = 300
TIMELESS = ("harmonic_oscillator_square", "synaptic_conductance", "synaptic_conductance_reduced")


def plan(seed, tier):
    G = 60 if tier == "quick" else 400
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        if g % 3 == 0:
            b = LOCAL[(g // 3) % len(LOCAL)]
            lo, hi = {"fhn": (0.003, 0.01), "square_matrix_fhn": (0.003, 0.01), "harmonic_oscillator_square": (0.02, 0.15)}.get(b, (0.005, 0.03))
            spec = {"what": "local", "bench": b, "T": r.uniform(lo, hi)}
        elif g % 12 == 1:
            spec = {"what": "gbm", "bench": "gbm", "T": r.uniform(0.05, 2.0), "N": r.choice([1, 2, 7, 30])}
        else:
            b = EXACT[g % len(EXACT)]
            spec = {"what": "exact", "bench": b, "T": math.exp(r.uniform(math.log(0.05), math.log(4.0))), "N": r.choice([16, 25, 48]), "em": r.random() < 0.3}
            spec["cut"] = r.randrange(1, spec["N"]) if r.random() < 0.5 else None
        spec["kseed"] = r.randrange(2 ** 31)
        chunks.append([spec])
    return [sum(chunks[i:i + 4], []) for i in range(0, len(chunks), 4)]


def problem(b):
    import bayesian_sde_solver.utils.ivp as ivp
    x0, drift, sigma, *stated = getattr(ivp, b)()
    if b in TIMELESS:
        return x0, (lambda x, t: drift(x)), (lambda x, t: sigma(x)), stated
    return x0, drift, sigma, stated


def rk4(key, init, vector_field, T, M=4):
    x, h = init, T / M
    for j in range(M):
        u = j * h
        k1 = vector_field(x, u)
        k2 = vector_field(x + h / 2 * k1, u + h / 2)
        k3 = vector_field(x + h / 2 * k2, u + h / 2)
        k4 = vector_field(x + h * k3, u + h)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x


def drive(b, xs, A, B, delta, kseed):
    """Lanes (starts xs, coefficient tapes A, B of shape (lanes, N, m)) through the library's driver."""
    import jax
    import jax.numpy as jnp
    _, drift, sigma, _ = problem(b)
    drift, sigma = lib.to_stratonovich(drift, sigma)
    key = jax.random.PRNGKey(kseed)
    N = A.shape[1]
    tab = jnp.asarray(driver_keys(key, N, delta))

    @jax.jit
    @jax.vmap
    def one(x, a, c):
        return lib.sde_solver(key=key, drift=drift, sigma=sigma, x0=x, bm=tape_bm(tab, a, c), delta=delta, N=N, ode_int=rk4)[1]
    return np64(one(jnp.asarray(xs), jnp.asarray(A), jnp.asarray(B)))


def em(b, xs, A, delta):
    import jax
    import jax.numpy as jnp
    _, drift, sigma, _ = problem(b)

    @jax.jit
    @jax.vmap
    def one(x, a):
        return lib.euler_maruyama_pathwise(a, init=x, drift=drift, sigma=sigma, h=delta, N=A.shape[1])[1][-1]
    return np64(one(jnp.asarray(xs), jnp.asarray(A)))


def rel(name, got, want, rt):
    want = np64(want)
    s = np.sqrt(np.abs(np.diag(want))) if want.ndim == 2 else None
    lim = rt * (s[:, None] * s[None, :] if s is not None else np.abs(want).max()) + 1e-12
    if got.shape != want.shape or not (np.abs(got - want) <= lim).all():
        raise Violation(f"moments:{name}", f"simulated {got.tolist()}, stated {want.tolist()}")


def impulses(spec, x0, m, N):
    """Final states of the quiet lane and of every unit-variance impulse lane -> mean, covariance."""
    T = spec["T"]
    delta = T / N
    if spec["em"]:
        A = np.zeros((1 + N * m, N, m))
        for i in range(N * m):
            A[1 + i, i // m, i % m] = math.sqrt(delta)
        end = em(spec["bench"], np.tile(x0, (1 + N * m, 1)), A, delta)
    else:
        A = np.zeros((1 + 2 * N * m, N, m))
        B = np.zeros_like(A)
        for i in range(N * m):
            A[1 + i, i // m, i % m] = math.sqrt(delta)
            B[1 + N * m + i, i // m, i % m] = math.sqrt(delta / 2)
        xs, k = np.tile(x0, (A.shape[0], 1)), spec["cut"]
        if k:  # killed after step k and resumed from the reported states
            xs = drive(spec["bench"], xs, A[:, :k], B[:, :k], delta, spec["kseed"])[:, -1]
            end = drive(spec["bench"], xs, A[:, k:], B[:, k:], delta, spec["kseed"] + 1)[:, -1]
        else:
            end = drive(spec["bench"], xs, A, B, delta, spec["kseed"])[:, -1]
    D = end[1:] - end[0]
    return end[0], D.T @ D


def execute(spec, ctx):
    setup(True)
    import jax.numpy as jnp
    b, T = spec["bench"], spec["T"]
    x0, drift, sigma, stated = problem(b)
    x0 = np64(x0)
    m = np.asarray(sigma(jnp.asarray(x0), 0.0)).shape[1]
    st = {f"probe.{b}": 1, "probe.em": int(bool(spec.get("em"))), "probe.driver": int(not spec.get("em")), "sim_time": T}
    if spec["what"] == "exact":
        N = spec["N"]
        mean, cov = impulses(spec, x0, m, N)
        rt = 2e-4
        if spec["em"]:  # first order in the step: extrapolate
            m2, c2 = impulses(spec, x0, m, 2 * N)
            m4, c4 = impulses(spec, x0, m, 4 * N)
            mean, cov = ((8 * u4 - 6 * u2 + u1) / 3 for u1, u2, u4 in ((mean, m2, m4), (cov, c2, c4)))
            rt = 5e-3
        if b.startswith("harmonic"):
            rel("mean", mean, stated[0](T), rt)
            rel("variance", cov, stated[1](T), rt)
        else:
            n = x0.shape[0]
            rel("mean", mean, sl.expm(np.diag(np.ones(n - 1), 1) * T) @ x0, rt)
            rel("variance", cov, stated[0](T), rt)
        st["steps"] = N
        st["fault.interrupted"] = int(bool(spec["cut"]) and not spec["em"])
        return {"stats": st, "sig": digest(mean, cov), "nontrivial": True}
    gx, gw = np.polynomial.hermite_e.hermegauss(12 if spec["what"] == "gbm" else 5)
    gw = gw / gw.sum()
    if spec["what"] == "gbm":
        N = max(spec["N"], math.ceil(T / 0.1))
        h = T / N
        ends = drive(b, np.tile(x0, (len(gx), 1)), (math.sqrt(h) * gx)[:, None, None], np.zeros((len(gx), 1, 1)), h, spec["kseed"])[:, -1, 0] / x0[0]
        mu, nu = (gw @ ends) ** N, (gw @ ends ** 2) ** N
        rt = 2e-4
        rel("mean", np.atleast_1d(x0[0] * mu), np64(stated[0](T)).reshape(-1), rt)
        rel("variance", np.atleast_1d(x0[0] ** 2 * (nu - mu ** 2)), np64(stated[1](T)).reshape(-1), 10 * rt)
        st["steps"] = N
        return {"stats": st, "sig": digest(mu, nu), "nontrivial": True}

    def moments(t):
        S = np64(sigma(jnp.asarray(x0), 0.0))
        act = [j for j in range(m) if S[:, j].any()]
        grid = np.stack(np.meshgrid(*([np.arange(len(gx))] * (2 * len(act))), indexing="ij"), -1).reshape(-1, 2 * len(act))
        w = gw[grid].prod(1)
        A, B = np.zeros((len(grid), 1, m)), np.zeros((len(grid), 1, m))
        for i, j in enumerate(act):
            A[:, 0, j] = math.sqrt(t) * gx[grid[:, 2 * i]]
            B[:, 0, j] = math.sqrt(t / 2) * gx[grid[:, 2 * i + 1]]
        end = drive(b, np.tile(x0, (len(grid), 1)), A, B, t, spec["kseed"])[:, -1]
        mean = x0 + w @ (end - x0)
        D = end - mean
        return mean, (D * w[:, None]).T @ D

    pair = [moments(t) for t in (T, T / 2)]

    def shrinks(name, f, got, order, scale):
        e = [np.abs(np64(f(t)) - g) for t, g in zip((T, T / 2), got)]
        if e[0].shape != np.shape(order) and np.ndim(order):
            raise Violation(f"moments:{name}", f"shape {e[0].shape}")
        if not (e[1] <= e[0] * 2.0 ** -(np.asarray(order) - 0.4) + scale).all():
            raise Violation(f"moments:{name}", f"expansion off by {e[0].tolist()} at t={T:g} and {e[1].tolist()} at t/2: not of the stated order")
        # and of the size of the next term
        st["probe.expansion"] = 1

    means, covs = [p[0] for p in pair], [p[1] for p in pair]
    if b == "harmonic_oscillator_square":
        s = np.sqrt(np.diag(covs[1]))
        shrinks("variance-expansion", stated[2], covs, np.full((2, 2), 4.0), 1e-6 * s[:, None] * s)
    elif "fhn" in b:
        shrinks("mean-expansion", stated[0], means, np.full(2, 3.0), 1e-10)
        s = np.sqrt(np.diag(covs[1]))
        shrinks("variance-expansion", stated[1], covs, np.array([[4.0, 3.0], [3.0, 3.0]]), 1e-6 * s[:, None] * s)
    else:
        shrinks("mean-expansion", stated[0], means, np.full(len(x0), 3.0), 1e-8 * np.abs(x0).max())
        if len(stated) > 1:
            shrinks("variance-expansion", stated[1], [c[0, 0] for c in covs], 4.0, 1e-6 * covs[1][0, 0])
    st["steps"] = 2
    return {"stats": st, "sig": digest(*means, *covs), "nontrivial": True}


def shrink(spec):
    if spec["what"] == "exact":
        if spec["cut"]:
            yield {**spec, "cut": None}
        if spec["N"] > 16:
            yield {**spec, "N": 16, "cut": None}
    if spec["what"] == "gbm" and spec["N"] > 1:
        yield {**spec, "N": 1}
