"""C11: one-step law of the order-1.5 schemes along whole paths."""
import json

import numpy as np

from ..driver import size
from ..engine import Violation, digest, rng_for
from ..simlib import close, lib, np64, prng, rs, setup, shape_check, uncorrelated

ID = "C11"
RULE = ("one run = hundreds of simulated paths of a scheme on a drawn problem; every transition is standardised with the reference conditional "
        "mean and covariance given the state reached, and pooled residuals must have zero mean, identity covariance, the reference third "
        "moments, and no correlation across steps; non-trivial: N >= 2 and state-dependent coefficients")
MEASURE = "distinct digests of the simulated paths"
REAL = ["diag_15_scheme", "hypoelliptic_diffusion_15_scheme"]
STUB = ["caller dynamics"]
ASSUMPTIONS = ["the reference law is the Ito-Taylor 1.5 step of Kloeden & Platen (diagonal noise, each sigma_ii depending on x_i) and the "
               "leading-order hypoelliptic step of Samson & Ditlevsen", "7 standard errors from the empirical variance of each statistic"]
PROBES = ("probe.diag", "probe.hypo", "probe.multiplicative", "probe.additive", "probe.eager", "probe.controlled")


def plan(seed, tier):
    n = 96 if tier == "quick" else 1200
    specs = []
    for i in range(n):
        r = rng_for(seed, ID, i)
        sch = ["diag", "diag", "hypo"][i % 3]
        d = r.choice([1, 2, 3, 4, 5]) if sch == "diag" else r.choice([2, 3, 4, 5])
        specs.append({"scheme": sch, "d": d, "h": r.choice([1e-3, 0.01, 0.05, 0.1, 0.2, 0.4, 0.8]), "N": size(r, [1, 3, 8, 20]), "mult": r.random() < 0.75,
                      "lanes": 2560 if tier == "quick" else 8192, "pseed": r.randrange(2 ** 31), "kseed": r.randrange(2 ** 31),
                      "mode": "vmap" if i % 8 else "loop"})
    return [specs[i:i + 4] for i in range(0, n, 4)]


def _problem(spec):
    g = rs(spec["pseed"])
    d = spec["d"]
    A = g.uniform(-1, 1, (d, d)) - 0.7 * np.eye(d)
    B = 0.6 * g.uniform(-1, 1, (d, d))
    c = g.uniform(-1, 1, d)
    w = g.uniform(0.5, 1.5, d)
    s = g.uniform(0.3, 0.8, d)
    kap = g.uniform(0.6, 1.4, d)
    rho = 0.6 if spec["mult"] else 0.0
    x0 = g.uniform(-0.5, 0.5, d)
    if spec["scheme"] == "hypo":
        A[0, 1:] = np.sign(A[0, 1:]) * (0.6 + np.abs(A[0, 1:]))
        B[0, 1:] *= 0.3
    return A, B, c, w, s, kap, rho, x0


def execute(spec, ctx):
    setup(True)
    import jax
    import jax.numpy as jnp
    A, B, c, w, s, kap, rho, x0 = _problem(spec)
    d, h, N, Ln = spec["d"], spec["h"], spec["N"], spec["lanes"]
    hyp = spec["scheme"] == "hypo"
    # diagonal: sigma_ii = s_i (1 + rho sin(kap_i x_i)); hypo: additionally row 0 is zero, rough rows depend on x_0 too

    def drift(x):
        return jnp.asarray(A) @ x + jnp.asarray(c) + jnp.asarray(B) @ jnp.sin(jnp.asarray(w) * x)

    def sigma(x):
        v = jnp.asarray(s) * (1 + rho * jnp.sin(jnp.asarray(kap) * x))
        if hyp:
            v = v * jnp.asarray([0.0] + [1.0] * (d - 1))
        return jnp.diag(v)

    fn = lib.hypoelliptic_diffusion_15_scheme if hyp else lib.diag_15_scheme
    def behind():
        """The noise behind the keys, from a solve of a simple equation with the same keys: (eta, zeta), or the Gaussian draw of the
        hypoelliptic scheme. Used as control variates only: their law is all that the tests below rely on."""
        simple = jax.jit(jax.vmap(lambda k: fn(k, init=jnp.zeros(d), drift=fa, sigma=sa, h=h, N=N)[1]))
        if hyp:
            fa, sa = (lambda x: jnp.zeros(d).at[0].set(x[1:].sum())), (lambda x: jnp.diag(jnp.asarray([0.0] + [1.0] * (d - 1))))
            y = np64(simple(keys))
            eps = y[:, 1:] - y[:, :-1]
            eps[..., 0] -= h * y[:, :-1, 1:].sum(-1)
            Ca = np.diag(np.r_[(d - 1) * h ** 3 / 3, np.full(d - 1, h)])
            Ca[0, 1:] = Ca[1:, 0] = h * h / 2
            return np.linalg.solve(np.linalg.cholesky(Ca), eps[..., None])[..., 0]
        fa, sa = (lambda x: jnp.zeros(d)), (lambda x: jnp.eye(d))
        y = np64(simple(keys))
        eta = y[:, 1:] - y[:, :-1]
        fa = lambda x: x
        simple = jax.jit(jax.vmap(lambda k: fn(k, init=jnp.zeros(d), drift=fa, sigma=sa, h=h, N=N)[1]))
        y = np64(simple(keys))
        return eta, y[:, 1:] - (1 + h + h * h / 2) * y[:, :-1] - eta

    st = {"steps": Ln * N, "sim_time": Ln * N * h, f"probe.{spec['scheme']}": 1, f"probe.{'multiplicative' if rho else 'additive'}": 1}
    keys = jax.random.split(prng(spec["kseed"]), Ln)
    solve = lambda k: fn(k, init=jnp.asarray(x0), drift=drift, sigma=sigma, h=h, N=N)
    batch = jax.jit(jax.vmap(solve))
    ts, x = batch(keys)
    x = np64(x)
    shape_check("path", x, (Ln, N + 1, d))
    close("time-grid", np64(ts)[0], np.arange(N + 1) * h, 1e-12)
    close("initial", x[:, 0], np.tile(x0, (Ln, 1)), 1e-14)
    if spec["mode"] == "loop" and N <= 3:  # the uncompiled scheme is the same scheme
        st["probe.eager"] = 1
        with jax.disable_jit():
            one = np64(solve(keys[0])[1])
        close("eager-vs-compiled", one, x[0], 1e-6, 1e-8)
    elif spec["mode"] == "loop":
        st["probe.eager"] = 1
        one = np64(solve(keys[0])[1])
        close("single-vs-batch", one, x[0], 1e-6, 1e-8)
    X = x[:, :-1]
    f = X @ A.T + c + np.sin(w * X) @ B.T
    J = A + B * (w * np.cos(w * X))[..., None, :]
    Hd = -B * (w ** 2 * np.sin(w * X))[..., None, :]      # Hd[..., i, j] = d2 f_i / dx_j^2 (the Hessian is diagonal)
    sg = s * (1 + rho * np.sin(kap * X))
    if hyp:
        sg = sg * np.array([0.0] + [1.0] * (d - 1))
    s1 = s * rho * kap * np.cos(kap * X)
    s2 = -s * rho * kap ** 2 * np.sin(kap * X)
    base = X + h * f + h * h / 2 * np.einsum("...ij,...j->...i", J, f) + h * h / 4 * np.einsum("...ij,...j->...i", Hd, sg ** 2)
    R = x[:, 1:] - base
    if hyp:
        ua = J[..., 0, 1:]
        gg = sg[..., 1:] ** 2
        C = np.zeros(X.shape + (d,))
        C[..., 0, 0] = (ua ** 2 * gg).sum(-1) * h ** 3 / 3
        C[..., 0, 1:] = C[..., 1:, 0] = ua * gg * h * h / 2
        for i in range(1, d):
            C[..., i, i] = gg[..., i - 1] * h
        mean, third = np.zeros_like(R), None
    else:
        # contribution of (eta_j, zeta_j) to coordinate i, integrated exactly on a tensor Gauss-Hermite grid
        gx, gw = np.polynomial.hermite_e.hermegauss(7)
        gw = gw / gw.sum()
        U, V = np.meshgrid(gx, gx, indexing="ij")
        W = np.outer(gw, gw).ravel()
        eta = np.sqrt(h) * U.ravel()
        zeta = h ** 1.5 * (U.ravel() / 2 + V.ravel() / (2 * np.sqrt(3)))
        C = np.zeros(X.shape + (d,))
        mean = np.zeros_like(R)
        third = np.zeros_like(R)
        for j in range(d):
            q = J[..., :, j, None] * sg[..., None, j, None] * zeta
            own = (sg[..., j, None] * eta + 0.5 * (s1 * sg)[..., j, None] * (eta ** 2 - h)
                   + (s1 * f + 0.5 * sg ** 2 * s2)[..., j, None] * (h * eta - zeta)
                   + 0.5 * (sg * (s1 ** 2) + sg ** 2 * s2)[..., j, None] * (eta ** 2 / 3 - h) * eta)
            q[..., j, :] += own
            mu = (q * W).sum(-1)
            mean += mu
            qc = q - mu[..., None]
            C += np.einsum("...iq,...lq,q->...il", qc, qc, W)
            third += (qc ** 3 * W).sum(-1)
    R = R - mean
    Lc = np.linalg.cholesky(C + 1e-18 * np.eye(d))
    Z = np.linalg.solve(Lc, R[..., None])[..., 0]
    if not np.isfinite(Z).all():
        raise Violation("law:non-finite", "non-finite transition")

    sd = np.sqrt(np.einsum("...ii->...i", C))
    noise = behind()
    if hyp:
        Rr = np.einsum("...ij,...j->...i", Lc, noise)
    else:
        et, ze = noise
        Rr = (np.einsum("...ij,...j->...i", J, sg * ze) + sg * et + 0.5 * s1 * sg * (et ** 2 - h) + (s1 * f + 0.5 * sg ** 2 * s2) * (h * et - ze)
              + 0.5 * (sg * s1 ** 2 + sg ** 2 * s2) * (et ** 2 / 3 - h) * et) - mean
    same = np.abs((R - Rr) / sd).max()
    st["probe.controlled"] = int(same < 1e-3)

    def test(name, v, where):
        # paths are the independent units: average over time first
        q = v.reshape(Ln, -1) if v.ndim == 2 else v
        u = q.mean(1)
        se = u.std() / np.sqrt(Ln)
        if abs(u.mean()) > 7.5 * se + 1e-12:
            raise Violation(f"law:{name}", f"{where}: average {u.mean():.6g}, standard error {se:.3g} (h={h}, d={d}, N={N}, paths={Ln})")
    def controlled(name, v, where):
        q = v.reshape(Ln, -1)
        u, n = (q.mean(1), Ln) if Ln >= 8 * N else (q.ravel(), q.size)
        se = u.std() / np.sqrt(n)
        if abs(u.mean()) > 8 * se + 1e-7:
            raise Violation(f"law:{name}", f"{where}: average deviation from the reference {u.mean():.6g}, standard error {se:.3g} (h={h}, d={d}, N={N})")
    for i in range(d):  # the same moments against control variates: the reference step on the noise behind the key
        a, b = (R / sd)[..., i], (Rr / sd)[..., i]
        controlled("mean", a - b, f"residual {i}")
        controlled("third-moment", a ** 3 - b ** 3, f"cubed residual {i}")
        for j in range(i, d):
            controlled("covariance", a * (R / sd)[..., j] - b * (Rr / sd)[..., j], f"residual product ({i},{j})")
    for i in range(d):
        test("mean", Z[..., i], f"standardised residual {i}")
        for j in range(i, d):
            test("covariance", Z[..., i] * Z[..., j] - float(i == j), f"residual product ({i},{j})")
        if third is not None:
            test("third-moment", (R[..., i] / sd[..., i]) ** 3 - third[..., i] / sd[..., i] ** 3, f"cubed residual {i}")
        # residuals do not depend on the state they start from
        for j in range(d):
            xc = np.tanh(X[..., j] - x0[j])
            if N > 1:
                test("state-dependence", Z[..., i] * xc, f"residual {i} against state {j}")
                test("state-dependence", (Z[..., i] ** 2 - 1) * xc, f"squared residual {i} against state {j}")
    if N > 1:
        Zf = Z.reshape(Ln, N, d)
        for i in range(d):
            for j in range(d):
                test("serial", Zf[:, :-1, i] * Zf[:, 1:, j], f"consecutive residuals ({i},{j})")
    u = Z[:-1, 0].reshape(Ln - 1, d)
    v = Z[1:, 0].reshape(Ln - 1, d)
    uncorrelated("callers", u, v, sigmas=8.0)
    return {"stats": st, "sig": digest(x), "nontrivial": N >= 2 or bool(rho)}


def shrink(spec):
    if spec["N"] > 1:
        yield {**spec, "N": 1}
    if spec["d"] > (2 if spec["scheme"] == "hypo" else 1):
        yield {**spec, "d": spec["d"] - 1}
    if spec["mult"]:
        yield {**spec, "mult": False}
