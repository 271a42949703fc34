"""C20: the diffusion calibration of a filtering history is the maximum-likelihood scale, and is consistent along solves."""
import json

import numpy as np

from .. import problems
from ..driver import problem_arrays
from ..engine import Violation, digest, rng_for
from ..problems import Ref
from ..simlib import bitwise, build_prior, close, eager, lib, np64, rs, setup, shape_check, split_static

ID = "C20"
RULE = ("one run = a batch of simulated innovation histories (or of mixture-filter solves that report their innovations) whose calibration is compared with the "
        "likelihood maximiser, under reordered, interrupted, merged and poisoned histories; non-trivial when the history has at least 2 innovations")
MEASURE = "distinct digests of the estimates"
REAL = ["probnum.calibration.mle_diffusion", "ekf0_2/ekf1_2 (return_all)", "priors"]
STUB = ["driver of the mixture solves (the library's own driver does not carry the innovations)"]
ASSUMPTIONS = ["tolerance 1e-12 x condition number of the innovation covariance (float64), 1e-5 x (float32)", "recovery of the true scale: 7 standard errors"]
PROBES = ("probe.synthetic", "probe.solve", "probe.float32", "probe.eager", "probe.vmap", "probe.long", "probe.ill_conditioned", "probe.recovery", "probe.multi_dim",
          "fault.lost_innovations", "fault.poisoned_lane", "fault.interrupted")
QUICK_WALL = 300


def plan(seed, tier):
    G, R = (60, 3) if tier == "quick" else (600, 6)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        x64 = r.random() < 0.75
        if g % 3 < 2:
            spec = {"what": "synthetic", "d": r.choice([1, 1, 2, 3, 4, 6]), "n": r.choice([1, 2, 3, 10, 57, 400, 3000]), "lanes": r.choice([1, 2, 5]),
                    "cond": r.choice([1.0, 10.0, 1e3] + ([1e6] if x64 else [])), "same": r.random() < 0.3}
        else:
            cfg = {"kind": r.choice(["full", "additive", "diag", "autonomous"]), "d": r.choice([1, 2, 3]), "m": 1, "pidx": r.randrange(1000)}
            cfg["m"] = cfg["d"] if cfg["kind"] == "diag" else r.choice([1, cfg["d"]])
            x64 = True
            spec = {"what": "solve", "cfg": cfg, "name": r.choice(["ekf0_2", "ekf1_2"]), "M": r.choice([1, 1, 2, 3]), "sqrt": r.random() < 0.5,
                    "N": r.choice([2, 5, 20, 60]), "delta": r.choice([0.02, 0.05, 0.1]), "prior": r.choice(["ibm", "ibm", "matern"]),
                    "scale": r.choice([0.25, 0.5, 3.0, 10.0])}
        chunks.append([{**spec, "x64": x64, "seed": rng_for(seed, ID, g, i).randrange(2 ** 31), "mode": ["jit", "jit", "eager"][i % 3]} for i in range(R)])
    a = [c for c in chunks if c[0]["x64"]]
    b = [c for c in chunks if not c[0]["x64"]]
    return [sum(v[i:i + 3], []) for v in (a, b) for i in range(0, len(v), 3)]


def mle():
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    return mle_diffusion


def ref_mle(z, S):
    """Average of z' S^-1 z over the innovations (last axes) and coordinates."""
    w = np.linalg.solve(S, z[..., None])[..., 0]
    return (z * w).sum(-1).mean(-1) / z.shape[-1]


def nll(z, S, s2):
    d = z.shape[-1]
    s2 = np.asarray(s2)[:, None]
    q = (z * np.linalg.solve(S, z[..., None])[..., 0]).sum(-1)
    return 0.5 * (q / s2 + d * np.log(s2)).sum(-1)


def synthetic(spec, ctx):
    import jax
    import jax.numpy as jnp
    g = rs(spec["seed"])
    d, n, Ln, x64 = spec["d"], spec["n"], spec["lanes"], spec["x64"]
    s2 = np.exp(g.uniform(-3, 3, Ln))
    U = np.linalg.qr(g.normal(size=(Ln, n, d, d)))[0]
    w = spec["cond"] ** g.uniform(0, 1, (Ln, n, d)) * np.exp(g.uniform(-4, 2, (Ln, n, 1)))
    if spec["same"]:
        U, w = np.broadcast_to(U[:, :1], U.shape), np.broadcast_to(w[:, :1], w.shape)
    S = np.einsum("lnij,lnj,lnkj->lnik", U, w, U)
    S = 0.5 * (S + np.swapaxes(S, -1, -2))
    z = np.sqrt(s2)[:, None, None] * np.einsum("lnij,lnj->lni", U, np.sqrt(w) * g.normal(size=w.shape))
    dt = np.float64 if x64 else np.float32
    z, S = np.asarray(z, dt), np.asarray(S, dt)
    f = mle()
    if spec["mode"] == "eager":
        def run(z, S):
            with eager():
                return np64([f(jnp.asarray(a), jnp.asarray(b)) for a, b in zip(z, S)])
    else:
        fk = "synthetic"
        if fk not in ctx:
            ctx[fk] = jax.jit(jax.vmap(f))
        run = lambda z, S: np64(ctx[fk](jnp.asarray(z), jnp.asarray(S)))
    if spec["mode"] == "eager" and n > 500:
        z, S, n = z[:, :500], S[:, :500], 500
    got = run(z, S)
    shape_check("estimate", got, (Ln,))
    z6, S6 = np64(z), np64(S)
    want = ref_mle(z6, S6)
    rt = (1e-12 if x64 else 1e-5) * spec["cond"] * d
    close("estimate", got / want, np.ones(Ln), rt, 0.0, "average of z' S^-1 z")
    # maximiser of the likelihood
    for e in (-1e-2, 1e-2) if rt < 1e-3 else ():
        if (nll(z6, S6, got) > nll(z6, S6, got * (1 + e)) + 1e-9 * n * d).any():
            raise Violation("mle:optimum", "another scale is more likely")
    st = {"probe.synthetic": 1, "probe.eager": int(spec["mode"] == "eager"), "probe.vmap": int(spec["mode"] != "eager" and Ln > 1),
          "probe.long": int(n >= 400), "probe.ill_conditioned": int(spec["cond"] >= 1e3), "probe.multi_dim": int(d > 1), "innovations": Ln * n, "steps": Ln * n,
          "probe.float32": int(not x64)}
    # histories arrive reordered, in other coordinates, in other units
    perm = g.permutation(n)
    close("reordered", run(z[:, perm], S[:, perm]) / want, np.ones(Ln), rt)
    B = np.diag(np.exp(g.uniform(-1, 1, d))) @ np.linalg.qr(g.normal(size=(d, d)))[0]
    SB = B @ S6 @ B.T
    close("coordinates", run(np.asarray(z6 @ B.T, dt), np.asarray(0.5 * (SB + np.swapaxes(SB, -1, -2)), dt)) / want, np.ones(Ln), 20 * rt)
    c = float(np.exp(g.uniform(-3, 3)))
    close("units", run(z, np.asarray(c * S6, dt)) * c / want, np.ones(Ln), rt)
    # interrupted history: what was recorded so far, and the two parts merged
    if n >= 2:
        k = int(g.randint(1, n))
        p, q = run(z[:, :k], S[:, :k]), run(z[:, k:], S[:, k:])
        close("interrupted", p / ref_mle(z6[:, :k], S6[:, :k]), np.ones(Ln), rt)
        close("merged", (k * p + (n - k) * q) / n / want, np.ones(Ln), rt)
        keep = g.uniform(size=n) < 0.7
        keep[0] = True
        close("lost", run(z[:, keep], S[:, keep]) / ref_mle(z6[:, keep], S6[:, keep]), np.ones(Ln), rt)
        st["fault.interrupted"] = st["fault.lost_innovations"] = 1
    if Ln >= 2:
        bad = int(g.randint(Ln))
        zb = z.copy()
        zb[bad, g.randint(n)] = [np.nan, np.inf][g.randint(2)]
        out = run(zb, S)
        bitwise("poisoned", np.delete(out, bad), np.delete(got, bad), "healthy lanes")
        if np.isfinite(out[bad]):
            raise Violation("mle:poisoned", f"a broken innovation gives the estimate {out[bad]}")
        st["fault.poisoned_lane"] = 1
    tot = (got / s2).mean()
    if abs(tot - 1) > 7 * np.sqrt(2.0 / (Ln * n * d)) + 30.0 / (Ln * n * d) + rt:
        raise Violation("mle:recovery", f"estimated over true scale {tot:.5g} from {Ln * n * d} innovations")
    st["probe.recovery"] = int(Ln * n * d >= 1000)
    return {"stats": st, "sig": digest(got), "nontrivial": n >= 2}


def solve(spec, ctx):
    import jax
    import jax.numpy as jnp
    cfg, N, M, delta = spec["cfg"], spec["N"], spec["M"], spec["delta"]
    P, x0 = problem_arrays(cfg, spec["seed"])
    dyn, p = split_static(P)
    d, m = cfg["d"], cfg["m"]
    g = rs(spec["seed"] + 1)
    ab = np.sqrt(delta) * np.stack([g.normal(size=(N, m)), g.normal(size=(N, m)) * np.sqrt(0.5)], 1)
    h = delta / M

    def run(dyn, x0, P0, ab, k0, prior):
        drift, sigma = problems.jfuncs({**dyn, "p": p})
        fn = getattr(lib, spec["name"])

        def step(state, inp):
            k, co = inp
            t0 = k * delta

            def field(x, t):
                return drift(x, t0 + t) + sigma(x, t0 + t) @ (co[0] + np.sqrt(6.0) * (1 - 2 * t / delta) * co[1]) / delta
            state, rest = fn(key=None, init=state, vector_field=field, h=h, N=M, sqrt=spec["sqrt"], prior=prior, return_all=True)
            return state, (state[1], state[2]) + tuple(rest[3:])
        return jax.lax.scan(step, (x0, x0, P0), (k0 + jnp.arange(ab.shape[0]), ab))

    fk = json.dumps({k: v for k, v in spec.items() if k not in ("seed", "mode")}, sort_keys=True)
    if fk not in ctx:
        ctx[fk] = jax.jit(run)

    def filt(scale, a=0, b=N, state=None):
        pr = {"kind": "ibm", "q": 1, "sigma": scale} if spec["prior"] == "ibm" else {"kind": "matern", "k": 1, "mag": scale, "len": 1.3}
        prior = build_prior(pr, h, d)
        x, _, Q = state or (x0, x0, np.zeros((d, d)))
        end, out = ctx[fk]({k: jnp.asarray(v) for k, v in dyn.items()}, jnp.asarray(x), jnp.asarray(Q), jnp.asarray(ab[a:b]), a, prior)
        o = [np64(v) for v in out]
        z = next(v for v in o[2:] if v.ndim == 2)
        S = next(v for v in o[2:] if v.ndim == 3)
        return [np64(v) for v in end], o[0], o[1], z, S

    f = jax.jit(mle())
    c = spec["scale"]
    end, m1, P1, z1, S1 = filt(1.0)
    if np.abs(m1).max() > 1e3 or not np.isfinite(m1).all():
        return {"stats": {"diverged": 1}, "sig": digest(m1), "nontrivial": False}
    for nm, v, shp in (("innovations", z1, (N, d)), ("covariances", S1, (N, d, d))):
        shape_check(nm, v, shp)
    # the innovations are residuals of the dynamics at the predicted states: they do not depend on the prior's scale, their covariance does
    _, mc, Pc, zc, Sc = filt(c)
    close("means", mc, m1, 1e-6, 1e-9, "prior rescaled")
    close("innovations", zc, z1, 1e-5, 1e-7 * max(1.0, np.abs(m1).max() / h), "prior rescaled")
    close("covariances", Pc / c ** 2, P1, 1e-6, 1e-9 * np.abs(S1).max(), "prior rescaled")
    close("S", Sc / c ** 2, S1, 1e-6, 0.0, "prior rescaled")
    e1 = float(f(jnp.asarray(z1), jnp.asarray(S1)))
    ec = float(f(jnp.asarray(zc), jnp.asarray(Sc)))
    want = float(ref_mle(z1, S1))
    close("estimate", e1, want, 1e-8)
    close("scaling", ec * c ** 2, e1, 1e-4, 1e-12)
    # the calibrated prior explains the history: solving again with it estimates 1
    if e1 > 1e-8:
        _, mk, _, zk, Sk = filt(np.sqrt(e1))
        close("calibrated", float(f(jnp.asarray(zk), jnp.asarray(Sk))), 1.0, 1e-4)
    # killed after step k: the durable state and innovations continue to the same estimate
    k = int(g.randint(1, N))
    mid, _, _, za, Sa = filt(1.0, 0, k)
    _, mb, _, zb, Sb = filt(1.0, k, N, (mid[1], mid[1], mid[2]))
    close("resumed", mb, m1[k:], 1e-7, 1e-9)
    ea, eb = (float(f(jnp.asarray(u), jnp.asarray(v))) for u, v in ((za, Sa), (zb, Sb)))
    close("resumed-estimate", (k * ea + (N - k) * eb) / N, e1, 1e-5, 1e-12)
    st = {"probe.solve": 1, "steps": 4 * N, "sim_time": 4 * N * delta, "innovations": 4 * N, "fault.interrupted": 1, "probe.multi_dim": int(d > 1)}
    return {"stats": st, "sig": digest(z1, S1), "nontrivial": N >= 2}


def execute(spec, ctx):
    setup(spec["x64"])
    return (synthetic if spec["what"] == "synthetic" else solve)(spec, ctx)


def shrink(spec):
    if spec["what"] == "synthetic":
        for k, vals in (("n", (1, 2, 10)), ("d", (1, 2)), ("lanes", (1, 2)), ("cond", (1.0,))):
            for v in vals:
                if v < spec[k]:
                    yield {**spec, k: v}
    else:
        for k, vals in (("N", (2, 5)), ("M", (1,))):
            for v in vals:
                if v < spec[k]:
                    yield {**spec, k: v}
        if spec["cfg"]["d"] > 1:
            yield {**spec, "cfg": {**spec["cfg"], "d": 1, "m": 1}}
