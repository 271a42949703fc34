"""C13: covariances stay finite, symmetric and positive semi-definite, and both filter forms agree, over long histories."""
import json

import numpy as np

from .. import problems
from ..driver import PRIORS2, PRIORSN, problem_arrays
from ..engine import Violation, digest, rng_for
from ..simlib import (build_noise, build_prior, close, lib, library_bm, np64, ode_method, prior_states, prng, rs, setup, shape_check,
                      split_static)
from ..ssm import PRIORS1, ssm_method

ID = "C13"
RULE = ("one run = one long history (hundreds to thousands of steps) of a mixture solve, of a chained raw filter or of a sampled solve, in standard "
        "and square-root form, under seed-scheduled noise bursts and stalls; every reported covariance is checked and both forms are compared step by "
        "step from the same states; non-trivial when the history has at least 100 covariances or steps")
MEASURE = "distinct digests of the covariance histories"
REAL = ["sde_solver", "ssm_parabola_ode_solver", "ekf0_2/ekf1_2/ekf0/ekf1/ekf0_marginal/ekf1_marginal", "ode_solvers.ekf", "probnum.ekf", "psd_sqrt",
        "utils.ivp problems"]
STUB = ["Brownian coefficients rescaled by the fault schedule"]
ASSUMPTIONS = ["checked while the state stays in the problem's bounded region (a diverging explicit solve is outside the property)",
               "rounding tolerances 1e-9 (float64) and 2e-3 (float32) relative to the covariance scale of the step",
               "single precision marginalised solves use steps of 0.05 and more (process noise resolved next to the derivative variance)"]
PROBES = ("probe.driver", "probe.filter", "probe.sampled", "probe.float32", "probe.singular", "fault.noise_burst", "fault.noise_stall", "probe.ssm",
          "probe.sqrt", "probe.noise")
QUICK_WALL = 600
IVPS = ("fhn", "ibm", "square_matrix_ibm", "double_ibm", "harmonic_oscillator", "square_matrix_fhn")
BOUND = {"fhn": 4.0, "square_matrix_fhn": 4.0}


def plan(seed, tier):
    G, R = (60, 3) if tier == "quick" else (700, 4)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        kind = ["driver", "driver", "filter", "sampled"][g % 4]
        x64 = r.random() < 0.6
        cfg = {"what": kind, "N": r.choice([120, 300, 800] if tier == "quick" else [120, 300, 800, 2500])}
        prob = r.choice(IVPS + ("family", "family", "family", "degenerate"))
        cfg["prob"] = prob
        cfg["kind"] = r.choice(["full", "additive", "diag", "autonomous"])
        cfg["d"] = r.choice([1, 2, 3, 4])
        cfg["m"] = cfg["d"] if cfg["kind"] == "diag" else r.choice([1, cfg["d"]])
        cfg["pidx"] = r.randrange(1000)
        cfg["delta"] = r.choice([0.002, 0.01, 0.05, 0.1])
        M = r.choice([1, 2, 4])
        noise = {"seed": r.randrange(10 ** 6), "scale": r.choice([1e-4, 1e-2])} if r.random() < 0.25 else None
        if kind == "driver":
            cfg["meth"] = {"name": r.choice(["ekf0_2", "ekf1_2", "ekf1_2"]), "M": M, "sample": True, "noise": noise, "prior": r.choice([None] + PRIORS2)}
            cfg["burst"] = r.choice([0, 7, 19])
            cfg["stall"] = r.choice([0, 5])
        elif kind == "filter":
            pool = PRIORS2 + PRIORS2 + (PRIORSN if x64 else [])
            cfg["meth"] = {"name": r.choice(["ekf0", "ekf1"]), "M": r.choice([2, 10]), "noise": noise, "prior": r.choice(pool)}
            cfg["prob"] = "family"
            cfg["N"] = min(cfg["N"], 300)
            cfg["delta"] = max(cfg["delta"], 0.05)
        else:
            name = r.choice(["ekf0", "ekf1", "ssm0", "ssm1"])
            cfg["meth"] = {"name": name, "M": M, "sample": True, "noise": noise, "prior": r.choice([None, {"kind": "ibm", "q": 1, "sigma": 0.5}])}
            cfg["burst"] = r.choice([0, 7, 19])
            cfg["stall"] = 0
            if name.startswith("ssm"):
                cfg["burst"] = 0
                cfg["m"] = cfg["d"]
                if not x64:  # below, h is lost in the rounding of the derivative variance 4 sigma^2/delta
                    cfg["delta"] = max(cfg["delta"], 0.05)
                cfg["prob"] = r.choice(["family", "square_matrix_ibm", "square_matrix_fhn", "degenerate"])
        if "fhn" in cfg["prob"] and cfg["delta"] / cfg["meth"]["M"] > 0.05 and not (kind == "driver" and cfg["meth"]["name"] == "ekf1_2"):
            cfg["delta"] = 0.01
        if not x64 and "ibm" in cfg["prob"]:  # the covariance grows polynomially: keep h above its rounding
            cfg["N"] = min(cfg["N"], int((20 if "double" in cfg["prob"] else 60) / cfg["delta"]))
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, g, i)
            ch.append({"cfg": cfg, "x64": x64, "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31)})
        chunks.append(ch)
    a = [c for c in chunks if c[0]["x64"]]
    b = [c for c in chunks if not c[0]["x64"]]
    # single precision runs get a process each: see _diverged32
    return [sum(a[i:i + 2], []) for i in range(0, len(a), 2)] + [[s] for c in b for s in c]


def _diverged32(spec, *arrays):
    """A diverged single precision history: the sandbox's LAPACK (OpenBLAS strsm) keeps NaNs in its buffers and spoils every later
    single precision factorisation of the process, so nothing computed afterwards can be judged."""
    return not spec["x64"] and not all(np.isfinite(v).all() and np.abs(v).max(initial=0.0) < 1e12 for v in arrays)


def _problem(cfg, pseed, ctx):
    """-> (dyn, funcs(dyn) -> drift, sigma; x0; d; m; bound)"""
    import jax.numpy as jnp
    if cfg["prob"] in ("family", "degenerate"):
        P, x0 = problem_arrays(cfg, pseed)
        P["A"] = P["A"] - 0.8 * np.eye(cfg["d"])  # bounded trajectories
        if cfg["prob"] == "degenerate":
            P["S"] = P["S"] * (rs(pseed).uniform(size=P["S"].shape) < 0.3)
        dyn, p = split_static(P)
        return dyn, (lambda dyn: problems.jfuncs({**dyn, "p": p})), x0, cfg["d"], cfg["m"], 1e4
    import bayesian_sde_solver.utils.ivp as ivp
    x0, drift, sigma = getattr(ivp, cfg["prob"])()[:3]
    x0 = np64(x0)
    m = np.shape(sigma(jnp.asarray(x0), 0.0))[1]
    x0 = x0 + 0.1 * rs(pseed).normal(size=x0.shape)
    return {"z": np.zeros(1)}, (lambda dyn: (drift, sigma)), x0, x0.shape[0], m, BOUND.get(cfg["prob"], 1e4)


def _faulty_bm(cfg, m):
    """Library parabolas whose coefficients are rescaled on seed-scheduled steps (the key is the schedule's die)."""
    import jax.numpy as jnp
    from ..simlib import key_data
    base = library_bm({"kind": "approx"}, m)

    def factory():
        get, ev = base()

        def get_coeffs(key, dt):
            a, b = get(key, dt)
            k = key_data(key)[-1]
            g = jnp.ones((), a.dtype)
            if cfg.get("burst"):
                g = jnp.where(k % jnp.uint32(cfg["burst"]) == 0, jnp.asarray(5.0, a.dtype), g)
            if cfg.get("stall"):
                g = jnp.where(k % jnp.uint32(cfg["stall"]) == 1, jnp.asarray(0.0, a.dtype), g)
            return a * g, b * g
        return get_coeffs, ev
    return factory


def _valid(name, P, scale, tol, where):
    """One covariance history P (n, q, q): finite, symmetric, PSD up to rounding relative to scale (n,)."""
    if not np.isfinite(P).all():
        k = int(np.argwhere(~np.isfinite(P).all((1, 2)))[0, 0])
        raise Violation(f"nan:{name}", f"{where} first non-finite covariance at {k} of {len(P)}")
    asym = np.abs(P - np.swapaxes(P, 1, 2)).max((1, 2))
    if (asym > tol * scale).any():
        k = int(np.argmax(asym / scale))
        raise Violation(f"asymmetric:{name}", f"{where} at {k}: asymmetry {asym[k]:.3g} of scale {scale[k]:.3g}")
    ev = np.linalg.eigvalsh(0.5 * (P + np.swapaxes(P, 1, 2))).min(1)
    if (ev < -tol * scale).any():
        k = int(np.argmin(ev / scale))
        raise Violation(f"indefinite:{name}", f"{where} at {k}: eigenvalue {ev[k]:.3g} of scale {scale[k]:.3g}")


def _alive(mean, bound):
    """Number of leading entries whose predecessor is inside the bounded region."""
    with np.errstate(invalid="ignore"):
        inside = np.abs(mean).reshape(len(mean), -1).max(1) <= bound
    bad = np.argwhere(~inside)
    return len(mean) if len(bad) == 0 else int(bad[0, 0]) + 1


def execute(spec, ctx):
    setup(spec["x64"])
    return {"driver": _driver, "filter": _filter, "sampled": _sampled}[spec["cfg"]["what"]](spec, ctx)


def _driver(spec, ctx):
    import jax
    import jax.numpy as jnp
    cfg = spec["cfg"]
    dyn, funcs, x0, d, m, bound = _problem(cfg, spec["pseed"], ctx)
    N, delta = cfg["N"], cfg["delta"]
    tol = 1e-9 if spec["x64"] else 2e-3
    outs = {}
    args = ({k: jnp.asarray(v) for k, v in dyn.items()}, jnp.asarray(x0), prng(spec["kseed"]))
    for sq in (False, True):
        k = (json.dumps(cfg, sort_keys=True), sq)
        if k not in ctx:
            meth = dict(cfg["meth"], sqrt=sq)

            def solve(dyn, x0, key, meth=meth):
                drift, sigma = funcs(dyn)
                return lib.sde_solver(key=key, drift=drift, sigma=sigma, x0=(x0, x0, jnp.zeros((d, d), x0.dtype)), bm=_faulty_bm(cfg, m), delta=delta,
                                      N=N, ode_int=ode_method(meth))

            def one(dyn, s, mm, P, t, a, b, meth=meth):
                drift, sigma = funcs(dyn)
                w = lambda u: (a + b * jnp.sqrt(6.0) * (1 - 2 * u / delta)) / delta
                return ode_method(dict(meth, sample=False))(None, init=(s, mm, P), vector_field=lambda z, u: drift(z, u + t) + sigma(z, u + t) @ w(u), T=delta)
            ctx[k] = jax.jit(solve), jax.jit(jax.vmap(one, (None, 0, 0, 0, 0, 0, 0)))
        outs[sq] = [np64(v) for v in jax.tree_util.tree_leaves(ctx[k][0](*args))]
        if _diverged32(spec, *outs[sq]):
            break
    st = {"steps": 2 * N, "sim_time": 2 * N * delta, "probe.driver": 1, "probe.float32": int(not spec["x64"]), "probe.sqrt": 1,
          "probe.noise": int(bool(cfg["meth"]["noise"])), "probe.singular": 1}
    h = delta / cfg["meth"]["M"]
    n_ok = {}
    for sq, (ts, s, mean, P, a, b) in outs.items():
        where = "square-root" if sq else "standard"
        shape_check("cov", P, (N + 1, d, d))
        n = _alive(mean, bound)
        n_ok[sq] = n
        if not np.isfinite(mean[:n]).all():
            raise Violation("nan:mean", f"{where} non-finite mean at {int(np.argwhere(~np.isfinite(mean[:n]).all(1))[0, 0])} from a bounded state")
        if not np.isfinite(s[:n]).all():
            raise Violation("nan:sample", f"{where} non-finite sample at {int(np.argwhere(~np.isfinite(s[:n]).all(1))[0, 0])} from a bounded state")
        sc = np.abs(P[:n]).max((1, 2))
        sc = np.maximum(np.maximum(sc, np.concatenate([sc[:1], sc[:-1]])), h ** 3 / 3)
        _valid("law", P[:n], sc, tol, where)
    a, b = outs[False][4:6]
    if _diverged32(spec, *outs[False]) or True not in outs or _diverged32(spec, *outs[True]):
        return {"stats": {**st, "probe.diverged": 1}, "sig": digest(outs[False][3]), "nontrivial": n_ok[False] >= 100}
    if cfg.get("burst"):
        st["fault.noise_burst"] = int((np.abs(a).max(1) > 4 * np.sqrt(delta)).sum())
    if cfg.get("stall"):
        st["fault.noise_stall"] = int((np.abs(a).max(1) == 0).sum())
    # both forms from the same states, every step
    n = n_ok[False] - 1
    k0 = json.dumps(cfg, sort_keys=True)
    _, s, mean, P = outs[False][:4]
    step_args = (args[0], jnp.asarray(s[:N]), jnp.asarray(mean[:N]), jnp.asarray(P[:N]), jnp.arange(N) * delta, jnp.asarray(a), jnp.asarray(b))
    A = [np64(v)[:n] for v in ctx[(k0, False)][1](*step_args)]
    B = [np64(v)[:n] for v in ctx[(k0, True)][1](*step_args)]
    if n:
        rt = 1e-7 if spec["x64"] else 5e-3
        close("forms:mean", B[1], A[1], rt, rt, "square-root against standard form, one step")
        sc = np.maximum(np.maximum(np.abs(A[2]).max((1, 2)), np.abs(P[:n]).max((1, 2))), h ** 3 / 3)[:, None, None]
        close("forms:cov", B[2] / sc, A[2] / sc, 0, 1e-6 if spec["x64"] else 2e-2, "square-root against standard form, one step")
    if n and spec["x64"] and cfg["meth"]["name"] == "ekf0_2":  # the same steps from laws whose directions have very different scales
        g = rs(spec["pseed"] + 11)
        V = np.linalg.qr(g.normal(size=(N, d, d)))[0]
        Pw = (V * (10.0 ** g.uniform(-9, 0, size=(N, 1, d)))) @ np.swapaxes(V, 1, 2)
        Pw = 0.5 * (Pw + np.swapaxes(Pw, 1, 2)) * 10.0 ** g.uniform(-6, 0, size=(N, 1, 1))
        wide = step_args[:3] + (jnp.asarray(Pw),) + step_args[4:]
        A, B = ([np64(v)[:n] for v in ctx[(k0, q)][1](*wide)] for q in (False, True))
        sc = np.maximum(np.maximum(np.abs(A[2]).max((1, 2)), np.abs(Pw[:n]).max((1, 2))), h ** 3 / 3)[:, None, None]
        close("forms:wide-cov", B[2] / sc, A[2] / sc, 0, 1e-9, "square-root against standard form, one step from a law of widely spread scales")
        st["probe.wide"] = n
    # the whole histories (problems without sensitive dependence, double precision)
    if spec["x64"] and ("ibm" in cfg["prob"] or cfg["prob"] == "harmonic_oscillator") and min(n_ok.values()) == N + 1:
        close("forms:trajectory", outs[True][2], outs[False][2], 1e-5, 1e-7)
        close("forms:trajectory-cov", outs[True][3], outs[False][3], 1e-5, 1e-9)
    return {"stats": st, "sig": digest(P), "nontrivial": n >= 100}


def _filter(spec, ctx):
    import jax
    import jax.numpy as jnp
    cfg = spec["cfg"]
    dyn, funcs, x0, d, m, bound = _problem(cfg, spec["pseed"], ctx)
    meth = cfg["meth"]
    M, K = meth["M"], cfg["N"] // meth["M"]
    h = cfg["delta"]
    n = prior_states(meth["prior"])
    g = rs(spec["pseed"] + 7)
    R = build_noise(meth["noise"], d)
    mode = g.randint(3)
    G0 = np.zeros((d * n, d * n)) if mode == 0 else g.normal(size=(d * n, d * n)) * 0.3
    if mode == 2:
        G0[:, d * n // 2:] = 0.0  # singular
    m0, P0 = g.normal(size=d * n) * 0.5, G0 @ G0.T
    w, v = np.linalg.eigh(P0)
    L0 = (v * np.sqrt(np.maximum(w, 0))) @ v.T
    outs = {}
    for sq in (False, True):
        k = (json.dumps(cfg, sort_keys=True), sq)
        if k not in ctx:
            kw = {}
            pr = build_prior(meth["prior"], h, d)
            if pr is not None:
                kw["prior"] = pr

            def chain(dyn, m0, P0, R, sq=sq, kw=kw):
                drift, _ = funcs(dyn)
                if meth["noise"]:
                    kw = dict(kw, noise=R)

                def body(c, t):
                    x, S, z = lib.ode_ekf(c, lambda y, u: drift(y, u + t), h, M, sqrt=sq, EKF0=meth["name"] == "ekf0", return_all=True, n_states=n, **kw)
                    return x, (x[0], x[1], S, z)
                return jax.lax.scan(body, (m0, P0), jnp.arange(K) * (M * h))[1]

            def one(dyn, t, m0, P0, R, sq=sq, kw=kw):
                drift, _ = funcs(dyn)
                if meth["noise"]:
                    kw = dict(kw, noise=R)
                x, S, z = lib.ode_ekf((m0, P0), lambda y, u: drift(y, u + t), h, M, sqrt=sq, EKF0=meth["name"] == "ekf0", return_all=True, n_states=n, **kw)
                return x[0], x[1], S
            ctx[k] = jax.jit(chain), jax.jit(jax.vmap(one, (None, 0, 0, 0, None)))
        jd, jR = {k_: jnp.asarray(v) for k_, v in dyn.items()}, jnp.asarray(R if R is not None else np.zeros((d, d)))
        outs[sq] = [np64(v) for v in ctx[k][0](jd, jnp.asarray(m0), jnp.asarray(L0 if sq else P0), jR)]
        if _diverged32(spec, *outs[sq]):
            break
    tol = 1e-8 if spec["x64"] else 2e-3
    F = {}
    for sq, (mean, P, S, z) in outs.items():
        where = "square-root" if sq else "standard"
        al = _alive(mean, 1e3)  # a method that diverges on the problem (stiffness) is outside the property
        mean, P, S, z = mean[:al], P[:al], S[:al], z[:al]
        if not np.isfinite(mean).all():
            raise Violation("nan:mean", f"{where} non-finite filter mean from a bounded state")
        if sq:
            if not np.isfinite(P).all():
                raise Violation("nan:posterior", "square-root factor not finite")
            P = P @ np.swapaxes(P, 1, 2)
        F[sq] = mean, P, S, z
        sc = np.maximum(np.abs(P).max((1, 2)), h)
        _valid("posterior", P, sc, tol, where)
        _valid("innovation", S, np.maximum(np.abs(S).max((1, 2)), 1e-300), tol, where)
        if (np.linalg.eigvalsh(0.5 * (S + np.swapaxes(S, 1, 2))).min(1) <= 0).any():
            raise Violation("singular:innovation", f"{where} innovation covariance not positive definite although the prior is")
    st = {"steps": 2 * K * M, "sim_time": 2 * K * M * h, "probe.filter": 1, "probe.float32": int(not spec["x64"]), "probe.sqrt": 1,
          "probe.noise": int(bool(meth["noise"])), "probe.singular": int(mode != 1), "fault.restart": 2 * K}
    if any(_diverged32(spec, *v) for v in outs.values()):
        return {"stats": {**st, "probe.diverged": 1}, "sig": digest(F[False][1]), "nontrivial": len(F[False][0]) * M >= 100}
    # both forms from the same states, every segment of the standard-form history
    al = max(len(F[False][0]) - 1, 1)
    k0 = json.dumps(cfg, sort_keys=True)
    ms, Ps = np.concatenate([m0[None], outs[False][0][:-1]]), np.concatenate([P0[None], outs[False][1][:-1]])
    ms, Ps = np.where(np.isfinite(ms), ms, 0.0), np.where(np.isfinite(Ps), Ps, 0.0)
    w, v = np.linalg.eigh(0.5 * (Ps + np.swapaxes(Ps, 1, 2)))
    Ls = (v * np.sqrt(np.maximum(w, 0))[:, None, :]) @ np.swapaxes(v, 1, 2)
    ts = jnp.arange(K) * (M * h)
    A = [np64(x)[:al] for x in ctx[(k0, False)][1](jd, ts, jnp.asarray(ms), jnp.asarray(Ps), jR)]
    B = [np64(x)[:al] for x in ctx[(k0, True)][1](jd, ts, jnp.asarray(ms), jnp.asarray(Ls), jR)]
    B[1] = B[1] @ np.swapaxes(B[1], 1, 2)
    rt = (1e-6 if n < 3 else 1e-4) if spec["x64"] else 2e-2  # innovations of smoother priors are worse conditioned
    for nm, i in (("mean", 0), ("cov", 1), ("innovation-cov", 2)):
        sc = np.maximum(np.abs(A[i]).reshape(al, -1).max(1), np.abs(Ps[:al]).max((1, 2)) if i else 1.0).reshape((al,) + (1,) * (A[i].ndim - 1))
        close(f"forms:{nm}", B[i] / sc, A[i] / sc, 0, rt, "square-root against standard form, one segment from the same state")
    return {"stats": st, "sig": digest(F[False][1]), "nontrivial": len(F[False][0]) * M >= 100}


def _sampled(spec, ctx):
    import jax
    import jax.numpy as jnp
    cfg = spec["cfg"]
    dyn, funcs, x0, d, m, bound = _problem(cfg, spec["pseed"], ctx)
    meth, N, delta = cfg["meth"], cfg["N"], cfg["delta"]
    args = ({k: jnp.asarray(v) for k, v in dyn.items()}, jnp.asarray(x0), prng(spec["kseed"]))
    ssm = meth["name"].startswith("ssm")
    sigs = []
    # single precision cannot carry the standard-form covariance of the marginalised filter (derivative variance 4 sigma^2/delta next to h)
    # through several observations when sigma is singular or badly conditioned; the square-root form must
    forms = (True,) if ssm and not spec["x64"] and meth["M"] > 1 else (False, True)
    st = {"steps": 2 * N, "sim_time": 2 * N * delta, "probe.sampled": 1, "probe.ssm": int(ssm), "probe.float32": int(not spec["x64"]),
          "probe.noise": int(bool(meth["noise"])), "probe.singular": 1, "probe.sqrt": 1}
    for sq in forms:
        k = (json.dumps(cfg, sort_keys=True), sq)
        if k not in ctx:
            def solve(dyn, x0, key, sq=sq):
                drift, sigma = funcs(dyn)
                if ssm:
                    s = {"ekf0": meth["name"] == "ssm0", "M": meth["M"], "sqrt": sq, "prior": meth["prior"], "sample": True, "noise": meth["noise"]}
                    return lib.ssm_parabola_ode_solver(key=key, drift=drift, sigma=sigma, x0=x0, delta=delta, N=N, solver=ssm_method(s, d))[:2]
                return lib.sde_solver(key=key, drift=drift, sigma=sigma, x0=x0, bm=_faulty_bm(cfg, m), delta=delta, N=N,
                                      ode_int=ode_method(dict(meth, sqrt=sq)))[:3]
            ctx[k] = jax.jit(solve)
        out = [np64(v) for v in ctx[k](*args)]
        s = out[1]
        if cfg.get("burst") and not sq:
            st["fault.noise_burst"] = int((np.abs(out[2]).max(1) > 4 * np.sqrt(delta)).sum())
        shape_check("traj", s, (N + 1, d))
        n = _alive(s, bound)
        if not np.isfinite(s[:n]).all():
            raise Violation("nan:sample", f"{'square-root' if sq else 'standard'} form {meth['name']}: non-finite state at "
                                          f"{int(np.argwhere(~np.isfinite(s[:n]).all(1))[0, 0])} from a bounded state")
        sigs.append(s)
        if _diverged32(spec, s):
            st["probe.diverged"] = 1
            break
    return {"stats": st, "sig": digest(*sigs), "nontrivial": N >= 100}


def shrink(spec):
    c = spec["cfg"]
    for N in (4, 20, 60, c["N"] // 2):
        if N < c["N"]:
            yield {**spec, "cfg": {**c, "N": N}}
    for k in ("noise", "prior"):
        if c["meth"].get(k):
            yield {**spec, "cfg": {**c, "meth": {**c["meth"], k: None}}}
    for k in ("burst", "stall"):
        if c.get(k):
            yield {**spec, "cfg": {**c, k: 0}}
    if c["meth"]["M"] > 1:
        yield {**spec, "cfg": {**c, "meth": {**c["meth"], "M": 1}}}
    if c["prob"] in ("family", "degenerate") and c["d"] > 1 and not c["meth"]["name"].startswith("ssm"):
        yield {**spec, "cfg": {**c, "d": 1, "m": 1}}
