"""C16: the marginalised (parabola-in-state) solver has the transition law of its filter, chained without memory."""
import json

import numpy as np

from .. import problems
from ..driver import problem_arrays
from ..engine import Violation, digest, rng_for
from ..problems import Ref
from ..simlib import close, eager, lib, np64, prng, rs, setup, shape_check, split_static, uncorrelated, white, whiten
from ..ssm import build, gen_cfg, ref_ssm, ssm_method

ID = "C16"
RULE = ("mean runs: a complete driver history without sampling, each transition compared with the reference extended filter at its absolute time; "
        "law runs: a batch of sampled histories whose every transition is whitened with the reference posterior; joint runs: point, increment and area "
        "drawn together from a given state and time; non-trivial when N >= 2 or the joint law is tested")
MEASURE = "distinct digests of the trajectories"
REAL = ["ssm_parabola_ode_solver", "ssm_parabola.ekf/ekf0/ekf1", "priors", "probnum.ekf"]
STUB = []
ASSUMPTIONS = ["float64 1e-7 relative (means), 7 standard errors (laws); float32 mean runs 5e-3"]
PROBES = ("probe.mean", "probe.law", "probe.joint", "probe.sqrt", "probe.standard", "probe.noise", "probe.prior", "probe.substeps", "probe.time_shift",
          "probe.eager", "probe.float32", "probe.multi_dim")
QUICK_WALL = 600


def plan(seed, tier):
    G, R = (66, 3) if tier == "quick" else (600, 5)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        what = ["mean", "law", "joint"][g % 3]
        cfg = gen_cfg(r, sample=what != "mean", Ns=(1, 2, 5, 12) if what != "joint" else (1,))
        x64 = what != "mean" or r.random() < 0.8
        if what == "mean" and x64:
            cfg["amp"] = r.choice([1.0, 1.0, 1e-2, 1e-4, 3.0])
            if r.random() < 0.3:
                cfg["delta"] = r.choice([1e-3, 0.7])
        if what != "mean" and r.random() < 0.2:
            cfg["delta"] = 0.5
        if not x64:
            cfg["delta"] = max(cfg["delta"], 0.1)
            cfg["ssm"]["M"] = min(cfg["ssm"]["M"], 2)
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, g, i)
            ch.append({"what": what, "cfg": cfg, "x64": x64, "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31),
                       "mode": "eager" if what == "mean" and i == 0 and cfg["N"] <= 2 else "jit", "total": 12000 if tier == "quick" else 40000})
        chunks.append(ch)
    a = [c for c in chunks if c[0]["x64"]]
    b = [c for c in chunks if not c[0]["x64"]]
    return [sum(v[i:i + 3], []) for v in (a, b) for i in range(0, len(v), 3)]


def _dropzero(res, C):
    """Whiten rows of a possibly singular law: along null directions the residual must vanish."""
    w, V = np.linalg.eigh(0.5 * (C + np.swapaxes(C, -1, -2)))
    return w, V


def execute(spec, ctx):
    setup(spec["x64"])
    import jax
    import jax.numpy as jnp
    cfg = spec["cfg"]
    s, N, d, delta = cfg["ssm"], cfg["N"], cfg["d"], cfg["delta"]
    P, x0 = problem_arrays(cfg, spec["pseed"])
    dyn, p = split_static(P)
    ref = Ref(P)
    dynj = {k: jnp.asarray(v) for k, v in dyn.items()}
    ck = (spec["what"], json.dumps(cfg, sort_keys=True))
    st = {f"probe.{spec['what']}": 1, "probe.sqrt": int(bool(s["sqrt"])), "probe.standard": int(not s["sqrt"]), "probe.noise": int(bool(s["noise"])),
          "probe.prior": int(bool(s["prior"])), "probe.substeps": int(s["M"] > 1), "probe.eager": int(spec["mode"] == "eager"),
          "probe.float32": int(not spec["x64"]), "probe.multi_dim": int(d > 1)}
    rt = 1e-7 if spec["x64"] else 5e-3
    if spec["what"] == "mean":
        if spec["mode"] == "eager":
            with eager():
                out = build(cfg, p)(dynj, jnp.asarray(x0), prng(spec["kseed"]))
        else:
            if ck not in ctx:
                ctx[ck] = jax.jit(build(cfg, p))
            out = ctx[ck](dynj, jnp.asarray(x0), prng(spec["kseed"]))
        ts, traj = np64(out[0]), np64(out[1])
        shape_check("traj", traj, (N + 1, d))
        close("time-grid", ts, np.arange(N + 1) * delta, 1e-12 if spec["x64"] else 1e-6)
        close("initial", traj[0], x0, 1e-12 if spec["x64"] else 1e-6)
        m, _ = ref_ssm(cfg, ref, traj[:-1], np.arange(N) * delta)
        close("mean-step", traj[1:], m[:, ::4], rt, rt, "transition means")
        st.update(steps=N, sim_time=N * delta)
        return {"stats": st, "sig": digest(traj), "nontrivial": N >= 2}
    if spec["what"] == "law":
        L = max(64, spec["total"] // N)
        keys = jax.random.split(prng(spec["kseed"]), L)
        if ck not in ctx:
            ctx[ck] = jax.jit(jax.vmap(build(cfg, p), (None, None, 0)))
        traj = np64(ctx[ck](dynj, jnp.asarray(x0), keys)[1])
        shape_check("traj", traj, (L, N + 1, d))
        if not np.isfinite(traj).all():
            raise Violation("law:finite", "non-finite states")
        t0 = np.broadcast_to(np.arange(N) * delta, (L, N))
        m, C = ref_ssm(cfg, ref, traj[:, :-1], t0)
        Z = whiten(traj[:, 1:] - m[..., ::4], C[..., ::4, ::4])
        white("transition", Z.reshape(-1, d))
        if N >= 2:
            uncorrelated("transition:steps", Z[:, :-1].reshape(-1, d), Z[:, 1:].reshape(-1, d))
        if N >= 5:
            uncorrelated("transition:steps3", Z[:, :-3].reshape(-1, d), Z[:, 3:].reshape(-1, d))
        uncorrelated("transition:lanes", Z[:-1].reshape(-1, d), Z[1:].reshape(-1, d))
        st.update(steps=L * N, sim_time=L * N * delta, residuals=L * N)
        return {"stats": st, "sig": digest(traj), "nontrivial": N >= 2}
    # joint law of (point, increment, area) from a given state at a given absolute time
    g = rs(spec["pseed"] + 3)
    t0 = float(g.choice([0.0, 0.37, 2.5]))
    K = spec["total"]
    if ck not in ctx:
        def one(dyn, x, t, key):
            drift, sigma = problems.jfuncs({**dyn, "p": p})
            return ssm_method(s, d)(key, init=x, drift=lambda z, u: drift(z, u + t), diffusion=lambda z, u: sigma(z, u + t), T=delta)
        ctx[ck] = jax.jit(jax.vmap(one, (None, None, None, 0)))
    out = ctx[ck](dynj, jnp.asarray(x0), jnp.asarray(t0), jax.random.split(prng(spec["kseed"]), K))
    for nm, v in zip(("point", "increment", "area"), out):
        shape_check(nm, v, (K, d))
    X = np.concatenate([np64(v) for v in out], 1)
    m, C = ref_ssm(cfg, ref, x0, t0)
    idx = np.concatenate([np.arange(0, 4 * d, 4), np.arange(2, 4 * d, 4), np.arange(3, 4 * d, 4)])
    C = C[np.ix_(idx, idx)]
    D = 1 / np.sqrt(np.diag(C))  # correlation scale before the eigen-decomposition
    Rm, V = np.linalg.eigh(C * D[:, None] * D[None, :])
    r = (X - m[idx]) * D
    keep = Rm > 1e-8
    white("joint", (r @ V[:, keep]) / np.sqrt(Rm[keep]))
    if (~keep).any():
        close("joint:null", r @ V[:, ~keep], np.zeros((K, int((~keep).sum()))), 0, 1e-2)
    st.update(steps=K, sim_time=K * delta, residuals=K, **{"probe.time_shift": int(t0 > 0)})
    return {"stats": st, "sig": digest(X), "nontrivial": True}


def shrink(spec):
    c = spec["cfg"]
    for N in (1, 2):
        if N < c["N"]:
            yield {**spec, "cfg": {**c, "N": N}}
    if c["d"] > 1:
        yield {**spec, "cfg": {**c, "d": 1, "m": 1}}
    for k in ("noise", "prior"):
        if c["ssm"][k]:
            yield {**spec, "cfg": {**c, "ssm": {**c["ssm"], k: None}}}
    if c["ssm"]["M"] > 1:
        yield {**spec, "cfg": {**c, "ssm": {**c["ssm"], "M": 1}}}
    if c["ssm"]["sqrt"]:
        yield {**spec, "cfg": {**c, "ssm": {**c["ssm"], "sqrt": False}}}
