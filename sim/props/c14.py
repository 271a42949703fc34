"""C14: sampled states follow the reported posterior law, freshly at every step."""
import json

import numpy as np

from .. import problems
from ..driver import PRIORSN, build, make_cfg, problem_arrays, ref_step, shrink_common
from ..engine import Violation, digest, rng_for
from ..problems import Ref
from ..simlib import close, np64, prior_states, prng, setup, shape_check, split_static, uncorrelated, white, whiten

ID = "C14"
RULE = ("one run = a batch of complete sampled solves (one configuration and problem, independent keys); every transition of every history is "
        "whitened with the posterior law of an independent reference filter and the residual series is tested; non-trivial when N >= 2")
MEASURE = "distinct digests of the sampled trajectories"
REAL = ["sde_solver", "ekf0/ekf1/ekf0_2/ekf1_2 with a key", "priors", "foster_polynomial generators"]
STUB = []
ASSUMPTIONS = ["7 standard errors on first to fourth and cross moments of the whitened residuals", "float64; the reference posterior is exact to 1e-6"]
PROBES = ("probe.point", "probe.mixture", "probe.mean_mode", "probe.sqrt", "probe.standard", "probe.noise", "probe.prior", "probe.states3", "probe.substeps",
          "probe.history")
QUICK_WALL = 600


def plan(seed, tier):
    G, R = (40, 5) if tier == "quick" else (420, 3)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        cfg = make_cfg(r, names=(["ekf0", "ekf1"] if g % 2 == 0 else ["ekf0_2", "ekf1_2"]), sample=True, Ns=[1, 2, 5, 12])
        cfg["bm"] = {"kind": r.choice(["approx", "approx", "brownian", "fine"]), "n": r.choice([1, 2, 4])}
        cfg["d"] = min(cfg["d"], 3)
        if g % 10 in (0, 2):  # four states, both forms, both orders
            cfg["meth"].update(name=["ekf0", "ekf1"][g // 10 % 2], sqrt=g % 10 == 0, prior=r.choice([p for p in PRIORSN if prior_states(p) == 4]))
        q = prior_states(cfg["meth"]["prior"])
        if q >= 3:  # the posterior variance of the point must stand clear of the rounding of the whole state covariance
            cfg["meth"]["M"] = min(cfg["meth"]["M"], 2 if q == 3 else 1)
            cfg["delta"] = max(cfg["delta"], 0.2 if q == 3 else 0.3)
        if q == 2 and r.random() < 0.15:
            cfg["delta"] = 0.6
        cfg["m"] = cfg["d"] if cfg["kind"].startswith("diag") else min(cfg["m"], 3)
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, g, i)
            ch.append({"cfg": cfg, "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31), "total": 12000 if tier == "quick" else 40000})
        chunks.append(ch)
    return [sum(chunks[i:i + 2], []) for i in range(0, len(chunks), 2)]


def execute(spec, ctx):
    setup(True)
    import jax
    import jax.numpy as jnp
    cfg = spec["cfg"]
    N, d, m, delta = cfg["N"], cfg["d"], cfg["m"], cfg["delta"]
    meth = cfg["meth"]
    P, x0 = problem_arrays(cfg, spec["pseed"])
    dyn, p = split_static(P)
    ref = Ref(P)
    dynj = {k: jnp.asarray(v) for k, v in dyn.items()}
    L = max(64, spec["total"] // N)
    keys = jax.random.split(prng(spec["kseed"]), L)
    ck = json.dumps(cfg, sort_keys=True)
    if ck not in ctx:
        mean_cfg = dict(cfg, meth=dict(meth, sample=False))
        ctx[ck] = (jax.jit(jax.vmap(build(cfg, p), (None, None, 0))), jax.jit(build(mean_cfg, p)))
    out = jax.tree_util.tree_map(np64, ctx[ck][0](dynj, jnp.asarray(x0), keys))
    traj, a, b = out[1], out[2], out[3]
    shape_check("coeff", a, (L, N, m))
    t0 = np.broadcast_to(np.arange(N) * delta, (L, N))
    triple = meth["name"].endswith("_2")
    n = prior_states(meth.get("prior"))
    if triple:
        s, mean, cov = traj
        fm, fP = ref_step(cfg, ref, (None, mean[:, :-1], cov[:, :-1]), t0, a, b)[:2]
        n = 2
        # the propagated law does not depend on the draws
        close("mixture-mean", mean[:, 1:], fm[..., ::2], 1e-7, 1e-9, "propagated mean")
        res = s[:, 1:] - mean[:, 1:]
        C = fP[..., ::2, ::2]
    else:
        s = traj
        fm, fP = ref_step(cfg, ref, s[:, :-1], t0, a, b)
        res = s[:, 1:] - fm[..., ::n]
        C = fP[..., ::n, ::n]
    if not np.isfinite(s).all():
        raise Violation("law:finite", "non-finite samples")
    # whiten, dropping directions without posterior variance (there the state must be the mean)
    Z, idx = _whiten(res, C)
    white("posterior", Z.reshape(-1, d))
    if N >= 2:
        uncorrelated("posterior:steps", Z[:, :-1].reshape(-1, d), Z[:, 1:].reshape(-1, d))
    if N >= 5:
        uncorrelated("posterior:steps3", Z[:, :-3].reshape(-1, d), Z[:, 3:].reshape(-1, d))
    uncorrelated("posterior:lanes", Z[:-1].reshape(-1, d), Z[1:].reshape(-1, d))
    w = [a / np.sqrt(delta)]
    nb = cfg["bm"].get("n", 1) if cfg["bm"]["kind"] == "brownian" else 10 ** 9
    if nb > 1:
        w.append(b / np.sqrt(delta / 2 * (1 - 1.0 / nb ** 2)))
    W = np.concatenate(w, -1)
    for lag in (0, 1):
        if N > lag:
            uncorrelated(f"posterior:noise{lag}", Z[:, lag:].reshape(-1, d), W[:, :N - lag].reshape(-1, W.shape[-1]))
            uncorrelated(f"posterior:noise-{lag}", Z[:, :N - lag].reshape(-1, d), W[:, lag:].reshape(-1, W.shape[-1]))
    # dependence invisible to correlation: signs and squares
    if nb > 1:
        q = min(d, W.shape[-1])
        A2 = (Z[..., :q].reshape(-1, q) ** 2 - 1) / np.sqrt(2)
        B2 = (W[..., :q].reshape(-1, q) ** 2 - 1) / np.sqrt(2)
        if np.abs((A2 * B2).mean(0)).max() > 11 / np.sqrt(len(A2)):
            raise Violation("law:posterior:noise:dependence", "squared residuals correlate with squared noise")
    # no key: the mean
    o = jax.tree_util.tree_map(np64, ctx[ck][1](dynj, jnp.asarray(x0), keys[0]))
    t1 = np.arange(N) * delta
    if triple:
        close("mean-mode", o[1][0], o[1][1], 0, 0, "sample slot without a key")
        close("mean-mode-law", o[1][1], mean[0], 1e-9, 1e-11)
        close("mean-mode-cov", o[1][2], cov[0], 1e-7, 1e-12)
    else:
        rm_, _ = ref_step(cfg, ref, o[1][:-1], t1, o[2], o[3])
        close("mean-mode", o[1][1:], rm_[..., ::n], 1e-7, 1e-9)
    close("mean-mode-noise", o[2], a[0], 1e-12, 1e-14, "the noise does not depend on the sampling mode")
    st = {"steps": L * N, "sim_time": L * N * delta, "residuals": L * N, "probe.point": int(not triple), "probe.mixture": int(triple), "probe.mean_mode": 1,
          "probe.sqrt": int(bool(meth["sqrt"])), "probe.standard": int(not meth["sqrt"]), "probe.noise": int(bool(meth["noise"])),
          "probe.prior": int(bool(meth["prior"])), "probe.states3": int(n >= 3), "probe.substeps": int(meth["M"] > 1), "probe.history": int(N >= 5)}
    return {"stats": st, "sig": digest(s), "nontrivial": N >= 2}


def _whiten(res, C):
    return whiten(res, C), None


def shrink(spec):
    for s in shrink_common(spec):
        yield s
