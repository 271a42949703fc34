"""Seeded driver configurations: one place that builds and runs the library's SDE drivers under each execution mode."""
import json

import numpy as np

from . import problems, refmodels as rm
from .engine import HarnessError
from .simlib import (as_f, build_noise, eager, lib, library_bm, np64, ode_method, prior_states, prng, ref_prior,
                     rs, split_static, tape_bm)

PRIORS2 = [None, {"kind": "ibm", "q": 1, "sigma": 1.7}, {"kind": "matern", "k": 1, "mag": 1.2, "len": 1.1},
           {"kind": "lti", "q": 1, "seed": 3}, {"kind": "mixed", "q": 1}, {"kind": "matern_mc", "k": 1, "mag": 0.8, "len": 1.4}]
PRIORSN = [{"kind": "ibm", "q": 2, "sigma": 1.0}, {"kind": "matern", "k": 2, "mag": 1.1, "len": 1.3},
           {"kind": "lti", "q": 2, "seed": 4}, {"kind": "ibm", "q": 3, "sigma": 0.9}, {"kind": "mixed", "q": 2},
           {"kind": "mixed", "q": 3}]


def size(r, vals):
    """A size from the list, or any other between its extremes."""
    vals = list(vals)
    return r.choice(vals) if r.random() < 0.5 else r.randint(min(vals), max(vals))


def gen_method(r, names=("euler", "rk4", "ekf0", "ekf1", "ekf0_2", "ekf1_2"), sample=False):
    name = r.choice(list(names))
    meth = {"name": name, "M": size(r, [1, 1, 2, 3, 5, 8])}
    if name.startswith("ekf"):
        meth["sample"] = bool(sample)
        meth["sqrt"] = r.choice([True, False])
        meth["noise"] = {"seed": r.randrange(10 ** 6), "scale": r.choice([1e-3, 1e-1])} if r.random() < 0.25 else None
        if name in ("ekf0", "ekf1") and r.random() < 0.3:
            meth["prior"] = r.choice(PRIORSN)
        else:
            meth["prior"] = r.choice(PRIORS2)
    return meth


def gen_problem(r, square=False):
    kind = r.choice(["full", "full", "additive", "diag", "scalar", "autonomous", "time_additive", "diag_additive"])
    d = r.choice([1, 2, 2, 2, 3, 3, 3, 4, 4, 5])
    if kind == "scalar":
        m = 1
    elif kind.startswith("diag"):
        m = d
    else:
        m = r.choice([1, 2, 3, 5, d, d, d + 1])
    if square:
        m = d
    return {"kind": kind, "d": d, "m": m}


def gen_bm(r):
    k = r.choice(["approx", "brownian", "fine"])
    return {"kind": k, "n": size(r, [1, 2, 5, 16, 70]) if k != "approx" else 1}


def problem_arrays(cfg, pseed):
    g = rs(pseed)
    P = problems.make(g, cfg["d"], cfg["m"], cfg["kind"], cfg.get("scale", 1.0))
    # the index matrix is static: derive it from the group so that one compiled solve serves every run
    P["p"] = (rs(cfg.get("pidx", 0)).randint(0, cfg["d"], (cfg["d"], cfg["m"]))
              if not cfg["kind"].startswith("diag") else np.tile(np.arange(cfg["d"])[:, None], (1, cfg["m"])))
    x0 = g.uniform(-1, 1, cfg["d"])
    if cfg.get("amp", 1.0) != 1.0:
        P["amp"] = np.float64(cfg["amp"])
        x0 = x0 * cfg["amp"]
    return P, x0


def initial_state(meth, x0, xp):
    if meth["name"] in ("ekf0_2", "ekf1_2"):
        d = x0.shape[0]
        return (x0, x0, xp.zeros((d, d)))
    return x0


def build(cfg, p, tape=False):
    """Returns solve(dynP, x0, key[, keytab, a, b]) -> (ts, traj, coeffs...) with static configuration cfg."""
    import jax.numpy as jnp
    meth = cfg["meth"]
    ode_int = ode_method(meth)

    def solve(dyn, x0, key, *tp):
        drift, sigma = problems.jfuncs({**dyn, "p": p})
        bm = tape_bm(*tp) if tape else library_bm(cfg["bm"], cfg["m"])
        return lib.sde_solver(key=key, drift=drift, sigma=sigma, x0=initial_state(meth, x0, jnp), bm=bm,
                              delta=dyn.get("delta", cfg["delta"]), N=cfg["N"], ode_int=ode_int)

    return solve


def run_driver(cfg, P, x0, key, ctx, mode, tp=None):
    """One solve in the given mode. Returns nested numpy outputs."""
    import jax
    import jax.numpy as jnp
    dyn, p = split_static(P)
    dyn = {k: jnp.asarray(v) for k, v in dyn.items()}
    x0 = jnp.asarray(x0)
    args = (dyn, x0, key) + (tuple(jnp.asarray(t) for t in tp) if tp is not None else ())
    ck = ("drv", json.dumps(cfg, sort_keys=True), tp is not None)
    if mode == "jit":
        if ck not in ctx:
            ctx[ck] = jax.jit(build(cfg, p, tp is not None))
        out = ctx[ck](*args)
    elif mode == "vmap1":
        if ck + ("v",) not in ctx:
            ctx[ck + ("v",)] = jax.jit(jax.vmap(build(cfg, p, tp is not None)))
        stacked = jax.tree_util.tree_map(lambda v: jnp.stack([v, v]), args)
        out = jax.tree_util.tree_map(lambda v: v[1], ctx[ck + ("v",)](*stacked))
    elif mode == "plain":
        out = build(cfg, p, tp is not None)(*args)
    elif mode == "eager":
        with eager():
            out = build(cfg, p, tp is not None)(*args)
    else:
        raise HarnessError(mode)
    return jax.tree_util.tree_map(np.asarray, out)


def ref_step(cfg, ref, state, t0, a, b, batch=False):
    """Reference image of one driver step. Returns the deterministic part: state, or (m, P) for Gaussian methods."""
    meth, delta = cfg["meth"], cfg["delta"]
    M = meth["M"]
    h = delta / M
    name = meth["name"]
    fld = problems.Field(ref, t0, delta, a, b)
    d = ref.d
    if name == "euler":
        return rm.euler_ode(np64(state), fld, h, M)
    if name == "rk4":
        return rm.rk4_ode(np64(state), fld, h, M)
    R = build_noise(meth.get("noise"), d)
    prior = ref_prior(meth.get("prior"), h, d)
    ekf0 = name.startswith("ekf0")
    if name in ("ekf0", "ekf1"):
        return rm.ref_alg2(np64(state), fld, prior, h, M, ekf0, prior_states(meth.get("prior")), R)
    _, m0, P00 = state
    return rm.ref_alg3(np64(m0), np64(P00), fld, prior, h, M, ekf0, R)


def make_cfg(r, **kw):
    cfg = dict(gen_problem(r, kw.get("square", False)))
    cfg["pidx"] = r.randrange(1000)
    cfg["bm"] = gen_bm(r)
    cfg["meth"] = gen_method(r, kw.get("names", ("euler", "rk4", "ekf0", "ekf1", "ekf0_2", "ekf1_2")), kw.get("sample", False))
    cfg["delta"] = r.choice([0.01, 0.05, 0.1, 0.2, 0.3, round(r.uniform(0.01, 0.3), 4)])
    cfg["N"] = size(r, kw.get("Ns", [1, 2, 3, 5, 8, 17, 22]))
    return cfg


def chunked(specs, n):
    return [specs[i:i + n] for i in range(0, len(specs), n)]


def shrink_common(spec, keys=("N", "M", "d")):
    """Generic structural shrinking of a driver spec."""
    import copy
    cfg = spec["cfg"]
    for N in (1, 2, 3, cfg["N"] // 2, cfg["N"] - 1):
        if 1 <= N < cfg["N"]:
            s = copy.deepcopy(spec)
            s["cfg"]["N"] = N
            yield s
    if "meth" in cfg and cfg["meth"].get("M", 1) > 1:
        for M in (1, 2):
            if M < cfg["meth"]["M"]:
                s = copy.deepcopy(spec)
                s["cfg"]["meth"]["M"] = M
                yield s
    if cfg["kind"] != "additive":
        s = copy.deepcopy(spec)
        s["cfg"]["kind"] = "additive" if cfg["kind"] == "full" else cfg["kind"]
        yield s
    for d in (1, 2):
        if d < cfg["d"]:
            s = copy.deepcopy(spec)
            s["cfg"]["d"] = d
            s["cfg"]["m"] = d if cfg["kind"].startswith("diag") or cfg["m"] == cfg["d"] else min(cfg["m"], d)
            yield s
    if "meth" in cfg:
        for k in ("noise", "prior"):
            if cfg["meth"].get(k):
                s = copy.deepcopy(spec)
                s["cfg"]["meth"][k] = None
                yield s
        if cfg["meth"].get("sqrt"):
            s = copy.deepcopy(spec)
            s["cfg"]["meth"]["sqrt"] = False
            yield s
    if cfg.get("bm", {}).get("kind", "approx") != "approx":
        s = copy.deepcopy(spec)
        s["cfg"]["bm"] = {"kind": "approx", "n": 1}
        yield s
    if spec.get("mode") not in (None, "eager", "jit"):
        s = copy.deepcopy(spec)
        s["mode"] = "jit"
        yield s
