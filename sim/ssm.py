"""Marginalised-parabola (SSM) driver configurations."""
import json

import numpy as np

from . import problems, refmodels as rm
from .driver import gen_problem, size
from .simlib import build_noise, build_prior, lib, np64, ref_prior

PRIORS1 = [None, {"kind": "ibm", "q": 1, "sigma": 1.7}, {"kind": "matern", "k": 1, "mag": 1.2, "len": 1.1},
           {"kind": "lti", "q": 1, "seed": 3}]


def gen_cfg(r, sample=True, Ns=(1, 2, 3, 5, 8)):
    cfg = gen_problem(r, square=True)
    if cfg["kind"] == "scalar":
        cfg["d"] = cfg["m"] = 1
    cfg["m"] = cfg["d"]
    cfg["pidx"] = r.randrange(1000)
    cfg["ssm"] = {"ekf0": r.random() < 0.5, "M": size(r, [1, 1, 2, 4, 7]), "sqrt": r.choice([True, False, None]),
                  "prior": r.choice(PRIORS1), "sample": sample,
                  "noise": {"seed": r.randrange(10 ** 6), "scale": r.choice([1e-3, 1e-1])} if r.random() < 0.3 else None}
    cfg["delta"] = r.choice([0.01, 0.05, 0.1, 0.2, round(r.uniform(0.01, 0.2), 4)])
    cfg["N"] = size(r, Ns)
    return cfg


def one_prior(spec, h):
    return build_prior(spec, h, 1)


def ssm_method(s, d):
    M = s["M"]

    def solver(key, init, drift, diffusion, T):
        import jax.numpy as jnp
        h = T / M
        kw = {}
        if s["sqrt"] is not None:
            kw["sqrt"] = s["sqrt"]
        pr = one_prior(s["prior"], h)
        if pr is not None:
            kw["prior"] = pr
        if s["noise"]:
            kw["noise"] = jnp.asarray(build_noise(s["noise"], d))
        fn = lib.ekf0_marginal_parabola if s["ekf0"] else lib.ekf1_marginal_parabola
        return fn(key if s.get("sample", True) else None, init=init, delta=T, drift=drift, diffusion=diffusion,
                  h=h, N=M, **kw)

    return solver


def build(cfg, p):
    def solve(dyn, x0, key):
        drift, sigma = problems.jfuncs({**dyn, "p": p})
        return lib.ssm_parabola_ode_solver(key=key, drift=drift, sigma=sigma, x0=x0, delta=dyn.get("delta", cfg["delta"]), N=cfg["N"],
                                           solver=ssm_method(cfg["ssm"], cfg["d"]))
    return solve


def ref_ssm(cfg, ref, x, t0):
    """(m, P) of the reference extended filter after one step from x at absolute time t0."""
    s = cfg["ssm"]
    h = cfg["delta"] / s["M"]
    prior = ref_prior(s["prior"], h, 1)
    return rm.ref_alg4(np64(x), ref, t0, cfg["delta"], prior, h, s["M"], s["ekf0"], build_noise(s["noise"], cfg["d"]))
