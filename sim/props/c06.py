"""C06: the trajectory is exactly the one driven by the returned coefficients (step-by-step refinement of a reference driver)."""
import numpy as np

from ..driver import (build, chunked, make_cfg, problem_arrays, ref_step, run_driver, shrink_common)
from ..engine import Violation, digest, rng_for
from ..problems import Ref
from ..simlib import close, np64, prior_states, prng, setup, shape_check

ID = "C06"
RULE = ("one run = one complete driver history (configuration x problem x key drawn from the seed); every step is replayed in the "
        "reference driver from the returned coefficients; non-trivial when noise acted and N >= 2")
MEASURE = "distinct digests of (time grid, trajectory, coefficients)"
REAL = ["bayesian_sde_solver.sde_solver", "foster_polynomial generators", "ode_solvers.*", "probnum priors and EKF",
        "ito_stratonovich", "utils.progress_bar"]
STUB = ["terminal stream (null)", "rk4 ODE integrator (harness) in some runs"]
ASSUMPTIONS = ["float64 runs compared at 1e-7 relative per step; float32 runs at 2e-3", "Ito drift conversion is done by the caller"]
PROBES = ("probe.mode_eager", "probe.mode_jit", "probe.mode_plain", "probe.mode_vmap1", "probe.gaussian_triple", "probe.float32")


def plan(seed, tier):
    G, R = (56, 6) if tier == "quick" else (400, 10)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, "g", g)
        cfg = make_cfg(r)
        x64 = r.random() < 0.85
        if x64:
            cfg["amp"] = r.choice([1.0, 1.0, 1e-2, 1e-4, 10.0])
            if prior_states(cfg["meth"].get("prior")) == 2 and r.random() < 0.35:
                cfg["delta"] = r.choice([1e-5, 1e-3, 0.7, 2.0])
        if not x64:
            cfg["delta"] = max(cfg["delta"], 0.05)
        if not x64 and (cfg["meth"].get("prior") or {}).get("q", 1) > 1:
            cfg["meth"]["prior"] = None
        specs = []
        for i in range(R):
            q = rng_for(seed, ID, g, i)
            mode = "jit" if i >= 3 else ["eager", "plain", "vmap1"][i]
            if mode == "eager" and cfg["N"] > 8:
                mode = "jit"
            specs.append({"cfg": cfg, "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31), "mode": mode, "x64": x64})
        chunks.append(specs)
    return _pair(chunks)


def _pair(chunks):
    out, pend = [], {}
    for c in chunks:
        k = c[0]["x64"]
        if k in pend:
            out.append(pend.pop(k) + c)
        else:
            pend[k] = c
    return out + list(pend.values())


def execute(spec, ctx):
    setup(spec["x64"])
    cfg = spec["cfg"]
    P, x0 = problem_arrays(cfg, spec["pseed"])
    ref = Ref(P)
    out = run_driver(cfg, P, x0, prng(spec["kseed"]), ctx, spec["mode"])
    ts, traj, coeffs = out[0], out[1], out[2:]
    N, d, m, delta = cfg["N"], cfg["d"], cfg["m"], cfg["delta"]
    rt = 1e-7 if spec["x64"] else 2e-3
    shape_check("ts", ts, (N + 1,))
    close("time-grid", ts, np.arange(N + 1) * delta, 1e-12 if spec["x64"] else 1e-6)
    a, b = np64(coeffs[0]), np64(coeffs[1])
    shape_check("coeff0", a, (N, m))
    shape_check("coeff1", b, (N, m))
    triple = cfg["meth"]["name"] in ("ekf0_2", "ekf1_2")
    if triple:
        shape_check("sample", traj[0], (N + 1, d))
        shape_check("mean", traj[1], (N + 1, d))
        shape_check("cov", traj[2], (N + 1, d, d))
        close("initial", traj[1][0], x0, 1e-12 if spec["x64"] else 1e-6)
        close("initial-sample", traj[0][0], x0, 1e-12 if spec["x64"] else 1e-6)
        close("initial-cov", traj[2][0], np.zeros((d, d)), 0, 0)
        fm, fP = ref_step(cfg, ref, (None, np64(traj[1][:-1]), np64(traj[2][:-1])), np.arange(N) * delta, a, b)[:2]
        close("mean", traj[1][1:], fm[:, ::2], rt, rt, "steps")
        close("sample", traj[0][1:], fm[:, ::2], rt, rt, "steps")
        for k in range(N):
            close("cov", traj[2][k + 1], fP[k, ::2, ::2], max(rt, 1e-6), 1e-11 if spec["x64"] else 1e-6, f"step {k}")
    else:
        shape_check("traj", traj, (N + 1, d))
        close("initial", traj[0], x0, 1e-12 if spec["x64"] else 1e-6)
        want = ref_step(cfg, ref, np64(traj[:-1]), np.arange(N) * delta, a, b)
        if isinstance(want, tuple):
            n = want[0].shape[-1] // d
            want = want[0][:, ::n]
        close("step", traj[1:], want, rt, rt, "steps")
    st = {"sim_time": N * delta, "steps": N, f"probe.mode_{spec['mode']}": 1, f"method.{cfg['meth']['name']}": 1,
          f"bm.{cfg['bm']['kind']}": 1, "probe.gaussian_triple": int(triple), "probe.float32": int(not spec["x64"])}
    return {"stats": st, "sig": digest(ts, list(out[1]) if triple else traj, *coeffs), "nontrivial": N >= 2 and np.abs(a).min() > 0}


def shrink(spec):
    yield from shrink_common(spec)
