"""C05: time grid and causal window of the dynamics."""
import copy

import numpy as np

from .. import problems, ssm
from ..driver import (size, build, chunked, initial_state, make_cfg, problem_arrays, run_driver, shrink_common)
from ..engine import Violation, digest, rng_for
from ..faults import Seams
from ..simlib import (as_f, bitwise, close, eager, lib, library_bm, np64, ode_method, prng, rs, setup, shape_check, split_static)

ID = "C05"
RULE = ("one run = one driver history whose drift/diffusion record the absolute times they are asked for (eager), or whose dynamics "
        "are switched off (NaN) outside the solved interval (compiled); non-trivial when at least two steps ran and both dynamics were consulted")
MEASURE = "distinct digests of the recorded (step, role, time) event log and the time grid"
REAL = ["sde_solver", "ssm_parabola driver and solvers", "ode_solvers", "euler_maruyama (both)", "generators"]
STUB = ["caller dynamics (recording seams)", "terminal stream"]
ASSUMPTIONS = ["window tolerance 1e-9*delta in float64 plus rounding of the absolute time"]
PROBES = ("probe.sde", "probe.ssm", "probe.em", "probe.blackout", "probe.long", "fault.outage_outside_interval", "fault.outage_after_step")


def _cfg(r, kind, sample, long=False):
    if kind == "ssm":
        cfg = ssm.gen_cfg(r, sample=sample, Ns=(1, 2, 3, 4, 6) if not long and r.random() < 0.7 else (8, 14, 30))
    else:
        cfg = make_cfg(r, Ns=[1, 2, 3, 4, 6] if not long and r.random() < 0.8 else [8, 14, 30], sample=sample)
    if kind == "em":
        cfg["N"] = size(r, [1, 2, 5, 9, 40])
    if r.random() < 0.25:  # awkward step sizes
        cfg["delta"] = r.choice([1 / 3, 0.7, 1e-3, 0.1 + 1e-9])
    if long:  # compiled only
        cfg["N"] = size(r, [17, 65, 130, 257, 300, 1030] if kind != "em" else [130, 300, 1030])
        cfg["delta"] = r.choice([0.003, 0.002, 1 / 700])
    return cfg


def plan(seed, tier):
    n, G, R = (150, 24, 8) if tier == "quick" else (1500, 200, 12)
    chunks, rec = [], []
    for i in range(n):
        r = rng_for(seed, ID, "rec", i)
        kind = ["sde", "sde", "sde", "ssm", "em"][i % 5]
        rec.append({"kind": kind, "mode": "record", "pseed": r.randrange(2 ** 31), "kseed": r.randrange(2 ** 31),
                    "pathwise": r.random() < 0.5, "standard": r.random() < 0.5, "cfg": _cfg(r, kind, r.random() < 0.5)})
    rec.sort(key=lambda s: (s["cfg"]["d"], s["cfg"]["m"], s["kind"]))  # shapes in common share warm-up
    chunks += chunked(rec, 10)
    for g in range(G):
        r = rng_for(seed, ID, "out", g)
        kind = ["sde", "sde", "sde", "ssm", "em"][g % 5]
        cfg = _cfg(r, kind, r.random() < 0.5, long=g % 3 == 0)
        pw, sd = r.random() < 0.5, r.random() < 0.5
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, "out", g, i)
            ch.append({"kind": kind, "mode": "blackout", "cfg": cfg, "pathwise": pw, "standard": sd,
                       "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31),
                       "fault": q.choice(["interval", "after"]), "after": q.choice([0, cfg["N"] - 1, q.randrange(cfg["N"])])})
        chunks.append(ch)
    return chunks


def _solve(spec, p, dyn, x0, key, incs, wrap=None):
    import jax.numpy as jnp
    cfg = spec["cfg"]
    drift, sigma = problems.jfuncs({**dyn, "p": p})
    if wrap:
        drift, sigma = wrap.drift(drift), wrap.sigma(sigma)
    if spec["kind"] == "em":
        if spec["pathwise"]:
            return lib.euler_maruyama_pathwise(incs, init=x0, drift=drift, sigma=sigma, h=cfg["delta"], N=cfg["N"],
                                               standard=spec["standard"])
        return lib.euler_maruyama(key, init=x0, drift=drift, sigma=sigma, h=cfg["delta"], N=cfg["N"])
    if spec["kind"] == "ssm":
        s = ssm.ssm_method(cfg["ssm"], cfg["d"])
        return lib.ssm_parabola_ode_solver(key=key, drift=drift, sigma=sigma, x0=x0, delta=cfg["delta"],
                                           N=cfg["N"], solver=wrap.ssm(s) if wrap else s)
    oi = ode_method(cfg["meth"])
    return lib.sde_solver(key=key, drift=drift, sigma=sigma, x0=initial_state(cfg["meth"], x0, jnp),
                          bm=library_bm(cfg["bm"], cfg["m"]), delta=cfg["delta"], N=cfg["N"],
                          ode_int=wrap.ode_int(oi) if wrap else oi)


def execute(spec, ctx):
    setup(True)
    import jax
    cfg = spec["cfg"]
    N, delta, d = cfg["N"], cfg["delta"], cfg["d"]
    P, x0 = problem_arrays(cfg, spec["pseed"])
    import functools

    import jax.numpy as jnp
    key = prng(spec["kseed"])
    incs = jnp.asarray(rs(spec["kseed"]).normal(size=(N, cfg["m"])) * 0.1)
    dyn, p = split_static(P)
    dyn = {k: jnp.asarray(v) for k, v in dyn.items()}
    x0j = jnp.asarray(x0)
    st = {"sim_time": N * delta, "steps": N, f"probe.{spec['kind']}": 1}
    if spec["mode"] == "record":
        w = Seams()
        with eager():
            out = _solve(spec, p, dyn, x0j, key, incs, w)
        ts, traj = out[0], out[1]
        tol = 1e-9 * delta + 4e-16 * N * delta * 8
        seen = set()
        for step, role, t in w.times:
            if t is None:
                continue
            if spec["kind"] == "em":
                if t < -tol or t > (N - 1) * delta + tol:
                    raise Violation("window:outside-interval", f"{role} consulted at {t!r}, solve covers [0, {N * delta}]")
                k = round(t / delta)
                if abs(t - k * delta) > tol:
                    raise Violation("window:off-grid", f"{role} consulted at {t!r}, grid step {delta}")
                seen.add((role, k))
            elif step >= 0:
                lo, hi = step * delta - tol, (step + 1) * delta + tol
                if not lo <= t <= hi:
                    raise Violation("window:outside-step", f"{role} consulted at t={t!r} during step {step} = [{step * delta}, {(step + 1) * delta}]")
                seen.add((role, step))
            elif t < -tol or t > N * delta + tol:
                raise Violation("window:outside-interval", f"{role} consulted at {t!r}, solve covers [0, {N * delta}]")
        if spec["kind"] != "em" and w.step >= 0 and w.step + 1 != N:
            raise Violation("steps:count", f"integrator called {w.step + 1} times for N={N}")
        for k in range(N if not w.abstract else 0):
            for role in ("drift", "sigma"):
                if (role, k) not in seen:
                    raise Violation("window:not-consulted", f"{role} never consulted in step {k}")
        st["events"] = len(w.times)
        sig = digest(ts, [f"{s} {r} {t}" for s, r, t in w.times])
    else:
        st["probe.blackout"] = 1
        st["probe.long"] = int(N > 64)
        if "fn" not in ctx or ctx["for"] != (cfg, spec["kind"], spec["pathwise"], spec["standard"]):
            ctx["for"] = (cfg, spec["kind"], spec["pathwise"], spec["standard"])
            ctx["fn"] = jax.jit(functools.partial(_solve, spec, p))
        base = ctx["fn"]({**dyn, "tlo": jnp.asarray(-jnp.inf), "thi": jnp.asarray(jnp.inf)}, x0j, key, incs)
        if spec["fault"] == "interval":
            lo, hi, upto = -1e-6 * delta, N * delta * (1 + 1e-9) + 1e-6 * delta, N
            st["fault.outage_outside_interval"] = 1
        else:
            upto = spec["after"]
            lo, hi = -1e-6 * delta, upto * delta + 1e-6 * delta
            st["fault.outage_after_step"] = 1
        out = ctx["fn"]({**dyn, "tlo": jnp.asarray(lo), "thi": jnp.asarray(hi)}, x0j, key, incs)
        ts, traj = out[0], out[1]
        for x, y in zip(jax.tree_util.tree_leaves(base[1]), jax.tree_util.tree_leaves(traj)):
            if not np.isfinite(np64(y)[:upto + 1]).all():
                raise Violation("outage:leaked", f"dynamics undefined outside [0, {hi}] made a state at or before step {upto} non-finite")
            bitwise("outage-prefix", np64(y)[:upto + 1], np64(x)[:upto + 1])
        sig = digest(ts, *jax.tree_util.tree_leaves(traj))
    shape_check("ts", ts, (N + 1,))
    close("time-grid", ts, np.arange(N + 1) * delta, 1e-13)
    for leaf in jax.tree_util.tree_leaves(traj):
        if leaf.shape[0] != N + 1:
            raise Violation("shape:traj", f"leading dimension {leaf.shape[0]} for N={N}")
    first = jax.tree_util.tree_leaves(traj)[0][0] if isinstance(traj, tuple) else traj[0]
    close("initial", first, x0, 1e-13)
    return {"stats": st, "sig": sig, "nontrivial": N >= 2}


def shrink(spec):
    for s in shrink_common(spec):
        if s["mode"] == "jit":
            continue
        if "after" in s:
            s["after"] = min(s["after"], s["cfg"]["N"] - 1)
        yield s
