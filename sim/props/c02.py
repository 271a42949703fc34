"""C02: batched solves are independent; a failing lane is contained and its failure is not hidden."""
import json

import numpy as np

from .. import problems, ssm
from ..driver import build, initial_state, make_cfg, problem_arrays, shrink_common
from ..engine import Violation, digest, rng_for
from ..simlib import bitwise, close, lib, np64, prng, rs, setup, split_static

ID = "C02"
RULE = ("one run = a batch of 2-9 solves (different keys, starts, parameters) run healthy, with a seed-chosen subset of lanes failing at "
        "seed-chosen times, and lane by lane alone; non-trivial when at least one lane failed and one stayed healthy")
MEASURE = "distinct digests of (batch outputs, fault assignment)"
REAL = ["sde_solver", "ssm driver", "ode_solvers", "generators", "euler_maruyama (both)", "1.5 schemes"]
STUB = ["caller dynamics with injected failures", "terminal stream"]
ASSUMPTIONS = ["lane alone vs in batch: 1e-8 relative to the path (different compiled programs); batch vs batch: bitwise"]
FAULTS = ["nan", "inf", "overflow", "x0_nan", "sigma_nan", "blowup"]
PROBES = tuple("fault." + f for f in FAULTS) + ("probe.sde", "probe.ssm", "probe.emkey", "probe.em", "probe.scheme15", "probe.float32", "probe.lane_delta", "probe.long")


def plan(seed, tier):
    G, R = (48, 8) if tier == "quick" else (320, 14)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        kind = ["sde", "sde", "sde", "ssm", "emkey", "em", "sde", "scheme15"][g % 8]
        Ns = [2, 3, 5, 8, 16]
        cfg = ssm.gen_cfg(r, sample=r.random() < 0.7, Ns=Ns) if kind == "ssm" else make_cfg(r, Ns=Ns, sample=r.random() < 0.7)
        if kind == "scheme15":
            cfg.update(kind="diag", d=r.choice([2, 3]), scheme=r.choice(["diag", "hypo"]))
            cfg["m"] = cfg["d"]
            cfg["delta"] = min(cfg["delta"], 0.1)
        # see C04: draws through singular square-root factors are not continuous in rounding
        s = cfg["ssm"] if kind == "ssm" else cfg["meth"]
        if kind == "sde" and g % 16 in (0, 2):
            s["name"] = "euler"
        if s.get("sample") and s.get("sqrt") and kind in ("sde", "ssm"):
            s["sqrt"] = False
        # single precision only where no LAPACK routine is involved (see the known finding)
        x64 = kind == "ssm" or (kind in ("sde", "scheme15") and not (kind == "sde" and s["name"] in ("euler", "rk4"))) or r.random() < 0.6
        if kind in ("em", "emkey") and r.random() < 0.3 or kind == "sde" and s["name"] in ("euler", "rk4") and r.random() < 0.2:
            cfg["N"], cfg["delta"] = r.choice([70, 300]), 0.002
        # the step size is one of the parameters a batch can differ in (priors given by the caller are built for one step)
        cfg["lane_delta"] = kind != "scheme15" and (kind in ("em", "emkey") or s["name" if kind == "sde" else "ekf0"] in ("euler", "rk4")
                                                    or s["prior"] is None) and r.random() < 0.6
        std = r.random() < 0.5
        lanes = r.choice([2, 3, 4, 7, 9])
        explicit = kind in ("em", "emkey") or kind == "sde" and s["name"] in ("euler", "rk4")
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, g, i)
            bad = sorted(q.sample(range(lanes), q.choice([1, 1, max(1, lanes // 2), lanes - 1])))
            ch.append({"kind": kind, "cfg": cfg, "x64": x64, "standard": std, "lanes": lanes,
                       "faults": [[b, q.choice(FAULTS + ["blowup"] * (3 if explicit else 0)), q.random() * (0.6 if explicit else 1.0)] for b in bad],
                       "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31), "mode": "jit"})
        chunks.append(ch)
    return chunks


def _one(spec, p):
    cfg, kind = spec["cfg"], spec["kind"]
    if kind == "sde":
        b = build(cfg, p)
        return lambda dyn, x0, key, incs: b(dyn, x0, key)
    if kind == "ssm":
        b = ssm.build(cfg, p)
        return lambda dyn, x0, key, incs: b(dyn, x0, key)

    def fn(dyn, x0, key, incs):
        drift, sigma = problems.jfuncs({**dyn, "p": p})
        h = dyn.get("delta", cfg["delta"])
        if kind == "em":
            return lib.euler_maruyama_pathwise(incs, init=x0, drift=drift, sigma=sigma, h=h, N=cfg["N"], standard=spec["standard"])
        if kind == "emkey":
            return lib.euler_maruyama(key, init=x0, drift=drift, sigma=sigma, h=h, N=cfg["N"])
        import jax.numpy as jnp
        t = -jnp.inf  # autonomous schemes: only start faults
        eye = jnp.eye(cfg["d"])
        if cfg["scheme"] == "diag":
            return lib.diag_15_scheme(key, init=x0, drift=lambda x: drift(x, 0.0), sigma=lambda x: sigma(x, 0.0) * eye, h=cfg["delta"], N=cfg["N"])
        mask = eye.at[0, 0].set(0.0)
        return lib.hypoelliptic_diffusion_15_scheme(key, init=x0, drift=lambda x: drift(x, 0.0), sigma=lambda x: sigma(x, 0.0) * mask,
                                                    h=cfg["delta"], N=cfg["N"])
    return fn


def execute(spec, ctx):
    setup(spec.get("x64", True))
    import jax
    import jax.numpy as jnp
    cfg, kind, Ln = spec["cfg"], spec["kind"], spec["lanes"]
    N, d, m, delta = cfg["N"], cfg["d"], cfg["m"], cfg["delta"]
    g = rs(spec["kseed"])
    fk = json.dumps([cfg, kind, spec["standard"], Ln], sort_keys=True)
    st = {"probe.float32": int(not spec.get("x64", True)), "steps": N * Ln * 2, "sim_time": N * Ln * delta * 2, f"probe.{kind}": 1,
          "probe.lane_delta": int(bool(cfg.get("lane_delta"))), "probe.long": int(N > 64)}
    dyns, x0s, keys = [], [], []
    for i in range(Ln):
        P, x0 = problem_arrays(cfg, spec["pseed"] + i)
        dy, p = split_static(P)
        dy.update(tstar=np.float64(np.inf), jump=np.zeros(d), tstar_s=np.float64(np.inf), jump_s=np.float64(0), tblow=np.float64(np.inf))
        if cfg.get("lane_delta"):
            dy["delta"] = np.float64(delta * (1 + 0.3 * i))
        dyns.append(dy)
        x0s.append(x0)
        keys.append(prng(spec["kseed"] + i))
    incs = g.normal(size=(Ln, N, m)) * 0.3
    fd = [dict(x) for x in dyns]
    fx = [x.copy() for x in x0s]
    first_bad = {}
    for b, f, frac in spec["faults"]:
        if kind == "scheme15":
            f = "x0_nan"
        if f == "blowup" and not (kind in ("em", "emkey") or kind == "sde" and cfg["meth"]["name"] in ("euler", "rk4")):
            f = "nan"
        db = float(dyns[b].get("delta", delta))
        ts_ = (int(frac * N) + 0.5 * (frac > 0.5)) * db + (1e-7 if spec.get("x64", True) else 0.01) * db  # beyond the rounding of absolute times
        k = int(np.floor(ts_ / db))
        if f == "x0_nan":
            fx[b][int(frac * d)] = np.nan
            k = -1
        elif f == "blowup":  # finite, super-linear dynamics: the explicit method itself overflows
            fd[b].update(tblow=np.float64(ts_))
        elif f == "sigma_nan":
            fd[b].update(tstar_s=np.float64(ts_), jump_s=np.float64(np.nan))
        else:
            fd[b].update(tstar=np.float64(ts_), jump=np.full(d, {"nan": np.nan, "inf": np.inf, "overflow": 1e305}[f]))
        first_bad[b] = (f, k)
        st[f"fault.{f}"] = st.get(f"fault.{f}", 0) + 1
    if fk not in ctx:
        one = _one(spec, p)
        ctx[fk] = (jax.jit(jax.vmap(one)), jax.jit(one))
    batch, solo = ctx[fk]
    stack = lambda ds: {k: jnp.stack([jnp.asarray(x[k]) for x in ds]) for k in ds[0]}
    K, I = jnp.stack(keys), jnp.asarray(incs)
    ok = jax.tree_util.tree_map(np.asarray, batch(stack(dyns), jnp.asarray(np.array(x0s)), K, I))
    bad = jax.tree_util.tree_map(np.asarray, batch(stack(fd), jnp.asarray(np.array(fx)), K, I))
    lo, lb = jax.tree_util.tree_leaves(ok), jax.tree_util.tree_leaves(bad)
    for i in range(Ln):
        if i not in first_bad:
            for x, y in zip(lo, lb):
                bitwise("healthy-lane", y[i], x[i], f"lane {i}, failing lanes {first_bad}")
    # a permuted batch is the permuted result
    perm = g.permutation(Ln)
    pm = batch(stack([dyns[i] for i in perm]), jnp.asarray(np.array([x0s[i] for i in perm])), K[perm], I[perm])
    samp = (cfg["ssm"] if kind == "ssm" else cfg["meth"]).get("sample") and kind in ("sde", "ssm")
    rt = (1e-6 if samp else 1e-8) if spec.get("x64", True) else 2e-3
    for x, y in zip(lo, jax.tree_util.tree_leaves(pm)):
        for a, i in enumerate(perm):
            close("permuted-batch", np64(y)[a], np64(x)[i], rt, 1e-2 * rt, f"lane {i} moved to {a}")
    # alone
    i = int(g.randint(Ln))
    alone = solo({k: jnp.asarray(v) for k, v in dyns[i].items()}, jnp.asarray(x0s[i]), keys[i], I[i])
    for x, y in zip(lo, jax.tree_util.tree_leaves(alone)):
        close("lane-alone", np64(x)[i], np64(y), rt, 1e-2 * rt, f"lane {i} of {Ln}")
    # failing lanes: correct prefix, and the failure stays visible
    tl_ok, tl_bad = jax.tree_util.tree_leaves(ok[1]), jax.tree_util.tree_leaves(bad[1])
    for b, (f, k) in first_bad.items():
        for x, y in zip(tl_ok, tl_bad):
            if k >= 0:
                bitwise("failing-lane-prefix", y[b][:k + 1], x[b][:k + 1], f"lane {b} fails ({f}) after step {k}")
        # state means/points: once the failure is in, no fully finite state again
        x, y = tl_ok[0][b], tl_bad[0][b]
        fin = np.isfinite(np64(y)).reshape(N + 1, -1).all(1)
        if f != "overflow" or not fin.all():
            start = int(np.argmin(fin)) if not fin.all() else None
            must = (k + 4 if f == "blowup" else k + 2) if k >= 0 else 0
            if start is None:
                if must <= N and f != "overflow" and not (f == "sigma_nan" and must > N):
                    raise Violation("failure-hidden", f"lane {b} ({f} after step {k}) has only finite states")
            else:
                if start > must and f != "overflow":
                    raise Violation("failure-hidden", f"lane {b} ({f} after step {k}) still finite at state {must}")
                if fin[start:].any():
                    raise Violation("failure-hidden", f"lane {b} ({f} after step {k}) is finite again after state {start}")
    return {"stats": st, "sig": digest([np64(v) for v in lo], json.dumps(spec["faults"])), "nontrivial": len(first_bad) < Ln}


def known_match(entry, spec):
    return spec["kind"] == "ssm" and not spec.get("x64", True)


def shrink(spec):
    if len(spec["faults"]) > 1:
        for i in range(len(spec["faults"])):
            yield {**spec, "faults": spec["faults"][:i] + spec["faults"][i + 1:]}
    if spec["lanes"] > 2:
        n = max(2, max(f[0] for f in spec["faults"]) + 1)
        if n < spec["lanes"]:
            yield {**spec, "lanes": n}
    for s in shrink_common(spec):
        if s["kind"] != "scheme15":
            s["mode"] = "jit"
            yield s
