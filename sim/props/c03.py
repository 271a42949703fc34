"""C03: the future never influences the past."""
import functools
import json

import numpy as np

from .. import problems, ssm
from ..driver import size, build, initial_state, make_cfg, problem_arrays, shrink_common
from ..engine import Violation, digest, rng_for
from ..simlib import bitwise, driver_keys, key_data, lib, np64, prng, rs, setup, split_static, eager

ID = "C03"
RULE = ("one run = a driver history on a recorded noise tape and the same history with the tape replaced/poisoned from step j on or the "
        "dynamics changed after a time; the states up to step j must be bitwise equal and (for tape faults at j) state j+1 must react; "
        "non-trivial when 1 <= j < N")
MEASURE = "distinct digests of (baseline trajectory, faulted trajectory)"
REAL = ["sde_solver", "ssm driver", "ode_solvers", "euler_maruyama_pathwise", "euler_maruyama", "parabola evaluation of the generators"]
STUB = ["noise tape in place of the generator's draws", "caller dynamics with injected faults"]
ASSUMPTIONS = ["both executions of a pair use the same compiled function"]
FAULTS = ["replace", "nan", "inf", "huge", "time_jump", "time_nan", "time_sigma"]
PROBES = tuple("fault." + f for f in FAULTS) + ("probe.sde", "probe.em", "probe.ssm", "probe.emkey", "probe.keys", "probe.long")


def plan(seed, tier):
    G, R = (56, 10) if tier == "quick" else (400, 16)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        kind = ["sde", "sde", "em", "sde", "ssm", "sde", "emkey"][g % 7]
        Ns = [2, 3, 5, 8, 20]
        cfg = ssm.gen_cfg(r, sample=r.random() < 0.7, Ns=Ns) if kind == "ssm" else make_cfg(r, Ns=Ns, sample=r.random() < 0.5)
        if kind in ("em", "emkey") and r.random() < 0.5 or kind == "sde" and cfg["meth"]["name"] in ("euler", "rk4") and r.random() < 0.4:
            cfg["N"], cfg["delta"] = size(r, [70, 130, 300, 1030]), 0.002
        std = r.random() < 0.5
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, g, i)
            f = q.choice(FAULTS if kind in ("sde", "em") else FAULTS[4:])
            ch.append({"kind": kind, "cfg": cfg, "standard": std, "fault": f, "j": q.randrange(0, cfg["N"]) if f in FAULTS[:4] or q.random() < 0.8 else cfg["N"],
                       "frac": q.choice([0.0, 0.0, 0.3, 0.9]), "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31),
                       "mode": "jit"})
        chunks.append(ch)
    for i in range(12 if tier == "quick" else 120):
        r = rng_for(seed, ID, "k", i)
        chunks[i % len(chunks)].append({"kind": "keys", "fault": "keys", "N": size(r, [2, 5, 33, 100, 300, 1025]), "kseed": r.randrange(2 ** 31),
                                        "solver": ["sde", "ssm"][i % 2]})
    return [sum(chunks[i::28], []) for i in range(28)] if tier == "quick" else chunks


def _fn(spec, p, ctx):
    import jax
    cfg, kind = spec["cfg"], spec["kind"]
    k = json.dumps([cfg, kind, spec["standard"]], sort_keys=True)
    if k in ctx:
        return ctx[k]
    if kind == "sde":
        fn = build(cfg, p, tape=True)
    elif kind == "ssm":
        b = ssm.build(cfg, p)
        fn = lambda dyn, x0, key, *tp: b(dyn, x0, key)
    else:
        def fn(dyn, x0, key, keytab, incs, _):
            drift, sigma = problems.jfuncs({**dyn, "p": p})
            if kind == "emkey":
                return lib.euler_maruyama(key, init=x0, drift=drift, sigma=sigma, h=cfg["delta"], N=cfg["N"])
            return lib.euler_maruyama_pathwise(incs, init=x0, drift=drift, sigma=sigma, h=cfg["delta"], N=cfg["N"],
                                               standard=spec["standard"])
    ctx[k] = jax.jit(fn)
    return ctx[k]


def _keys(spec):
    """The key a step's posterior draw is made with owes nothing to the keys of later steps (and is no ancestor of theirs)."""
    import jax
    import jax.numpy as jnp
    N = spec["N"]

    def solve(key):
        kd = key_data(key)
        if spec["solver"] == "sde":
            def bm():
                return (lambda k, dt: (key_data(k),)), (lambda t, dt, *_: jnp.zeros((1,)) * t)
            out = lib.sde_solver(key=key, drift=lambda x, t: jnp.zeros((1,)), sigma=lambda x, t: jnp.zeros((1, 1)), x0=jnp.zeros_like(kd), bm=bm,
                                 delta=0.1, N=N, ode_int=lambda key, init, vector_field, T: key_data(key))
            return out[2], out[1][1:]
        out = lib.ssm_parabola_ode_solver(key=key, drift=lambda x, t: x, sigma=lambda x, t: x, x0=jnp.zeros_like(kd), delta=0.1, N=N,
                                          solver=lambda key, init, drift, diffusion, T: (key_data(key), init, init))
        return out[1][1:], out[1][1:]
    noise, samp = [np.asarray(v).reshape(N, -1) for v in jax.jit(solve)(prng(spec["kseed"]))]
    # last step each key is used by a noise draw / posterior draw
    last_noise = {noise[k].tobytes(): k for k in range(N)}
    last_samp = {samp[k].tobytes(): k for k in range(N)}
    kids = lambda K: np.asarray(jax.vmap(lambda k: jax.random.split(k, 2))(jnp.asarray(K, jnp.uint32)))
    for who, K in (("noise", noise), ("posterior draw", samp)):
        C = kids(K)
        for k in range(N):
            for b in (K[k], C[k, 0], C[k, 1]):
                for what, last in (("Brownian noise", last_noise), ("posterior draw", last_samp)):
                    j = last.get(b.tobytes(), -1)
                    if j > k:
                        raise Violation("anticipation:key", f"the {who} of step {k} shares its randomness with the {what} of step {j} of {N}")
    return {"stats": {"probe.keys": 1, "steps": N, "sim_time": 0.1 * N}, "sig": digest(noise, samp), "nontrivial": N > 1}


def execute(spec, ctx):
    setup(True)
    if spec["kind"] == "keys":
        return _keys(spec)
    import jax
    import jax.numpy as jnp
    cfg, kind, j, f = spec["cfg"], spec["kind"], spec["j"], spec["fault"]
    N, d, m, delta = cfg["N"], cfg["d"], cfg["m"], cfg["delta"]
    P, x0 = problem_arrays(cfg, spec["pseed"])
    dyn, p = split_static(P)
    g = rs(spec["kseed"])
    A = g.normal(size=(N, m)) * np.sqrt(delta)
    B = g.normal(size=(N, m)) * np.sqrt(delta / 2)
    A2, B2 = A.copy(), B.copy()
    base = {**dyn, "tstar": np.float64(np.inf), "jump": np.zeros(d), "tstar_s": np.float64(np.inf), "jump_s": np.float64(0)}
    alt = dict(base)
    # a fault after time t* = (j + frac) delta cannot touch states 0..j
    tstar = (j + spec["frac"]) * delta + 1e-7 * delta
    if f == "replace":
        A2[j:], B2[j:] = g.normal(size=A2[j:].shape), g.normal(size=B2[j:].shape)
    elif f in ("nan", "inf", "huge"):
        v = {"nan": np.nan, "inf": np.inf, "huge": 1e30}[f]
        A2[j] = v
        if g.uniform() < 0.5:
            B2[j] = v
    elif f == "time_jump":
        alt.update(tstar=np.float64(tstar), jump=g.uniform(1, 3, d))
    elif f == "time_nan":
        alt.update(tstar=np.float64(tstar), jump=np.full(d, np.nan))
    elif f == "time_sigma":
        alt.update(tstar_s=np.float64(tstar), jump_s=np.float64(g.choice([1.7, np.nan])))
    key = prng(spec["kseed"])
    tab = driver_keys_cached(ctx, spec["kseed"], N) if kind == "sde" else np.zeros((N, 2), np.uint32)
    fn = _fn(spec, p, ctx)
    J = lambda D: {k: jnp.asarray(v) for k, v in D.items()}
    o1 = fn(J(base), jnp.asarray(x0), key, jnp.asarray(tab), jnp.asarray(A), jnp.asarray(B))
    o2 = fn(J(alt), jnp.asarray(x0), key, jnp.asarray(tab), jnp.asarray(A2), jnp.asarray(B2))
    bitwise("times", o2[0], o1[0])
    l1, l2 = jax.tree_util.tree_leaves(o1[1]), jax.tree_util.tree_leaves(o2[1])
    for x, y in zip(l1, l2):
        x, y = np64(x), np64(y)
        if not np.isfinite(x).all():
            raise Violation("baseline:non-finite", f"unfaulted solve produced {np.argwhere(~np.isfinite(x))[0]}")
        bitwise("past", y[:j + 1], x[:j + 1], f"fault {f} at step {j} of {N}")
    st = {"steps": 2 * N, "sim_time": 2 * N * delta, f"fault.{f}": 1, f"probe.{kind}": 1, "probe.long": int(N > 64)}
    if kind in ("sde", "em") and f in ("replace", "nan", "inf", "huge"):
        # only the tape changed: the first affected state is exactly j+1 and it must react
        x, y = np64(l1[0])[j + 1], np64(l2[0])[j + 1]
        if f == "replace":
            if not (x != y).any():
                raise Violation("noise-ignored", f"new noise at step {j} did not reach state {j + 1}")
        elif f in ("nan", "inf"):
            if np.isfinite(y).all():
                raise Violation("noise-ignored", f"{f} noise at step {j} left state {j + 1} finite: {y}")
        elif (x == y).any() and cfg["m"] >= cfg["d"] and cfg["kind"] == "full":
            raise Violation("noise-ignored", f"huge noise at step {j} left components of state {j + 1} unchanged")
    return {"stats": st, "sig": digest([np64(v) for v in l1 + l2]), "nontrivial": 1 <= j < N}


def driver_keys_cached(ctx, kseed, N):
    """Keys the driver uses for (caller key, N): a function of those two only, observed once per N through one compiled run."""
    import jax
    k = ("keys", N)
    if k not in ctx:
        from ..simlib import driver_keys_fn
        ctx[k] = jax.jit(driver_keys_fn(N))
    return np.asarray(ctx[k](prng(kseed)))


def shrink(spec):
    if spec["kind"] == "keys":
        for n in (2, 5, spec["N"] // 2, spec["N"] - 1):
            if 1 < n < spec["N"]:
                yield {**spec, "N": n}
        return
    for s in shrink_common(spec):
        s["mode"] = "jit"
        s["j"] = min(s["j"], s["cfg"]["N"] if spec["j"] == spec["cfg"]["N"] else s["cfg"]["N"] - 1)
        yield s
    if 0 < spec["j"] < spec["cfg"]["N"]:
        yield {**spec, "j": spec["j"] - 1}
        yield {**spec, "j": 0}
