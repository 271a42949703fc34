"""C22: converting between Ito and Stratonovich is exact and invertible along every simulated history."""
import json

import numpy as np

from .. import problems
from ..driver import problem_arrays
from ..engine import Violation, digest, rng_for
from ..problems import Ref
from ..simlib import bitwise, close, eager, lib, np64, rs, setup, shape_check, split_static

ID = "C22"
RULE = ("one run = a history driven by the library's Euler-Maruyama on given increments with converted dynamics: every visited state and time is replayed with "
        "the reference correction, chains of conversions there and back follow the unconverted history, and broken members or times stay contained; "
        "non-trivial when the diffusion depends on the state and N >= 2")
MEASURE = "distinct digests of the histories"
REAL = ["ito_stratonovich.to_stratonovich/to_ito", "euler_maruyama_pathwise", "jax tracing (jit, vmap, forward and reverse derivatives of converted dynamics)"]
STUB = []
ASSUMPTIONS = ["float64 1e-9 relative per step, float32 1e-4"]
PROBES = ("probe.multiplicative", "probe.additive", "probe.rectangular", "probe.time_dependent", "probe.float32", "probe.eager", "probe.batch", "probe.derivative",
          "probe.long_chain", "fault.poisoned_lane", "fault.blackout")
QUICK_WALL = 300


def plan(seed, tier):
    G, R = (48, 3) if tier == "quick" else (500, 5)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        kind = r.choice(["full", "full", "full", "additive", "diag", "scalar", "autonomous", "time_additive"])
        d = r.choice([1, 2, 3, 4, 5])
        m = 1 if kind == "scalar" else d if kind == "diag" else r.choice([1, 2, 3, 5, 9, d, d + 1])
        cfg = {"kind": kind, "d": d, "m": m, "pidx": r.randrange(1000), "N": r.choice([1, 2, 10, 60]), "delta": r.choice([1e-3, 0.01, 0.05]),
               "chain": r.choice([1, 1, 2, 3]), "x64": r.random() < 0.8}
        chunks.append([{"cfg": cfg, "x64": cfg["x64"], "seed": rng_for(seed, ID, g, i).randrange(2 ** 31), "mode": "eager" if i == 2 and cfg["N"] <= 10 and
                        cfg["chain"] == 1 and d * m <= 12 else "jit"} for i in range(R)])
    a = [c for c in chunks if c[0]["x64"]]
    b = [c for c in chunks if not c[0]["x64"]]
    return [sum(v[i:i + 3], []) for v in (a, b) for i in range(0, len(v), 3)]


def execute(spec, ctx):
    setup(spec["x64"])
    import jax
    import jax.numpy as jnp
    cfg, x64 = spec["cfg"], spec["x64"]
    d, m, N, h = cfg["d"], cfg["m"], cfg["N"], cfg["delta"]
    P, x0 = problem_arrays(cfg, spec["seed"])
    dyn, p = split_static(P)
    ref = Ref(P)
    g = rs(spec["seed"] + 1)
    rt = 1e-9 if x64 else 1e-4
    incs = np.sqrt(h) * g.normal(size=(N, m))
    TO = {"s": lambda f, s: lib.to_stratonovich(f, s), "i": lambda f, s: lib.to_ito(f, s)}
    st = {"steps": 4 * N, "sim_time": 4 * N * h, "probe.multiplicative": int(cfg["kind"] in ("full", "diag", "scalar", "autonomous")),
          "probe.additive": int("additive" in cfg["kind"]), "probe.rectangular": int(d != m), "probe.time_dependent": int(cfg["kind"] in ("full", "diag", "time_additive")),
          "probe.float32": int(not x64), "probe.eager": int(spec["mode"] == "eager"), "probe.long_chain": int(cfg["chain"] > 1)}

    def solve(word):
        def f(dyn, x0, incs):
            pair = problems.jfuncs({**dyn, "p": p})
            for c in word:
                pair = TO[c](*pair)
            return lib.euler_maruyama_pathwise(incs, init=x0, drift=pair[0], sigma=pair[1], h=h, N=N)[1]
        return f

    dj = {k: jnp.asarray(v) for k, v in dyn.items()}
    fk = json.dumps(cfg, sort_keys=True)

    def run(word, x=x0, a=incs, dd=dj, batch=False):
        if spec["mode"] == "eager" and not batch:
            with eager():
                return np64(solve(word)(dd, jnp.asarray(x), jnp.asarray(a)))
        k = (fk, word, batch, len(dd))
        if k not in ctx:
            ctx[k] = jax.jit(jax.vmap(solve(word), (None, 0, None)) if batch else solve(word))
        return np64(ctx[k](dd, jnp.asarray(x), jnp.asarray(a)))

    base = run("")
    shape_check("history", base, (N + 1, d))
    t = np.arange(N) * h
    for word, sgn in (("s", -0.5), ("i", 0.5)):
        y = run(word)
        if np.isfinite(y).all() and np.abs(y).max() < 1e3:
            z = y[:-1]
            corr = sgn * ref.correction(z, t)
            noise = np.einsum("kij,kj->ki", ref.sigma(z, t), incs)
            want = z + h * (ref.drift(z, t) + corr) + noise
            # judge the correction itself where it is resolved
            close(f"step-{word}", y[1:] - z, want - z, rt, (1e-14 if x64 else 1e-6) * (1 + np.abs(y).max()) + rt * h * np.abs(corr).max(), "converted step")
    if np.isfinite(base).all() and np.abs(base).max() < 1e3:
        words = ["si", "is"] + (["si" * cfg["chain"], "i" * cfg["chain"] + "s" * cfg["chain"]] if cfg["chain"] > 1 else [])
        for word in words:
            close("roundtrip", run(word), base, rt, rt, f"conversions {word}")
    # several members at once, one of them broken
    bad = int(g.randint(3))
    xs = np.stack([x0, x0 + 0.1, x0 - 0.2])
    ok = run("s", xs, batch=True)
    close("batch", ok[0], run("s"), 10 * rt, 10 * rt, "batched member")
    xb = xs.copy()
    xb[bad, g.randint(d)] = np.nan
    out = run("s", xb, batch=True)
    bitwise("poisoned", np.delete(out, bad, 0), np.delete(ok, bad, 0), "healthy members")
    st["probe.batch"] = st["fault.poisoned_lane"] = 1
    # dynamics undefined after step j: earlier states do not change; the converted diffusion is the caller's
    j = int(g.randint(N))
    lim = (j + 0.5) * h
    dark = run("s", dd={**dj, "tlo": jnp.asarray(-1.0), "thi": jnp.asarray(lim)})
    close("blackout", dark[:j + 2], run("s")[:j + 2], 0.0 if spec["mode"] == "eager" else 10 * rt, 10 * rt, "before the outage")
    st["fault.blackout"] = 1
    pair = problems.jfuncs({**dj, "p": p})
    i = int(g.randint(N))
    xi, ti = jnp.asarray(base[i] if np.isfinite(base[i]).all() else x0), float(t[i])
    for word in ("s", "i"):
        c = TO[word](*pair)
        bitwise("diffusion", np64(c[1](xi, ti)), np64(pair[1](xi, ti)), "diffusion of converted dynamics")
        # the filters differentiate converted drifts
        J = np64(jax.jacfwd(c[0])(xi, ti))
        e = 1e-5
        if x64:
            zs = np.asarray(xi) + e * np.concatenate([np.eye(d), -np.eye(d)])
            v = ref.drift(zs, ti) + (-0.5 if word == "s" else 0.5) * ref.correction(zs, np.full(2 * d, ti))
            close("derivative", J, ((v[:d] - v[d:]) / (2 * e)).T, 1e-5, 1e-6, "derivative of the converted drift")
            close("derivative-reverse", np64(jax.jacrev(c[0])(xi, ti)), J, 1e-9, 1e-12)
            st["probe.derivative"] = 1
    return {"stats": st, "sig": digest(base), "nontrivial": bool(st["probe.multiplicative"]) and N >= 2}


def shrink(spec):
    c = spec["cfg"]
    for k, vals in (("N", (1, 2)), ("chain", (1,)), ("d", (1, 2)), ("m", (1, 2))):
        for v in vals:
            if v < c[k]:
                n = {**c, k: v}
                if n["kind"] == "diag":
                    n["m"] = n["d"]
                yield {**spec, "cfg": n}
    if spec["mode"] != "jit":
        yield {**spec, "mode": "jit"}
