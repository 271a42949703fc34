"""C10: Euler-Maruyama recursion, noise convention and caller-array integrity, under chunked delivery and poisoned increments."""
import json

import numpy as np

from .. import problems, refmodels as rm
from ..driver import size, gen_problem, problem_arrays
from ..engine import Violation, digest, rng_for
from ..problems import Ref
from ..simlib import bitwise, close, eager, lib, np64, prng, rs, setup, shape_check, split_static, uncorrelated, white

ID = "C10"
RULE = ("one run = one increment sequence (or key) delivered to a solver: whole, in seed-chosen chunks with restarts, as numpy or device array, "
        "possibly with a poisoned entry, checked step by step against the recursion; keyed runs recover the noise and test its law; "
        "non-trivial when N >= 2 and increments are non-zero")
MEASURE = "distinct digests of (increments, path)"
REAL = ["euler_maruyama", "euler_maruyama_pathwise", "get_approx_and_brownian as increment source in some runs"]
STUB = ["caller dynamics", "increment source (tape)"]
ASSUMPTIONS = ["float64 1e-10, float32 1e-3 relative"]
PROBES = ("probe.numpy_incs", "probe.device_incs", "probe.standard", "probe.keyed", "fault.restart", "fault.poison_nan", "fault.poison_inf",
          "probe.float32", "probe.readonly", "probe.strided", "probe.eager", "probe.keyed_wide", "probe.long")


def plan(seed, tier):
    G, R = (56, 8) if tier == "quick" else (400, 16)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        cfg = gen_problem(r)
        cfg.update(pidx=r.randrange(1000), delta=r.choice([1e-6, 1e-3, 0.01, 0.05, 0.1, 0.25, 1 / 3, 2.0]), N=size(r, [1, 2, 3, 7, 20, 64, 130, 257, 1024, 1030]),
                   standard=r.choice([True, False, None]), keyed=g % 4 == 3)
        if cfg["keyed"]:
            if cfg["m"] <= cfg["d"]:
                cfg["kind"] = "additive" if cfg["kind"] == "full" and cfg["m"] > 1 else cfg["kind"]
            cfg["N"] = r.choice([8, 64, 64, 300])
            cfg["delta"] = min(cfg["delta"], 0.1)
        x64 = r.random() < 0.8 or cfg["keyed"]
        if not cfg["keyed"]:
            cfg["amp"] = r.choice([1.0, 1.0, 1e-2, 1e-4, 10.0])
        ch = []
        for i in range(R if not cfg["keyed"] else 3):
            q = rng_for(seed, ID, g, i)
            ch.append({"cfg": cfg, "x64": x64, "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31),
                       "src": q.choice(["numpy", "device", "readonly", "strided", "float32np"]),
                       "mode": q.choice(["plain", "jit", "jit", "eager" if cfg["N"] <= 7 else "jit"]),
                       "cuts": sorted(q.sample(range(1, cfg["N"]), min(cfg["N"] - 1, q.choice([0, 0, 1, 2])))) if cfg["N"] > 1 else [],
                       "poison": q.choice([None, None, "nan", "inf"]), "pstep": q.randrange(cfg["N"])})
        chunks.append(ch)
    return chunks


def _keyed(spec, ctx):
    import jax
    import jax.numpy as jnp
    cfg = spec["cfg"]
    N, d, m, h = cfg["N"], cfg["d"], cfg["m"], cfg["delta"]
    P, x0 = problem_arrays(cfg, spec["pseed"])
    for j in range(min(d, m) if m <= d else 0):  # keep the noise recoverable from the path
        P["S"][j, j] += 2.5 * np.sign(P["S"][j, j])
    dyn, p = split_static(P)
    ref = Ref(P)
    Ln = 400 if N < 100 else 100
    fk = "keyed" + json.dumps(cfg, sort_keys=True)
    if fk not in ctx:
        def one(dyn, x0, k):
            drift, sigma = problems.jfuncs({**dyn, "p": p})
            return lib.euler_maruyama(k, init=x0, drift=drift, sigma=sigma, h=h, N=N)
        ctx[fk] = jax.jit(jax.vmap(one, in_axes=(None, None, 0)))
    ts, x = ctx[fk]({k: jnp.asarray(v) for k, v in dyn.items()}, jnp.asarray(x0), jax.random.split(prng(spec["kseed"]), Ln))
    ts, x = np64(ts), np64(x)
    shape_check("path", x, (Ln, N + 1, d))
    close("time-grid", ts[0], np.arange(N + 1) * h, 1e-12)
    close("initial", x[:, 0], np.tile(x0, (Ln, 1)), 1e-14)
    t = np.arange(N) * h
    R = x[:, 1:] - x[:, :-1] - h * ref.drift(x[:, :-1], t)
    S = ref.sigma(x[:, :-1], t)
    if m > d:  # the increments cannot be recovered: their image has covariance h S S'
        Z = np.linalg.solve(np.linalg.cholesky(S @ np.swapaxes(S, -1, -2)), R[..., None])[..., 0] / np.sqrt(h)
        white("em-noise:image", Z.reshape(-1, d))
        uncorrelated("em-noise:steps", Z[:, :-1].reshape(-1, d), Z[:, 1:].reshape(-1, d))
        uncorrelated("em-noise:callers", Z[:-1].reshape(-1, d), Z[1:].reshape(-1, d))
        return {"stats": {"probe.keyed": 1, "probe.keyed_wide": 1, "steps": Ln * N, "sim_time": Ln * N * h}, "sig": digest(x)}
    G = np.swapaxes(S, -1, -2)
    dW = np.linalg.solve(G @ S, (G @ R[..., None]))[..., 0]
    resid = R - np.einsum("...ij,...j->...i", S, dW)
    if np.abs(resid).max() > 1e-9 * (1 + np.abs(x).max()):
        raise Violation("recursion:keyed", f"x_(k+1) - x_k - h f is not in the range of sigma: {np.abs(resid).max():.3g}")
    Z = dW / np.sqrt(h)
    white("em-noise", Z.reshape(-1, m))
    uncorrelated("em-noise:steps", Z[:, :-1].reshape(-1, m), Z[:, 1:].reshape(-1, m))
    uncorrelated("em-noise:callers", Z[:-1].reshape(-1, m), Z[1:].reshape(-1, m))
    # the given-increment solver reproduces the keyed path from its own noise
    back = _pathwise(spec, ctx, dyn, p, x0, jnp.asarray(dW[0]), h, N, None, "jit", 0)
    close("keyed-vs-pathwise", back[1], x[0], 1e-8, 1e-10)
    return {"stats": {"probe.keyed": 1, "steps": Ln * N, "sim_time": Ln * N * h}, "sig": digest(x)}


def _pathwise(spec, ctx, dyn, p, x0, incs, h, N, standard, mode, lo):
    import jax
    import jax.numpy as jnp
    kw = {} if standard is None else {"standard": standard}

    def f(dyn, x0, incs, t0):
        drift, sigma = problems.jfuncs({**dyn, "p": p})
        if lo:
            d0, s0 = drift, sigma
            drift, sigma = (lambda x, t: d0(x, t + t0)), (lambda x, t: s0(x, t + t0))
        return lib.euler_maruyama_pathwise(incs, init=x0, drift=drift, sigma=sigma, h=h, N=N, **kw)
    dj = {k: jnp.asarray(v) for k, v in dyn.items()}
    x0 = jnp.asarray(x0)
    t0 = jnp.asarray(lo * h)
    if mode == "jit":
        k = ("pw", json.dumps(spec["cfg"], sort_keys=True), N, bool(lo), standard)
        if k not in ctx:
            ctx[k] = jax.jit(f)
        return ctx[k](dj, x0, incs, t0)
    if mode == "eager":
        with eager():
            return f(dj, x0, incs, t0)
    return f(dj, x0, incs, t0)


def execute(spec, ctx):
    setup(spec["x64"])
    import jax.numpy as jnp
    cfg = spec["cfg"]
    if cfg["keyed"]:
        return _keyed(spec, ctx)
    N, d, m, h = cfg["N"], cfg["d"], cfg["m"], cfg["delta"]
    P, x0 = problem_arrays(cfg, spec["pseed"])
    dyn, p = split_static(P)
    ref = Ref(P)
    std = cfg["standard"]
    rt = 1e-10 if spec["x64"] else 5e-5
    dt_ = np.float64 if spec["x64"] else np.float32
    g = rs(spec["kseed"])
    raw = (g.normal(size=(N, m)) * (1.0 if std else np.sqrt(h))).astype(dt_)
    st = {"steps": N, "sim_time": N * h, "probe.standard": int(bool(std)), "probe.long": int(N > 64), "probe.float32": int(not spec["x64"]),
          "probe.eager": int(spec["mode"] == "eager")}
    src = spec["src"]
    if spec["poison"]:
        raw[spec["pstep"], g.randint(m)] = {"nan": np.nan, "inf": np.inf}[spec["poison"]]
        st[f"fault.poison_{spec['poison']}"] = 1
    if src == "float32np":
        raw = raw.astype(np.float32)
        rt = max(rt, 1e-5)  # the increments themselves may be scaled in their own precision
    if src == "strided":
        big = np.full((2 * N, m), 7.0, dtype=raw.dtype)
        big[::2] = raw
        incs = big[::2]
    else:
        incs = raw.copy()
    if src == "readonly":
        incs.flags.writeable = False
    if src == "device":
        incs = jnp.asarray(incs)
    st["probe." + {"numpy": "numpy_incs", "float32np": "numpy_incs", "device": "device_incs"}.get(src, src)] = 1
    before = np.array(incs, copy=True)
    x0c = np.array(x0, dtype=dt_)
    x0_before = x0c.copy()
    dW = raw.astype(np.float64) * (np.sqrt(h) if std else 1.0)
    with np.errstate(all="ignore"):
        want = rm.em_path(x0c.astype(np.float64), ref, dW, h)
    mode = spec["mode"]
    pieces, lo, x = [], 0, x0c
    for hi in list(spec["cuts"]) + [N]:
        part = incs[lo:hi]
        out = _pathwise(spec, ctx, dyn, p, x, part, h, hi - lo, std, mode, lo)
        ts, path = np64(out[0]), out[1]
        shape_check("path", path, (hi - lo + 1, d))
        close("time-grid", ts, np.arange(hi - lo + 1) * h, 1e-12 if spec["x64"] else 1e-6)
        pieces.append(np64(path)[1:] if lo else np64(path))
        x = np.asarray(path)[-1]
        if lo:
            st["fault.restart"] = st.get("fault.restart", 0) + 1
        lo = hi
    got = np.concatenate(pieces)
    upto = N + 1
    if spec["poison"]:
        upto = spec["pstep"] + 1
        if np.isfinite(got[upto:]).all(axis=1).any():
            raise Violation("poison-hidden", f"{spec['poison']} increment at step {spec['pstep']} but a later state is finite")
    # every step replayed from the observed state (a solve which diverges, or forgets its start, is judged as sharply as any other)
    close("start", got[0], x0c, 1e-13)
    xs = got[:upto - 1]
    ok = (np.abs(xs) < (1e4 if spec["x64"] else 1e2)).all(axis=1)
    with np.errstate(all="ignore"):
        terms = xs, h * ref.drift(xs, np.arange(len(xs)) * h), np.einsum("...ij,...j->...i", ref.sigma(xs, np.arange(len(xs)) * h), dW[:len(xs)])
        nxt, size = sum(terms), 1.0 + sum(np.abs(v).max(axis=1) for v in terms)
    err = np.abs(got[1:upto] - nxt).max(axis=1)
    bad = ok & (size < 1e30) & ~(err <= rt * size)
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation("mismatch:path", f"step {k}: from {xs[k].tolist()} to {got[k + 1].tolist()}, expected {nxt[k].tolist()}")
    if spec["x64"] and N <= 64 and np.abs(want[:upto]).max() < 1e6:
        close("whole-path", got[:upto], want[:upto], 1e-6 if src != "float32np" else 1e-3, 1e-6)
    after = np.array(incs, copy=True)
    bitwise("caller-increments", after, before, f"source {src}, standard={std}")
    bitwise("caller-start", x0c, x0_before)
    # the same buffer delivered again gives the same path
    out2 = _pathwise(spec, ctx, dyn, p, x0c, incs[:N] if not spec["cuts"] else incs[:spec["cuts"][0]], h,
                     N if not spec["cuts"] else spec["cuts"][0], std, mode, 0)
    bitwise("redelivery", np64(out2[1]), pieces[0])
    return {"stats": st, "sig": digest(dW, got), "nontrivial": N >= 2}


def shrink(spec):
    c = spec["cfg"]
    for N in (1, 2, 3):
        if N < c["N"]:
            yield {**spec, "cfg": {**c, "N": N}, "cuts": [k for k in spec["cuts"] if k < N], "pstep": min(spec["pstep"], N - 1)}
    if spec["cuts"]:
        yield {**spec, "cuts": spec["cuts"][1:]}
    if spec["poison"]:
        yield {**spec, "poison": None}
    if spec["src"] != "device":
        yield {**spec, "src": "numpy"}
    if spec["mode"] != "plain":
        yield {**spec, "mode": "plain"}
