"""C09: coarse parabolas agree with the fine Brownian data returned with them, along driver histories."""
import json

import numpy as np

from .. import refmodels as rm
from ..driver import size, chunked
from ..engine import Violation, digest, rng_for
from ..simlib import bitwise, close, lib, library_bm, np64, prng, setup, shape_check, uncorrelated, white

ID = "C09"
RULE = ("one run = a driver history of N steps (several lanes) with a generator that returns fine data; every step's coarse coefficients are "
        "recomputed from its fine data, the fine data are chained into one path and tested for their law; non-trivial when n >= 2 and N >= 2")
MEASURE = "distinct digests of coarse and fine data"
REAL = ["foster_polynomial.get_approx_fine", "foster_polynomial.get_approx_and_brownian", "sde_solver"]
STUB = ["integrator that accumulates the evaluated polynomial's end point"]
ASSUMPTIONS = ["float64: 1e-10 relative; float32: 1e-4"]
PROBES = ("probe.fine", "probe.brownian", "probe.float32", "probe.direct")


def plan(seed, tier):
    G, R = (48, 6) if tier == "quick" else (400, 12)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        cfg = {"bm": {"kind": ["fine", "brownian"][g % 2], "n": size(r, [1, 2, 3, 7, 16, 50, 64, 130]) if g % 12 > 3 else [1, 1, 300, 1000][g % 12]}, "dim": r.choice([1, 2, 3, 4, 5]),
               "dt": r.choice([1e-3, 0.01, 0.1, 1 / 3, 1.0, 4.0]), "N": size(r, [1, 2, 5, 12]), "lanes": r.choice([1, 8, 32]) if g % 12 > 1 else 256,
               "direct": r.random() < 0.3}
        x64 = r.random() < 0.75
        chunks.append([{"cfg": cfg, "x64": x64, "kseed": rng_for(seed, ID, g, i).randrange(2 ** 31)} for i in range(R)])
    return chunks


def execute(spec, ctx):
    setup(spec["x64"])
    import jax
    import jax.numpy as jnp
    c = spec["cfg"]
    kind, n, dim, dt, N, Ln = c["bm"]["kind"], c["bm"]["n"], c["dim"], c["dt"], c["N"], c["lanes"]
    rt = 1e-10 if spec["x64"] else 1e-4
    fk = json.dumps(c, sort_keys=True)
    if fk not in ctx:
        if c["direct"]:
            get, ev = library_bm(c["bm"], dim)()

            def solve(k):
                co = get(jax.random.split(k, N), dt)
                ends = jax.vmap(lambda *q: ev(dt, dt, *q))(*co)
                return jnp.concatenate([jnp.zeros((1, dim)), jnp.cumsum(ends, 0)]), co
        else:
            def solve(k):
                # integrate dX = dW with the driver: the state is the chained coarse path
                def ode_int(key, init, vector_field, T):
                    # exact for a field linear in time: midpoint rule
                    return init + T * vector_field(init, T / 2)
                out = lib.sde_solver(key=k, drift=lambda x, t: jnp.zeros((dim,)), sigma=lambda x, t: jnp.eye(dim), x0=jnp.zeros((dim,)),
                                     bm=library_bm(c["bm"], dim), delta=dt, N=N, ode_int=ode_int)
                return out[1], out[2:]
        ctx[fk] = jax.jit(jax.vmap(solve))
    X, co = ctx[fk](jax.random.split(prng(spec["kseed"]), Ln))
    X, co = np64(X), [np64(v) for v in co]
    a, b = co[0], co[1]
    shape_check("coarse", a, (Ln, N, dim))
    shape_check("fine0", co[2], (Ln, N, n, dim))
    if kind == "brownian":
        pieces = co[2] * np.sqrt(dt / n)
    else:
        shape_check("fine1", co[3], (Ln, N, n, dim))
        pieces = co[2]
    sc = np.sqrt(dt)
    for l in range(Ln):
        for k in range(N):
            if kind == "brownian":
                wa, wb = rm.parabola_of_path(np.concatenate([np.zeros((1, dim)), np.cumsum(pieces[l, k], 0)]))
            else:
                wa, wb = rm.parabola_of_fine(co[2][l, k], co[3][l, k])
            close("increment", a[l, k], wa, rt, rt * sc, f"lane {l} step {k} n={n}")
            close("area", b[l, k], wb, rt, rt * sc, f"lane {l} step {k} n={n}")
    fine_path = np.cumsum(pieces.reshape(Ln, N * n, dim), 1)
    close("chained-path", X[:, 1:], fine_path[:, n - 1::n], 100 * rt, 100 * rt * sc)
    Z = pieces.reshape(-1, dim) / np.sqrt(dt / n)
    if kind == "fine":
        Z = np.concatenate([Z, co[3].reshape(-1, dim) / np.sqrt(dt / n / 12)], -1)
    if len(Z) >= 200:
        white("fine", Z, sigmas=8.0, gaussian=len(Z) >= 1000)
    if len(Z) >= 1000 and n >= 2:
        q = Z.shape[1]
        Y = Z.reshape(Ln * N, n, q)
        uncorrelated("fine:neighbours", Y[:, :-1].reshape(-1, q), Y[:, 1:].reshape(-1, q))
        if Ln * N > 1:
            uncorrelated("fine:steps", Y[:-1].reshape(-1, q), Y[1:].reshape(-1, q))
    return {"stats": {f"probe.{kind}": 1, "probe.float32": int(not spec["x64"]), "probe.direct": int(c["direct"]), "steps": N * Ln,
                      "sim_time": float(N * Ln * dt), "fine_pieces": N * Ln * n}, "sig": digest(a, b, pieces), "nontrivial": n >= 2 and N >= 2}


def shrink(spec):
    c = spec["cfg"]
    for k, vs in (("lanes", (1,)), ("N", (1, 2)), ("dim", (1,))):
        for v in vs:
            if v < c[k]:
                yield {**spec, "cfg": {**c, k: v}}
    for v in (1, 2, 3):
        if v < c["bm"]["n"]:
            yield {**spec, "cfg": {**c, "bm": {**c["bm"], "n": v}}}
