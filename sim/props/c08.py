"""C08: law and shape of the sampled Brownian parabolas."""
import numpy as np

from ..engine import Violation, digest, rng_for
from ..simlib import close, lib, np64, prng, rs, setup, shape_check, uncorrelated, white

ID = "C08"
RULE = ("one run = one generator configuration (kind, dimension, resolution, step, calling form: batched keys / vmap / driver history) whose "
        "draws for 2e4..1e5 keys are tested against the exact law, and whose polynomial is evaluated along simulated time; "
        "non-trivial: every run (each draws fresh keys)")
MEASURE = "distinct digests of the drawn coefficients"
REAL = ["foster_polynomial generators and their evaluation", "sde_solver in 'driver' runs"]
STUB = ["pass-through ODE integrator in 'driver' runs"]
ASSUMPTIONS = ["7 standard errors on first, second, third and fourth moments", "jax.random is sound"]
PROBES = ("probe.form_batch", "probe.form_vmap", "probe.form_driver", "probe.float32", "bm.approx", "bm.brownian", "bm.fine")


def plan(seed, tier):
    n = 120 if tier == "quick" else 1500
    specs = []
    for i in range(n):
        r = rng_for(seed, ID, i)
        kind = ["approx", "brownian", "fine"][i % 3]
        specs.append({"bm": {"kind": kind, "n": r.choice([1, 2, 3, 8, 33, 70, 100, 1000]) if kind != "approx" else 1},
                      "dim": r.choice([1, 2, 3, 5, 8]), "dt": r.choice([1e-4, 1e-3, 0.013, 0.1, 0.5, 1.0, 2.0, 7.0]),
                      "form": r.choice(["batch", "vmap", "driver"]), "kseed": r.randrange(2 ** 31), "x64": r.random() < 0.7})
    specs.sort(key=lambda s: s["x64"])
    k = 8
    a = [s for s in specs if s["x64"]]
    b = [s for s in specs if not s["x64"]]
    return [a[i:i + k] for i in range(0, len(a), k)] + [b[i:i + k] for i in range(0, len(b), k)]


def execute(spec, ctx):
    setup(spec["x64"])
    import jax
    import jax.numpy as jnp
    from ..simlib import library_bm
    kind, n, dim, dt = spec["bm"]["kind"], spec["bm"]["n"], spec["dim"], spec["dt"]
    get, ev = library_bm(spec["bm"], dim)()
    f64 = spec["x64"]
    rt = 1e-9 if f64 else 3e-4
    npts = n * dim if kind != "approx" else dim
    K = int(min(120000, max(8000, 800000 // max(npts, 1))))
    key = prng(spec["kseed"])
    if spec["form"] == "driver":
        L_, N = 80, max(4, K // 80)
        K = L_ * N

        def solve(k):
            return lib.sde_solver(key=k, drift=lambda x, t: jnp.zeros((dim,)), sigma=lambda x, t: jnp.eye(dim), x0=jnp.zeros((dim,)),
                                  bm=library_bm(spec["bm"], dim), delta=dt, N=N,
                                  ode_int=lambda key, init, vector_field, T: init)[2:]
        co = jax.jit(jax.vmap(solve))(jax.random.split(key, L_))
        co = [c.reshape((K,) + c.shape[2:]) for c in co]
    else:
        keys = jax.random.split(key, K)
        if spec["form"] == "batch":
            co = jax.jit(lambda k: get(k, dt))(keys)
        else:
            co = jax.jit(jax.vmap(lambda k: get(k, dt)))(keys)
    co = [jnp.asarray(c) for c in co]
    a, b = np64(co[0]), np64(co[1])
    shape_check("coeff0", a, (K, dim))
    shape_check("coeff1", b, (K, dim))
    vb = dt / 2 * ((1 - 1.0 / n ** 2) if kind == "brownian" else 1.0)
    Z = [a / np.sqrt(dt)]
    if vb > 0:
        Z.append(b / np.sqrt(vb))
    elif np.abs(b).max() > rt * np.sqrt(dt):
        raise Violation("law:area", f"a path sampled at one point has no area, got {np.abs(b).max()}")
    Z = np.concatenate(Z, -1)
    white("parabola", Z)
    # neighbouring keys, and dependence beyond correlation
    uncorrelated("parabola:keys", Z[:-1], Z[1:])
    S = (Z ** 2 - 1) / np.sqrt(2)
    C = S.T @ S / K
    off = np.abs(C - np.diag(np.diag(C))).max() if Z.shape[1] > 1 else 0.0
    if off > 11 / np.sqrt(K):
        raise Violation("law:parabola:dependence", f"squares of coefficients correlate ({off:.4f})")
    # geometry along simulated time within the step
    q = min(K, 16)
    r = rs(spec["kseed"])
    us = np.concatenate([[0.0, 1.0, 0.5], r.uniform(0, 1, 5)])
    cq = [c[:q] for c in co]

    def path(t):
        return jax.vmap(lambda *c: ev(t, dt, *c))(*cq)

    vals = np64(jax.vmap(path)(jnp.asarray(us * dt)))
    sc = np.sqrt(dt)
    shape_check("value", vals, (len(us), q, dim))
    close("value-at-0", vals[0], np.zeros((q, dim)), 0, rt * sc)
    close("value-at-dt", vals[1], a[:q], rt, rt * sc)
    want = us[:, None, None] * a[:q] + np.sqrt(6) * (us * (1 - us))[:, None, None] * b[:q]
    close("value", vals, want, rt, rt * sc)
    # time average equals that of the Brownian path the coefficients stand for
    gx, gw = np.polynomial.legendre.leggauss(4)
    gv = np64(jax.vmap(path)(jnp.asarray((gx + 1) / 2 * dt)))
    avg = np.einsum("i,ikd->kd", gw / 2, gv)
    if kind == "brownian":
        w = np.cumsum(np64(co[2])[:q] * np.sqrt(dt / n), 1)
        w = np.concatenate([np.zeros((q, 1, dim)), w], 1)
        mean = (w[:, :-1] + w[:, 1:]).sum(1) / (2 * n)
        close("time-average", avg, mean, rt * 10, rt * sc * 10)
    elif kind == "fine":
        e0, e1 = np64(co[2])[:q], np64(co[3])[:q]
        st_ = np.concatenate([np.zeros((q, 1, dim)), np.cumsum(e0, 1)[:, :-1]], 1)
        close("time-average", avg, (st_ + 0.5 * e0 + e1).mean(1), rt * 10, rt * sc * 10)
    else:
        close("time-average", avg, a[:q] / 2 + b[:q] / np.sqrt(6), rt * 10, rt * sc * 10)
    # the derivative driving the ODE
    dv = np64(jax.vmap(lambda t: jax.jacfwd(path)(t))(jnp.asarray(us * dt)))
    close("derivative", dv, (a[:q] + np.sqrt(6) * (1 - 2 * us)[:, None, None] * b[:q]) / dt, rt * 10, rt * 10 / sc)
    return {"stats": {f"probe.form_{spec['form']}": 1, "probe.float32": int(not f64), f"bm.{kind}": 1, "draws": K, "steps": K,
                      "sim_time": float(K * dt)}, "sig": digest(a, b)}


def shrink(spec):
    if spec["dim"] > 1:
        yield {**spec, "dim": 1}
    if spec["bm"]["n"] > 1:
        yield {**spec, "bm": {**spec["bm"], "n": 1}}
        yield {**spec, "bm": {**spec["bm"], "n": 2}}
    if spec["form"] != "batch":
        yield {**spec, "form": "batch"}
    if spec["dt"] != 1.0:
        yield {**spec, "dt": 1.0}
