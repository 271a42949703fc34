"""C15: pathwise strong convergence to the Ito solution on the same Brownian path; conversion invariance along paths."""
import json

import numpy as np

from .. import problems
from ..driver import problem_arrays
from ..engine import Violation, digest, rng_for
from ..problems import Ref
from ..simlib import close, lib, library_bm, np64, ode_method, prng, rs, setup, shape_check, split_static

ID = "C15"
RULE = ("rate runs: hundreds of simulated Brownian paths solved by the real stack at two step sizes and compared, path by path, with the Ito solution "
        "of that path (closed form or a fine Milstein reference fed with the fine increments the generator returned); the RMS error must fall at "
        "the strong order; conversion runs: histories solved with converted and analytically corrected drifts must coincide; non-trivial: every run")
MEASURE = "distinct digests of end states"
REAL = ["sde_solver", "foster_polynomial generators", "ito_stratonovich", "euler/ekf0/ekf1/ekf0_2/ekf1_2", "euler_maruyama(_pathwise)"]
STUB = ["rk4 ODE integrator (harness) in some runs"]
ASSUMPTIONS = ["substeps are refined with the step (M ~ 1/delta) as the convergence theory requires", "observed order at least 0.67 (order-1 methods; 0.5 for the mixture means, pre-asymptotic at these steps), 0.33 (order 1/2)",
               "commutative noise for order 1 (additive, diagonal, scalar, geometric)"]
PROBES = ("probe.gbm", "probe.diag", "probe.scalar", "probe.additive", "probe.em", "probe.conv", "probe.roundtrip", "probe.ekf", "probe.mixture",
          "probe.euler", "probe.rk4", "probe.noncommutative")
QUICK_WALL = 700
T = 0.8


def plan(seed, tier):
    n = 72 if tier == "quick" else 700
    chunks, specs = [], []
    for i in range(n):
        r = rng_for(seed, ID, i)
        kind = ["gbm", "diag", "scalar", "additive", "em", "conv"][i % 6]
        s = {"what": kind, "pseed": r.randrange(2 ** 31), "kseed": r.randrange(2 ** 31), "d": r.choice([1, 2, 3]), "lanes": 512}
        s["m"] = {"gbm": r.choice([1, 2, 3]), "diag": s["d"], "scalar": 1, "additive": r.choice([1, 2, 3]), "em": s["d"], "conv": r.choice([1, 2, 3])}[kind]
        s["bm"] = {"kind": r.choice(["brownian", "fine"]), "n": 48}
        meth = r.choice(["rk4", "rk4", "euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2"])
        if kind == "em":
            s["em"] = r.choice(["diag", "additive", "full", "gbm"])
            s["m"] = r.choice([2, 3]) if s["em"] == "full" else s["d"]
            s["d"] = max(s["d"], 2) if s["em"] == "full" else s["d"]
            if s["em"] == "full":
                s["m"] = max(s["m"], 2)
        elif kind == "conv":
            s["kind"] = r.choice(["full", "diag", "scalar", "time_additive"])
            s["m"] = s["d"] if s["kind"] == "diag" else (1 if s["kind"] == "scalar" else s["m"])
        s["meth"] = {"name": meth, "sample": r.random() < 0.3, "sqrt": r.choice([True, False]), "noise": None, "prior": None}
        if meth.startswith("ekf"):
            s["lanes"] = 256
        s["N"] = r.choice([12, 20, 40])
        specs.append(s)
    return [specs[i:i + 3] for i in range(0, n, 3)]


def _gbm(spec):
    g = rs(spec["pseed"])
    d, m = spec["d"], spec["m"]
    a, S = g.uniform(-0.8, 0.8, d), g.uniform(0.15, 0.45, (d, m)) * g.choice([-1, 1], (d, m))
    x0 = g.uniform(0.5, 1.5, d)
    return a, S, x0


def _ito(spec):
    """-> (jax ito drift, sigma), x0, reference endpoint(fine increments (L, steps, m), h) in numpy"""
    import jax.numpy as jnp
    what = spec.get("em", spec["what"])
    if what == "gbm":
        a, S, x0 = _gbm(spec)
        aj, Sj = jnp.asarray(a), jnp.asarray(S)

        def exact(dW, h):
            W = dW.sum(1)
            t = dW.shape[1] * h
            return x0 * np.exp((a - 0.5 * (S ** 2).sum(1)) * t + W @ S.T)
        return (lambda x, t: aj * x), (lambda x, t: x[:, None] * Sj), x0, exact
    cfg = {"d": spec["d"], "m": spec["m"], "kind": {"diag": "diag", "scalar": "scalar", "additive": "additive", "full": "full"}[what], "pidx": 0, "scale": 0.7}
    P, x0 = problem_arrays(cfg, spec["pseed"])
    if what == "scalar":
        P["p"] = rs(spec["pseed"]).randint(0, spec["d"], (spec["d"], 1))
    if what == "full":
        P["rho"] = np.float64(0.9)
    dyn, p = split_static(P)
    drift, sigma = problems.jfuncs({**{k: jnp.asarray(v) for k, v in dyn.items()}, "p": p})
    ref = Ref(P)

    def exact(dW, h):
        """Milstein (commutative form) on the fine increments."""
        x = np.broadcast_to(x0, (dW.shape[0], spec["d"])).copy()
        for k in range(dW.shape[1]):
            t = k * h
            s, sx, w = ref.sigma(x, t), ref.sigma_x(x, t), dW[:, k]
            q = w[:, :, None] * w[:, None, :] - h * np.eye(spec["m"])
            x = x + h * ref.drift(x, t) + np.einsum("lij,lj->li", s, w) + 0.5 * np.einsum("lkj,liqk,ljq->li", s, sx, q)
        return x
    return drift, sigma, x0, exact


def _levels(spec):
    name = spec["meth"]["name"]
    if name == "rk4":
        return [(8, 4), (48, 4)]
    if name == "euler":
        return [(8, 24), (32, 96)]
    return [(8, 8), (32, 32)]


def _rate(spec, ctx):
    import jax
    import jax.numpy as jnp
    drift, sigma, x0, exact = _ito(spec)
    sdrift, ssigma = lib.to_stratonovich(drift, sigma)
    d, m, L = spec["d"], spec["m"], spec["lanes"]
    errs, ends = [], []
    triple = spec["meth"]["name"].endswith("_2")
    steps = 0
    for N, M in _levels(spec):
        delta = T / N
        meth = dict(spec["meth"], M=M)
        n = spec["bm"]["n"]

        def solve(key, N=N, delta=delta, meth=meth):
            init = jnp.asarray(x0)
            if triple:
                init = (init, init, jnp.zeros((d, d)))
            out = lib.sde_solver(key=key, drift=sdrift, sigma=ssigma, x0=init, bm=library_bm(spec["bm"], m), delta=delta, N=N, ode_int=ode_method(meth))
            tr = out[1][1 if not meth["sample"] else 0] if triple else out[1]
            return tr[-1], out[2], out[4]
        end, a, fine = (np64(v) for v in jax.jit(jax.vmap(solve))(jax.random.split(prng(spec["kseed"] + N), L)))
        if spec["bm"]["kind"] == "brownian":
            fine = fine * np.sqrt(delta / n)
        dW = fine.reshape(L, N * n, m)
        # gbm needs increments only: use the coarse ones, which the solve really consumed
        X = exact(a, delta) if spec["what"] == "gbm" else exact(dW, delta / n)
        if not np.isfinite(end).all():
            raise Violation("convergence:finite", "non-finite end states")
        errs.append(float(np.sqrt(((end - X) ** 2).sum(-1).mean())))
        ends.append(end)
        steps += N * M * L
    (N1, _), (N2, _) = _levels(spec)
    order = np.log(errs[0] / errs[1]) / np.log(N2 / N1)
    spread = float(np.sqrt(((X - X.mean(0)) ** 2).sum(-1).mean()))
    if errs[1] > 1e-9 and order < (0.5 if triple else 0.67):
        raise Violation("convergence:order", f"{spec['what']} {spec['meth']['name']}: rms errors {errs[0]:.4g} (N={N1}) and {errs[1]:.4g} (N={N2}), "
                                             f"observed strong order {order:.2f}, expected 1")
    if errs[1] > (0.2 if triple else 0.08) * spread + 1e-9:
        raise Violation("convergence:size", f"rms error {errs[1]:.4g} against a spread of {spread:.4g} at N={N2}")
    return {"stats": {f"probe.{spec['what']}": 1, "probe.ekf": int(spec["meth"]["name"] in ("ekf0", "ekf1")), "probe.mixture": int(triple),
                      f"probe.{spec['meth']['name']}": 1, "steps": steps, "sim_time": 2 * T * L, "order_sum": order, "rate_runs": 1},
            "sig": digest(*ends), "log": f"{spec['what']} {spec['meth']['name']} {order:.3f} {errs[1] / spread:.3f}"}


def _em(spec, ctx):
    import jax
    import jax.numpy as jnp
    drift, sigma, x0, exact = _ito(spec)
    d, m, L = spec["d"], spec["m"], 512
    errs = []
    n = 32
    ends = []
    for N in (8, 64):
        h = T / N
        nn = n if N == 8 else n // 2
        dW = rs(spec["kseed"] + N).normal(size=(L, N, nn, m)) * np.sqrt(h / nn)
        inc = dW.sum(2)
        std = bool(spec["kseed"] % 2)
        f = jax.jit(jax.vmap(lambda w, h=h, N=N: lib.euler_maruyama_pathwise(w, jnp.asarray(x0), drift, sigma, h, N, standard=std)[1][-1]))
        end = np64(f(jnp.asarray(inc / np.sqrt(h) if std else inc)))
        if spec["em"] == "full":  # no Milstein without Levy areas: a fine Euler reference
            X = _fine_em(spec, x0, dW.reshape(L, N * nn, m), h / nn)
        elif spec["em"] == "gbm":
            X = exact(inc, h)
        else:
            X = exact(dW.reshape(L, N * nn, m), h / nn)
        errs.append(float(np.sqrt(((end - X) ** 2).sum(-1).mean())))
        ends.append(end)
    order = np.log(errs[0] / errs[1]) / np.log(8.0)
    want = 0.67 if spec["em"] == "additive" else 0.33
    if order < want:
        raise Violation("convergence:em-order", f"{spec['em']}: rms errors {errs}, observed order {order:.2f}")
    return {"stats": {"probe.em": 1, "probe.noncommutative": int(spec["em"] == "full"), "steps": 72 * L, "sim_time": 2 * T * L},
            "sig": digest(*ends), "log": f"em {spec['em']} {order:.3f}"}


def _fine_em(spec, x0, dW, h):
    cfg = {"d": spec["d"], "m": spec["m"], "kind": "full", "pidx": 0, "scale": 0.7}
    P, _ = problem_arrays(cfg, spec["pseed"])
    P["rho"] = np.float64(0.9)
    ref = Ref(P)
    x = np.broadcast_to(x0, (dW.shape[0], spec["d"])).copy()
    for k in range(dW.shape[1]):
        x = x + h * ref.drift(x, k * h) + np.einsum("lij,lj->li", ref.sigma(x, k * h), dW[:, k])
    return x


def _conv(spec, ctx):
    """The converted equation drives the same histories as the analytically corrected one, and the round trip as the original."""
    import jax
    import jax.numpy as jnp
    cfg = {"d": spec["d"], "m": spec["m"], "kind": spec["kind"], "pidx": spec["pseed"] % 1000}
    P, x0 = problem_arrays(cfg, spec["pseed"])
    dyn, p = split_static(P)
    dj = {k: jnp.asarray(v) for k, v in dyn.items()}
    drift, sigma = problems.jfuncs({**dj, "p": p})
    d, m, N = spec["d"], spec["m"], spec["N"]
    eye = np.eye(d)[p]

    def corr(x, t):
        s = sigma(x, t)
        v = dj["S"] * dj["rho"] * dj["kap"] * jnp.cos(dj["kap"] * x[p] + dj["nu"] * t)
        return jnp.einsum("jk,ik,ikj->i", s, v, jnp.asarray(eye))
    key = prng(spec["kseed"])
    delta = 0.05
    meth = dict(spec["meth"], M=2, sample=False)
    if meth["name"].endswith("_2"):
        meth["name"] = meth["name"][:4]
    bm = library_bm({"kind": spec["bm"]["kind"], "n": 4}, m)

    def run(f, s):
        return lib.sde_solver(key=key, drift=f, sigma=s, x0=jnp.asarray(x0), bm=bm, delta=delta, N=N, ode_int=ode_method(meth))[1]

    def em(f, s):
        return lib.euler_maruyama(key, jnp.asarray(x0), f, s, delta, N)[1]
    strat = lib.to_stratonovich(drift, sigma)
    ito = lib.to_ito(drift, sigma)
    J = lambda f, *a: np64(jax.jit(lambda: f(*a))())
    first, second = (run, em) if spec["kseed"] % 2 else (em, run)
    base = J(first, drift, sigma)
    shape_check("traj", base, (N + 1, d))
    s1 = J(first, *strat)
    close("conversion:stratonovich", s1, J(first, lambda x, t: drift(x, t) - 0.5 * corr(x, t), sigma), 1e-7, 1e-9)
    close("conversion:roundtrip", J(first, *lib.to_ito(*strat)), base, 1e-7, 1e-9)
    base2 = J(second, drift, sigma)
    s2 = J(second, *ito)
    close("conversion:ito", s2, J(second, lambda x, t: drift(x, t) + 0.5 * corr(x, t), sigma), 1e-7, 1e-9)
    close("conversion:roundtrip2", J(second, *lib.to_stratonovich(*ito)), base2, 1e-7, 1e-9)
    out = [base, s1, base2, s2]
    return {"stats": {"probe.conv": 1, "probe.roundtrip": 1, "steps": 8 * N, "sim_time": 8 * N * delta}, "sig": digest(*out)}


def execute(spec, ctx):
    setup(True)
    if spec["what"] == "conv":
        return _conv(spec, ctx)
    if spec["what"] == "em":
        return _em(spec, ctx)
    return _rate(spec, ctx)


def shrink(spec):
    if spec["d"] > 1 and spec.get("em") != "full":
        yield {**spec, "d": 1, "m": 1}
    if spec["meth"]["name"] != "rk4":
        yield {**spec, "meth": {**spec["meth"], "name": "rk4"}}
    if spec["meth"]["sample"]:
        yield {**spec, "meth": {**spec["meth"], "sample": False}}
    if spec["what"] == "conv" and spec["N"] > 2:
        yield {**spec, "N": 2}
