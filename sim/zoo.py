"""Solves as data: every kind of solve the library offers, its near twins, and its calling modes, behind one interface."""
import copy
import json

import numpy as np

from . import problems
from .driver import PRIORS2, PRIORSN, gen_bm, gen_method, gen_problem, initial_state, problem_arrays
from .simlib import lib, library_bm, ode_method, prng, rs
from .ssm import PRIORS1, ssm_method

TWINS = ("key", "delta", "N", "M", "prior", "noise", "sqrt", "x0", "params", "bm", "method", "kind", "same")


def gen(r, kinds=("driver", "driver", "driver", "ssm", "em", "emp", "diag15", "hypo15", "filter")):
    kind = r.choice(list(kinds))
    s = {"kind": kind, "kseed": r.randrange(2 ** 31), "pseed": r.randrange(2 ** 31), "delta": r.choice([0.01, 0.05, 0.1, 0.2]),
         "N": r.choice([1, 2, 3, 4, 6])}
    if kind in ("em", "emp", "driver", "diag15") and r.random() < 0.15:
        s["N"] = r.choice([65, 130, 300])  # never run eagerly
    s["host"] = r.random() < 0.4  # start and increments passed as numpy arrays (double precision)
    prob = gen_problem(r, square=kind in ("ssm", "diag15", "hypo15"))
    if kind == "diag15":
        prob = {"kind": r.choice(["diag", "diag_additive"]), "d": r.choice([1, 2, 3]), "m": 0}
    if kind == "hypo15":
        prob = {"kind": "hypo", "d": r.choice([2, 3]), "m": 0}
    if prob["kind"] == "scalar" and kind == "ssm":
        prob["d"] = 1
    if kind in ("ssm", "diag15", "hypo15"):
        prob["m"] = prob["d"]
    prob["pidx"] = r.randrange(1000)
    s["prob"] = prob
    if kind == "driver":
        s["meth"] = gen_method(r, ("euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2"), sample=r.random() < 0.7)
        s["bm"] = gen_bm(r)
        s["direct"] = r.random() < 0.5  # the generator goes to the driver as a user passes it, without a seam
    elif kind == "ssm":
        s["ssm"] = {"ekf0": r.random() < 0.5, "M": r.choice([1, 2, 3]), "sqrt": r.choice([True, False, None]), "prior": r.choice(PRIORS1),
                    "sample": r.random() < 0.7, "noise": {"seed": r.randrange(10 ** 6), "scale": 0.1} if r.random() < 0.3 else None}
    elif kind == "emp":
        s["standard"] = r.random() < 0.6
        s["host"] = r.random() < 0.6
    elif kind == "filter":
        s["meth"] = {"ekf0": r.random() < 0.5, "M": r.choice([1, 3]), "sqrt": r.random() < 0.5, "prior": r.choice(PRIORS2 + PRIORSN),
                     "noise": {"seed": r.randrange(10 ** 6), "scale": 0.1} if r.random() < 0.3 else None}
    return s


def twin(r, s):
    """A solve that differs from s in one respect (or not at all)."""
    t = copy.deepcopy(s)
    for _ in range(20):
        what = r.choice(TWINS)
        m = t.get("meth") or t.get("ssm")
        if what == "same":
            return t
        if what == "key":
            t["kseed"] = r.randrange(2 ** 31)
        elif what == "delta":
            t["delta"] = s["delta"] * r.choice([0.5, 2.0, 1.1, 1.003, 1.00002])
        elif what == "N":
            t["N"] = s["N"] + r.choice([1, 2])
        elif what == "M" and m:
            m["M"] = m["M"] + 1
        elif what == "prior" and m and m.get("prior"):
            pool = PRIORS1 if t["kind"] == "ssm" else [p for p in PRIORS2 + PRIORSN if p and p.get("q", p.get("k")) == m["prior"].get("q", m["prior"].get("k"))]
            m["prior"] = r.choice(pool)
        elif what == "noise" and m and m.get("name") != "euler":
            m["noise"] = {"seed": r.randrange(10 ** 6), "scale": 0.1}
        elif what == "sqrt" and m and m.get("name") != "euler":
            m["sqrt"] = not m["sqrt"]
        elif what in ("x0", "params"):
            t["x0seed" if what == "x0" else "pseed"] = r.randrange(2 ** 31)
        elif what == "bm" and t["kind"] == "driver":
            t["bm"] = gen_bm(r)
            if r.random() < 0.5:  # the same kind at another resolution
                t["bm"] = {"kind": s["bm"]["kind"], "n": s["bm"]["n"] + r.choice([1, 2, 5])} if "n" in s["bm"] else t["bm"]
        elif what == "method" and t["kind"] == "driver" and s["meth"]["name"].startswith("ekf"):
            a = s["meth"]["name"]
            t["meth"]["name"] = {"ekf0": "ekf1", "ekf1": "ekf0", "ekf0_2": "ekf1_2", "ekf1_2": "ekf0_2"}[a]
        elif what == "method" and t["kind"] in ("ssm", "filter"):
            m["ekf0"] = not m["ekf0"]
        elif what == "kind" and t["kind"] in ("em", "emp"):
            t["kind"] = "em" if t["kind"] == "emp" else "emp"
            t.setdefault("standard", True)
            t.setdefault("host", True)
        if t != s:
            return t
    t["kseed"] = r.randrange(2 ** 31)
    return t


def resized(r, s):
    """The same solve on an equation with another number of driving motions or coordinates (None where the kind fixes both)."""
    t = copy.deepcopy(s)
    p = t["prob"]
    if s["kind"] in ("ssm", "filter", "diag15", "hypo15") or p["kind"].startswith("diag"):
        if p["kind"] == "scalar" and s["kind"] == "ssm":
            return None
        p["d"] += r.choice([1, 2]) if p["d"] < 4 else -1
        p["m"] = p["d"]
    elif p["kind"] == "scalar":
        p["d"] += 1
    else:
        p["m"] += r.choice([1, 2]) if p["m"] < 4 else -1
    return t


def near(r, s):
    """The same solve with a step that differs in the third to sixth digit."""
    return {**copy.deepcopy(s), "delta": s["delta"] * r.choice([1.004, 1.0007, 1.00002, 0.9996])}


def describe(s):
    m = s.get("meth") or s.get("ssm") or {}
    return f"{s['kind']}/{m.get('name', '')} N={s['N']} delta={s['delta']:.4g} key={s['kseed']} M={m.get('M')}"


def _hypo(pseed, d):
    g = rs(pseed)
    S = np.zeros((d, d))
    S[1:, 1:] = np.diag(g.uniform(0.3, 0.9, d - 1))
    return {"A": g.uniform(-1, 1, (d, d)), "c": g.uniform(-1, 1, d), "S": S}


def inputs(s):
    """The caller's arrays: problem parameters, start, raw increments (numpy; converted by the caller of `program`)."""
    prob = s["prob"]
    d = prob["d"]
    if prob["kind"] == "hypo":
        dyn, p = _hypo(s["pseed"], d), None
        x0 = rs(s["pseed"] + 1).uniform(-1, 1, d)
    else:
        P, x0 = problem_arrays(prob, s["pseed"])
        p = P.pop("p")
        dyn = {k: np.asarray(v, np.float64) for k, v in P.items()}
    if "x0seed" in s:
        x0 = rs(s["x0seed"]).uniform(-1, 1, d)
    args = {"dyn": dyn, "x0": x0}
    if s["kind"] == "emp":
        args["incs"] = rs(s["kseed"]).normal(size=(s["N"], prob["m"])) * (1.0 if s["standard"] else np.sqrt(s["delta"]))
    if s["kind"] == "filter":
        from .simlib import prior_states
        n = prior_states(s["meth"]["prior"]) * d
        g = rs(s["pseed"] + 5)
        G = g.normal(size=(n, n)) * 0.3
        args["m0"], args["P0"] = g.normal(size=n) * 0.5, G @ G.T
    return args, p


def program(s, p, seam=lambda label: None):
    """solve(args, key) with every caller-supplied callable announcing itself at `seam`."""
    import jax.numpy as jnp
    kind, prob, delta, N = s["kind"], s["prob"], s["delta"], s["N"]

    def wrap(label, f):
        def g(*a, **k):
            seam(label)
            return f(*a, **k)
        return g

    def funcs(dyn):
        if prob["kind"] == "hypo":
            dr, sg = (lambda x, t: dyn["A"] @ x + dyn["c"]), (lambda x, t: dyn["S"])
        else:
            dr, sg = problems.jfuncs({**dyn, "p": p})
        return wrap("drift", dr), wrap("sigma", sg)

    def solve(args, key):
        drift, sigma = funcs(args["dyn"])
        x0 = args["x0"]
        if kind == "driver":
            base = library_bm(s["bm"], prob["m"])

            def bm():
                get, ev = base()
                return wrap("noise", get), wrap("path", ev)
            return lib.sde_solver(key=key, drift=drift, sigma=sigma, x0=initial_state(s["meth"], x0, jnp), bm=base if s.get("direct") else bm, delta=delta, N=N,
                                  ode_int=wrap("step", ode_method(s["meth"])))
        if kind == "ssm":
            return lib.ssm_parabola_ode_solver(key=key, drift=drift, sigma=sigma, x0=x0, delta=delta, N=N, solver=wrap("step", ssm_method(s["ssm"], prob["d"])))
        if kind == "em":
            return lib.euler_maruyama(key, x0, drift, sigma, delta, N)
        if kind == "emp":
            return lib.euler_maruyama_pathwise(args["incs"], x0, drift, sigma, delta, N, standard=s["standard"])
        if kind in ("diag15", "hypo15"):
            fn = lib.diag_15_scheme if kind == "diag15" else lib.hypoelliptic_diffusion_15_scheme
            return fn(key, x0, lambda x: drift(x, 0.0), lambda x: sigma(x, 0.0), delta, N)
        from .simlib import build_noise, build_prior, prior_states
        me = s["meth"]
        kw = {}
        pr = build_prior(me["prior"], delta, prob["d"])
        if pr is not None:
            kw["prior"] = pr
        if me["noise"]:
            kw["noise"] = jnp.asarray(build_noise(me["noise"], prob["d"]))
        init = (args["m0"], jnp.linalg.cholesky(args["P0"]) if me["sqrt"] else args["P0"])
        out = []
        for j in range(min(N, 3)):
            res = lib.ode_ekf(init, lambda x, t, j=j: drift(x, t + j * delta), delta, me["M"], sqrt=me["sqrt"], EKF0=me["ekf0"], return_all=True,
                              n_states=prior_states(me["prior"]), **kw)
            out.append(res)
            init = res[0]
        return out
    return solve


def host_args(s):
    """Arrays as the caller holds them: jax arrays; start and raw increments as numpy arrays on request."""
    import jax.numpy as jnp
    args, p = inputs(s)
    import jax
    keep, x0 = args.pop("incs", None), args["x0"]
    out = jax.tree_util.tree_map(jnp.asarray, args)
    if keep is not None:
        f = jnp.asarray(keep)
        out["incs"] = np.asarray(f).copy() if s.get("host") else f
    if s.get("host"):
        out["x0"] = np.array(x0, np.float64)
    return out, p


def call(s, mode, args, p, seam=lambda label: None, cache=None):
    """Run one solve; the result as a flat list of numpy arrays."""
    import jax
    import jax.numpy as jnp
    key = prng(s["kseed"])
    f = program(s, p, seam)
    if mode == "eager":
        with jax.disable_jit():
            out = f(args, key)
    elif mode == "plain":
        out = f(args, key)
    elif mode in ("jit", "rejit"):
        k = json.dumps(s, sort_keys=True)
        if mode == "jit" and cache is not None:
            if k not in cache:
                cache[k] = jax.jit(f)
            out = cache[k](args, key)
        else:
            out = jax.jit(f)(args, key)
    elif mode == "vmap":
        stack = jax.tree_util.tree_map(lambda v: jnp.stack([v, v]), args)
        out = jax.jit(jax.vmap(f))(stack, jnp.stack([key, prng(s["kseed"] + 1)]))
    else:
        raise ValueError(mode)
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(out)]
