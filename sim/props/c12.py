"""C12: the probabilistic ODE solvers are the Gaussian filters of the stated model (refinement of a reference filter, with restarts)."""
import json

import numpy as np

from .. import problems, refmodels as rm
from ..driver import PRIORS2, PRIORSN, problem_arrays
from ..engine import Violation, digest, rng_for
from ..problems import Field, PlainField, Ref
from ..simlib import (build_noise, build_prior, close, eager, lib, np64, prior_states, ref_prior, rs, setup, shape_check, split_static)

ID = "C12"
RULE = ("one run = one filtering history of M substeps on a drawn vector field, checked against the reference filter (mean, covariance, last "
        "innovation and its covariance), plus the same history interrupted at a seed-chosen substep and restarted from the reported posterior; "
        "non-trivial when M >= 2 or a non-default prior/noise is used")
MEASURE = "distinct digests of the filter outputs"
REAL = ["ode_solvers.ekf/ekf0/ekf1/ekf0_2/ekf1_2", "probnum.ekf (predict/update)", "IOUP, Matern, LTI, factorised priors", "interlacing"]
STUB = ["caller vector field (drawn problem, optionally with a parabola drive)"]
ASSUMPTIONS = ["library priors by quadrature agree with exact transitions to 1e-6", "float64 1e-7 relative, float32 2e-3"]
PROBES = ("probe.wrapper", "probe.mixture", "probe.generic", "probe.restart", "fault.restart", "probe.sqrt", "probe.standard", "probe.noise",
          "probe.states3", "probe.states4", "probe.return_all", "probe.eager", "probe.float32", "probe.prior_drift")


DEFAULTS = [{"kind": "default", "q": 2}, {"kind": "default", "q": 3}, {"kind": "default", "q": 2}]  # the filter's own prior with more states


def plan(seed, tier):
    G, R = (88, 6) if tier == "quick" else (700, 10)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        kind = ["wrapper", "mixture", "generic"][g % 3]
        d = r.choice([1, 2, 2, 3, 4, 5])
        x64 = r.random() < 0.85
        cfg = {"kind": "full", "d": d, "m": r.choice([1, d]), "pidx": r.randrange(1000), "flt": kind, "ekf0": r.random() < 0.5,
               "sqrt": r.choice([True, False, None]) if kind != "generic" else r.choice([True, False]),
               "M": r.choice([1, 2, 3, 4, 7, 20, 33]), "h": r.choice([0.01, 0.05, 0.1, 0.2]),
               "noise": {"seed": r.randrange(10 ** 6), "scale": r.choice([1e-4, 1e-2, 1.0])} if r.random() < 0.4 else None,
               "drive": r.random() < 0.4, "return_all": r.random() < 0.6 if kind != "wrapper" else False, "scale": 1.0}
        if kind == "mixture":
            cfg["prior"] = r.choice(PRIORS2)
        elif kind == "wrapper":
            cfg["prior"] = r.choice(PRIORS2 + PRIORSN + PRIORSN)
        else:
            cfg["prior"] = r.choice(PRIORS2 + PRIORSN + DEFAULTS)
        if prior_states(cfg["prior"]) > 2 and cfg["ekf0"]:
            cfg["M"] = min(cfg["M"], 7)  # the zeroth-order filter with more states is unstable: rounding grows by an order every few steps
        if prior_states(cfg["prior"]) > 2 and not cfg["sqrt"]:
            cfg["h"] = max(cfg["h"], 0.05)  # the standard form cancels terms of order h^-2q: below this its digits are rounding
        if not x64:
            cfg["h"] = max(cfg["h"], 0.1)
            if prior_states(cfg["prior"]) > 2:
                cfg["prior"] = None
        if x64 and prior_states(cfg["prior"]) == 2 and r.random() < 0.3:
            cfg["h"] = r.choice([1e-4, 1e-3, 0.5, 1.5])
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, g, i)
            ch.append({"cfg": cfg, "x64": x64, "pseed": q.randrange(2 ** 31), "mode": "eager" if i == 0 and cfg["M"] <= 3 else "jit",
                       "cut": q.randrange(1, cfg["M"]) if cfg["M"] > 1 else 0})
        chunks.append(ch)
    out, pend = [], {}
    for c in chunks:
        k = c[0]["x64"]
        pend.setdefault(k, []).append(c)
        if len(pend[k]) == 3:
            out.append(sum(pend.pop(k), []))
    return out + [sum(v, []) for v in pend.values()]


def execute(spec, ctx):
    setup(spec["x64"])
    import jax
    import jax.numpy as jnp
    cfg = spec["cfg"]
    d, m, M, h, n = cfg["d"], cfg["m"], cfg["M"], cfg["h"], prior_states(cfg["prior"])
    P, x0 = problem_arrays(cfg, spec["pseed"])
    dyn, p = split_static(P)
    ref = Ref(P)
    g = rs(spec["pseed"] + 1)
    T = M * h
    a, b = g.normal(size=m) * np.sqrt(T), g.normal(size=m) * np.sqrt(T / 2)
    if not cfg["drive"]:
        a, b = a * 0, b * 0
    fld = Field(ref, 0.0, T, a, b)
    R = build_noise(cfg["noise"], d)
    prior = ref_prior(cfg["prior"], h, d)
    kind, sq = cfg["flt"], cfg["sqrt"]
    name = ("ekf0" if cfg["ekf0"] else "ekf1") + ("_2" if kind == "mixture" else "")
    rt = 1e-7 if spec["x64"] else 2e-3
    at = 1e-9 if spec["x64"] else 2e-4
    # a proper starting law for the mixture and generic forms
    G0 = g.normal(size=(d, d)) * 0.2
    P00 = G0 @ G0.T
    Gn = g.normal(size=(d * n, d * n)) * 0.2
    m_g, P_g = g.normal(size=d * n), Gn @ Gn.T + 1e-3 * np.eye(d * n)
    if g.uniform() < 0.3:
        P_g = P_g * 0.0
        P00 = P00 * 0.0

    def vf(dyn, a, b, shift=0.0):
        drift, sigma = problems.jfuncs({**dyn, "p": p})

        def field(z, u):
            t = u + shift
            w = (a + b * jnp.sqrt(6.0) * (1 - 2 * t / T)) / T
            return drift(z, t) + sigma(z, t) @ w
        return field

    kw = {}
    if sq is not None:
        kw["sqrt"] = sq
    pr = build_prior(cfg["prior"], h, d)
    if pr is not None:
        kw["prior"] = pr
    if R is not None:
        kw["noise"] = jnp.asarray(R)

    def call(dyn, a, b, x0, m0, P0, shift, steps):
        f = vf(dyn, a, b, shift)
        if kind == "wrapper":
            return getattr(lib, name)(None, init=x0, vector_field=f, h=h, N=steps, **kw)
        if kind == "mixture":
            k2 = dict(kw, return_all=True) if cfg["return_all"] else kw
            return getattr(lib, name)(None, init=(x0, m0, P0), vector_field=f, h=h, N=steps, **k2)
        return lib.ode_ekf((m0, P0), f, h, steps, EKF0=cfg["ekf0"], n_states=n, return_all=cfg["return_all"], **kw)

    def run(m0, P0, shift, steps):
        # the mixture form is given its mean as the point as often as another point: neither its law nor its mean depends on it
        point = m0 if kind == "mixture" and spec["pseed"] % 2 else x0
        args = ({k: jnp.asarray(v) for k, v in dyn.items()}, jnp.asarray(a), jnp.asarray(b), jnp.asarray(point), jnp.asarray(m0),
                jnp.asarray(P0), jnp.asarray(float(shift)))
        if spec["mode"] == "eager":
            with eager():
                return call(*args, steps)
        k = (json.dumps(cfg, sort_keys=True), steps)
        if k not in ctx:
            ctx[k] = jax.jit(lambda *q: call(*q, steps))
        return ctx[k](*args)

    st = {f"probe.{kind}": 1, "steps": M, "sim_time": T, "probe.sqrt": int(bool(sq)), "probe.standard": int(sq is False),
          "probe.noise": int(R is not None), f"probe.states{n}": 1, "probe.return_all": int(cfg["return_all"]),
          "probe.eager": int(spec["mode"] == "eager"), "probe.float32": int(not spec["x64"]),
          "probe.prior_drift": int((cfg["prior"] or {}).get("kind") in ("lti", "mixed"))}
    chol = lambda C: np.linalg.cholesky(C) if np.abs(C).max() > 0 else C

    def widen(at, nominal, call):
        """The absolute tolerance of an ill-conditioned filter: what rounding alone does to the reference, with a margin."""
        return max(at, 1000 * rm.rounding_spread(call, nominal, spec["pseed"], 2e-16 if spec["x64"] else 1e-7))
    if kind == "wrapper":
        fm, fP = rm.ref_alg2(x0, fld, prior, h, M, cfg["ekf0"], n, R)
        at = widen(at, (fm,), lambda: rm.ref_alg2(x0, fld, prior, h, M, cfg["ekf0"], n, R)[:1])
        out = run(np.zeros(1), np.zeros(1), 0.0, M)
        shape_check("mean", out, (d,))
        close("mean", out, fm[::n], rt, at)
        sig = digest(np64(out))
    elif kind == "mixture":
        m0 = g.normal(size=d)
        fm, fP, S, c = rm.ref_alg3(m0, P00, fld, prior, h, M, cfg["ekf0"], R)
        at = widen(at, (fm, fP), lambda: rm.ref_alg3(m0, P00, fld, prior, h, M, cfg["ekf0"], R)[:2])
        out = run(m0, P00, 0.0, M)
        if cfg["return_all"]:
            out, full = out
            _check_all(full, fm, fP, S, c, rt, at, sampled=True)
        close("mean", out[1], fm[::2], rt, at)
        close("sample", out[0], fm[::2], rt, at)
        close("cov", out[2], fP[::2, ::2], 10 * rt, at)
        if M > 1:
            # interrupted after `cut` substeps, restarted from the reported law: the chain of two reference filters
            j = spec["cut"]
            o1 = run(m0, P00, 0.0, j)
            o1 = o1[0] if cfg["return_all"] else o1
            sh = _Shift(fld, j * h)
            fm1, fP1, _, _ = rm.ref_alg3(np64(o1[1]), np64(o1[2]), sh, prior, h, M - j, cfg["ekf0"], R)
            o2 = run(np64(o1[1]), np64(o1[2]), j * h, M - j)
            o2 = o2[0] if cfg["return_all"] else o2
            close("restart-mean", o2[1], fm1[::2], rt, at)
            close("restart-cov", o2[2], fP1[::2, ::2], 10 * rt, at)
            st["fault.restart"] = st["probe.restart"] = 1
        sig = digest([np64(v) for v in out])
    else:
        P_in = chol(P_g) if sq else P_g
        fm, fP, S, c = rm.filter_interval(m_g, P_g, fld, prior, h, M, cfg["ekf0"], n, R)
        at = widen(at, (fm, fP), lambda: rm.filter_interval(m_g, P_g, fld, prior, h, M, cfg["ekf0"], n, R)[:2])
        out = run(m_g, P_in, 0.0, M)
        if cfg["return_all"]:
            x, So, co = out
            close("innovation", co, c, rt, max(at, 1e-8))
            close("innovation-cov", So, S, 10 * rt, at)
        else:
            x = out
        mo, Po = np64(x[0]), np64(x[1])
        Po = Po @ Po.T if sq else Po
        close("mean", mo, fm, rt, at)
        close("cov", Po, fP, 10 * rt, at)
        if M > 1:
            j = spec["cut"]
            o1 = run(m_g, P_in, 0.0, j)
            x1 = o1[0] if cfg["return_all"] else o1
            o2 = run(np64(x1[0]), np64(x1[1]), j * h, M - j)
            x2 = o2[0] if cfg["return_all"] else o2
            P2 = np64(x2[1])
            P2 = P2 @ P2.T if sq else P2
            close("restart-mean", x2[0], fm, rt, at, f"restart after substep {j} of {M}")
            close("restart-cov", P2, fP, 10 * rt, at, f"restart after substep {j} of {M}")
            st["fault.restart"] = st["probe.restart"] = 1
        sig = digest(mo, Po)
    return {"stats": st, "sig": sig, "nontrivial": M >= 2 or bool(cfg["prior"]) or bool(cfg["noise"])}


class _Shift:
    def __init__(self, f, s):
        self.g, self.s = f, s

    def f(self, z, u):
        return self.g.f(z, u + self.s)

    def fx(self, z, u):
        return self.g.fx(z, u + self.s)

    def ft(self, z, u):
        return self.g.ft(z, u + self.s)


def _check_all(full, fm, fP, S, c, rt, at, sampled):
    """return_all of the mixture form: (sample, mean, cov, and the last innovation with its covariance, told apart by shape)."""
    d = c.shape[-1]
    if len(full) != 5:
        raise Violation("shape:return_all", f"{len(full)} entries")
    close("all:sample", full[0], fm, rt, at)
    close("all:mean", full[1], fm, rt, at)
    close("all:cov", full[2], fP, 10 * rt, at)
    rest = full[3:]
    mats = [v for v in rest if np.ndim(v) == 2]
    vecs = [v for v in rest if np.ndim(v) == 1]
    if len(mats) != 1 or len(vecs) != 1:
        raise Violation("shape:return_all", f"shapes {[np.shape(v) for v in rest]}")
    close("all:innovation", vecs[0], c, rt, max(at, 1e-8))
    close("all:innovation-cov", mats[0], S, 10 * rt, at)


def shrink(spec):
    c = spec["cfg"]
    for M in (1, 2, 3):
        if M < c["M"]:
            yield {**spec, "cfg": {**c, "M": M}, "cut": min(spec["cut"], M - 1)}
    for dd in (1, 2):
        if dd < c["d"]:
            yield {**spec, "cfg": {**c, "d": dd, "m": min(c["m"], dd)}}
    for k in ("noise", "prior", "drive", "return_all"):
        if c[k]:
            yield {**spec, "cfg": {**c, k: None if k in ("noise", "prior") else False}}
    if c["sqrt"]:
        yield {**spec, "cfg": {**c, "sqrt": False}}
    if spec["mode"] != "jit":
        yield {**spec, "mode": "jit"}
