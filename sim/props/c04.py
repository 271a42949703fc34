"""C04: crash a solve anywhere, resume from the last durable state, get the same remaining trajectory."""
import json

import numpy as np

from .. import problems, ssm
from ..driver import size, initial_state, make_cfg, problem_arrays, shrink_common
from ..engine import HarnessError, Violation, digest, rng_for
from ..faults import Seams, SimError, SimKill
from ..simlib import (close, driver_keys_fn, eager, lib, np64, ode_method, prng, rs, sample_keys_fn, setup, split_static, ssm_keys_fn,
                      tape_bm, key_data)

ID = "C04"
LEVEL = "fault_enumeration"
RULE = ("one run = an uninterrupted history plus the same history killed at seam events (kill and error faults at any drift, diffusion, noise, "
        "step-begin, step-end or after-save event; possibly repeatedly) and resumed from the last saved state with shifted dynamics and the "
        "remaining noise; 'cut' runs enumerate every crash step of one configuration in compiled mode; non-trivial when a crash fired")
MEASURE = "distinct digests of (crash event log, stitched trajectory)"
REAL = ["sde_solver", "ssm driver and solvers", "ode_solvers", "euler_maruyama_pathwise", "euler_maruyama"]
STUB = ["noise and posterior-sampling keys replayed from a tape", "caller dynamics with crash seams", "caller-side checkpoint store"]
ASSUMPTIONS = ["rounding of the absolute time shift: compared at 1e-8 relative to the path (1e-6 for posterior draws, which go through a square root)", "posterior draws of the square-root form are compared on autonomous dynamics only"]
PROBES = ("fault.kill", "fault.error", "fault.repeat_crash", "probe.sde", "probe.ssm", "probe.em", "probe.emkey", "probe.long", "probe.triple", "probe.cut",
          "probe.crash_in_step", "probe.crash_after_save")


def plan(seed, tier):
    ne, G, R = (72, 18, 5) if tier == "quick" else (900, 120, 10)
    rec = []
    for i in range(ne):
        r = rng_for(seed, ID, "e", i)
        kind = ["sde", "sde", "ssm", "sde", "em"][i % 5]
        rec.append({"mode": "eager", "kind": kind, "cfg": _cfg(r, kind, [2, 3, 4, 6], True), "pseed": r.randrange(2 ** 31),
                    "kseed": r.randrange(2 ** 31), "standard": r.random() < 0.5,
                    "crashes": [r.random() for _ in range(r.choice([1, 1, 2, 3]))],
                    "exc": r.choice(["kill", "error"]), "where": r.choice(["any", "any", "inside", "saved"])})
    rec.sort(key=lambda s: (s["cfg"]["d"], s["cfg"]["m"], s["kind"]))
    chunks = [rec[i:i + 6] for i in range(0, len(rec), 6)]
    for g in range(G + G // 3):
        r = rng_for(seed, ID, "c", g)
        kind = ["sde", "sde", "ssm", "sde", "em", "emkey"][g % 6] if g < G else ["em", "emkey"][g % 2]
        long = kind in ("em", "emkey") and r.random() < 0.5  # long solves, killed at some steps
        cfg = _cfg(r, kind, [3, 5, 8])
        if g >= G and cfg["kind"] in ("additive", "diag_additive", "autonomous"):
            cfg["kind"] = "diag" if cfg["m"] == cfg["d"] else "time_additive"
        if long:
            cfg["N"], cfg["delta"] = size(r, [70, 300, 1030]), 0.002
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, "c", g, i)
            ch.append({"mode": "cut", "kind": kind, "cfg": cfg, "pseed": q.randrange(2 ** 31), "kseed": q.randrange(2 ** 31),
                       "standard": g % 2 == 0})
            if long:
                ch[-1]["cuts"] = sorted(q.sample(range(1, cfg["N"]), 2))
        if long:
            ch = ch[:2]
        chunks.append(ch)
    return chunks


def _cfg(r, kind, Ns, eager_mode=False):
    if kind == "ssm":
        cfg = ssm.gen_cfg(r, sample=r.random() < 0.8, Ns=Ns)
    else:
        cfg = make_cfg(r, Ns=Ns, sample=r.random() < 0.7)
        if r.random() < 0.4 and cfg["meth"]["name"].startswith("ekf"):
            cfg["meth"]["name"] = r.choice(["ekf0_2", "ekf1_2"])
            if (cfg["meth"].get("prior") or {}).get("q", 1) > 1 or (cfg["meth"].get("prior") or {}).get("k", 1) > 1:
                cfg["meth"]["prior"] = None
    # Draws through a square-root factor are not continuous in rounding (the factor's column signs are arbitrary when the
    # covariance is singular), so pathwise equality is asked of them only where a resumed solve repeats the very same
    # arithmetic: autonomous dynamics, uncompiled.
    s = cfg["ssm"] if kind == "ssm" else cfg["meth"]
    if kind in ("ssm", "sde") and s.get("sample") and s.get("sqrt"):
        if eager_mode and cfg["kind"] in ("full", "autonomous"):
            cfg["kind"] = "autonomous"
        else:
            s["sqrt"] = False
    return cfg


def _rtol(spec):
    s = spec["cfg"].get("ssm") if spec["kind"] == "ssm" else spec["cfg"]["meth"]
    return 1e-6 if spec["kind"] in ("ssm", "sde") and s.get("sample") else 1e-8


def _shifted(dyn, p, t0):
    drift, sigma = problems.jfuncs({**dyn, "p": p})
    return (lambda x, t: drift(x, t + t0)), (lambda x, t: sigma(x, t + t0))


def _ktab(ctx, which, N, key):
    import jax
    if isinstance(ctx, _TabCtx):
        return ctx.tabs[which]
    k = ("ktab", which, N)
    if k not in ctx:
        ctx[k] = jax.jit({"noise": driver_keys_fn, "sample": sample_keys_fn, "ssm": ssm_keys_fn}[which](N))
    with jax.disable_jit(False):
        return np.asarray(ctx[k](key))


def _segment(spec, ctx, dyn, p, x0, lo, key, tapes, seams=None, hi=None):
    """Library solve of steps lo..hi-1 from state x0 with the dynamics shifted by lo*delta and the tape's remaining noise."""
    import jax.numpy as jnp
    cfg, kind = spec["cfg"], spec["kind"]
    hi = cfg["N"] if hi is None else hi
    n, delta = hi - lo, cfg["delta"]
    drift, sigma = _shifted(dyn, p, lo * delta)
    if seams:
        drift, sigma = seams.drift(drift), seams.sigma(sigma)
    A, B, SK = tapes
    if kind == "emkey" and lo == 0:
        return lib.euler_maruyama(key, init=x0, drift=drift, sigma=sigma, h=delta, N=n)
    if kind in ("em", "emkey"):
        return lib.euler_maruyama_pathwise(A[lo:hi], init=x0, drift=drift, sigma=sigma, h=delta, N=n, standard=spec["standard"] and kind == "em")
    if kind == "ssm":
        base = ssm.ssm_method(cfg["ssm"], cfg["d"])
        tab = jnp.asarray(_ktab(ctx, "ssm", n, key))

        def solver(key, init, drift, diffusion, T):
            k = jnp.argmax(jnp.all(tab == key_data(key), -1))
            return base(SK[lo + k], init=init, drift=drift, diffusion=diffusion, T=T)
        return lib.ssm_parabola_ode_solver(key=key, drift=drift, sigma=sigma, x0=x0, delta=delta, N=n,
                                           solver=seams.ssm(solver) if seams else solver)
    ntab, stab = jnp.asarray(_ktab(ctx, "noise", n, key)), jnp.asarray(_ktab(ctx, "sample", n, key))
    base = ode_method(cfg["meth"])

    def ode_int(key, init, vector_field, T):
        k = jnp.argmax(jnp.all(stab == key_data(key), -1))
        return base(SK[lo + k], init=init, vector_field=vector_field, T=T)
    bm = tape_bm(ntab, A[lo:hi], B[lo:hi])
    return lib.sde_solver(key=key, drift=drift, sigma=sigma, x0=x0, bm=seams.bm(bm) if seams else bm, delta=delta, N=n,
                          ode_int=seams.ode_int(ode_int) if seams else ode_int)


def _leaves(t):
    import jax
    return [np64(v) for v in jax.tree_util.tree_leaves(t)]


def execute(spec, ctx):
    setup(True)
    import jax
    import jax.numpy as jnp
    cfg, kind = spec["cfg"], spec["kind"]
    N, d, m, delta = cfg["N"], cfg["d"], cfg["m"], cfg["delta"]
    P, x0 = problem_arrays(cfg, spec["pseed"])
    dyn, p = split_static(P)
    dyn = {k: jnp.asarray(v) for k, v in dyn.items()}
    g = rs(spec["kseed"])
    sc = 1.0 if kind == "em" and spec["standard"] else np.sqrt(delta)
    A, B = jnp.asarray(g.normal(size=(N, m)) * sc), jnp.asarray(g.normal(size=(N, m)) * np.sqrt(delta / 2))
    SK = jax.random.split(prng(spec["kseed"] + 1), N)
    if kind == "emkey":  # the increments behind a key: the solve of dx = dW
        A = jnp.diff(lib.euler_maruyama(prng(spec["kseed"]), init=jnp.zeros(m), drift=lambda x, t: jnp.zeros(m), sigma=lambda x, t: jnp.eye(m),
                                        h=delta, N=N)[1], axis=0)
    tapes = (A, B, SK)
    start = jnp.asarray(x0)
    if kind == "sde":
        start = initial_state(cfg["meth"], start, jnp)
    key = prng(spec["kseed"])
    st = {"steps": N, "sim_time": N * delta, f"probe.{kind}": 1,
          "probe.triple": int(isinstance(start, tuple))}
    if spec["mode"] == "cut":
        fk = json.dumps([cfg, kind, spec["standard"]], sort_keys=True)
        full = _seg_jit(spec, ctx, fk, p, 0, dyn, start, key, tapes)
        L0 = _leaves(full[1])
        for c in spec.get("cuts") or range(1, N):
            st["fault.kill"] = st.get("fault.kill", 0) + 1
            state = jax.tree_util.tree_map(lambda v: v[c], full[1])
            res = _seg_jit(spec, ctx, fk, p, c, dyn, state, prng(spec["kseed"] + 77 * c), tapes)
            close("resume-times", np64(res[0]) + c * delta, np64(full[0])[c:], 1e-12)
            for x, y in zip(L0, _leaves(res[1])):
                close("resume", y, x[c:], _rtol(spec), 1e-2 * _rtol(spec), f"killed after step {c} of {N}")
        st["probe.cut"], st["probe.long"] = 1, int(N > 64)
        return {"stats": st, "sig": digest(L0), "nontrivial": N > 1}

    exc = {"kill": SimKill, "error": SimError}[spec["exc"]]
    with eager():
        w = Seams()
        full = _segment(spec, ctx, dyn, p, start, 0, key, tapes, w)
        L0 = _leaves(full[1])
        log = []
        lo, state = 0, start
        for ci, frac in enumerate(spec["crashes"]):
            # choose the crash event among the events the remaining solve would produce
            labels = w.events
            cand = [i for i in range(len(labels))]
            if spec["where"] == "inside":
                cand = [i for i in cand if labels[i] in ("drift", "sigma", "noise", "step-end")] or cand
            elif spec["where"] == "saved":
                cand = [i for i in cand if labels[i] == "step-saved"] or cand
            at = cand[int(frac * (len(cand) - 1) * 0.999)]
            w2 = Seams(crash_at=at, crash_exc=exc)
            try:
                _segment(spec, ctx, dyn, p, state, lo, prng(spec["kseed"] + 31 * (ci + 1)), tapes, w2)
            except exc:
                pass
            except Exception as e:  # the injected error came back in another shape: still an error to the caller
                if not w2.fired:
                    raise
                log.append(type(e).__name__)
            else:
                if w2.fired:
                    raise Violation("crash-swallowed", f"an error raised by caller code at event {at} ({w2.events[-1]}) was swallowed")
                break
            st[f"fault.{spec['exc']}"] = st.get(f"fault.{spec['exc']}", 0) + 1
            st["probe.crash_in_step"] = st.get("probe.crash_in_step", 0) + int(w2.events[-1] != "step-saved")
            st["probe.crash_after_save"] = st.get("probe.crash_after_save", 0) + int(w2.events[-1] == "step-saved")
            if ci:
                st["fault.repeat_crash"] = st.get("fault.repeat_crash", 0) + 1
            log.append(f"{lo}:{at}:{w2.events[-1]}:{len(w2.saved)}")
            for k, s in enumerate(w2.saved):
                for x, y in zip(L0, _leaves(s)):
                    close("durable-prefix", y, x[lo + k + 1], _rtol(spec), 1e-2 * _rtol(spec), f"state saved after step {lo + k + 1}")
            if w2.saved:
                state = w2.saved[-1]
                lo += len(w2.saved)
            if lo >= N:
                break
            w = Seams()
            w.events = labels[: max(1, len(labels) * (N - lo) // N)]
        if lo < N:
            res = _segment(spec, ctx, dyn, p, state, lo, prng(spec["kseed"] + 999), tapes, Seams())
            close("resume-times", np64(res[0]) + lo * delta, np64(full[0])[lo:], 1e-12)
            for x, y in zip(L0, _leaves(res[1])):
                close("resume", y, x[lo:], _rtol(spec), 1e-2 * _rtol(spec), f"resumed after step {lo} of {N}; crashes {log}")
    return {"stats": st, "sig": digest(L0, log), "nontrivial": bool(log)}


def _seg_jit(spec, ctx, fk, p, lo, dyn, x, key, tapes):
    import jax
    n = spec["cfg"]["N"] - lo
    kind = spec["kind"]
    names = {"ssm": ["ssm"], "em": [], "emkey": [], "sde": ["noise", "sample"]}[kind]
    tabs = [_ktab(ctx, nm, n, key) for nm in names]
    if (fk, lo, "jit") not in ctx:
        def fn(dyn, x, key, A, B, SK, *tabs):
            return _segment(spec, _TabCtx(dict(zip(names, tabs))), dyn, p, x, lo, key, (A, B, SK))
        ctx[(fk, lo, "jit")] = jax.jit(fn)
    return ctx[(fk, lo, "jit")](dyn, x, key, *tapes, *tabs)


class _TabCtx(dict):
    def __init__(self, tabs):
        super().__init__()
        self.tabs = tabs


def shrink(spec):
    if len(spec.get("crashes", [])) > 1:
        for i in range(len(spec["crashes"])):
            yield {**spec, "crashes": spec["crashes"][:i] + spec["crashes"][i + 1:]}
    for s in shrink_common(spec, ()):
        s["mode"] = spec["mode"]
        if "cuts" in spec:
            s["cuts"] = [min(c, s["cfg"]["N"] - 1) for c in spec["cuts"]]
        if s["cfg"]["N"] >= 2:
            yield s
