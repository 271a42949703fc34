"""C19: prior transitions compose: predicting along any schedule of steps is one prediction over the total time."""
import json
import math

import numpy as np

from .. import refmodels as rm
from ..engine import Violation, digest, rng_for
from ..simlib import eager, lib, np64, rs, setup, shape_check

ID = "C19"
RULE = ("one run = one prior (Ornstein-Uhlenbeck, Matern closed form or quadrature, linear SDE, padded, coordinates of several kinds) carried along a random "
        "schedule of time steps, zero-length stalls, batched steps and observations; every transition is compared with the exact one, the chained "
        "law with one step over the total time and with the same schedule reordered or refined; non-trivial when the schedule has at least 3 steps of different sizes")
MEASURE = "distinct digests of the chained laws"
REAL = ["probnum.IOUP", "probnum.matern", "probnum.transition_function", "get_independently_factorized_prior", "pad_prior", "probnum.ekf (observation events)"]
STUB = ["prediction m -> A m + xi, P -> A P A' + Q between observations is the harness's"]
ASSUMPTIONS = ["closed forms 1e-9 relative to sqrt(Qii Qjj) (float32: 2e-4), numerically integrated transitions 1e-6 (float32: 5e-3)",
               "Ornstein-Uhlenbeck prior with a rate: its covariance is documented as leading-order, so it is held to 1.2 * rate * step"]
PROBES = ("probe.ioup", "probe.ioup_rate", "probe.matern", "probe.matern_mc", "probe.lti", "probe.padded", "probe.factorised", "probe.eager", "probe.jit",
          "probe.vmap", "probe.float32", "probe.stall", "probe.observed", "probe.many_steps", "probe.forcing")
QUICK_WALL = 600
KINDS = ("ioup", "matern", "matern_mc", "lti", "ioup_rate", "factorised", "padded")


def member(r, kind, x64, n=None):
    """One one-coordinate prior (n: required number of states)."""
    if kind in ("ioup", "ioup_rate"):
        q = r.choice([1, 1, 2, 3]) if n is None else n - 1
        return {"kind": kind, "q": q, "sigma": r.choice([0.3, 1.0, 2.5]), "theta": r.choice([0.1, 0.5, 2.0]) if kind == "ioup_rate" else 0.0}
    if kind == "matern":
        return {"kind": kind, "k": 1, "mag": r.choice([0.4, 1.0, 3.0]), "len": r.choice([0.2, 1.0, 5.0])}
    if kind == "matern_mc":
        k = (r.choice([0, 1, 2, 3]) if x64 else r.choice([0, 1, 2])) if n is None else n - 1
        return {"kind": kind, "k": k, "mag": r.choice([0.4, 1.0, 3.0]), "len": r.choice([0.7, 1.0, 3.0])}
    return {"kind": "lti", "n": r.choice([1, 2, 3, 4]) if n is None else n, "r": r.choice([1, 1, 2]), "seed": r.randrange(10 ** 6), "forced": r.random() < 0.7}


def coarse(m):
    return m["kind"] in ("matern_mc", "lti")


def plan(seed, tier):
    G, R = (84, 3) if tier == "quick" else (900, 4)
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        kind = KINDS[g % len(KINDS)]
        x64 = r.random() < 0.75
        if kind in ("factorised", "padded"):
            ms = [member(r, r.choice(["ioup", "matern", "matern_mc", "lti", "lti"]), x64) for _ in range(r.choice([2, 3, 4, 5] if kind == "factorised" else [1, 2, 3]))]
            if kind == "padded":
                top = max(nstates(m) for m in ms)
                top = r.choice([top + 1, top + 1, top + 2])
                ms = [{**m, "pad": top} for m in ms]
                if r.random() < 0.7:
                    ms.append(member(r, "ioup", x64, top))
        else:
            ms = [{**member(r, kind, x64), "dim": r.choice([1, 1, 2, 3])}]
        ch = []
        for i in range(R):
            q = rng_for(seed, ID, g, i)
            lo = 1e-4
            if any(coarse(m) for m in ms):
                lo = 0.02 if x64 else 0.1
            elif not x64:
                lo = 1e-2
            hi = min([3.0] + [0.3 / m["theta"] for m in ms if m.get("theta")])
            n = q.choice([2, 3, 5, 8] if any(coarse(m) for m in ms) else [3, 8, 20, 60])
            hs = [round(math.exp(q.uniform(math.log(lo), math.log(hi))), 6) for _ in range(n)]
            if q.random() < 0.3:
                hs[q.randrange(n)] = 0.0  # stalled clock
            if q.random() < 0.3:
                hs = [q.choice(hs) or lo for _ in hs]  # repeated sizes
            total = sum(hs)
            cap = hi * 2
            if total > cap:
                hs = [round(h * cap / total, 9) for h in hs]
            obs = sorted(q.sample(range(n), min(n, q.choice([0, 1, 3])))) if kind not in ("ioup_rate",) and x64 else []
            ch.append({"ms": ms, "x64": x64, "hs": hs, "obs": obs, "mode": q.choice(["eager", "jit", "jit", "vmap", "scalar"]), "seed": q.randrange(2 ** 31)})
        chunks.append(ch)
    a = [c for c in chunks if c[0]["x64"]]
    b = [c for c in chunks if not c[0]["x64"]]
    return [sum(v[i:i + 3], []) for v in (a, b) for i in range(0, len(v), 3)]


def nstates(m):
    return m.get("pad") or (m["n"] if m["kind"] == "lti" else (m["q"] if "q" in m else m["k"]) + 1)


def lti_params(m):
    g = rs(m["seed"])
    n = m["n"]
    F = g.uniform(-1.2, 1.0, (n, n)) / math.sqrt(n)
    u = g.uniform(-1, 1, n) * float(m["forced"])
    return F, u, g.uniform(-1, 1, (n, m["r"]))


def build(m, h):
    import jax.numpy as jnp
    d = m.get("dim", 1)
    if m["kind"] in ("ioup", "ioup_rate"):
        out = lib.IOUP_transition_function(theta=m["theta"], sigma=m["sigma"], q=m["q"], dt=h, dim=d)
    elif m["kind"] == "matern":
        out = lib.matern_transition_function(m["k"], m["mag"], m["len"], h, d)
    elif m["kind"] == "matern_mc":
        out = lib.matern_transition_function(m["k"], m["mag"], m["len"], h, d, mc=True)
    else:
        F, u, Lm = lti_params(m)
        out = lib.lti_transition_function(jnp.asarray(F), jnp.asarray(u), jnp.asarray(Lm), h)
        if d > 1:
            out = lib.get_independently_factorized_prior([out] * d)
    if m.get("pad"):
        out = lib.pad_prior(out, m["pad"] - 1)
    return out


def build_all(ms, h):
    outs = [build(m, h) for m in ms]
    return outs[0] if len(outs) == 1 else lib.get_independently_factorized_prior(tuple(outs))


def ref_one(m, h):
    d = m.get("dim", 1)
    if m["kind"] in ("ioup", "ioup_rate"):
        out = rm.ibm_prior(m["q"], m["sigma"], h, m["theta"]) if h > 0 else (np.zeros(m["q"] + 1), np.zeros((m["q"] + 1,) * 2), np.eye(m["q"] + 1))
    elif m["kind"] in ("matern", "matern_mc"):
        out = rm.matern_prior(m["k"], m["mag"], m["len"], h) if h > 0 else (np.zeros(m["k"] + 1), np.zeros((m["k"] + 1,) * 2), np.eye(m["k"] + 1))
    else:
        out = rm.lti_prior(*lti_params(m), h)
    out = rm.kron_prior(out, d)
    if m.get("pad"):
        n = out[0].shape[0]
        k = m["pad"] - n
        out = np.pad(out[0], (0, k)), np.pad(out[1], ((0, k), (0, k))), np.pad(out[2], ((0, k), (0, k)))
    return out


def ref_all(ms, h):
    return rm.block_prior([ref_one(m, h) for m in ms])


def tol(m, x64, h):
    if m["kind"] == "ioup_rate":
        return 1.2 * m["theta"] * h + (1e-8 if x64 else 2e-3)
    if coarse(m):
        rate = (m["k"] + 1) * math.sqrt(2 * m["k"] + 1) / m["len"] if m["kind"] == "matern_mc" else np.abs(lti_params(m)[0]).sum(1).max()
        return (1e-6 if x64 else 5e-3) + 5 * (1e-4 * rate * h) ** 2
    return 1e-9 if x64 else 2e-4


def cov_close(name, got, want, rt, where):
    """Entrywise, relative to the standard deviations of the two components."""
    s = np.sqrt(np.maximum(np.diag(want), 0.0))
    lim = rt * s[:, None] * s[None, :] + 1e-300
    err = np.abs(got - want)
    if not np.isfinite(got).all() or (err > lim).any():
        i = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err / lim, np.inf))), err.shape)
        raise Violation(f"prior:{name}", f"{where} at {tuple(int(v) for v in i)}: got {got[i]:.12g}, expected {want[i]:.12g} (tol {lim[i]:.3g})")


def predict(law, tr):
    xi, Q, A = tr
    m, P = law
    P = A @ P @ A.T + Q
    return A @ m + xi, 0.5 * (P + P.T)


def execute(spec, ctx):
    setup(spec["x64"])
    import jax
    import jax.numpy as jnp
    ms, hs, x64 = spec["ms"], spec["hs"], spec["x64"]
    n = sum(nstates(m) * m.get("dim", 1) for m in ms)
    steps = list(hs) + [float(sum(hs))]
    fk = json.dumps(ms, sort_keys=True)
    f = lambda h: build_all(ms, h)
    if spec["mode"] == "eager":
        trs = []
        for i, h in enumerate(steps):
            if i in (0, 1, len(steps) - 1):
                with eager():
                    trs.append(f(h))
            else:
                trs.append(f(h))
    elif spec["mode"] == "scalar":
        kinds = (float, np.float64, jnp.asarray)
        trs = [f(kinds[i % 3](h)) for i, h in enumerate(steps)]
    elif spec["mode"] == "jit":
        if fk not in ctx:
            ctx[fk] = jax.jit(f)
        trs = [ctx[fk](h) for h in steps]
    else:
        if ("v", fk) not in ctx:
            ctx["v", fk] = jax.jit(lambda hs: jax.lax.map(jax.vmap(f), hs.reshape(-1, 2)))
        hv = np.asarray(steps + [steps[-1]] * (len(steps) % 2))
        out = [np64(v).reshape((-1,) + v.shape[2:]) for v in ctx["v", fk](jnp.asarray(hv))]
        trs = [tuple(v[i] for v in out) for i in range(len(steps))]
    trs = [tuple(np64(v) for v in t) for t in trs]
    off = [0]
    for m in ms:
        off.append(off[-1] + nstates(m) * m.get("dim", 1))
    mask = np.zeros((n, n), bool)
    for a, b in zip(off, off[1:]):
        mask[a:b, a:b] = True
    # every transition on its own
    for h, t in zip(steps, trs):
        for nm, v, shp in zip(("xi", "Q", "A"), t, ((n,), (n, n), (n, n))):
            shape_check(nm, v, shp)
        xi, Q, A = t
        if np.abs(Q - Q.T).max() > (1e-12 if x64 else 1e-5) * max(1e-300, np.abs(Q).max()):
            raise Violation("prior:symmetry", f"h={h:g}: asymmetric covariance")
        if (Q[~mask] != 0).any() or (A[~mask] != 0).any():
            raise Violation("prior:blocks", f"h={h:g}: coordinates mix")
        for m, a, b in zip(ms, off, off[1:]):
            rxi, rQ, rA = ref_one(m, h)
            w = f"h={h:g} {m['kind']}"
            cov_close("covariance", Q[a:b, a:b], rQ, tol(m, x64, h), w)
            e = np.abs(A[a:b, a:b] - rA) > (1e-9 if x64 else 1e-4) * np.abs(rA) + (1e-13 if x64 else 1e-5) * max(1.0, np.abs(rA).max())
            if e.any() or not np.isfinite(A).all():
                i = tuple(int(v) for v in np.argwhere(e)[0]) if e.any() else (0, 0)
                raise Violation("prior:propagator", f"{w} at {i}: got {A[a:b, a:b][i]:.12g}, expected {rA[i]:.12g}")
            if not (np.abs(xi[a:b] - rxi) <= (1e-7 if x64 else 2e-3) * max(np.abs(rxi).max(), 1e-30)).all():
                raise Violation("prior:forcing", f"{w}: got {xi[a:b]}, expected {rxi}")
            s = np.sqrt(np.diag(rQ))
            live = s > 0
            if live.any():
                Cn = Q[a:b, a:b][np.ix_(live, live)] / s[live][:, None] / s[live][None, :]
                lo = float(np.linalg.eigvalsh(0.5 * (Cn + Cn.T))[0])
                if m["kind"] != "ioup_rate" and lo < -10 * tol(m, x64, h):
                    raise Violation("prior:psd", f"{w}: covariance has a negative direction ({lo:.3g})")
    # the schedule, its reordering, and one step over the total time
    g = rs(spec["seed"])
    m0 = g.normal(size=n)
    B = g.normal(size=(n, n)) * 0.3
    P0 = B @ B.T
    T = steps[-1]
    order = g.permutation(len(hs))
    rate = max([m.get("theta", 0.0) for m in ms] + [0.0])
    rt = max(tol(m, x64, T) for m in ms) * (3 if rate else 10)
    refs = {h: ref_all(ms, h) for h in set(steps)}
    pad = any(m.get("pad") for m in ms)

    def chain(seq, law):
        for t in seq:
            law = predict(law, t)
        return law

    for start in ((m0, P0), (m0, np.zeros((n, n)))):
        runs = [("schedule", chain(trs[:-1], start)), ("reordered", chain([trs[i] for i in order], start))]
        if not (pad and T == 0):
            runs.append(("one step", chain(trs[-1:], start)))
        wm, wP = chain([refs[h] for h in hs], start)
        sc = np.abs(wm).max() + 1.0
        for nm, (gm, gP) in runs:
            if not (np.abs(gm - wm) <= (1e-7 if x64 else 5e-3) * sc).all():
                raise Violation("compose:mean", f"{nm}: {gm} instead of {wm} after {len(hs)} steps, T={T:g}")
            if start[1].any():
                if not (np.abs(gP - wP) <= rt * np.abs(wP).max() + 1e-300).all():
                    raise Violation("compose:covariance", f"{nm}: off by {np.abs(gP - wP).max():.3g} after {len(hs)} steps, T={T:g}")
            elif not pad:
                cov_close("compose", gP, wP, rt, f"{nm}, {len(hs)} steps, T={T:g}")
    # observations in between: refining the schedule between them does not matter
    if spec["obs"]:
        d = len(ms) * ms[0].get("dim", 1) if len(ms) == 1 else len(ms)
        H = np.zeros((d, n))
        k = 0
        for m, a in zip(ms, off):
            for j in range(m.get("dim", 1)):
                H[k, a + j * nstates(m)] = 1.0
                k += 1
        H = H + 0.2 * g.normal(size=H.shape) * (np.abs(np.diag(trs[-1][1])) > 0)
        R = np.diag(g.uniform(0.2, 1.0, d))
        ys = g.normal(size=(len(spec["obs"]), d))
        Hj = jnp.asarray(H)
        if ("obs", fk, d) not in ctx:
            ctx["obs", fk, d] = jax.jit(lambda law, H, y, A, Q, xi, R: lib.filter_ekf(law, lambda x, v: H @ x - v, A, Q, xi, R, params=(y[None],)))
        upd = ctx["obs", fk, d]

        def history(groups, last):
            law = (m0, P0)
            gone = 0
            for seq, y in groups:
                law = chain(seq[:-1], law)
                xi, Q, A = seq[-1]
                law = tuple(np64(v) for v in upd(tuple(jnp.asarray(v) for v in law), Hj, jnp.asarray(y), jnp.asarray(A), jnp.asarray(Q), jnp.asarray(xi),
                                                 jnp.asarray(R)))
                gone += 1
            return chain(last, law)

        cuts = [o + 1 for o in spec["obs"]]
        segs = [hs[a:b] for a, b in zip([0] + cuts, cuts)]
        rest = hs[cuts[-1]:]
        fine = history([([trs[i] for i in range(a, b)], y) for a, b, y in zip([0] + cuts, cuts, ys)], trs[cuts[-1]:-1])
        ft = jax.jit(f) if fk not in ctx else ctx[fk]
        big = [tuple(np64(v) for v in ft(float(sum(s)))) for s in segs] + ([tuple(np64(v) for v in ft(float(sum(rest))))] if rest else [])
        coarse_ = history([([b], y) for b, y in zip(big, ys)], big[len(segs):])
        if not pad:
            law = (m0, P0)
            for s, y in zip(segs, ys):
                law = chain([refs[h] for h in s], law)
                law = rm.kf_update(*law, H @ law[0] - y, H, R)[:2]
            law = chain([refs[h] for h in rest], law)
            for nm, got in (("fine", fine), ("coarse", coarse_)):
                for wh, x, y in zip(("mean", "covariance"), got, law):
                    if not (np.abs(x - y) <= max(1e-5, rt) * (np.abs(y).max() + (1.0 if wh == "mean" else 0.0))).all():
                        raise Violation("compose:observed", f"{nm} schedule, {wh}: off by {np.abs(x - y).max():.3g}")
        else:
            for wh, x, y in zip(("mean", "covariance"), fine, coarse_):
                if not (np.abs(x - y) <= max(1e-5, rt) * (np.abs(y).max() + (1.0 if wh == "mean" else 0.0))).all():
                    raise Violation("compose:observed", f"{wh}: schedules differ by {np.abs(x - y).max():.3g}")
    st = {"steps": len(hs), "sim_time": float(T), "transitions": len(trs), "probe.eager": int(spec["mode"] == "eager"), "probe.jit": int(spec["mode"] == "jit"),
          "probe.vmap": int(spec["mode"] == "vmap"), "probe.float32": int(not x64), "probe.stall": int(0.0 in hs), "fault.stalled_clock": int(0.0 in hs),
          "fault.reordered_steps": 1, "probe.observed": int(bool(spec["obs"])), "probe.many_steps": int(len(hs) >= 20), "probe.factorised": int(len(ms) > 1),
          "probe.padded": int(pad)}
    for m in ms:
        st[f"probe.{m['kind']}"] = 1
        if m.get("forced"):
            st["probe.forcing"] = 1
    return {"stats": st, "sig": digest(*trs[-1], *chain(trs[:-1], (m0, P0))), "nontrivial": len(set(hs)) >= 3}


def shrink(spec):
    if spec["obs"]:
        yield {**spec, "obs": []}
    n = len(spec["hs"])
    for k in (1, 2, n // 2):
        if 0 < k < n and not spec["obs"]:
            yield {**spec, "hs": spec["hs"][:k]}
            yield {**spec, "hs": spec["hs"][-k:]}
    for i in range(len(spec["ms"])):
        if len(spec["ms"]) > 1:
            yield {**spec, "ms": spec["ms"][:i] + spec["ms"][i + 1:]}
        elif spec["ms"][i].get("dim", 1) > 1:
            yield {**spec, "ms": [{**spec["ms"][i], "dim": 1}]}
    if spec["mode"] != "scalar":
        yield {**spec, "mode": "scalar"}
