"""C07: every random draw is fresh and independent (keys at the seams; recovered noise)."""
import numpy as np

from .. import problems
from ..driver import chunked, size
from ..engine import Violation, digest, rng_for
from ..problems import Ref
from ..simlib import as_f, key_data, lib, library_bm, np64, prng, rs, setup, shape_check, uncorrelated, white

ID = "C07"
RULE = ("keys runs: the driver is run for N steps and 1-8 caller keys with an injected generator and integrator that report the key they "
        "were given, all keys must be pairwise distinct across steps, roles and callers; noise runs: 10^4..10^5 draws recovered from driver "
        "histories are tested for independence across steps, roles, components and callers; non-trivial when more than one step and role is involved")
MEASURE = "distinct digests of the collected key sets / recovered noise"
REAL = ["sde_solver", "ssm driver", "generators", "euler_maruyama keyed", "1.5 schemes"]
STUB = ["generator and integrator in key runs", "integrator in noise runs"]
ASSUMPTIONS = ["jax.random with distinct keys is a sound source of independent draws", "7 standard errors"]
PROBES = ("probe.keys_sde", "probe.keys_ssm", "probe.noise", "probe.em", "probe.diag15", "probe.hypo", "probe.N_over_1000", "probe.long")


def plan(seed, tier):
    nk, nn = (64, 40) if tier == "quick" else (600, 300)
    specs = []
    for i in range(nk):
        r = rng_for(seed, ID, "k", i)
        specs.append({"kind": ["keys_sde", "keys_ssm"][i % 2], "N": r.choice([1, 2, 3, 7, 50, 333, 1000, 1001, 2500, 4096, 6000][: 11 if i % 3 else 6]) if i % 2 else int(10 ** r.uniform(0.5, 3.7)),
                      "callers": r.choice([1, 2, 8]), "kseed": r.randrange(2 ** 31)})
    for i in range(2 if tier == "quick" else 8):  # beyond 16-bit step counters
        specs.append({"kind": ["keys_sde", "keys_ssm"][i % 2], "N": 65000 + 600 * (1 + i), "callers": 1, "kseed": rng_for(seed, ID, "kk", i).randrange(2 ** 31)})
    for i in range(64 if tier == "quick" else 600):  # sizes spread evenly: a special case for a range of sizes is met
        r = rng_for(seed, ID, "ks", i)
        w = 37 if tier == "quick" else 5
        specs.append({"kind": ["keys_sde", "keys_ssm"][i % 2], "N": w * (i // 2) + r.randrange(1, w + 1), "callers": 1, "kseed": r.randrange(2 ** 31)})
    for i in range(12 if tier == "quick" else 90):
        r = rng_for(seed, ID, "l", i)
        specs.append({"kind": "long", "which": ["em", "diag15", "hypo"][i % 3], "N": r.choice([270, 600, 1030, 4200, 66000]) if i >= 3 else 66000, "lanes": 3,
                      "delta": r.choice([0.01, 0.02]), "m": size(r, [2, 3, 7]), "pseed": r.randrange(2 ** 31), "kseed": r.randrange(2 ** 31)})
    for i in range(nn):
        r = rng_for(seed, ID, "n", i)
        k = ["noise", "noise", "em", "diag15", "hypo"][i % 5]
        s = {"kind": k, "kseed": r.randrange(2 ** 31), "delta": r.choice([0.01, 0.1, 0.5]), "m": size(r, [1, 2, 3, 5, 8]),
             "pseed": r.randrange(2 ** 31), "lanes": 64, "N": r.choice([32, 100])}
        if k != "noise":
            s["delta"] = r.choice([0.01, 0.05, 0.1])
        else:
            s["bm"] = {"kind": r.choice(["approx", "brownian", "fine"]), "n": r.choice([4, 8])}
        specs.append(s)
    return [specs[i::24] for i in range(24)] if tier == "quick" else chunked(specs, 20)


def _keys(spec):
    import jax
    import jax.numpy as jnp
    N = spec["N"]

    def solve(key):
        kd = key_data(key)
        if spec["kind"] == "keys_sde":
            def bm():
                return (lambda k, dt: (key_data(k),)), (lambda t, dt, *_: jnp.zeros((1,)) * t)
            out = lib.sde_solver(key=key, drift=lambda x, t: jnp.zeros((1,)), sigma=lambda x, t: jnp.zeros((1, 1)),
                                 x0=jnp.zeros_like(kd), bm=bm, delta=0.1, N=N,
                                 ode_int=lambda key, init, vector_field, T: key_data(key))
            return {"noise": out[2], "sample": out[1][1:]}
        out = lib.ssm_parabola_ode_solver(key=key, drift=lambda x, t: x, sigma=lambda x, t: x, x0=jnp.zeros_like(kd),
                                          delta=0.1, N=N,
                                          solver=lambda key, init, drift, diffusion, T: (key_data(key), init, init))
        return {"sample": out[1][1:]}

    keys = jax.random.split(prng(spec["kseed"]), 3)[:1]
    callers = [prng(spec["kseed"] + i) for i in range(spec["callers"])]
    fn = jax.jit(solve)
    allk, labels = [], []
    for ci, c in enumerate(callers):
        res = jax.tree_util.tree_map(np.asarray, fn(c))
        allk.append(np.asarray(key_data(c))[None])
        labels.append(("caller", ci, -1))
        for role, v in sorted(res.items()):
            if v.shape[0] != N:
                raise Violation("shape:keys", f"{role}: {v.shape[0]} keys for N={N}")
            allk.append(v)
            labels += [(role, ci, k) for k in range(N)]
    K = np.concatenate(allk)
    uniq, inv, cnt = np.unique(K, axis=0, return_inverse=True, return_counts=True)
    if (cnt > 1).any():
        i = int(np.argmax(cnt > 1))
        who = [labels[j] for j in np.flatnonzero(inv.reshape(-1) == i)[:4]]
        raise Violation("key-reuse", f"the same key serves (role, caller, step) {who}")
    return {"stats": {f"probe.{spec['kind']}": 1, "keys": len(K), "steps": N * len(callers), "sim_time": 0.1 * N * len(callers),
                      "probe.N_over_1000": int(N > 1000)},
            "sig": digest(K), "nontrivial": N > 1 or spec["callers"] > 1}


def _cross(name, Z, repeat=False):
    """Z: (lanes, N, q) standardised draws: white, and uncorrelated (also in squares) across steps and callers."""
    lanes, N, q = Z.shape
    white(name, Z.reshape(-1, q), gaussian=False)
    for lag in (1, 2, 3, N // 2):
        if N - lag >= 4:
            A, B = Z[:, :-lag].reshape(-1, q), Z[:, lag:].reshape(-1, q)
            uncorrelated(f"{name}:lag{lag}", A, B)
            SA, SB = (A ** 2 - 1) / np.sqrt(2), (B ** 2 - 1) / np.sqrt(2)
            uncorrelated(f"{name}:lag{lag}:squares", SA, SB, sigmas=11.0)
    uncorrelated(f"{name}:first-vs-rest", np.repeat(Z[:, :1], N - 1, 1).reshape(-1, q), Z[:, 1:].reshape(-1, q),
                 sigmas=7.0)
    uncorrelated(f"{name}:callers", Z[:-1].reshape(-1, q), Z[1:].reshape(-1, q))
    # within a row: dependence between different components beyond correlation (e.g. equality of squares)
    S = (Z.reshape(-1, q) ** 2 - 1) / np.sqrt(2)
    C = S.T @ S / len(S)
    off = C - np.diag(np.diag(C))
    if q > 1 and np.abs(off).max() > 11.0 / np.sqrt(len(S)):
        raise Violation(f"law:{name}:dependence", f"squares of components correlate: {np.abs(off).max():.4f}")
    if np.abs(Z).max() > 9:
        raise Violation(f"law:{name}:outlier", f"standardised draw {np.abs(Z).max()}")
    if repeat:  # exact repetition of a draw anywhere
        flat = Z.reshape(-1)
        if len(np.unique(flat)) < len(flat):
            raise Violation(f"law:{name}:repeat", "two draws are bitwise equal")


def _long(spec):
    """The noise of very long keyed solves never comes back: rows (one per caller and step) are pairwise different."""
    import jax
    import jax.numpy as jnp
    N, h, m, which = spec["N"], spec["delta"], spec["m"], spec["which"]
    keys = jnp.stack([prng(spec["kseed"] + i) for i in range(spec["lanes"])])
    g = rs(spec["pseed"])
    d = m + (which == "hypo")
    sd = g.uniform(0.3, 1.0, d)
    A = -np.diag(g.uniform(0.5, 1.5, d)) if which != "hypo" else -np.eye(d) + np.diag(np.ones(d - 1), 1)
    S = np.diag(sd * (1.0 if which != "hypo" else (np.arange(d) > 0)))
    Aj, Sj = jnp.asarray(A), jnp.asarray(S)
    if which == "em":
        fn = lambda k: lib.euler_maruyama(k, init=jnp.zeros(d), drift=lambda x, t: Aj @ x, sigma=lambda x, t: Sj, h=h, N=N)[1]
        M = np.eye(d) + h * A
    else:
        sch = lib.diag_15_scheme if which == "diag15" else lib.hypoelliptic_diffusion_15_scheme
        fn = lambda k: sch(k, init=jnp.zeros(d), drift=lambda x: Aj @ x, sigma=lambda x: Sj + 0.0 * x[0], h=h, N=N)[1]
        M = np.eye(d) + h * A + h * h / 2 * A @ A
    x = np64(jax.jit(jax.vmap(fn))(keys))
    shape_check("path", x, (spec["lanes"], N + 1, d))
    R = (x[:, 1:] - x[:, :-1] @ M.T)[..., 1 if which == "hypo" else 0:].reshape(-1, m) / (np.sqrt(h) * sd[-m:])
    if not np.isfinite(R).all():
        raise Violation("law:long:finite", "non-finite path of a stable linear equation")
    o = np.argsort(R[:, 0], kind="stable")
    near = np.abs(R[o[1:]] - R[o[:-1]]).max(1) < 1e-9
    near |= np.r_[np.abs(R[o[2:]] - R[o[:-2]]).max(1) < 1e-9, False]
    if near.any():
        i = int(np.argmax(near))
        raise Violation("law:long:repeat", f"{which}: the noise of (caller, step) {divmod(int(o[i]), N)} comes back at {divmod(int(o[i + 1]), N)}")
    return {"stats": {"probe.long": 1, "draws": len(R), "steps": len(R), "sim_time": len(R) * h}, "sig": digest(x)}


def execute(spec, ctx):
    setup(True)
    import jax
    import jax.numpy as jnp
    if spec["kind"].startswith("keys"):
        return _keys(spec)
    if spec["kind"] == "long":
        return _long(spec)
    L_, N, h, m = spec["lanes"], spec["N"], spec["delta"], spec["m"]
    callers = jnp.stack([prng(spec["kseed"] + i) for i in range(L_)])
    kind = spec["kind"]
    if kind == "noise":
        def solve(key):
            out = lib.sde_solver(key=key, drift=lambda x, t: jnp.zeros((m,)), sigma=lambda x, t: jnp.eye(m),
                                 x0=jnp.zeros((m,)), bm=library_bm(spec["bm"], m), delta=h, N=N,
                                 ode_int=lambda key, init, vector_field, T: jax.random.normal(key, (m,)))
            return out[1][1:], out[2:]
        samp, co = jax.jit(jax.vmap(solve))(callers)
        co = [np64(c) for c in co]
        n = spec["bm"]["n"]
        vb = h / 2 * ((1 - 1.0 / n ** 2) if spec["bm"]["kind"] == "brownian" else 1.0)
        cols = [co[0] / np.sqrt(h), co[1] / np.sqrt(vb), np64(samp)]
        _cross("driver", np.concatenate(cols, -1), True)
        if spec["bm"]["kind"] == "brownian":
            fine = co[2].reshape(L_, N * n, m)
            _cross("fine-path", fine, True)
        elif spec["bm"]["kind"] == "fine":
            f0, f1 = co[2] / np.sqrt(h / n), co[3] / np.sqrt(h / n / 12)
            _cross("fine-pieces", np.concatenate([f0, f1], -1).reshape(L_, N * n, 2 * m))
        sig = digest(*co, samp)
    elif kind == "em":
        d = m
        P = problems.make(rs(spec["pseed"]), d, m, "additive")
        P["S"] = P["S"] + 1.5 * np.eye(d)
        drift, sigma = problems.jfuncs(as_f(P))
        ref = Ref(P)
        ts, x = jax.jit(jax.vmap(lambda k: lib.euler_maruyama(k, init=jnp.zeros((d,)), drift=drift, sigma=sigma, h=h, N=N)))(callers)
        x = np64(x)
        t = np.arange(N) * h
        R = x[:, 1:] - x[:, :-1] - h * ref.drift(x[:, :-1], t)
        _cross("em", np.linalg.solve(P["S"], R[..., None])[..., 0] / np.sqrt(h))
        sig = digest(x)
    else:
        # linear additive problems: the schemes' noise is exactly Gaussian with a known constant covariance
        d = m if kind == "diag15" else m + 1
        g = rs(spec["pseed"])
        A = g.uniform(-1, 1, (d, d)) - 0.5 * np.eye(d)
        if kind == "hypo":
            A[0, 1:] = np.sign(A[0, 1:]) * (0.5 + np.abs(A[0, 1:]))
        sd = g.uniform(0.3, 1.0, d)
        S = np.diag(sd)
        if kind == "hypo":
            S = np.zeros((d, d))
            S[1:, 1:] = np.diag(sd[1:])
        Aj, Sj = jnp.asarray(A), jnp.asarray(S)
        drift, sigma = (lambda x: Aj @ x), (lambda x: Sj + 0.0 * x[0])
        fn = lib.diag_15_scheme if kind == "diag15" else lib.hypoelliptic_diffusion_15_scheme
        ts, x = jax.jit(jax.vmap(lambda k: fn(k, init=jnp.ones((d,)) * 0.3, drift=drift, sigma=sigma, h=h, N=N)))(callers)
        x = np64(x)
        mean = x[:, :-1] @ (np.eye(d) + h * A + h * h / 2 * A @ A).T
        R = x[:, 1:] - mean
        if kind == "diag15":
            C = h * S @ S.T + h * h / 2 * (S @ (A @ S).T + (A @ S) @ S.T) + h ** 3 / 3 * (A @ S) @ (A @ S).T
        else:
            G = S[1:, :]
            GG = G @ G.T
            ua = A[0, 1:]
            C = np.zeros((d, d))
            C[0, 0] = ua @ GG @ ua * h ** 3 / 3
            C[0, 1:] = C[1:, 0] = ua @ GG * h * h / 2
            C[1:, 1:] = GG * h
        Lc = np.linalg.cholesky(C)
        _cross(kind, np.linalg.solve(Lc, R[..., None])[..., 0])
        sig = digest(x)
    return {"stats": {f"probe.{kind}": 1, "draws": int(L_ * N), "steps": L_ * N, "sim_time": float(L_ * N * h)}, "sig": sig}


def shrink(spec):
    for N in (1, 2, 3, 4, 8):
        if N < spec["N"] and spec["kind"].startswith("keys"):
            yield {**spec, "N": N}
    if spec.get("callers", 1) > 1:
        yield {**spec, "callers": spec["callers"] - 1 if spec["callers"] > 2 else 1}
    if spec.get("m", 1) > 1 and "bm" in spec:
        yield {**spec, "m": 1}
