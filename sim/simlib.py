"""Shared harness pieces used inside worker processes (imports jax and the library lazily)."""
import contextlib
import functools
import math

import numpy as np

from .engine import HarnessError, Violation

_NS = {}


def setup(x64=True):
    """Initialise jax in this (fresh) worker process; precision is fixed once per process."""
    import jax
    if "x64" in _NS:
        if _NS["x64"] != x64:
            raise HarnessError("precision changed inside one worker process")
        return
    jax.config.update("jax_enable_x64", bool(x64))
    jax.config.update("jax_platform_name", "cpu")
    _NS["x64"] = x64
    from .display import install_quiet
    install_quiet()


class L:
    """Lazy namespace of the library's public API (only documented entry points)."""

    def __getattr__(self, name):
        import bayesian_sde_solver.foster_polynomial as fp
        import bayesian_sde_solver.ito_stratonovich as its
        import bayesian_sde_solver.ode_solvers as ode
        import bayesian_sde_solver.ode_solvers.probnum as pn
        import bayesian_sde_solver.sde_solvers as sde
        import bayesian_sde_solver.ssm_parabola as ssm
        from bayesian_sde_solver.sde_solver import sde_solver
        for mod in (fp, its, ode, pn, sde, ssm):
            for k in dir(mod):
                if not k.startswith("__"):
                    if k not in ("ekf", "transition_function"):
                        self.__dict__.setdefault(k, getattr(mod, k))
        self.__dict__["sde_solver"] = sde_solver
        self.__dict__["ode_ekf"] = ode.ekf
        self.__dict__["lti_transition_function"] = pn.transition_function
        self.__dict__["filter_ekf"] = pn.ekf
        return self.__dict__[name]


lib = L()


def rs(seed):
    return np.random.RandomState(int(seed) % (2 ** 32))


def prng(seed):
    import jax
    return jax.random.PRNGKey(int(seed) % (2 ** 31))


def as_f(P):
    """problem dict -> jnp arrays of the active precision (index matrix stays numpy/static)."""
    import jax.numpy as jnp
    return {k: (np.asarray(v) if k == "p" else jnp.asarray(v)) for k, v in P.items()}


def split_static(P):
    """(dynamic arrays, static index matrix)"""
    return {k: np.asarray(v, np.float64) for k, v in P.items() if k != "p"}, np.asarray(P["p"])


# ----------------------------------------------------------------- ODE methods (the library's, plus injected ones)

def ode_method(meth):
    """meth: dict(name, M, sample, sqrt, prior, noise). Returns ode_int(key, init, vector_field, T).

    name in: euler, rk4 (harness stub), ekf0, ekf1, ekf0_2, ekf1_2
    """
    name, M = meth["name"], int(meth.get("M", 1))
    prior_spec, noise = meth.get("prior"), meth.get("noise")

    def ode_int(key, init, vector_field, T):
        import jax.numpy as jnp
        h = T / M
        if name == "euler":
            return lib.euler(init, vector_field, h, M)
        if name == "rk4":
            x = init
            for j in range(M):
                u = j * h
                k1 = vector_field(x, u)
                k2 = vector_field(x + h / 2 * k1, u + h / 2)
                k3 = vector_field(x + h / 2 * k2, u + h / 2)
                k4 = vector_field(x + h * k3, u + h)
                x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            return x
        dim = (init[1] if isinstance(init, tuple) else init).shape[0]
        kw = {"h": h, "N": M}
        if meth.get("sqrt") is not None:
            kw["sqrt"] = bool(meth["sqrt"])
        pr = build_prior(prior_spec, h, dim)
        if pr is not None:
            kw["prior"] = pr
        if noise:
            kw["noise"] = jnp.asarray(build_noise(noise, dim))
        k = key if meth.get("sample", True) else None
        return getattr(lib, name)(key=k, init=init, vector_field=vector_field, **kw)

    return ode_int


def build_noise(noise, dim):
    if not noise:
        return None
    r = rs(noise["seed"])
    G = r.normal(size=(dim, dim))
    return noise["scale"] * (G @ G.T + 0.1 * np.eye(dim))


@functools.lru_cache(None)
def _lti_params(n, seed):
    r = rs(seed)
    F = np.diag(np.ones(n - 1), 1)
    F[n - 1] = r.uniform(-1.0, 0.3, n)
    u = r.uniform(-1, 1, n)
    Lm = np.zeros((n, 1))
    Lm[n - 1, 0] = r.uniform(0.5, 1.5)
    return F, u, Lm


_PRIORS = {}
FRESH_PRIORS = [False]  # True: the library's prior builders run every time


def build_prior(spec, h, dim):
    """Library-built prior (xi, Q, A) for the given spec, or None for the default. Built once per process and value."""
    if not spec or spec["kind"] == "default":
        return None
    import jax
    if isinstance(h, jax.core.Tracer):
        return _build_prior(spec, h, dim)
    k = (repr(sorted(spec.items())), float(h), dim)
    if k not in _PRIORS or FRESH_PRIORS[0]:
        with jax.ensure_compile_time_eval(), jax.disable_jit(False):
            built = tuple(np.asarray(v) for v in _build_prior(spec, h, dim))
        if FRESH_PRIORS[0]:
            import jax.numpy as jnp
            return tuple(jnp.asarray(v) for v in built)
        _PRIORS[k] = built
    import jax.numpy as jnp
    return tuple(jnp.asarray(v) for v in _PRIORS[k])


def _build_prior(spec, h, dim):
    import jax.numpy as jnp
    kind = spec["kind"]
    if kind == "ibm":
        return lib.IOUP_transition_function(theta=0.0, sigma=spec["sigma"], q=spec["q"], dt=h, dim=dim)
    if kind == "matern":
        return lib.matern_transition_function(spec["k"], spec["mag"], spec["len"], h, dim)
    if kind == "matern_mc":
        return lib.matern_transition_function(spec["k"], spec["mag"], spec["len"], h, dim, mc=True)
    if kind == "lti":
        F, u, Lm = _lti_params(spec["q"] + 1, spec["seed"])
        one = lib.lti_transition_function(jnp.asarray(F), jnp.asarray(u), jnp.asarray(Lm), h)
        return lib.get_independently_factorized_prior([one] * dim)
    if kind == "mixed":  # a different one-coordinate prior for every coordinate
        ones = [_build_prior(mixed_member(spec, i), h, 1) for i in range(dim)]
        return lib.get_independently_factorized_prior(ones)
    raise HarnessError(f"prior {kind}")


def mixed_member(spec, i):
    q = spec["q"]
    if q == 1:
        return [{"kind": "ibm", "q": 1, "sigma": 0.7}, {"kind": "matern", "k": 1, "mag": 1.3, "len": 0.9},
                {"kind": "lti", "q": 1, "seed": 5}, {"kind": "ibm", "q": 1, "sigma": 1.6}][i % 4]
    return [{"kind": "ibm", "q": q, "sigma": 0.7}, {"kind": "lti", "q": q, "seed": 6},
            {"kind": "ibm", "q": q, "sigma": 1.6}, {"kind": "lti", "q": q, "seed": 7}][i % 4]


def ref_prior(spec, h, dim):
    """The same prior from the reference formulas."""
    from . import refmodels as rm
    if not spec:
        return rm.kron_prior(rm.ibm_prior(1, 1.0, h), dim)
    kind = spec["kind"]
    if kind == "default":
        return rm.kron_prior(rm.ibm_prior(spec["q"], 1.0, h), dim)
    if kind == "ibm":
        return rm.kron_prior(rm.ibm_prior(spec["q"], spec["sigma"], h), dim)
    if kind in ("matern", "matern_mc"):
        return rm.kron_prior(rm.matern_prior(spec["k"], spec["mag"], spec["len"], h), dim)
    if kind == "lti":
        F, u, Lm = _lti_params(spec["q"] + 1, spec["seed"])
        exact = rm.kron_prior(rm.lti_prior(F, u, Lm, h), dim)
        # the library's builder integrates numerically (relative error ~1e-8, judged by C11): the filters are judged with its numbers
        tol = 1e-6 if _NS.get("x64") else 1e-3
        built = [np.asarray(v, dtype=np.float64) for v in build_prior(spec, float(h), dim)]
        if all(b.shape == e.shape and np.abs(b - e).max() <= tol * max(1e-30, np.abs(e).max()) for b, e in zip(built, exact)):
            return tuple(built)
        return exact
    if kind == "mixed":
        return rm.block_prior([ref_prior(mixed_member(spec, i), h, 1) for i in range(dim)])
    raise HarnessError(f"prior {kind}")


def prior_states(spec):
    if not spec:
        return 2
    if spec["kind"] in ("matern", "matern_mc"):
        return spec["k"] + 1
    return spec["q"] + 1


# ----------------------------------------------------------------- Brownian generators

def library_bm(spec, dim):
    """spec: dict(kind, n) -> bm() factory as the driver expects."""
    kind, n = spec["kind"], int(spec.get("n", 10))
    if kind == "approx":
        return functools.partial(lib.get_approx, dim=dim)
    if kind == "brownian":
        return functools.partial(lib.get_approx_and_brownian, dim=dim, N=n)
    if kind == "fine":
        return functools.partial(lib.get_approx_fine, dim=dim, N=n)
    raise HarnessError(kind)


def parabola_eval(t, dt, a, b):
    import jax.numpy as jnp
    u = t / dt
    return a * u + b * jnp.sqrt(6.0) * u * (1 - u)


def key_data(key):
    import jax
    import jax.numpy as jnp
    if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        return jax.random.key_data(key)
    return key


def driver_keys_fn(N, delta=0.1):
    """key -> keys the driver hands to the Brownian generator at each step (observed through the generator seam)."""
    import jax.numpy as jnp

    def bm():
        return (lambda k, dt: (key_data(k),)), (lambda t, dt, *_: jnp.zeros((1,)) * t)

    def f(key):
        return lib.sde_solver(key=key, drift=lambda x, t: jnp.zeros_like(x), sigma=lambda x, t: jnp.zeros((1, 1)),
                              x0=jnp.zeros((1,)), bm=bm, delta=delta, N=N,
                              ode_int=lambda key, init, vector_field, T: init)[2]
    return f


def driver_keys(key, N, delta=0.1):
    return np.asarray(driver_keys_fn(N, delta)(key))


def sample_keys_fn(N, delta=0.1):
    """key -> keys the driver hands to the integrator at each step."""
    import jax.numpy as jnp

    def bm():
        return (lambda k, dt: (jnp.zeros((1,)),)), (lambda t, dt, *_: jnp.zeros((1,)) * t)

    def f(key):
        return lib.sde_solver(key=key, drift=lambda x, t: jnp.zeros((1,)), sigma=lambda x, t: jnp.zeros((1, 1)),
                              x0=jnp.zeros_like(key_data(key)), bm=bm, delta=delta, N=N,
                              ode_int=lambda key, init, vector_field, T: key_data(key))[1][1:]
    return f


def ssm_keys_fn(N, delta=0.1):
    import jax.numpy as jnp

    def f(key):
        return lib.ssm_parabola_ode_solver(key=key, drift=lambda x, t: x, sigma=lambda x, t: x,
                                           x0=jnp.zeros_like(key_data(key)), delta=delta, N=N,
                                           solver=lambda key, init, drift, diffusion, T: (key_data(key), init, init))[1][1:]
    return f


def tape_bm(keytab, atape, btape):
    """Brownian generator that plays a recorded tape: the step is identified by the key it is given."""
    import jax.numpy as jnp

    def get_coeffs(key, dt):
        k = key_data(key)
        hit = jnp.all(keytab == k, axis=-1)
        i = jnp.argmax(hit)
        return atape[i], btape[i]

    return lambda: (get_coeffs, parabola_eval)


# ----------------------------------------------------------------- modes

@contextlib.contextmanager
def eager():
    import jax
    with jax.disable_jit():
        yield


def np64(x):
    return np.asarray(x, dtype=np.float64)


# ----------------------------------------------------------------- comparisons

def shape_check(name, x, shape):
    s = tuple(np.shape(x))
    if s != tuple(shape):
        raise Violation(f"shape:{name}", f"got {s}, expected {tuple(shape)}")


def close(name, got, want, rtol, atol=0.0, where=""):
    """Mixed tolerance relative to the scale of the reference array."""
    got, want = np64(got), np64(want)
    shape_check(name, got, want.shape)
    if want.size == 0:
        return 0.0
    scale = float(np.max(np.abs(want[np.isfinite(want)]))) if np.isfinite(want).any() else 0.0
    bad_fin = np.isfinite(got) != np.isfinite(want)
    if bad_fin.any():
        i = tuple(int(v) for v in np.argwhere(bad_fin)[0])
        raise Violation(f"mismatch:{name}", f"{where} finiteness at {i}: got {got[i]}, expected {want[i]}")
    err = np.abs(got - want)
    err = np.where(np.isfinite(err), err, 0.0)
    tol = atol + rtol * scale
    if (err > tol).any():
        i = tuple(int(v) for v in np.unravel_index(int(np.argmax(err)), err.shape))
        raise Violation(f"mismatch:{name}", f"{where} at {i}: got {got[i]:.12g}, expected {want[i]:.12g}, "
                                            f"|diff| {err[i]:.3g} > tol {tol:.3g}")
    return float(err.max() / scale) if scale > 0 else float(err.max())


def bitwise(name, got, want, where=""):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape or g.dtype != w.dtype:
        raise Violation(f"bitwise:{name}", f"{where} {g.shape}/{g.dtype} vs {w.shape}/{w.dtype}")
    gb, wb = g.tobytes(), w.tobytes()
    if gb != wb:
        with np.errstate(all="ignore"):
            d = np.argwhere(~((g == w) | (np.isnan(g) & np.isnan(w))) if g.dtype.kind == "f" else g != w)
        if len(d) == 0:  # only signs of zero / NaN payloads differ
            return
        i = tuple(int(v) for v in d[0])
        raise Violation(f"bitwise:{name}", f"{where} first difference at {i}: got {g[i]!r}, expected {w[i]!r}")


# ----------------------------------------------------------------- statistics

def white(name, Z, sigmas=7.0, groups=None, gaussian=True):
    """Z: (n, q) supposed i.i.d. standard normal rows. Checks mean, covariance, 4th moment at `sigmas` standard errors."""
    Z = np64(Z)
    n, q = Z.shape
    if not np.isfinite(Z).all():
        raise Violation(f"law:{name}", "non-finite residuals")
    se = 1.0 / np.sqrt(n)
    mu = Z.mean(0)
    if np.abs(mu).max() > sigmas * se:
        j = int(np.abs(mu).argmax())
        raise Violation(f"law:{name}:mean", f"component {j}: mean {mu[j]:.5f}, standard error {se:.5f}, n={n}")
    C = Z.T @ Z / n
    for i in range(q):
        for j in range(i, q):
            ex = 1.0 if i == j else 0.0
            s = np.sqrt(2.0) * se if i == j else se
            if abs(C[i, j] - ex) > sigmas * s:
                raise Violation(f"law:{name}:cov", f"second moment ({i},{j}) = {C[i, j]:.5f}, expected {ex}, "
                                                   f"standard error {s:.5f}, n={n}")
    if gaussian:
        m3, m4 = (Z ** 3).mean(0), (Z ** 4).mean(0)
        if np.abs(m3).max() > sigmas * np.sqrt(15.0) * se:
            raise Violation(f"law:{name}:skew", f"third moments {m3}, n={n}")
        if np.abs(m4 - 3).max() > sigmas * np.sqrt(96.0) * se:
            raise Violation(f"law:{name}:kurtosis", f"fourth moments {m4}, n={n}")
        # tails: the number of residuals of a component beyond c is binomial
        from scipy.stats import binom
        for c in (2.0, 3.0, 3.5, 4.0, 4.5):
            pr = math.erfc(c / math.sqrt(2))
            if n * pr < 20:
                break
            for j in range(q):
                k = int((np.abs(Z[:, j]) > c).sum())
                if min(binom.cdf(k, n, pr), binom.sf(k - 1, n, pr)) < 1e-12 * (7.0 / sigmas) ** 4:
                    raise Violation(f"law:{name}:tails", f"component {j}: {k} residuals beyond {c} standard deviations, {n * pr:.1f} expected, n={n}")


def uncorrelated(name, U, V, sigmas=7.0):
    """Cross moments of two sets of standardised rows are zero."""
    U, V = np64(U), np64(V)
    n = U.shape[0]
    C = U.T @ V / n
    if np.abs(C).max() > sigmas / np.sqrt(n):
        i = np.unravel_index(int(np.abs(C).argmax()), C.shape)
        raise Violation(f"law:{name}:dependence", f"cross moment {tuple(map(int, i))} = {C[i]:.5f}, "
                                                  f"standard error {1 / np.sqrt(n):.5f}, n={n}")


def whiten(R, C):
    """Rows r_k with covariance C_k -> L_k^{-1} r_k (C possibly batched)."""
    C = np64(C)
    Lc = np.linalg.cholesky(0.5 * (C + np.swapaxes(C, -1, -2)))
    return np.linalg.solve(Lc, np64(R)[..., None])[..., 0]
