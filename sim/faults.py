"""Cooperative seams around caller-supplied callables: call counting, recording and crash injection (eager mode)."""


class SimKill(BaseException):
    """Injected crash: unwinds through the library like a killed/cancelled caller."""


class SimError(Exception):
    """Injected ordinary failure of a caller-supplied callable."""


def concrete(t):
    """The concrete value behind a (possibly differentiated) scalar, or None while being batched/compiled."""
    import jax
    n = 0
    while isinstance(t, jax.core.Tracer):
        n += 1
        t = getattr(t, "primal", None)
        if t is None or n > 8:
            return None
    return float(t)


def abstract(tree):
    import jax
    return any(isinstance(v, jax.core.Tracer) for v in jax.tree_util.tree_leaves(tree))


class Seams:
    """Wraps drift, sigma, Brownian generator and integrator; every call is one event of the simulation."""

    def __init__(self, on_event=None, crash_at=None, crash_exc=SimKill):
        self.n = 0
        self.on_event = on_event
        self.crash_at, self.crash_exc = crash_at, crash_exc
        self.events = []
        self.times = []      # (step, role, absolute time)
        self.step = -1
        self.saved = []      # states made durable at the end of each completed step
        self.fired = False
        self.abstract = 0

    def _event(self, label):
        i = self.n
        self.n += 1
        self.events.append(label)
        if self.on_event is not None:
            self.on_event(label)
        if self.crash_at is not None and i == self.crash_at:
            self.fired = True
            raise self.crash_exc(f"injected at event {i} ({label})")

    def _dyn(self, role, t):
        c = concrete(t)
        if c is None:  # abstract evaluation: not an execution of the dynamics
            self.abstract += 1
            return
        self.times.append((self.step, role, c))
        self._event(role)

    def drift(self, f):
        def g(x, t):
            self._dyn("drift", t)
            return f(x, t)
        return g

    def sigma(self, f):
        def g(x, t):
            self._dyn("sigma", t)
            return f(x, t)
        return g

    def bm(self, bm):
        def factory():
            get, ev = bm()

            def get_coeffs(key, dt):
                if not abstract(key):
                    self._event("noise")
                return get(key, dt)
            return get_coeffs, ev
        return factory

    def ode_int(self, ode_int, save=None):
        def g(key, init, vector_field, T):
            if abstract(init):
                return ode_int(key, init=init, vector_field=vector_field, T=T)
            self.step += 1
            self._event("step-begin")
            out = ode_int(key, init=init, vector_field=vector_field, T=T)
            self._event("step-end")
            self.saved.append(out)
            self._event("step-saved")
            return out
        return g

    def ssm(self, solver):
        def g(key, init, drift, diffusion, T):
            if abstract(init):
                return solver(key, init=init, drift=drift, diffusion=diffusion, T=T)
            self.step += 1
            self._event("step-begin")
            out = solver(key, init=init, drift=drift, diffusion=diffusion, T=T)
            self._event("step-end")
            self.saved.append(out[0])
            self._event("step-saved")
            return out
        return g
