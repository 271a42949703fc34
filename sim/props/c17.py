"""C17: progress reports are exact, for every step count, execution mode and interleaving of solves."""
import json

import numpy as np

from .. import problems
from ..display import Recorder, barrier
from ..driver import problem_arrays
from ..engine import Violation, digest, rng_for
from ..faults import SimError, SimKill
from ..sched import Scheduler
from ..simlib import eager, lib, prng, setup, split_static

ID = "C17"
RULE = ("one run = one history of solves (one compiled solve around the batching thresholds, successive calls, a differentiated solve, or 2-3 solves on "
        "threads interleaved at their step boundaries by the scheduler, some killed half-way) with every display event recorded next to the steps started; "
        "non-trivial when at least one bar was opened and updated")
MEASURE = "distinct event histories (solve, event, count)"
REAL = ["progress_bar", "sde_solver", "ssm_parabola_ode_solver", "jax host callbacks", "tqdm"]
STUB = ["terminal (in-memory stream)", "tqdm clock (simulated)", "ODE step (x -> x/2 of the harness or Euler) for long runs"]
ASSUMPTIONS = ["reports come in batches of at most max(1, N//1000) steps: a display may be ahead of the steps started by less than one batch",
               "concurrent solves are traced separately (a jitted function shared by threads shares its display)"]
PROBES = ("probe.single", "probe.large", "probe.remainder", "probe.repeat", "probe.threads", "probe.same_total", "probe.grad", "probe.vmap", "probe.eager",
          "probe.plain", "probe.ssm", "fault.kill", "fault.error", "fault.clock_jump")
QUICK_WALL = 600
LARGE = (999, 1000, 1001, 1999, 2000, 2001, 2003, 2500, 2999, 3000, 3001, 4999, 5003, 10007)


def plan(seed, tier):
    G = 96 if tier == "quick" else 900
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        ch = []
        for i in range(3):
            what = ["single", "threads", "single", "repeat"][(g + i) % 4]
            s = {"what": what, "solver": r.choice(["sde", "sde", "ssm"]), "clock": r.choice(["stall", "run", "jump", "back"]), "kseed": r.randrange(2 ** 31)}
            if what == "single":
                s["mode"] = r.choice(["jit", "jit", "plain", "vmap", "eager", "grad", "jvp"])
                small = s["mode"] in ("eager",)
                s["N"] = r.choice([1, 2, 3, 7, r.randrange(1, 40)]) if small else \
                    r.choice([1, 2, 5, r.randrange(1, 60), r.choice(LARGE), r.choice(LARGE), r.randrange(900, 4200), r.randrange(900, 12000)])
            elif what == "repeat":
                s["N"] = [r.choice([1, 2, 3, 5, 17, 1000, 1001, 2003, r.randrange(1, 2500)]) for _ in range(r.choice([2, 3]))]
                s["order"] = [r.randrange(len(s["N"])) for _ in range(r.choice([3, 5, 7]))]
                s["mode"] = r.choice(["jit", "plain", "vmap"])
                s["crash"] = r.choice([None, 0, 1, 2])
            else:
                k = r.choice([2, 2, 3])
                same = r.random() < 0.4
                n0 = r.randrange(1, 9)
                s["tasks"] = [{"N": n0 if same else r.randrange(1, 9), "solver": r.choice(["sde", "sde", "ssm"]),
                               "kill": (r.choice(["kill", "error"]), r.randrange(1, 12)) if r.random() < 0.3 else None,
                               "times": r.choice([1, 1, 2])} for _ in range(k)]
                s["sched"] = {"seed": r.randrange(10 ** 9), "policy": r.choice(["random", "random", "sticky", "roundrobin", "starve"])}
            ch.append(s)
        chunks.append(ch)
    return chunks


def _solve(solver, N, tap=None, seam=None, on_jac=False):
    """A solve whose integrator announces every step it starts (tap: through the compiled program; seam: directly)."""
    import jax.numpy as jnp
    from jax.experimental import host_callback as hcb
    delta = 0.1

    def begin(x):
        if seam is not None:
            seam()
        if tap is not None:
            x = hcb.id_tap(tap, None, result=x)
        return x
    if solver == "sde":
        def f(key, x0):
            return lib.sde_solver(key=key, drift=lambda x, t: -x, sigma=lambda x, t: jnp.ones((1, 1)) * 0.3, x0=x0, bm=lambda: lib.get_approx(dim=1),
                                  delta=delta, N=N, ode_int=lambda key, init, vector_field, T: lib.euler(begin(init), vector_field, T, 1))[1]
        return f

    def f(key, x0):
        def step(key, init, drift, diffusion, T):
            x = begin(init)
            x = x + T * drift(x, 0.0)
            return x, jnp.zeros((1,)), jnp.zeros((1,))
        return lib.ssm_parabola_ode_solver(key=key, drift=lambda x, t: -x, sigma=lambda x, t: jnp.ones((1, 1)), x0=x0, delta=delta, N=N, solver=step)[1]
    return f


class Watch:
    """Per-solve display history: events in order, steps started between them."""

    def __init__(self, rec, clock):
        self.rec, self.mode, self.k = rec, clock, 0

    def tick(self):
        c = self.rec.clock
        self.k += 1
        if self.mode == "run":
            c.now += 0.3
        elif self.mode == "jump" and self.k % 5 == 2:
            c.now += 1e7
        elif self.mode == "back" and self.k % 4 == 1:
            c.now -= 3600.0


def _judge(name, ev, N, complete=True):
    """ev: list of ('open', total) / ('update', n) / ('close', n) / ('step',) of one solve."""
    batch = max(1, N // 1000)
    opens = [e for e in ev if e[0] == "open"]
    closes = [e for e in ev if e[0] == "close"]
    if len(opens) > 1 or (complete and len(opens) != 1):
        raise Violation("opens", f"{name}: {len(opens)} displays opened for one solve of {N} steps")
    if opens and opens[0][1] != N:
        raise Violation("total", f"{name}: display of total {opens[0][1]} for a solve of {N} steps")
    started, n, closed, opened = 0, 0, False, False
    tracked = any(e[0] == "step" for e in ev)
    for e in ev:
        if e[0] == "open":
            opened = True
        elif e[0] == "step":
            started += 1
            if closed:
                raise Violation("early-close", f"{name}: display closed before step {started} of {N}")
        elif e[0] == "update":
            if not opened or closed:
                raise Violation("stray-update", f"{name}: update while {'closed' if closed else 'not open'}")
            if e[1] < n:
                raise Violation("backwards", f"{name}: display went from {n} to {e[1]} of {N}")
            n = e[1]
            if n > N:
                raise Violation("beyond-total", f"{name}: display shows {n} of {N}")
            # an update belongs to the step being begun: at most one batch ahead of the steps started before it
            if tracked and n > started + batch:
                raise Violation("ahead", f"{name}: display shows {n} of {N} with {started} steps started (batch {batch})")
        elif e[0] == "close":
            if complete and n != N:
                raise Violation("final-count", f"{name}: closed at {n} of {N}")
            closed = True
    if complete and len(closes) != 1:
        raise Violation("closes", f"{name}: closed {len(closes)} times")
    if complete and n != N:
        raise Violation("final-count", f"{name}: ended at {n} of {N}")
    if complete and tracked and started != N:
        raise Violation("steps", f"{name}: {started} steps started of {N}")


def execute(spec, ctx):
    setup(False)
    import jax
    import jax.numpy as jnp
    st = {f"probe.{spec['what']}": 1, "fault.clock_jump": int(spec["clock"] in ("jump", "back"))}
    x0 = jnp.ones((1,))
    with Recorder() as rec:
        w = Watch(rec, spec["clock"])
        if spec["what"] == "single":
            N, mode = spec["N"], spec["mode"]

            def tap(arg, transforms):
                w.tick()
                rec.events.append(("step",))
            f = _solve(spec["solver"], N, tap=tap if mode not in ("grad", "jvp", "eager") else None,
                       seam=(lambda: (barrier(), tap(None, None))) if mode == "eager" else None)
            key = prng(spec["kseed"])
            if mode == "plain":
                out = f(key, x0)
            elif mode == "jit":
                out = jax.jit(f)(key, x0)
            elif mode == "vmap":
                out = jax.jit(jax.vmap(f, (0, None)))(jax.random.split(key, 3), x0)
            elif mode == "eager":
                with eager():
                    out = f(key, x0)
            elif mode == "grad":
                out = jax.jit(jax.grad(lambda x: jnp.sum(f(key, x) ** 2)))(x0)
            else:
                out = jax.jit(lambda x: jax.jvp(lambda y: f(key, y), (x,), (x,)))(x0)
            jax.block_until_ready(out)
            barrier()
            ev = [e if e[0] == "step" else (e[0], e[2]) for e in rec.events]
            _judge(f"{mode} {spec['solver']}", ev, N)
            st.update({"probe.large": int(N >= 1000), "probe.remainder": int(N >= 2000 and N % (N // 1000) != 0), f"probe.{mode}": 1,
                       "probe.ssm": int(spec["solver"] == "ssm"), "steps": N, "displays": 1})
            return {"stats": st, "sig": digest(json.dumps(ev)), "nontrivial": True}
        if spec["what"] == "repeat":
            fs = []
            for N in spec["N"]:
                def tap(arg, transforms):
                    w.tick()
                    rec.events.append(("step",))
                f = _solve(spec["solver"], N, tap=tap)
                f = {"plain": f, "jit": jax.jit(f), "vmap": jax.jit(jax.vmap(f, (0, None)))}[spec["mode"]]
                fs.append(f)
            log = []
            for j, i in enumerate(spec["order"]):
                if spec["crash"] == j:  # a solve that dies half-way while tracing or stepping (eager)
                    n = [0]

                    def seam():
                        n[0] += 1
                        if n[0] == 2:
                            raise SimKill("crash")
                    try:
                        with eager():
                            _solve(spec["solver"], 4, seam=seam)(prng(1), x0)
                    except SimKill:
                        st["fault.kill"] = st.get("fault.kill", 0) + 1
                    barrier()
                a = len(rec.events)
                key = prng(spec["kseed"] + j)
                jax.block_until_ready(fs[i](jax.random.split(key, 2) if spec["mode"] == "vmap" else key, x0))
                barrier()
                mine = rec.events[a:]
                ids = {e[1] for e in mine if e[0] != "step"}
                if len(ids) != 1:
                    raise Violation("opens", f"successive solve {j} of {spec['N'][i]} steps touched displays {sorted(ids)}")
                ev = [e if e[0] == "step" else (e[0], e[2]) for e in mine]
                _judge(f"call {j} ({spec['mode']})", ev, spec["N"][i])
                log.append(ev)
            st.update({"steps": sum(spec["N"][i] for i in spec["order"]), "displays": len(spec["order"]), f"probe.{spec['mode']}": 1,
                       "probe.ssm": int(spec["solver"] == "ssm")})
            return {"stats": st, "sig": digest(json.dumps(log)), "nontrivial": True}
        # threads
        S = Scheduler(spec["sched"]["seed"], spec["sched"]["policy"], spec.get("trace"))
        hist = {}

        def collect():
            """Attribute the display events since the last hand-over to the task that ran."""
            barrier()
            t = S.local.task
            h = hist.setdefault(t.name, [])
            with rec.lock:
                new, rec.events[:] = list(rec.events), []
            h.extend(new)
            return h

        def task(i, T):
            def run():
                for rep in range(T["times"]):
                    hist.setdefault(f"t{i}", []).append(("solve",))

                    def seam():
                        h = collect()
                        w.tick()
                        S.seam("step")
                        h.append(("step",))
                    f = _solve(T["solver"], T["N"], seam=seam)
                    with eager():
                        f(prng(spec["kseed"] + i), x0)
                    collect().append(("end",))
                    S.seam("end")
                return "done"
            return run
        for i, T in enumerate(spec["tasks"]):
            kill = None
            if T["kill"]:
                kill = (T["kill"][1], SimKill if T["kill"][0] == "kill" else SimError)
            S.spawn(f"t{i}", task(i, T), kill)
        order = S.run()
        barrier()
        if rec.display_lock.leaks:
            raise Violation("hang:display-lock", "a solve waits forever for the display lock of another solve")
        owner = {}
        for i, T in enumerate(spec["tasks"]):
            t = S.tasks[i]
            if t.exc is not None:
                if isinstance(t.exc, (SimKill, SimError)):
                    k = "fault.kill" if isinstance(t.exc, SimKill) else "fault.error"
                    st[k] = st.get(k, 0) + 1
                else:
                    raise t.exc
            runs, cur = [], None
            for e in hist.get(f"t{i}", []):
                if e[0] == "solve":
                    cur = []
                    runs.append([cur, False])
                elif e[0] == "end":
                    runs[-1][1] = True
                else:
                    cur.append(e)
            for rep, (ev, complete) in enumerate(runs):
                ids = {e[1] for e in ev if e[0] != "step"}
                for b in ids:
                    if owner.setdefault(b, (i, rep)) != (i, rep):
                        raise Violation("shared-display", f"display {b} of solve {owner[b]} was driven by solve {(i, rep)}")
                _judge(f"thread {i} solve {rep} of {T['N']} steps ({spec['sched']['policy']})", [e if e[0] == "step" else (e[0], e[2]) for e in ev],
                       T["N"], complete)
        st.update({"steps": sum(t.steps for t in S.tasks), "displays": len(rec.bars), "switches": sum(a != b for a, b in zip(order, order[1:])),
                   "probe.same_total": int(len({T["N"] for T in spec["tasks"]}) < len(spec["tasks"])), "probe.eager": 1,
                   "probe.ssm": int(any(T["solver"] == "ssm" for T in spec["tasks"]))})
        return {"stats": st, "sig": digest(json.dumps([order, [[k, v] for k, v in sorted(hist.items())]])), "nontrivial": len(rec.bars) > 0}


def shrink(spec):
    if spec["what"] == "single":
        for N in (1, 2, 5, spec["N"] // 2, spec["N"] - 1):
            if 0 < N < spec["N"]:
                yield {**spec, "N": N}
        if spec["mode"] != "plain":
            yield {**spec, "mode": "plain"}
    elif spec["what"] == "repeat":
        if spec["crash"] is not None:
            yield {**spec, "crash": None}
        for k in range(len(spec["order"])):
            if len(spec["order"]) > 1:
                yield {**spec, "order": spec["order"][:k] + spec["order"][k + 1:]}
        for k, N in enumerate(spec["N"]):
            for M in (1, 3, N // 2):
                if 0 < M < N:
                    yield {**spec, "N": spec["N"][:k] + [M] + spec["N"][k + 1:]}
    else:
        for k, T in enumerate(spec["tasks"]):
            if len(spec["tasks"]) > 1:
                yield {**spec, "tasks": spec["tasks"][:k] + spec["tasks"][k + 1:]}
            for c in ({"kill": None}, {"times": 1}, {"N": 1}, {"N": 2}):
                if any(T[a] != b and (a != "N" or b < T["N"]) for a, b in c.items()):
                    yield {**spec, "tasks": spec["tasks"][:k] + [{**T, **c}] + spec["tasks"][k + 1:]}
    if spec["clock"] != "stall":
        yield {**spec, "clock": "stall"}
