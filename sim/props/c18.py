"""C18: a failing display or clock never corrupts a solve."""
import json

import numpy as np

from .. import zoo
from ..display import Recorder, SimStream, barrier
from ..engine import Violation, digest, rng_for
from ..faults import SimKill
from ..sched import Scheduler
from ..simlib import setup

ID = "C18"
RULE = ("one run = one history of 2-3 solves in one process: healthy first, then a sequence (or scheduled threads) of the same solves while chosen writes "
        "and flushes of the terminal fail and the clock jumps, then all of them healthy again; every call must raise or return bitwise its healthy "
        "result; non-trivial when at least one injected fault fired")
MEASURE = "distinct digests of (fault assignment, outcomes, schedule)"
REAL = ["sde_solver", "ssm_parabola_ode_solver", "progress_bar", "ODE filters", "generators", "jax host callbacks", "tqdm"]
STUB = ["terminal (in-memory stream executing the fault plan)", "tqdm clock (simulated)"]
ASSUMPTIONS = ["tqdm reaches the terminal through sys.stderr and its own time source", "no fault, no exception: a solve with a healthy display must return"]
ERRS = ["EPIPE", "ENOSPC", "EIO", "EAGAIN", "EINTR", "EBADF", "closed", "encode", "short", "memory", "interrupt"]
PROBES = tuple("fault." + e for e in ERRS) + ("fault.clock_jump", "fault.clock_back", "fault.clock_stall", "outcome.raised", "outcome.same", "probe.threads",
                                              "probe.sequential", "mode.eager", "mode.jit", "mode.rejit", "mode.plain", "mode.vmap", "kind.driver", "kind.ssm",
                                              "probe.large", "fault.kill")
QUICK_WALL = 700
MODES = ("eager", "jit", "jit", "rejit", "plain", "vmap")


def _fault_plan(r):
    err = r.choice(ERRS)
    k = r.random()
    if k < 0.15:
        return {"-1": err}
    if k < 0.7:
        return {str(r.randrange(0, 14)): err}
    if k < 0.85:  # a burst
        a = r.randrange(0, 10)
        return {str(a + j): err for j in range(r.choice([2, 3, 6]))}
    return {str(r.randrange(0, 25)): r.choice(ERRS) for _ in range(3)}


def plan(seed, tier):
    G = 56 if tier == "quick" else 900
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        base = zoo.gen(r, ("driver", "driver", "ssm"))
        members = [base]
        while len(members) < 2:
            members.append(zoo.twin(r, base) if r.random() < 0.6 else zoo.gen(r, ("driver", "ssm")))
        solves = [{"s": s, "mode": r.choice(MODES)} for s in members]
        if g % 6 == 5:  # a long solve: batched reports with a remainder
            s = {"kind": "driver", "kseed": r.randrange(2 ** 31), "pseed": r.randrange(2 ** 31), "delta": 0.001, "N": r.choice([1000, 1001, 2003, 2500]),
                 "prob": {"kind": "full", "d": 1, "m": 1, "pidx": 0}, "meth": {"name": "euler", "M": 1}, "bm": {"kind": "approx", "n": 1}}
            solves[1] = {"s": s, "mode": r.choice(["jit", "plain", "rejit"])}
        for it in solves:
            if it["mode"] == "eager" and it["s"]["N"] > 20:
                it["mode"] = "rejit"
        spec = {"solves": solves}
        if g % 3 == 0:
            spec["threads"] = [[r.randrange(2) for _ in range(r.choice([1, 2]))] for _ in range(r.choice([2, 3]))]
            spec["solves"] = [{**it, "mode": r.choice(["eager", "eager", "plain", "rejit"]) if it["s"]["N"] < 20 else "plain"} for it in spec["solves"]]
            spec["sched"] = {"seed": r.randrange(10 ** 9), "policy": r.choice(["random", "sticky", "roundrobin", "starve"])}
            spec["plan"] = _fault_plan(r)
            spec["clock"] = r.choice(["run", "jump", "back", "stall"])
        else:
            spec["jobs"] = [{"i": r.randrange(2), "plan": _fault_plan(r) if r.random() < 0.8 else {}, "clock": r.choice(["run", "jump", "back", "stall"]),
                             "kill": r.choice([1, 3, 6]) if r.random() < 0.1 else None} for _ in range(r.choice([4, 6, 8]))]
        chunks.append([spec])
    return [sum(chunks[i::36], []) for i in range(36)] if tier == "quick" else [c for c in chunks]


class _Term:
    """Installs a terminal with a fault plan and a clock behaviour."""

    def __init__(self, rec, plan, clock, add):
        self.stream = SimStream(plan)
        n = [0]

        def op():
            n[0] += 1
            if clock == "run":
                rec.clock.now += 0.25
            elif clock == "jump" and n[0] % 3 == 1:
                rec.clock.now += 1e8
                add("fault.clock_jump")
            elif clock == "back" and n[0] % 3 == 2:
                rec.clock.now -= 1e5
                add("fault.clock_back")
            elif clock == "stall" and n[0] == 1:
                add("fault.clock_stall")
        self.stream.on_op = op
        self.stream.on_fault = lambda f: add("fault." + f)

    def __enter__(self):
        import sys
        self.old, sys.stderr = sys.stderr, self.stream
        return self.stream

    def __exit__(self, *a):
        import sys
        sys.stderr = self.old
        return False


def _same(out, want):
    return len(out) == len(want) and all(a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes() for a, b in zip(out, want))


def execute(spec, ctx):
    setup(True)
    st = {}

    def add(k, n=1):
        st[k] = st.get(k, 0) + n
    calls = [zoo.host_args(it["s"]) for it in spec["solves"]]
    cache, log = {}, []
    # A write that fails inside tqdm's refresh leaves tqdm's process-wide lock held (known finding): the search hands the lock over and
    # counts the leak, "strict" runs (the recorded finding) report it.
    with Recorder(heal=not spec.get("strict")) as rec:
        def attempt(i, seam=lambda label: None, cache_=cache):
            it = spec["solves"][i]
            out = zoo.call(it["s"], it["mode"], *calls[i], seam=seam, cache=cache_)
            barrier()
            return out

        def outcome(i, where, stream, seam=lambda label: None, cache_=cache, hostile=True):
            """Run solve i; a digest of what the caller saw."""
            n0 = len(stream.fired)
            try:
                out = attempt(i, seam, cache_)
            except SimKill:
                raise
            except BaseException as e:  # noqa: BLE001
                try:
                    barrier()
                except Exception:  # noqa: BLE001
                    pass
                if spec.get("strict") and rec.display_lock.leaks:
                    raise Violation("hang:display-lock", "a solve waits forever for the display lock of another solve whose display failed in a write")
                if not hostile and len(stream.fired) == n0:
                    raise Violation("raised-without-fault", f"{where}: solve {i} ({zoo.describe(spec['solves'][i]['s'])}) raised {type(e).__name__}: "
                                                            f"{str(e)[:300]} with a healthy display")
                add("outcome.raised")
                return "raised"
            if want[i] is not None and not _same(out, want[i]):
                raise Violation("corrupted", f"{where}: solve {i} ({zoo.describe(spec['solves'][i]['s'])}, {spec['solves'][i]['mode']}) returned other "
                                             f"numbers than with a healthy display: {_where(out, want[i])}")
            add("outcome.same")
            return out
        want = [None] * len(calls)
        for i, it in enumerate(spec["solves"]):
            add(f"mode.{it['mode']}")
            add(f"kind.{it['s']['kind']}")
            add("probe.large", int(it["s"]["N"] >= 1000))
            with _Term(rec, {}, "run", add) as s:
                want[i] = outcome(i, "first healthy solve", s, hostile=False)
        if "jobs" in spec:
            add("probe.sequential")
            for j, job in enumerate(spec["jobs"]):
                with _Term(rec, job["plan"], job["clock"], add) as s:
                    n = [0]

                    def seam(label, n=n, job=job):
                        n[0] += 1
                        if n[0] == job["kill"]:
                            add("fault.kill")
                            raise SimKill("killed")
                    try:
                        o = outcome(job["i"], f"job {j}", s, seam, None if job["kill"] else cache, hostile=bool(job["plan"]) or job["clock"] != "run")
                    except SimKill:
                        o = "killed"
                    try:
                        barrier()
                    except Exception:  # noqa: BLE001
                        pass
                add("steps", spec["solves"][job["i"]]["s"]["N"])
                log.append([job["i"], s.fired, o if isinstance(o, str) else "same"])
        else:
            add("probe.threads")
            S = Scheduler(spec["sched"]["seed"], spec["sched"]["policy"])
            with _Term(rec, spec["plan"], spec["clock"], add) as s:
                def task(k, th):
                    def run():
                        for i in th:
                            def seam(label, eager=spec["solves"][i]["mode"] == "eager"):
                                if eager:  # the other modes only pass here while being traced
                                    barrier()
                                S.seam(label)
                            o = outcome(i, f"thread {k}", s, seam, {})
                            S.local.task.log.append(o if isinstance(o, str) else "same")
                            S.seam("end")
                            add("steps", spec["solves"][i]["s"]["N"])
                    return run
                for k, th in enumerate(spec["threads"]):
                    S.spawn(f"t{k}", task(k, th))
                order = S.run()
            for t in S.tasks:
                if t.exc is not None:
                    raise t.exc
            add("switches", sum(a != b for a, b in zip(order, order[1:])))
            log.append([order, [t.log for t in S.tasks], s.fired])
        for i in range(len(calls)):
            with _Term(rec, {}, "run", add) as s:
                outcome(i, "healthy solve afterwards", s, hostile=False)
                if spec["solves"][i]["mode"] == "jit":
                    outcome(i, "healthy recompiled solve afterwards", s, cache_={}, hostile=False)
        faults = sum(v for k, v in st.items() if k[6:] in ERRS)
        st["lock_leaks"] = rec.display_lock.leaks
        if rec.display_lock.leaks and (spec.get("strict") or not faults):
            raise Violation("hang:display-lock", "a solve waits forever for the display lock of another solve"
                            + (" whose display failed in a write" if faults else ""))
    fired = sum(v for k, v in st.items() if k.startswith("fault."))
    return {"stats": st, "sig": digest(json.dumps([spec.get("plan"), log], default=str), *[a for w in want for a in w]), "nontrivial": fired > 0}


def known_match(entry, spec):
    return bool(spec.get("strict"))


def _where(out, want):
    if len(out) != len(want):
        return f"{len(out)} arrays instead of {len(want)}"
    for j, (a, b) in enumerate(zip(out, want)):
        if a.shape != b.shape or a.dtype != b.dtype:
            return f"array {j}: {a.shape}/{a.dtype} instead of {b.shape}/{b.dtype}"
        k = np.argwhere(~((a == b) | ((a != a) & (b != b))))
        if len(k):
            k = tuple(int(v) for v in k[0])
            return f"array {j} at {k}: {a[k]!r} instead of {b[k]!r}"
    return "signs of zero"


def shrink(spec):
    if "jobs" in spec:
        js = spec["jobs"]
        for a in range(len(js)):
            if len(js) > 1:
                yield {**spec, "jobs": js[:a] + js[a + 1:]}
        for a, j in enumerate(js):
            def put(q, a=a):
                return {**spec, "jobs": js[:a] + [q] + js[a + 1:]}
            if j["kill"]:
                yield put({**j, "kill": None})
            if j["clock"] != "run":
                yield put({**j, "clock": "run"})
            if len(j["plan"]) > 1:
                for k in j["plan"]:
                    yield put({**j, "plan": {k: j["plan"][k]}})
    else:
        th = spec["threads"]
        for a in range(len(th)):
            if len(th) > 1:
                yield {**spec, "threads": th[:a] + th[a + 1:]}
            for c in range(len(th[a])):
                if len(th[a]) > 1:
                    yield {**spec, "threads": th[:a] + [th[a][:c] + th[a][c + 1:]] + th[a + 1:]}
        if spec["clock"] != "run":
            yield {**spec, "clock": "run"}
        if len(spec["plan"]) > 1:
            for k in spec["plan"]:
                yield {**spec, "plan": {k: spec["plan"][k]}}
    for k, it in enumerate(spec["solves"]):
        for N in (1, 2, it["s"]["N"] // 2):
            if 0 < N < it["s"]["N"]:
                yield {**spec, "solves": spec["solves"][:k] + [{**it, "s": {**it["s"], "N": N}}] + spec["solves"][k + 1:]}
