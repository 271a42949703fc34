"""C01: a solve is a pure function of its own arguments, under every history and interleaving of other solves."""
import os
import pickle

import numpy as np

from .. import simlib, zoo
from ..display import barrier
from ..engine import HarnessError, Violation, digest, rng_for
from ..faults import SimError, SimKill
from ..sched import Scheduler
from ..simlib import setup

ID = "C01"
RULE = ("one run = one process with 3-4 near-twin solves (each first run alone in its own fresh process) and several histories of them: sequential with "
        "repeats, or on threads interleaved by the scheduler at every drift/diffusion/noise/step call (also while tracing), some killed half-way; every "
        "completed solve is compared bitwise with its solo run and every argument array with its copy; non-trivial when a history has >= 2 solves")
MEASURE = "distinct (schedule order, event log) digests of histories"
REAL = ["sde_solver", "ssm_parabola_ode_solver", "classic schemes", "ODE filters", "priors", "generators", "jax tracing/compilation", "progress_bar"]
STUB = ["terminal (in-memory stream)"]
ASSUMPTIONS = ["XLA compiles the same program to the same machine code in every process of one sandbox (pinned single-threaded CPU backend)"]
PROBES = ("history.sequential", "history.threads", "fault.kill", "fault.error", "mode.eager", "mode.jit", "mode.rejit", "mode.plain", "mode.vmap",
          "kind.driver", "kind.ssm", "kind.em", "kind.emp", "kind.diag15", "kind.hypo15", "kind.filter", "probe.host_array", "probe.float32")
QUICK_WALL = 700
CHILD_CAP = 400
MODES = ("eager", "eager", "jit", "rejit", "plain", "vmap")


def plan(seed, tier):
    G = 48 if tier == "quick" else 900
    chunks = []
    for g in range(G):
        r = rng_for(seed, ID, g)
        kinds = ("driver", "ssm", "em", "driver", "diag15", "filter", "emp", "hypo15")
        base = zoo.gen(r, (kinds[g % 8],))
        mode0 = ("eager", "plain", "eager", "jit", "rejit", "vmap")[(g // 8) % 6]
        if mode0 == "eager":
            base["N"] = r.choice([2, 3, 4, 5])
        if base["kind"] == "driver" and g % 3 == 0:
            base["meth"]["name"] = r.choice(["ekf0", "ekf1"]) if base["meth"]["name"] == "euler" else base["meth"]["name"]
            base["meth"].setdefault("sample", True), base["meth"].setdefault("sqrt", False), base["meth"].setdefault("prior", None)
            base["meth"].setdefault("noise", None)
        members = [base]
        if base["kind"] == "driver" and g % 2:  # the same generator at another resolution, both passed as users pass them
            base["bm"], base["direct"] = {"kind": r.choice(["brownian", "fine"]), "n": r.choice([3, 8])}, True
            members.append({**base, "bm": {**base["bm"], "n": base["bm"]["n"] + r.choice([1, 2])}})
        if len(members) == 1 and r.random() < 0.7:  # the same program on another equation
            members.append({**base, "pseed": r.randrange(2 ** 31)})
        n = r.choice([3, 4, 4])
        other = zoo.resized(r, base)
        if other and len(members) < n and r.random() < 0.6:
            members.append(other)
        while len(members) < n:
            members.append(zoo.near(r, base) if len(members) in (1, 2, 3) and members[-1].get("delta") == base["delta"] else zoo.twin(r, r.choice(members)) if r.random() < 0.8 else zoo.gen(r))
        solves = [{"s": s, "mode": mode0 if k < 2 or r.random() < 0.6 else r.choice(MODES)} for k, s in enumerate(members)]
        for it in solves:
            if it["mode"] == "eager" and it["s"]["N"] > 20:
                it["mode"] = "rejit"
        hs = [{"threads": [[{"i": 0, "kill": None}], [{"i": 1, "kill": None}]], "sched": {"seed": r.randrange(10 ** 9), "policy": "random"}}]
        for h in range(3 if tier == "quick" else 5):
            if h % 2 == 0:
                th = []
                for _ in range(r.choice([2, 2, 3])):
                    th.append([{"i": r.randrange(n), "kill": (r.choice(["kill", "error"]), r.choice([1, 2, 3, 5, 9, 17])) if r.random() < 0.25 else None}
                               for _ in range(r.choice([1, 2]))])
                hs.append({"threads": th, "sched": {"seed": r.randrange(10 ** 9), "policy": r.choice(["random", "random", "sticky", "roundrobin", "starve"])}})
            else:
                order = r.sample(range(n), n) if h == 1 else [r.randrange(n) for _ in range(r.choice([3, 4, 5]))]
                hs.append({"threads": [[{"i": i, "kill": (r.choice(["kill", "error"]), r.choice([1, 2, 3, 5, 9])) if r.random() < 0.25 else None}
                                        for i in order]], "sched": {"seed": 0, "policy": "random"}})
        chunks.append([{"x64": r.random() < 0.6, "solves": solves, "histories": hs}])
    return chunks


def _solo(spec, i):
    """Run solve i alone in a fresh process (forked before any jax backend exists)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            setup(spec["x64"])
            simlib.FRESH_PRIORS[0] = True
            it = spec["solves"][i]
            args, p = zoo.host_args(it["s"])
            try:
                out = ("ok", zoo.call(it["s"], it["mode"], args, p))
            except Exception as e:  # noqa: BLE001
                out = ("raise", f"{type(e).__name__}: {e}"[:800])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        raise HarnessError(f"solo process of solve {i} died")
    return pickle.loads(b)


def execute(spec, ctx):
    if "x64" in simlib._NS:
        raise HarnessError("C01 needs a process without a jax backend")
    solo = [_solo(spec, i) for i in range(len(spec["solves"]))]
    for i, (k, v) in enumerate(solo):
        if k == "raise":
            raise Violation("solo-raised", f"solve {i} ({zoo.describe(spec['solves'][i]['s'])}): {v}")
    setup(spec["x64"])
    import jax
    simlib.FRESH_PRIORS[0] = True
    st = {}

    def add(k, n=1):
        st[k] = st.get(k, 0) + n
    pool, calls = {}, []
    for it in spec["solves"]:
        args, p = zoo.host_args(it["s"])
        # equal arrays of different solves are one array of the caller
        args = jax.tree_util.tree_map(lambda v: pool.setdefault((type(v).__name__, v.dtype.str, v.shape, np.asarray(v).tobytes()), v), args)
        calls.append((args, p))
        add(f"mode.{it['mode']}")
        add(f"kind.{it['s']['kind']}")
        add("probe.host_array", int(any(isinstance(v, np.ndarray) for v in args.values())))
    copies = {k: (np.asarray(v).copy(), v) for k, v in pool.items()}
    add("probe.float32", int(not spec["x64"]))
    cache, logs = {}, []
    for hi, H in enumerate(spec["histories"]):
        S = Scheduler(H["sched"]["seed"], H["sched"]["policy"], H.get("trace"))
        bad = []

        def task(th):
            # a jitted function being traced by one thread blocks the others that call it: threads jit on their own
            mine = cache if len(H["threads"]) == 1 else {}

            def run():
                for pos, job in enumerate(th):
                    it = spec["solves"][job["i"]]
                    args, p = calls[job["i"]]
                    n = [0]

                    def seam(label, job=job, n=n):
                        n[0] += 1
                        if job["kill"] and n[0] == job["kill"][1]:
                            add("fault.kill" if job["kill"][0] == "kill" else "fault.error")
                            raise (SimKill if job["kill"][0] == "kill" else SimError)(f"at call {n[0]} ({label})")
                        S.seam(label)
                    try:
                        out = zoo.call(it["s"], it["mode"], args, p, seam, None if job["kill"] else mine)
                    except (SimKill, SimError):
                        S.local.task.log.append("killed")
                        continue
                    want = solo[job["i"]][1]
                    add("solves")
                    add("steps", it["s"]["N"])
                    add("sim_time", it["s"]["N"] * it["s"]["delta"])
                    d = _diff(out, want)
                    if d and not bad:
                        bad.append((hi, pos, job["i"], d))
                    S.local.task.log.append(digest(*out))
                    S.seam("end")
            return run
        for k, th in enumerate(H["threads"]):
            S.spawn(f"t{k}", task(th))
        order = S.run()
        barrier()
        for t in S.tasks:
            if t.exc is not None:
                raise t.exc
        if bad:
            hi, pos, i, d = bad[0]
            raise Violation("impure", f"history {hi}: solve {i} ({zoo.describe(spec['solves'][i]['s'])}, {spec['solves'][i]['mode']}) differs from its solo "
                                      f"run: {d}")
        for c, v in copies.values():
            if isinstance(v, np.ndarray) or not v.is_deleted():
                if np.asarray(v).tobytes() != c.tobytes():
                    raise Violation("argument-modified", f"history {hi}: a caller array of shape {c.shape} was changed")
            else:
                raise Violation("argument-modified", f"history {hi}: a caller array of shape {c.shape} was deleted")
        add("history.threads" if len(H["threads"]) > 1 else "history.sequential")
        add("switches", sum(a != b for a, b in zip(order, order[1:])))
        logs.append([order, [t.log for t in S.tasks]])
    return {"stats": st, "sig": digest(repr(logs)), "nontrivial": True}


def _diff(out, want):
    if len(out) != len(want):
        return f"{len(out)} arrays instead of {len(want)}"
    for j, (a, b) in enumerate(zip(out, want)):
        if a.shape != b.shape or a.dtype != b.dtype:
            return f"array {j}: {a.shape}/{a.dtype} instead of {b.shape}/{b.dtype}"
        if a.tobytes() != b.tobytes():
            k = np.argwhere(~((a == b) | ((a != a) & (b != b))))
            if len(k) == 0:
                continue
            k = tuple(int(v) for v in k[0])
            return f"array {j} at {k}: {a[k]!r} instead of {b[k]!r}"
    return ""


def shrink(spec):
    hs = spec["histories"]
    if len(hs) > 1:
        for h in hs:
            yield {**spec, "histories": [h]}
        yield {**spec, "histories": hs[:-1]}
        yield {**spec, "histories": hs[1:]}
    used = {j["i"] for h in hs for th in h["threads"] for j in th}
    if len(used) < len(spec["solves"]):
        m = {i: k for k, i in enumerate(sorted(used))}
        yield {**spec, "solves": [spec["solves"][i] for i in sorted(used)],
               "histories": [{**h, "threads": [[{**j, "i": m[j["i"]]} for j in th] for th in h["threads"]]} for h in hs]}
    for a, h in enumerate(hs):
        def put(H, a=a):
            return {**spec, "histories": hs[:a] + [H] + hs[a + 1:]}
        for b, th in enumerate(h["threads"]):
            if len(h["threads"]) > 1:
                yield put({**h, "threads": h["threads"][:b] + h["threads"][b + 1:]})
            for c, j in enumerate(th):
                if len(th) > 1:
                    yield put({**h, "threads": h["threads"][:b] + [th[:c] + th[c + 1:]] + h["threads"][b + 1:]})
                if j["kill"]:
                    yield put({**h, "threads": h["threads"][:b] + [th[:c] + [{**j, "kill": None}] + th[c + 1:]] + h["threads"][b + 1:]})
        if h["sched"]["policy"] != "starve":
            yield put({**h, "sched": {"seed": 0, "policy": "starve"}})
    for k, it in enumerate(spec["solves"]):
        if it["s"]["N"] > 1:
            yield {**spec, "solves": spec["solves"][:k] + [{**it, "s": {**it["s"], "N": 1}}] + spec["solves"][k + 1:]}
        if it["mode"] != "plain":
            yield {**spec, "solves": spec["solves"][:k] + [{**it, "mode": "plain"}] + spec["solves"][k + 1:]}
