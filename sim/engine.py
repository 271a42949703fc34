"""Run engine: seeded plans of simulated executions, fork-isolated workers, shrinking, replay, evidence.

A property module provides
    ID, LEVEL, RULE, TOLERANCE(optional)
    plan(seed, tier)  -> list of chunks; a chunk is a list of specs (JSON) executed in one fresh process
    execute(spec, ctx)-> dict(stats={counter: number}, sig=str, nontrivial=bool, log=str)   (raises Violation)
    shrink(spec)      -> iterable of smaller specs (optional)
One spec is one simulated execution and a pure function of (spec, code under test).
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")

PINNED = {
    "JAX_PLATFORMS": "cpu",
    "JAX_ENABLE_X64": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TQDM_DISABLE": "",
}


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, str(detail)


class HarnessError(Exception):
    pass


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


def digest(*objs):
    import numpy as np
    h = hashlib.sha256()
    for o in objs:
        if isinstance(o, (list, tuple)):
            h.update(b"[" + digest(*o).encode() + b"]")
        elif isinstance(o, (str, bytes)):
            h.update(o.encode() if isinstance(o, str) else o)
        elif isinstance(o, dict):
            h.update(json.dumps(o, sort_keys=True, default=str).encode())
        else:
            a = np.asarray(o)
            h.update(str(a.dtype).encode() + str(a.shape).encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:24]


# ---------------------------------------------------------------- child side

def _in_library(exc):
    tb = exc.__traceback__
    lib = os.path.join(os.path.realpath(REPO), "bayesian_sde_solver") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(lib):
            return True
        tb = tb.tb_next
    cause = exc.__cause__ or exc.__context__
    return bool(cause is not None and cause is not exc and _in_library(cause))


def run_one(mod, spec, ctx):
    """Execute one spec; returns a JSON-able result record."""
    t0 = time.monotonic()
    rec = {"index": spec.get("index", -1)}
    try:
        out = mod.execute(spec, ctx) or {}
        rec.update(status="ok", stats=out.get("stats", {}), sig=out.get("sig", ""),
                   nontrivial=bool(out.get("nontrivial", True)), log=out.get("log", ""))
    except Violation as v:
        rec.update(status="violation", kind=v.kind, detail=v.detail[:2000])
    except HarnessError as e:
        rec.update(status="error", detail=f"harness: {e}")
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            rec.update(status="error", detail=tb[-3000:])
        elif _in_library(e):
            rec.update(status="violation", kind=f"library-raised:{type(e).__name__}",
                       detail=f"{str(e)[:600]}\n{tb[-1500:]}")
        else:
            rec.update(status="error", detail=tb[-3000:])
    rec["wall"] = time.monotonic() - t0
    return rec


def _child_main(modname, specs, wfd, stop_on_violation):
    os.setsid()
    w = os.fdopen(wfd, "wb", buffering=0)

    def send(rec):
        b = json.dumps(rec).encode() + b"\n"
        while b:
            n = w.write(b)
            b = b[n:]
    try:
        # keep stray output of the code under test away from the check's stdout
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        sys.path.insert(0, REPO)
        mod = importlib.import_module(modname)
        ctx = {}
        for s in specs:
            rec = run_one(mod, s, ctx)
            send(rec)
            if rec["status"] != "ok" and stop_on_violation:
                break
        send({"status": "done"})
    except BaseException:  # noqa: BLE001
        try:
            send({"status": "error", "index": -1, "detail": traceback.format_exc()[-3000:]})
        except BaseException:  # noqa: BLE001
            pass
    finally:
        os._exit(0)


class Child:
    def __init__(self, modname, specs, cap):
        self.specs, self.cap = specs, cap
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            _child_main(modname, specs, w, True)
        os.close(w)
        self.r, self.buf, self.recs = r, b"", []
        self.t0 = time.monotonic()
        self.done = self.eof = False

    def pump(self):
        try:
            b = os.read(self.r, 1 << 16)
        except OSError:
            b = b""
        if not b:
            self.eof = True
            return []
        self.buf += b
        *lines, self.buf = self.buf.split(b"\n")
        new = []
        for ln in lines:
            rec = json.loads(ln)
            if rec["status"] == "done":
                self.done = True
            else:
                self.recs.append(rec)
                new.append(rec)
        return new

    def finish(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        try:
            os.close(self.r)
        except OSError:
            pass


def run_chunks(modname, chunks, workers, deadline, child_cap, stop_on_bad=True):
    """Run chunks in fresh forked processes. Returns (records in chunk order, leftovers, errors, first bad chunk)."""
    queue = collections.deque(enumerate(chunks))
    live, results, errors = {}, {}, []
    bad = None
    skipped = 0
    while queue or live:
        now = time.monotonic()
        stop = (stop_on_bad and bad is not None)
        while queue and len(live) < workers and not stop:
            if now > deadline:
                skipped += len(queue)
                queue.clear()
                break
            i, specs = queue.popleft()
            c = Child(modname, specs, child_cap)
            live[c.r] = (i, c)
        if stop:
            skipped += len(queue)
            queue.clear()
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            i, c = live[fd]
            for rec in c.pump():
                if rec["status"] == "violation":
                    if bad is None or i < bad:
                        bad = i
                elif rec["status"] == "error":
                    errors.append((i, rec))
                    bad = i if bad is None else bad
            if c.eof:
                if not c.done and not any(r["status"] != "ok" for r in c.recs):
                    errors.append((i, {"status": "error", "detail": f"worker for chunk {i} died after {len(c.recs)} runs"}))
                results[i] = c.recs
                c.finish()
                del live[fd]
        now = time.monotonic()
        for fd, (i, c) in list(live.items()):
            if now - c.t0 > c.cap:
                errors.append((i, {"status": "error", "detail": f"worker for chunk {i} exceeded {c.cap}s after {len(c.recs)} runs"}))
                results[i] = c.recs
                c.finish()
                del live[fd]
    return results, skipped, errors


def run_specs_fresh(modname, specs, cap=240):
    """Run specs in order in one fresh process, return the records."""
    res, _, errs = run_chunks(modname, [specs], 1, time.monotonic() + 1e9, cap)
    recs = res.get(0, [])
    if errs and not any(r["status"] == "violation" for r in recs):
        return recs, errs[0][1].get("detail", "")
    return recs, None


# ---------------------------------------------------------------- parent side

def _shrink(modname, mod, prefix, spec, kind, budget):
    """Greedy parallel shrinking that keeps the violation kind."""
    t_end = time.monotonic() + budget
    steps = 0
    if not hasattr(mod, "shrink"):
        return spec, steps
    while time.monotonic() < t_end:
        cands = []
        for c in mod.shrink(spec):
            if c != spec:
                cands.append(c)
            if len(cands) >= 24:
                break
        if not cands:
            break
        chosen = None
        for b in range(0, len(cands), 8):
            batch = cands[b:b + 8]
            res, _, _ = run_chunks(modname, [prefix + [c] for c in batch], 8, t_end, 120, stop_on_bad=False)
            for j, c in enumerate(batch):
                rs = res.get(j, [])
                if len(rs) == len(prefix) + 1 and rs[-1]["status"] == "violation" and rs[-1]["kind"] == kind:
                    chosen = c
                    break
            if chosen is not None or time.monotonic() > t_end:
                break
        if chosen is None:
            break
        spec = chosen
        steps += 1
    return spec, steps


def _load_known(pid):
    try:
        with open(KNOWN) as f:
            k = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in k.get("known", []) if e["property"] == pid]


def check(pid, tier=None, seed=None, workers=None):
    t_start = time.monotonic()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    workers = workers or int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    os.environ.update(PINNED)
    modname = f"sim.props.{pid.lower()}"
    sys.path.insert(0, VERIF)
    import jax  # noqa: F401  (imported before forking; no backend is initialised here)
    import jax.numpy  # noqa: F401
    import jax.experimental.host_callback  # noqa: F401
    import jax.scipy.linalg  # noqa: F401
    import jax.scipy.integrate  # noqa: F401
    import scipy.linalg  # noqa: F401
    import tqdm.auto  # noqa: F401
    mod = importlib.import_module(modname)
    print(f"SEED property={pid} seed={seed} tier={tier}", flush=True)
    chunks = mod.plan(seed, tier)
    idx = 0
    for ch in chunks:
        for s in ch:
            s.setdefault("index", idx)
            idx += 1
    planned = idx
    wall_cap = float(os.environ.get("SIM_WALL", "0")) or (
        getattr(mod, "QUICK_WALL", 420) if tier == "quick" else getattr(mod, "THOROUGH_WALL", 3000))
    child_cap = getattr(mod, "CHILD_CAP", 300)
    results, skipped, errors = run_chunks(modname, chunks, workers, t_start + wall_cap, child_cap)
    recs, viols = [], []
    for i in sorted(results):
        for j, r in enumerate(results[i]):
            if r["status"] == "violation":
                viols.append((i, j, r))
            else:
                recs.append(r)
    known = _load_known(pid)
    code, viol_line = 0, None
    n_viol = 0
    for e in known:
        sp = e["specs"]
        rs, err = run_specs_fresh(modname, sp)
        if rs and rs[-1]["status"] == "violation" and rs[-1]["kind"] == e["kind"]:
            print(f"KNOWN-FINDING: property={pid} {e['what']}", flush=True)
    viols = [v for v in viols if not any(e["kind"] == v[2]["kind"] and
                                         mod.known_match(e, chunks[v[0]][v[1]]) for e in known)]
    if viols:
        n_viol = len(viols)
        i, j, r = viols[0]
        spec = chunks[i][j]
        kind = r["kind"]
        print(f"run index={spec['index']} failed: {kind}: {r['detail'][:1500]}", flush=True)
        # fresh-process confirmation: alone first, with the earlier runs of its process if needed
        prefix = []
        rs, _ = run_specs_fresh(modname, [spec])
        if not (rs and rs[-1]["status"] == "violation" and rs[-1]["kind"] == kind):
            prefix = chunks[i][:j]
            rs, _ = run_specs_fresh(modname, prefix + [spec])
        confirmed = bool(rs and rs[-1]["status"] == "violation" and rs[-1]["kind"] == kind)
        if not confirmed:
            print(f"HARNESS-ERROR property={pid}: run {spec['index']} failed once and did not replay", flush=True)
            code = 2
        else:
            # drop prefix members first, then shrink the failing spec
            t_pre = time.monotonic() + 60
            k = len(prefix) - 1
            while k >= 0 and time.monotonic() < t_pre:
                cand = prefix[:k] + prefix[k + 1:]
                rs2, _ = run_specs_fresh(modname, cand + [spec])
                if rs2 and len(rs2) == len(cand) + 1 and rs2[-1]["status"] == "violation" and rs2[-1]["kind"] == kind:
                    prefix = cand
                k -= 1
            small, steps = _shrink(modname, mod, prefix, spec, kind, 60 if tier == "quick" else 240)
            rs, _ = run_specs_fresh(modname, prefix + [small])
            if not (rs and rs[-1]["status"] == "violation" and rs[-1]["kind"] == kind):
                small = spec
                rs, _ = run_specs_fresh(modname, prefix + [small])
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{pid}-s{seed}-i{spec['index']}.json")
            rep = {"property": pid, "seed": seed, "tier": tier, "index": spec["index"], "shrink_steps": steps,
                   "prefix": prefix, "spec": small, "original_spec": spec,
                   "violation": {"kind": rs[-1]["kind"], "detail": rs[-1]["detail"]}}
            with open(path, "w") as f:
                json.dump(rep, f, indent=1, sort_keys=True)
            print(f"minimised in {steps} steps: {json.dumps(small)[:1500]}", flush=True)
            print(f"violation: {rs[-1]['kind']}: {rs[-1]['detail'][:1500]}", flush=True)
            viol_line = f"VIOLATION property={pid} replay={path}"
            code = 1
    elif errors:
        for i, e in errors[:3]:
            print(f"HARNESS-ERROR property={pid}: chunk {i}: {e.get('detail', '')}", flush=True)
        code = 2
    min_runs = getattr(mod, "MIN_FRACTION", 0.5) * planned
    if code == 0 and len(recs) < min_runs:
        print(f"HARNESS-ERROR property={pid}: only {len(recs)} of {planned} runs within the wall cap", flush=True)
        code = 2
    need = getattr(mod, "PROBES", ())
    stats = collections.Counter()
    for r in recs:
        for k, v in r.get("stats", {}).items():
            stats[k] += v
    missing = [p for p in need if not stats.get(p)]
    if code == 0 and missing:
        print(f"HARNESS-ERROR property={pid}: probes never hit: {missing}", flush=True)
        code = 2
    wall = time.monotonic() - t_start
    if hasattr(mod, "aggregate") and code == 0:
        pass
    _evidence(mod, pid, tier, seed, chunks, recs, stats, planned, skipped, n_viol, wall)
    print(f"{pid}: {len(recs)}/{planned} runs ok, {n_viol} violating, {wall:.1f}s, "
          f"{len(recs) / max(wall, 1e-9) * 3600:.0f} runs/h", flush=True)
    if viol_line:
        print(viol_line, flush=True)
    return code


def _evidence(mod, pid, tier, seed, chunks, recs, stats, planned, skipped, n_viol, wall):
    sigs = {r["sig"] for r in recs if r.get("sig")}
    nontriv = {(r["sig"] or r["index"]) for r in recs if r.get("nontrivial")}
    flat = [s for ch in chunks for s in ch]
    by_index = {s["index"]: s for s in flat}
    samples = []
    okidx = [r["index"] for r in recs if r.get("nontrivial")][:1] + [r["index"] for r in recs if r.get("nontrivial")][-2:]
    for k in dict.fromkeys(okidx):
        samples.append(by_index.get(k))
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe.")}
    other = {k: v for k, v in stats.items() if not k.startswith(("fault.", "probe."))}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(recs),
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples or flat[:1],
            "planned_runs": planned,
            "skipped_chunks": skipped,
            "runs_per_hour": round(len(recs) / max(wall, 1e-9) * 3600, 1),
            "seeds_per_hour": round(len(recs) / max(wall, 1e-9) * 3600, 1),
            "simulated_time": round(float(stats.get("sim_time", 0.0)), 6),
            "simulated_steps": int(stats.get("steps", 0)),
            "faults_injected": faults,
            "probes_hit": probes,
            "counters": {k: (round(v, 6) if isinstance(v, float) else v) for k, v in other.items()},
            "distinct_histories": len(sigs),
            "distinct_measure": getattr(mod, "MEASURE", "distinct digests of the recorded event/outcome log of a run"),
            "event_log_digest": hashlib.sha256("\n".join(
                f"{r['index']} {r.get('sig', '')}" for r in sorted(recs, key=lambda r: r["index"])).encode()).hexdigest(),
            "real_components": getattr(mod, "REAL", []),
            "stub_components": getattr(mod, "STUB", []),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": n_viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    os.environ.update(PINNED)
    sys.path.insert(0, VERIF)
    modname = f"sim.props.{rep['property'].lower()}"
    rs, err = run_specs_fresh(modname, rep.get("prefix", []) + [rep["spec"]], cap=600)
    last = rs[-1] if rs else {"status": "error", "detail": err}
    if last["status"] == "violation":
        same = last["kind"] == rep["violation"]["kind"] and last["detail"] == rep["violation"]["detail"]
        print(f"{last['kind']}: {last['detail']}")
        print("replay identical to the recorded violation" if same else "replay differs from the recorded violation text")
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    print(f"replay: {last['status']} {last.get('detail', '')}")
    return 0 if last["status"] == "ok" else 2
