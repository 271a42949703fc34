"""Simulated terminal, clock and tqdm event recorder (the progress display is the library's only I/O)."""
import errno
import threading

_STATE = {"installed": False}


class SimClock:
    def __init__(self):
        self.now = 1.0e9

    def time(self):
        return self.now


class SimStream:
    """stderr replacement: records or fails writes/flushes according to a fault plan."""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, plan=None):
        # plan: dict op index -> (op kind, errno name or exception name)
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.nops = 0
        self.bytes = 0
        self.fired = []
        self.closed = False
        self.on_op = self.on_fault = None

    def _op(self, kind):
        i = self.nops
        self.nops += 1
        if self.on_op is not None:
            self.on_op()
        f = self.plan.get(i)
        if f is None:
            f = self.plan.get(-1)  # "from the start on" plans use -1
        if f is not None:
            self.fired.append((kind, i, f))
            if self.on_fault is not None:
                self.on_fault(f)
            if f == "short":
                return
            if f == "memory":
                raise MemoryError("injected")
            if f == "interrupt":
                raise KeyboardInterrupt("injected")
            if f == "closed":
                raise ValueError("I/O operation on closed file.")
            if f == "encode":
                raise UnicodeEncodeError("ascii", "\u2588", 0, 1, "ordinal not in range(128)")
            raise OSError(getattr(errno, f), f)

    def write(self, s):
        self._op("write")
        self.bytes += len(s)
        return 0 if self.fired and self.fired[-1][1:] == (self.nops - 1, "short") else len(s)

    def flush(self):
        self._op("flush")

    def isatty(self):
        return False

    def fileno(self):
        raise OSError(errno.EBADF, "no descriptor behind a simulated stream")


def install_quiet():
    """Default for all checks: tqdm never starts its monitor thread; output goes to a null simulated stream."""
    import sys

    import tqdm.std
    tqdm.std.tqdm.monitor_interval = 0
    sys.stderr = SimStream()
    _STATE["installed"] = True


class SimHang(BaseException):
    """The caller would wait forever for a lock nobody will release."""


class SimLock:
    """tqdm's process-wide display lock under the simulator: waiting for another thread is a hang, because no other solve's display
    is ever half-way when a thread runs. heal: hand the lock over instead (and count it)."""

    def __init__(self, heal=True):
        self.owner, self.count, self.heal, self.leaks = None, 0, heal, 0

    def acquire(self, *a, **k):
        me = threading.get_ident()
        if self.owner not in (None, me):
            self.leaks += 1
            if not self.heal:
                raise SimHang("display lock is held by a solve that is no longer displaying")
            self.count = 0
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class Recorder:
    """Wraps tqdm's class methods; every live bar becomes an event history."""

    def __init__(self, heal=True):
        self.display_lock = SimLock(heal)
        self.bars = []
        self.events = []
        self.lock = threading.Lock()
        self.clock = SimClock()
        self.by_id = {}

    def __enter__(self):
        import sys

        import tqdm.std as T
        self.T = T
        self.orig = (T.tqdm.__init__, T.tqdm.update, T.tqdm.close, T.time)
        self.old_lock = T.tqdm.get_lock()
        T.tqdm.set_lock(self.display_lock)
        o_init, o_update, o_close, _ = self.orig
        rec = self

        def __init__(slf, *a, **k):
            with rec.lock:
                rec.bars.append(slf)
                rec.by_id[id(slf)] = len(rec.bars) - 1
                slf._sim_hist = []
            try:
                return o_init(slf, *a, **k)
            finally:
                with rec.lock:
                    rec.events.append(("open", rec.by_id[id(slf)], getattr(slf, "total", None)))

        def update(slf, n=1):
            r = o_update(slf, n)
            with rec.lock:
                rec.events.append(("update", rec.by_id.get(id(slf), -1), int(slf.n)))
            return r

        def close(slf):
            if id(slf) in rec.by_id and slf in rec.bars:
                with rec.lock:
                    rec.events.append(("close", rec.by_id[id(slf)], int(slf.n)))
            return o_close(slf)

        T.tqdm.__init__, T.tqdm.update, T.tqdm.close = __init__, update, close
        T.time = self.clock.time
        self.old_err = sys.stderr
        return self

    def __exit__(self, *a):
        import sys
        T = self.T
        T.tqdm.__init__, T.tqdm.update, T.tqdm.close, T.time = self.orig
        sys.stderr = self.old_err
        T.tqdm.set_lock(self.old_lock)
        return False


def barrier():
    import jax
    try:
        from jax.experimental import host_callback as hcb
        hcb.barrier_wait()
    except Exception:
        pass
    jax.effects_barrier()
