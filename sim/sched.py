"""Seeded cooperative scheduler: every task is a real thread, exactly one runs at a time, hand-over only at seams."""
import random
import threading


class Stuck(Exception):
    pass


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.wake = threading.Event()
        self.done = False
        self.result = None
        self.exc = None
        self.steps = 0
        self.kill = None      # exception to raise at the next seam
        self.kill_at = None   # (seam count, exception class)
        self.log = []


class Scheduler:
    """run() drives all tasks to completion; the order is a pure function of the seed (or of an explicit trace)."""

    def __init__(self, seed, policy="random", trace=None, limit=1_000_000):
        self.rng = random.Random(f"sched:{seed}")
        self.policy = policy
        self.trace = list(trace) if trace is not None else None
        self.tasks = []
        self.back = threading.Event()
        self.current = None
        self.order = []
        self.limit = limit
        self.local = threading.local()
        self.on_switch = None

    def spawn(self, name, fn, kill_at=None):
        t = Task(name, fn)
        t.kill_at = kill_at
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.wake.wait()
        t.wake.clear()
        self.local.task = t
        try:
            if t.kill is not None:
                raise t.kill
            t.result = t.fn()
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        finally:
            t.done = True
            self.back.set()

    def seam(self, label=""):
        """Called from task code: park here until the scheduler picks this task again."""
        t = getattr(self.local, "task", None)
        if t is None:
            return
        t.steps += 1
        t.log.append(label)
        if t.kill_at is not None and t.steps == t.kill_at[0]:
            raise t.kill_at[1](f"killed at seam {t.steps} ({label})")
        self.back.set()
        t.wake.wait()
        t.wake.clear()

    def run(self):
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            threads.append(th)
        last = None
        n = 0
        while True:
            live = [i for i, t in enumerate(self.tasks) if not t.done]
            if not live:
                break
            if self.trace is not None and n < len(self.trace) and self.trace[n] in live:
                i = self.trace[n]
            elif self.policy == "sticky" and last in live and self.rng.random() < 0.8:
                i = last
            elif self.policy == "roundrobin":
                i = live[n % len(live)]
            elif self.policy == "starve" and len(live) > 1 and self.rng.random() < 0.95:
                i = self.rng.choice(live[1:])
            else:
                i = self.rng.choice(live)
            n += 1
            if n > self.limit:
                raise Stuck("scheduler step limit")
            self.order.append(i)
            last = i
            t = self.tasks[i]
            self.current = t
            if self.on_switch is not None:
                self.on_switch(t)
            self.back.clear()
            t.wake.set()
            if not self.back.wait(timeout=200):
                raise Stuck(f"task {t.name} did not reach a seam")
        for th in threads:
            th.join(timeout=10)
        self.current = None
        return self.order
