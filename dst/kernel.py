"""Simulation kernel: seeded choice, canonical values, forked execution, random-state
virtualisation, line-granular preemption of real threads, cancellation injection."""
import hashlib
import math
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time
import traceback

import numpy as np

from . import env


# ----------------------------------------------------------------- seeded choice
class Rng(random.Random):
    """All choices of a run are drawn from one of these, seeded from (VERIF_SEED, property, run index)."""

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[int(self.random() * len(seq))]

    def wpick(self, pairs):
        tot = sum(w for _, w in pairs)
        r = self.random() * tot
        for v, w in pairs:
            r -= w
            if r < 0:
                return v
        return pairs[-1][0]

    def int(self, a, b):
        return a + int(self.random() * (b - a + 1))

    def fork(self, label):
        return Rng(H(self.random(), label))


def H(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


# ----------------------------------------------------------------- canonical values
def canon(v, depth=0):
    """A hashable, exactly comparable rendering of anything an operation may return."""
    if depth > 6:
        return "deep"
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        f = float(v)
        if f != f:
            return "nan"
        return f + 0.0 if f != 0 else 0.0
    if isinstance(v, np.ndarray) or type(v).__module__.startswith("jax"):
        a = np.asarray(v)
        if a.dtype == object:
            return ("obj", a.shape, tuple(canon(x, depth + 1) for x in a.ravel().tolist()))
        if a.ndim == 0:
            return canon(a.item(), depth + 1)
        return (tuple(a.shape), tuple(canon(x, depth + 1) for x in a.ravel().tolist()))
    if isinstance(v, (list, tuple)):
        return tuple(canon(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return tuple((str(k), canon(x, depth + 1)) for k, x in v.items())
    if hasattr(v, "to_numpy"):
        return canon(v.to_numpy(), depth + 1)
    return "<%s>" % type(v).__name__


def scalar(v):
    """The single number in v, or None."""
    try:
        a = np.asarray(v, dtype=np.float64)
    except Exception:
        return None
    if a.size != 1:
        return None
    return float(a.reshape(-1)[0])


def same(a, b):
    return a == b


def near(a, b, rel=1e-10):
    """Canonical values equal up to rounding (memory layout may change the last bits of a dot product)."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= rel * (1.0 + min(abs(a), abs(b)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(near(x, y, rel) for x, y in zip(a, b))
    return a == b


def jsonable(v):
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
        return repr(v)
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    return repr(v)


# ----------------------------------------------------------------- outcome of one run
class Violation(Exception):
    def __init__(self, kind, component, detail):
        super().__init__("%s [%s]: %s" % (kind, component, detail))
        self.kind, self.component, self.detail = kind, component, detail


class Cancelled(BaseException):
    """Injected by the simulator in the middle of library code (task cancellation / kill)."""


class NoProgress(BaseException):
    pass


class Stats:
    """What one run did, for the evidence file."""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.ops = 0
        self.checks = 0
        self.simtime = 0.0
        self.states = set()
        self.components = set()

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def state(self, *parts):
        self.states.add(H(*parts) & 0xffffffff)

    def pack(self):
        return dict(faults=self.faults, probes=self.probes, ops=self.ops, checks=self.checks,
                    simtime=self.simtime, states=self.states, components=self.components)


# ----------------------------------------------------------------- forked execution
CPU_LIMIT = 60.0


def _on_prof(signum, frame):
    raise NoProgress()


def call_forked(fn, *args, wall=600.0, cpu=CPU_LIMIT):
    """Runs fn(*args) in a forked copy of this (pristine) process and returns
    ("ok", result) | ("noprogress", None) | ("error", traceback) | ("died", status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.signal(signal.SIGPROF, _on_prof)
            signal.setitimer(signal.ITIMER_PROF, cpu, 2.0)
            try:
                out = ("ok", fn(*args))
            except NoProgress:
                out = ("noprogress", None)
            except BaseException:
                out = ("error", traceback.format_exc())
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return ("died", "wall limit")
    if status != 0 or not chunks:
        return ("died", status)
    return pickle.loads(b"".join(chunks))


# ----------------------------------------------------------------- random-state seam
def rng_seed(seed):
    random.seed(seed)
    np.random.seed(seed & 0xffffffff)


def rng_save():
    return (random.getstate(), np.random.get_state())


def rng_load(st):
    random.setstate(st[0])
    np.random.set_state(st[1])


# ----------------------------------------------------------------- line hooks
REPO_PREFIX = os.path.join(os.path.abspath(env.REPO), "pysad") + os.sep


class LineTracer:
    """Calls hook() before every executed line of library code in this thread."""

    def __init__(self, hook):
        self.hook = hook

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO_PREFIX):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.hook()
        return self._local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


class LineBomb:
    """Raises Cancelled at the n-th executed line of library code (n counted from 0)."""

    def __init__(self, n):
        self.n = n
        self.seen = 0
        self.fired = False

    def hook(self):
        if self.seen == self.n and not self.fired:
            self.fired = True
            self.seen += 1
            raise Cancelled()
        self.seen += 1


def count_lines(fn):
    c = [0]

    def hook():
        c[0] += 1
    with LineTracer(hook):
        r = fn()
    return r, c[0]


# ----------------------------------------------------------------- baton scheduler
class Scheduler:
    """Real threads, exactly one of which runs at any time. A switch can happen before any line of
    library code and between operations; the seeded (or replayed) schedule decides each one.

    schedule: list of [after_steps, task_index]; a step is one yield point of the running task.
    Once the schedule is used up, the lowest-numbered live task runs to completion.
    """

    def __init__(self, bodies, schedule, virtual_rng=True, seeds=None, max_steps=2000000, hooks=None):
        self.bodies = bodies
        self.hooks = hooks or [None] * len(bodies)
        self.n = len(bodies)
        self.schedule = list(schedule)
        self.pos = 0
        self.left = 0
        self.virtual_rng = virtual_rng
        self.events = [threading.Event() for _ in bodies]
        self.alive = [True] * self.n
        self.cur = None
        self.done = threading.Event()
        self.results = [None] * self.n
        self.states = []
        self.switches = 0
        self.trace = []
        self.steps = 0
        self.max_steps = max_steps
        if virtual_rng:
            keep = rng_save()
            for s in seeds:
                rng_seed(s)
                self.states.append(rng_save())
            rng_load(keep)

    def _next(self):
        live = [i for i in range(self.n) if self.alive[i]]
        if not live:
            return None
        while self.pos < len(self.schedule):
            steps, task = self.schedule[self.pos]
            self.pos += 1
            if task < self.n and self.alive[task]:
                self.left = steps
                return task
        self.left = self.max_steps
        return live[0]

    def _switch(self, me, leaving=False):
        nxt = self._next()
        if nxt is None:
            self.done.set()
            return
        if nxt == me:
            return
        self.switches += 1
        if self.virtual_rng:
            if me is not None:
                self.states[me] = rng_save()
            rng_load(self.states[nxt])
        self.trace.append((nxt, self.steps))
        self.cur = nxt
        self.events[nxt].set()
        if me is not None and not leaving:
            self.events[me].wait()
            self.events[me].clear()

    def point(self, me):
        """A yield point of task me."""
        self.steps += 1
        self.left -= 1
        if self.left <= 0:
            self._switch(me)

    def _main(self, me):
        self.events[me].wait()
        self.events[me].clear()
        try:
            extra = self.hooks[me]

            def line():
                self.point(me)
                if extra is not None:
                    extra()   # may raise Cancelled inside library code
            tr = LineTracer(line)
            with tr:
                self.results[me] = ("ok", self.bodies[me](lambda: self.point(me)))
        except BaseException:
            self.results[me] = ("error", traceback.format_exc())
        self.alive[me] = False
        self._switch(me, leaving=True)

    def run(self, wall=300.0):
        ths = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        keep = rng_save()
        self._switch(None)
        ok = self.done.wait(wall)
        if not ok:
            raise NoProgress()
        for t in ths:
            t.join(10)
        self.end_rng = rng_save()
        rng_load(keep)
        return self.results
