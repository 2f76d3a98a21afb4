"""C30: it does not matter which thread makes a call, as long as calls do not overlap."""
import contextvars
import queue
import threading

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation, canon


class Worker:
    """A real thread that makes one call at a time, handed to it by the simulator."""

    def __init__(self):
        self.inbox, self.outbox = queue.SimpleQueue(), queue.SimpleQueue()
        self.thread = threading.Thread(target=self._loop, daemon=True)
        self.thread.start()

    def _loop(self):
        while True:
            fn = self.inbox.get()
            if fn is None:
                return
            try:
                self.outbox.put((True, fn()))
            except BaseException as e:
                self.outbox.put((False, e))

    def call(self, fn):
        self.inbox.put(fn)
        ok, v = self.outbox.get()
        if not ok:
            raise v
        return v

    def stop(self):
        self.inbox.put(None)
        self.thread.join()


class C30(Prop):
    id = "C30"
    runs = dict(quick=9000, thorough=140000)
    rule = ("Two replicas get the same deliveries with the same random draws; all calls on one are made by one thread, each call on the other by whichever "
            "worker of a pool the schedule names, in a fresh or shared context, with workers ending and being replaced in between. All results must be equal.")
    state_measure = "distinct (component, worker before, worker now, operation, fits so far) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.REG["Inqmad"] if idx % 3000 == 7 else catalog.choose(rng)
        p = c.params(rng)
        n = min(catalog.length(rng, c, 40.0), 3 if c.name == "Inqmad" else 10**6)
        ev, lost = c.script(rng, p, n)
        k = rng.int(2, 4)
        stick = rng.pick([0.0, 0.5, 0.9])
        split = rng.chance(0.25)            # readers on other threads than writers
        th = rng.int(0, k - 1)
        out, i = [], 0
        pb = rng.pick([0.0, 0.0, 0.2]) if c.batch and c.name != "PerfectModel" else 0.0
        while i < len(ev):
            if rng.chance(pb):
                j = min(len(ev), i + rng.int(1, 5))
                op = rng.pick(["fit", "read", "fitread"])
                ys = [e["y"] if e["y"] is not None else 0.0 for e in ev[i:j]]
                e = dict(op="b" + op, xs=[e["x"] for e in ev[i:j]], ys=ys if (c.labels or p.get("lab")) and op != "read" else None, t=ev[i]["t"], f=[])
                i = j
            else:
                e = ev[i]
                i += 1
            if split:
                th = 0 if e["op"] == "fit" else k - 1
            elif not rng.chance(stick):
                th = rng.int(0, k - 1)
            e["th"] = th
            e["end"] = rng.chance(0.05)     # the worker's thread ends after this call, a new one takes its place
            e["ctx"] = rng.chance(0.3)      # the call runs in a context of its own, as asyncio tasks do
            out.append(e)
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out, builder=rng.int(-1, k - 1), k=k)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        pool = [Worker() for _ in range(sc["k"])]
        try:
            self.go(c, p, sc, st, pool)
        finally:
            for w in pool:
                w.stop()

    def go(self, c, p, sc, st, pool):
        kernel.rng_seed(sc["seed"])
        one = catalog.Session(c, p)
        r1 = kernel.rng_save()
        kernel.rng_seed(sc["seed"])
        if sc["builder"] < 0:
            w = Worker()
            two = w.call(lambda: catalog.Session(c, p))
            w.stop()                        # the thread that built the component is gone
            st.fault("builder-thread-ended")
        else:
            two = pool[sc["builder"]].call(lambda: catalog.Session(c, p))
        r2 = kernel.rng_save()
        if one.err != two.err:
            raise Violation("depends-on-thread", c.name, "constructor: %r on the main thread, %r on a worker" % (one.err, two.err))
        if one.err:
            return
        before = sc["builder"]
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            kernel.rng_load(r1)
            v1 = self.act(c, one, e)
            r1 = kernel.rng_save()
            kernel.rng_load(r2)
            fn = lambda: self.act(c, two, e)
            if e["ctx"]:
                inner = fn
                fn = lambda: contextvars.Context().run(inner)
                st.fault("fresh-context")
            v2 = pool[e["th"]].call(fn)
            r2 = kernel.rng_save()
            st.checks += 1
            if e["th"] != before:
                st.fault("thread-handover")
            st.state(c.name, before, e["th"], e["op"], min(one.nfit, 30))
            before = e["th"]
            if v1 != v2:
                raise Violation("depends-on-thread", c.name, "%s after %d fits: %r on one thread, %r where calls move between threads" % (e["op"], one.nfit, v1, v2))
            if e["end"]:
                pool[e["th"]].stop()
                pool[e["th"]] = Worker()
                st.fault("worker-ended")

    def act(self, c, s, e):
        if e["op"] in ("fit", "read", "fitread"):
            return s.do(e)
        if not s.allowed(e["op"][1:]):
            return None
        import numpy as np
        try:
            r = catalog.batch_call(c, s.obj, e["op"][1:], catalog.batch_array(c, e["xs"]), np.array(e["ys"]) if e["ys"] is not None else None)
        except (kernel.Cancelled, kernel.NoProgress):
            raise
        except Exception as ex:
            r = "exc", type(ex).__name__
        if e["op"] != "bread":
            s.nfit += len(e["xs"])
        return "self" if r is s.obj else canon(r)


PROP = C30()
