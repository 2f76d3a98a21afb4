"""C31: the work of one operation is bounded, however long the stream has been."""
import sys

from .base import Prop
from .. import catalog, kernel, stubs, world
from ..kernel import Violation
from .c17 import sat

W = dict(KNNCAD=0.15, IForestASD=0.02, SeasonalESD=0.12, SeasonalHybridESD=0.12, ModifiedSTLResidualTransformer=0.15,
         ReferenceWindowKNN=0.15, LocalOutlierProbability=0.2, RobustRandomCutForest=0.6, WindowedMetric=0.4, PrecisionMetric=0)


class Work:
    """Counts lines, branches and calls of library code while active: the simulator's clock for work."""
    TOOL = 4

    def __init__(self):
        self.n = 0
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "dst-work")
        ev = m.events
        for e in (ev.LINE, ev.BRANCH, ev.JUMP, ev.PY_START):
            m.register_callback(self.TOOL, e, self.hit)
        self.on = ev.LINE | ev.BRANCH | ev.JUMP | ev.PY_START

    def hit(self, code, *a):
        if "/pysad/" not in code.co_filename:
            return sys.monitoring.DISABLE
        self.n += 1

    def measure(self, fn):
        n = self.n
        sys.monitoring.set_events(self.TOOL, self.on)
        try:
            fn()
        finally:
            sys.monitoring.set_events(self.TOOL, 0)
        return self.n - n

    def close(self):
        m = sys.monitoring
        for e in (m.events.LINE, m.events.BRANCH, m.events.JUMP, m.events.PY_START):
            m.register_callback(self.TOOL, e, None)
        m.free_tool_id(self.TOOL)


class C31(Prop):
    id = "C31"
    runs = dict(quick=5000, thorough=75000)
    batch = 4
    rule = ("One component is streamed far past its saturation point, with reads, missing labels and failing refits mixed in; lines, branches and calls of library code are "
            "counted for every operation of a burst longer than its window at the end of either half. The maximum over the second may exceed the "
            "maximum over the first by at most 30% and a small constant.")
    state_measure = "distinct (component, window, signal, work bucket) tuples"

    def gen(self, rng, tier, idx):
        names = [n for n in catalog.NAMES if catalog.REG[n].weight > 0]
        while True:
            c = rng.wpick([(catalog.REG[n], W.get(n, 1.0) * min(1.0, catalog.REG[n].weight * 2)) for n in names])
            p = c.params(rng)
            if c.name == "IForestASD":
                p["init"] = None
            if sat(c, p) is not None:
                break
        s = sat(c, p)
        n = {"KNNCAD": 500, "IForestASD": 60, "SeasonalESD": 400, "SeasonalHybridESD": 400, "ModifiedSTLResidualTransformer": 500,
             "ReferenceWindowKNN": 400, "RobustRandomCutForest": 500}.get(c.name, rng.pick([600, 1000, 1600]))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), n=s + n, sat=s, stream=rng.int(0, 10**9),
                    mode=rng.pick(["gauss", "few", "two", "season", "walk"]), reads=rng.pick([0.0, 0.2, 0.6]), fitread=rng.chance(0.5),
                    bad=rng.pick([0.0, 0.1]), sparse=rng.pick([0, 0, 7]))

    def lists(self, sc):
        return []

    def simplify(self, sc):
        for k, v in (("reads", 0.0), ("bad", 0.0), ("fitread", False), ("mode", "two"), ("sparse", 0)):
            if sc.get(k, v) != v:
                yield dict(sc, **{k: v})

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        rng = kernel.Rng(sc["stream"])
        f, _ = world.signal(rng, p["d"], sc["mode"])
        kernel.rng_seed(sc["seed"])
        s = catalog.Session(c, p)
        if s.err:
            return
        n = sc["n"]
        half = sc["sat"] + (n - sc["sat"]) // 2
        burst = max(1, min(sc["sat"] + 2, (n - sc["sat"]) // 2 - 1))
        binary = c.family == "metric" and c.binary(p)
        top = [{}, {}]
        work = Work()
        try:
            for i in range(n):
                x = f(i)
                if sc["sparse"] and i % sc["sparse"]:
                    x = [0.0] * len(x)      # a region of the space that is visited rarely
                if c.lim:
                    x = [min(c.lim[1], max(c.lim[0], v)) for v in x]
                if binary:
                    x = [float(x[0] > 0)]
                if c.name == "ReferenceWindowModel" and rng.chance(sc["bad"]):
                    x[0] = stubs.POISON
                    st.fault("failing-refit")
                y = float(i % 2) if (c.labels or p.get("lab")) else None
                ops = [dict(op="fitread" if sc["fitread"] else "fit", x=x, y=y)]
                q = f(i) if not binary else x
                if c.lim:
                    q = [min(c.lim[1], max(c.lim[0], v)) for v in q]
                inside = half - burst <= i < half or n - burst <= i
                if rng.chance(sc["reads"]) or (inside and sc["reads"]):
                    ops.append(dict(op="read", x=q))
                    st.fault("extra-read")
                st.simtime += 1.0
                for e in ops:
                    st.ops += 1
                    if not inside:
                        s.do(e)
                        continue
                    w = work.measure(lambda: s.do(e))
                    t = top[i >= half]
                    t[e["op"]] = max(t.get(e["op"], 0), w)
        finally:
            work.close()
        st.fault("long-stream")
        k = p.get("k", 0) if c.name.startswith("Seasonal") else 0
        for op in top[1]:
            st.checks += 1
            a, b = top[0].get(op, 0), top[1][op]
            st.state(c.name, p.get("w"), sc["mode"], a // 20)
            if b > 1.3 * a + 40 + 20 * k:
                raise Violation("work-keeps-growing", c.name, "%s: at most %d steps around instance %d, %d around instance %d (window %r)"
                                % (op, a, half, b, n, p.get("w")))


PROP = C31()
