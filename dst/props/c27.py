"""C27: a node that lost its state rebuilds a windowed component from its last window alone and goes on exactly like one that never failed."""
import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation
from . import c13
from .c05 import muted

#: components that work in blocks are rebuilt from a block boundary
ALIGN = dict(HalfSpaceTrees="w", xStream="w", ReferenceWindowModel="s", ReferenceWindowKNN="s", IForestASD="w", KNNCAD="pp")
W = dict(KNNCAD=0.04, IForestASD=0.06, ReferenceWindowKNN=0.5, SeasonalESD=0.6, SeasonalHybridESD=0.6, HalfSpaceTrees=2.0, xStream=2.0, ReferenceWindowModel=2.0)


class C27(Prop):
    id = "C27"
    runs = dict(quick=14000, thorough=210000)
    rule = ("A component loses all its state at seeded moments and is replaced by a new one that is fed only the instances of the last window (from a "
            "block boundary for components that work in blocks), by single or batch calls. From then on it must return what an uninterrupted replica returns.")
    state_measure = "distinct (component, window parameters, instances before the loss, instances replayed, operation) tuples"

    def gen(self, rng, tier, idx):
        c = rng.wpick([(catalog.REG[n], W.get(n, 1.0)) for n in c13.NAMES])
        p = c13.params(c, rng)
        h = c13.horizon(c, p)
        al = p[ALIGN[c.name]] if c.name in ALIGN else 1
        lost = rng.int(1, max(2, 2 * h)) if c.name != "KNNCAD" else rng.int(1, p["pp"])
        if rng.chance(0.06) and c.name != "KNNCAD":      # a long stream before the loss
            lost = min(rng.int(10, 60) * max(5, h), int(400 / c.cost), 2500)
        after = rng.int(3, max(6, 2 * h)) if c.name != "KNNCAD" else rng.int(3, 12)
        n = lost + h + al + after
        f, mode = world.signal(rng, p["d"], "gauss" if c.name == "KNNCAD" else rng.wpick([("dyadic", 3), ("few", 3), ("two", 1), ("season", 2), ("gauss", 1), ("walk", 1)]))
        net = world.Net(rng)
        ev, fits, t, q = [], 0, 0.0, 0
        pr = rng.pick([0.0, 0.4])
        crash = sorted(set([lost + h + al] + [rng.int(lost + h + al, n) for _ in range(rng.int(0, 2))]))
        while fits < n:
            x = f(fits)
            t += rng.random()
            tags = []
            if ev and c.name != "KNNCAD" and rng.chance(net.dup):
                x = list(ev[-1]["x"])
                tags.append("dup")
            quiet = c.name == "KNNCAD" and fits < crash[0]
            ev.append(dict(op="fit" if quiet or rng.chance(0.5) else "fitread", x=x, y=float(rng.chance(0.5)) if p.get("lab") else None, t=round(t, 2), f=tags))
            fits += 1
            if fits in crash:
                ev.append(dict(op="lose", x=x, t=round(t, 2), f=["state-lost"], how=rng.pick(["fit", "fitread", "batch", "chunks"]), more=rng.int(0, 2)))
            while not quiet and rng.chance(pr):
                ev.append(dict(op="read", x=f(fits), y=None, t=round(t, 2), f=[]))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), mode=mode, events=ev)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        h = c13.horizon(c, p)
        al = p[ALIGN[c.name]] if c.name in ALIGN else 1

        def new():
            kernel.rng_seed(sc["seed"])
            s = c13.PROP.make(c, p)
            return s, kernel.rng_save()
        a, ra = new()
        b, rb = None, None
        log, M, replayed = [], 1.0, 0
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            if a.err:
                return
            if e["op"] == "lose":
                start = (len(log) - h) // al * al - al * e["more"]
                if len(log) - h < 0 or start < 0:
                    start = (len(log) - h) // al * al
                if start <= 0:
                    continue
                b, rb = new()
                part = log[start:]
                replayed = len(part)
                self.replay(c, b, part, e["how"])
                rb = kernel.rng_save()
                st.fault("catch-up-" + e["how"])
                continue
            M = max(M, max(abs(v) for v in e["x"]))
            kernel.rng_load(ra)
            va = a.do(e)
            ra = kernel.rng_save()
            if e["op"] != "read":
                log.append(e)
            if c.name == "KNNCAD" and muted([va]):
                return
            if b is None:
                continue
            kernel.rng_load(rb)
            vb = b.do(e)
            rb = kernel.rng_save()
            st.checks += 1
            st.probe("compared_after_rebuild")
            st.state(c.name, p.get("w", p.get("pp", 1)), min(len(log), 200), replayed, e["op"])
            if not c13.same(c, p, va, vb, M, [q["x"][0] for q in log], e["x"][0]):
                raise Violation("window-is-not-all", c.name, "%s after %d fits: %r, but %r where the state was rebuilt from the last %d instances (window %d)"
                                % (e["op"], len(log), va, vb, replayed, h))

    def replay(self, c, b, part, how):
        if not c.batch or (c.name == "KNNCAD" and how == "fitread"):   # a KNNCAD alarm mutes the next scores
            how = "fit"
        if how in ("fit", "fitread"):
            for e in part:
                b.do(dict(e, op=how))
            return
        m = len(part) if how == "batch" else 3
        for i in range(0, len(part), m):
            seg = part[i:i + m]
            X = catalog.batch_array(c, [e["x"] for e in seg])
            Y = np.array([e["y"] for e in seg]) if seg[0]["y"] is not None else None
            catalog.batch_call(c, b.obj, "fit", X, Y)
            for _ in seg:
                b.account("fit")


PROP = C27()
