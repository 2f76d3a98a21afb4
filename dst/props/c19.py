"""C19: every detector answers every score with one finite number, from its first instance on."""
import math

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation, scalar


def pred(c):
    return c.family == "model" and c.name != "PerfectModel"


class C19(Prop):
    id = "C19"
    runs = dict(quick=24000, thorough=360000)
    rule = ("A seeded world (constant, stuck, two-valued, spiking, huge, tiny, negative and seasonal signals, with losses, duplicates and "
            "reordering) drives one detector from its very first instance; every score must be one finite number.")
    state_measure = "distinct (component, signal mode, fits so far, operation) tuples at scores"

    def gen(self, rng, tier, idx):
        c = catalog.REG["Inqmad"] if idx % 2000 == 3 else catalog.choose(rng, pred)
        p = c.params(rng)
        n = min(catalog.length(rng, c, 60.0), 4 if c.name == "Inqmad" else 10**6)
        net = world.Net(rng)
        if rng.chance(0.3):
            net.stuck = 0.3
        net.spike_mag = rng.pick([8.0, 1000.0, 1e5])
        mode = rng.wpick([("const", 3), ("few", 2), ("two", 2), ("dyadic", 1), ("gauss", 1), ("wide", 2), ("neg", 1), ("season", 1),
                          ("walk", 1)])
        ev, lost = c.script(rng, p, n, net=net, mode=mode)
        sc = rng.wpick([(1.0, 5), (1e-6, 1), (1e4, 1), (0.0, 1)]) if not c.lim else 1.0
        if sc != 1.0:
            for e in ev:
                e["x"] = [v * sc for v in e["x"]]
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, mode=mode, scale=sc, events=ev)

    def run(self, sc, st):
        c = catalog.REG[sc["component"]]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        st.fault("signal-" + sc["mode"])
        kernel.rng_seed(sc["seed"])
        s = catalog.Session(c, sc["params"])
        if s.err:
            raise Violation("raises", c.name, "constructor raised %s" % s.err)
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            v = s.do(e)
            if v is None:
                continue
            st.checks += 1
            st.state(c.name, sc["mode"], sc["scale"], min(s.nfit, 60), e["op"])
            if v[0] == "exc":
                raise Violation("raises", c.name, "%s raised %s at instance %d (%s)" % (e["op"], v[1], s.nfit, sc["mode"]))
            if e["op"] == "fit":
                continue
            x = v[1]
            if isinstance(x, tuple):
                x = x[1][0] if isinstance(x[1], tuple) and len(x[1]) == 1 else None
            if not isinstance(x, float) or not math.isfinite(x):
                raise Violation("not-finite", c.name, "%s returned %r at instance %d (%s)" % (e["op"], v[1], s.nfit, sc["mode"]))


PROP = C19()
