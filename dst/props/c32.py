"""C32: a read that is interrupted or fails half-way leaves no trace."""
from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation
from .c05 import muted

KINDS = dict(cancel=kernel.Cancelled, memory=MemoryError, keyboard=KeyboardInterrupt)


def pred(c):
    return c.name != "PerfectModel"


class Bomb(kernel.LineBomb):
    def __init__(self, n, exc):
        super().__init__(n)
        self.exc = exc

    def hook(self):
        if self.seen == self.n and not self.fired:
            self.fired = True
            raise self.exc()
        self.seen += 1


class FailingCodisp:
    """rrcf has to hold an instance while it is scored; the failure is injected into its computation, not between
    any two lines (an exception raised inside the clean-up itself cannot be survived)."""

    def __init__(self, n, exc):
        self.n, self.exc, self.fired = n, exc, False

    def __enter__(self):
        from rrcf import rrcf
        self.cls, self.real, self.seen = rrcf.RCTree, rrcf.RCTree.codisp, 0

        def codisp(tree, leaf):
            if self.seen == self.n:
                self.fired = True
                raise self.exc()
            self.seen += 1
            return self.real(tree, leaf)
        self.cls.codisp = codisp
        return self

    def __exit__(self, *a):
        self.cls.codisp = self.real
        return False


class C32(Prop):
    id = "C32"
    runs = dict(quick=7000, thorough=110000)
    rule = ("Two replicas get the same deliveries with the same random draws; on one, extra reads (single and batch) are started and cancelled, interrupted or failed for lack of memory before a "
            "seeded line of library code. All common results must be equal.")
    state_measure = "distinct (component, kind of interruption, line at which it struck, fits so far) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.choose(rng, pred)
        p = c.params(rng)
        ev, lost = c.script(rng, p, catalog.length(rng, c, 35.0))
        dens = rng.pick([0.15, 0.5, 0.9])
        out = []
        for e in ev:
            while rng.chance(dens * 0.7):
                x = list(rng.pick([e["x"], rng.pick(ev)["x"], [v + rng.pick([0.0, 1.0, -3.0]) for v in e["x"]]]))
                if c.lim:
                    x = [min(c.lim[1], max(c.lim[0], v)) for v in x]
                if c.family == "metric":
                    x = list(e["x"])
                out.append(dict(op="xread", x=x, t=e["t"], f=[], kind=rng.pick(sorted(KINDS)), at=round(rng.random(), 3),
                                rows=rng.int(2, 4) if c.batch and rng.chance(0.3) else 0))
            out.append(e)
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        kernel.rng_seed(sc["seed"])
        a = catalog.Session(c, p)
        ra = kernel.rng_save()
        kernel.rng_seed(sc["seed"])
        b = catalog.Session(c, p)
        rb = kernel.rng_save()
        if a.err:
            return
        lines = {}
        hits = 0
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            if e["op"] == "xread":
                if not b.allowed("read"):
                    continue
                kernel.rng_load(rb)
                where = self.interrupted(c, p, b, e, lines)
                if where is not None:
                    hits += 1
                    st.fault("read-" + e["kind"])
                    st.state(c.name, e["kind"], where, min(b.nfit, 20))
                elif c.name == "KNNCAD":
                    return       # the read was completed, and may have ended in an alarm
                continue
            kernel.rng_load(ra)
            va = a.do(e)
            ra = kernel.rng_save()
            kernel.rng_load(rb)
            vb = b.do(e)
            rb = kernel.rng_save()
            if hits:
                st.checks += 1
            if va != vb:
                raise Violation("interrupted-read-has-effect", c.name, "%s after %d fits: %r without and %r with %d interrupted reads" % (e["op"], a.nfit, va, vb, hits))
            if c.name == "KNNCAD" and muted([va]):
                return

    def interrupted(self, c, p, s, e, lines):
        def go():
            if e["rows"]:
                return catalog.batch_call(c, s.obj, "read", catalog.batch_array(c, [e["x"]] * e["rows"]))
            return c.read(s.obj, c.x(e["x"]))
        exc = KINDS[e["kind"]]
        if c.name == "RobustRandomCutForest":
            n = int(e["at"] * p["nt"] * max(1, e["rows"]))
            bomb = FailingCodisp(n, exc)
            ctx = bomb
        else:
            # how long such a read is, learnt from the last one that was not hit
            n = int(e["at"] * lines.get(e["rows"], 12 * max(1, e["rows"])))
            bomb = Bomb(n, exc)
            ctx = kernel.LineTracer(bomb.hook)
        try:
            with ctx:
                go()
        except (kernel.Cancelled, MemoryError, KeyboardInterrupt):
            pass
        except Exception:
            return None           # refused of its own accord
        if bomb.fired:
            if c.name != "RobustRandomCutForest" and e["at"] > 0.9:
                lines[e["rows"]] = int(n * 1.5) + 2
            return n
        if c.name != "RobustRandomCutForest":
            lines[e["rows"]] = max(1, bomb.seen)
        return None


PROP = C32()
