"""C06: statistics refine the batch statistic of their contents, under any update/remove/read history."""
import math

from .base import Prop, tally
from .. import catalog, refs, world
from ..kernel import Violation, scalar


class KwStat:
    """A user-defined statistic that needs constructor arguments."""

    def __init__(self, gain=1.0):
        self.gain = gain
        self.v = []

    def update(self, num):
        self.v.append(num)
        return self

    def remove(self, num):
        self.v.remove(num)
        return self

    def get(self):
        return -self.gain * math.fsum(self.v)


class C06(Prop):
    id = "C06"
    runs = dict(quick=60000, thorough=900000)
    needs_fault = False
    rule = ("A seeded world (sensor signal, lost/duplicated/reordered/stuck/spiking deliveries) feeds one or more meters; "
            "removals of held values in arbitrary order and reads are interleaved; after each read the value is compared "
            "with the batch statistic of the multiset (or last window) actually held.")
    state_measure = "distinct (meter, window fill, multiset size, duplicates held, sign pattern) tuples reached at reads"

    def gen(self, rng, tier, idx):
        kind = rng.pick(["meter", "meter", "abs", "running", "running", "runabs", "kwrun", "kwabs"])
        m = rng.pick(catalog.METERS)
        n = rng.wpick([(rng.int(1, 10), 3), (rng.int(8, 40), 4), (rng.int(40, 400), 1), (rng.int(1000, 2200), 0.02)])
        dl, lost, mode = world.deliveries(rng, n, 1)
        w = rng.wpick([(rng.int(1, 6), 3), (rng.int(4, 20), 2), (rng.int(20, 120), 1)])
        p_rem = rng.pick([0.0, 0.2, 0.45]) if kind in ("meter", "abs", "kwabs") else 0.0
        order = rng.pick(["any", "fifo", "lifo", "dupfirst"])
        p_read = rng.pick([0.1, 0.4, 0.8])
        ev = []
        size = 0
        for (t, x, y, f) in dl:
            ev.append(dict(op="update", x=x[0], t=t, f=f))
            size += 1
            while size > 0 and rng.chance(p_rem):
                ev.append(dict(op="remove", k=rng.random(), t=t, f=[]))
                size -= 1
            if rng.chance(p_read):
                ev.append(dict(op="get", t=t, f=[]))
        ev.append(dict(op="get", t=0, f=[]))
        if rng.chance(0.2) and kind in ("meter", "abs", "kwabs"):
            while size > 0:
                ev.append(dict(op="remove", k=rng.random(), t=0, f=[]))
                size -= 1
            ev.append(dict(op="get", t=0, f=[]))
            for k in range(rng.int(1, 4)):
                ev.append(dict(op="update", x=rng.int(-8, 8) / 2.0, t=0, f=["refill"]))
                ev.append(dict(op="get", t=0, f=[]))
        return dict(component=m, kind=kind, m=m, w=w, order=order, mode=mode, lost=lost, gain=rng.pick([2.0, 0.5]),
                    events=ev)

    def run(self, sc, st):
        import pysad.statistics as S
        kind, m, w = sc["kind"], sc["m"], sc["w"]
        cls = getattr(S, m)
        name = m
        if kind == "meter":
            o = cls()
        elif kind == "abs":
            o, name = S.AbsStatistic(cls), "AbsStatistic"
        elif kind == "running":
            o, name = S.RunningStatistic(cls, w), "RunningStatistic"
        elif kind == "runabs":
            o, name = S.RunningStatistic(catalog._AbsOf(m), w), "RunningStatistic"
        elif kind == "kwrun":
            o, name = self._mk(lambda: S.RunningStatistic(KwStat, w, gain=sc["gain"]), "RunningStatistic"), "RunningStatistic"
        else:
            o, name = self._mk(lambda: S.AbsStatistic(KwStat, gain=sc["gain"]), "AbsStatistic"), "AbsStatistic"
        running = kind in ("running", "runabs", "kwrun")
        absolute = kind in ("abs", "runabs", "kwabs")
        st.components.add(name + ("" if name == m else "(" + (m if not kind.startswith("kw") else "user-defined") + ")"))
        held = []
        M, n = 1e-300, 0
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            op = e["op"]
            if op == "update":
                x = float(e["x"])
                try:
                    r = o.update(x)
                except Exception as ex:
                    raise Violation("raises", name, "update(%r) raised %r with %d held" % (x, ex, len(held)))
                held.append(x)
                M = max(M, abs(x))
                n += 1
                if running:
                    held = held[-w:]
                if r is not o:
                    raise Violation("not-self", name, "update returned %r" % (r,))
            elif op == "remove":
                if not held:
                    continue
                x = self._which(held, sc["order"], e["k"])
                held.remove(x)
                try:
                    r = o.remove(x)
                except Exception as ex:
                    raise Violation("raises", name, "remove(%r) raised %r" % (x, ex))
                n += 1
                st.fault("remove")
                if r is not o:
                    raise Violation("not-self", name, "remove returned %r" % (r,))
            else:
                if not held and (m not in refs.DEFINED_EMPTY or kind.startswith("kw")):
                    continue
                try:
                    g = o.get()
                except Exception as ex:
                    raise Violation("raises", name, "get() raised %r with %d held" % (ex, len(held)))
                got = scalar(g)
                if kind.startswith("kw"):
                    want = -sc["gain"] * math.fsum(held)
                    t = refs.EPS * (n + 10) * M * sc["gain"] * (len(held) + 1)
                else:
                    want = refs.batch(m, held)
                    t = refs.tol(m, M, n)
                    if m == "VarianceMeter" and got is not None and got < 0:
                        raise Violation("negative-variance", name, "variance %r of %r" % (got, held[-8:]))
                if absolute:
                    want = abs(want)
                st.checks += 1
                st.state(name, m, kind, min(len(held), 40), len(set(held)) < len(held), want > 0)
                if len(held) == w:
                    st.probe("window_full")
                if len(set(held)) < len(held):
                    st.probe("duplicates_held")
                if not held:
                    st.probe("read_when_empty")
                if not refs.close(got, want, t):
                    raise Violation("wrong-value", name, "%s/%s: get() = %r, batch statistic of the %d held values = %r"
                                    % (kind, m, got, len(held), want))

    def _mk(self, f, name):
        try:
            return f()
        except Exception as ex:
            raise Violation("raises", name, "constructor with keyword arguments raised %r" % ex)

    def _which(self, held, order, k):
        if order == "fifo":
            return held[0]
        if order == "lifo":
            return held[-1]
        if order == "dupfirst":
            d = [x for x in held if held.count(x) > 1] if len(held) < 60 else []
            if d:
                return d[int(k * len(d))]
        return held[int(k * len(held))]


PROP = C06()
