"""C08: metrics and windowed metrics refine scikit-learn on exactly the pairs seen, also with undefined windows."""
import math

from .base import Prop, tally
from .. import catalog, refs, world
from ..kernel import Violation, scalar


def sk(m, yt, yp):
    """Reference value; None if undefined."""
    import sklearn.metrics as M
    if not yt:
        return None
    if m == "PrecisionMetric":
        return float(M.precision_score(yt, yp))
    if m == "RecallMetric":
        return float(M.recall_score(yt, yp))
    if m == "AUROCMetric":
        if len(set(yt)) <= 1:
            return None
        return float(M.roc_auc_score(yt, yp))
    if m == "AUPRMetric":
        return float(M.average_precision_score(yt, yp))
    raise KeyError(m)


class KwMetric:
    """A user-defined metric with a constructor argument: gain * sum(y_true * y_pred); undefined when all labels are 0."""

    def __init__(self, gain=1.0):
        self.gain, self.v, self.any = gain, 0.0, False

    def update(self, yt, yp):
        self.v += yt * yp
        self.any = self.any or yt > 0
        return self

    def get(self):
        if not self.any:
            raise ValueError("undefined")
        return self.gain * self.v


class C08(Prop):
    id = "C08"
    runs = dict(quick=13000, thorough=195000)
    rule = ("A seeded world of (label, score) deliveries, with stretches of a single class so that windows become undefined, "
            "feeds a metric or windowed metric; reads (also retried, in mid-window) are compared with scikit-learn on "
            "the pairs seen.")
    state_measure = "distinct (metric, window, complete windows, position in window, undefined windows so far) tuples at reads"

    def gen(self, rng, tier, idx):
        m = rng.pick(catalog.METRICS + ("kw",))
        windowed = rng.chance(0.75) or m == "kw"
        n = rng.wpick([(rng.int(1, 10), 2), (rng.int(8, 40), 4), (rng.int(40, 90), 1), (rng.int(100, 400), 0.05)])
        dl, lost, mode = world.deliveries(rng, n, 1, labels=True)
        w = rng.wpick([(rng.int(1, 4), 2), (rng.int(3, 12), 4), (rng.int(12, 30), 1)])
        ev = []
        one = 0
        val = 0.0
        ponec = rng.pick([0.0, 0.05, 0.15])
        pread = rng.pick([0.1, 0.4])
        for (t, x, y, f) in dl:
            if one > 0:
                y, one, f = val, one - 1, f + ["single-class"]
            elif rng.chance(ponec):
                one, val = rng.int(w, 3 * w), float(rng.chance(0.5))
            xx = float(x[0] > 0) if m in ("PrecisionMetric", "RecallMetric") else x[0]
            ev.append(dict(op="update", x=xx, y=y, t=t, f=f))
            while rng.chance(pread):
                ev.append(dict(op="get", t=t, f=[]))
        ev.append(dict(op="get", t=0, f=["retry"]))
        return dict(component="WindowedMetric" if windowed else m, m=m, windowed=windowed, w=w, ign=rng.chance(0.5),
                    gain=rng.pick([2.0, -3.0]), lost=lost, mode=mode, events=ev)

    def run(self, sc, st):
        import pysad.evaluation as E
        m, w = sc["m"], sc["w"]
        name = sc["component"]
        try:
            if m == "kw":
                o = E.WindowedMetric(KwMetric, w, ignore_nonempty_last=sc["ign"], gain=sc["gain"])
            elif sc["windowed"]:
                o = E.WindowedMetric(getattr(E, m), w, ignore_nonempty_last=sc["ign"])
            else:
                o = getattr(E, m)()
        except Exception as ex:
            raise Violation("raises", name, "constructor raised %r" % ex)
        st.components.add(name + "(" + m + ")")
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])

        def ref(yt, yp):
            if m == "kw":
                return sc["gain"] * sum(a * b for a, b in zip(yt, yp)) if any(a > 0 for a in yt) else None
            return sk(m, yt, yp)
        yt, yp = [], []          # current (partial) window, or everything
        done = []                # values of completed, defined windows
        undefined = 0
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            if e["op"] == "update":
                yt.append(e["y"])
                yp.append(e["x"])
                want_raise = False
                if sc["windowed"] and len(yt) == w:
                    v = ref(yt, yp)
                    yt, yp = [], []
                    if v is None:
                        want_raise = True
                        undefined += 1
                        st.probe("undefined_window")
                    else:
                        done.append(v)
                        st.probe("window_closed")
                try:
                    o.update(e["y"], e["x"])
                    raised = None
                except Exception as ex:
                    raised = ex
                st.checks += 1
                if raised is not None and not want_raise:
                    raise Violation("raises", name, "update raised %r on a defined window" % raised)
                if raised is None and want_raise:
                    raise Violation("silent-undefined", name, "closing a window on which the metric is undefined did not raise")
                continue
            if not done and not yt:
                continue  # nothing to evaluate yet
            if sc["windowed"] and done:
                if not sc["ign"] and yt:
                    v = ref(yt, yp)
                    want = None if v is None else (v + math.fsum(done)) / (len(done) + 1)
                else:
                    want = math.fsum(done) / len(done)
            else:
                want = ref(yt, yp)
            try:
                got = scalar(o.get())
                raised = None
            except Exception as ex:
                got, raised = None, ex
            st.checks += 1
            st.state(name, m, w, len(done), len(yt), undefined, sc["ign"])
            if undefined and done:
                st.probe("read_after_undefined_window")
            if want is None:
                if raised is None:
                    raise Violation("silent-undefined", name, "get() = %r where the metric is undefined" % got)
            elif raised is not None:
                raise Violation("raises", name, "get() raised %r, expected %r" % (raised, want))
            elif not refs.close(got, want, 1e-10 * (1 + abs(want)) * (1 if m != "kw" else 1e3)):
                raise Violation("wrong-value", name, "%s w=%d: get() = %r, expected %r (%d complete windows, %d undefined, %d pairs pending)"
                                % (m, w, got, want, len(done), undefined, len(yt)))


PROP = C08()
