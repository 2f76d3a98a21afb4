"""C16: seasonal preprocessors refine their reference on every mix of fits and transforms."""
import numpy as np

from .base import Prop, tally
from .. import catalog, refs, world
from ..kernel import Violation


class DecompRef:
    """Sums over everything fitted so far, recomputed from the log."""

    def __init__(self, season, trend):
        self.s, self.w = season, trend or season
        self.log = []

    def trend(self, upto=None):
        log = self.log if upto is None else self.log[:upto]
        return np.mean(np.array(log[-self.w:]), axis=0) if log else 0.0

    def seasonal(self, phase):
        det = [self.log[i] - self.trend(i + 1) for i in range(len(self.log))
               if i % self.s == phase and i + 1 >= self.w]
        return np.mean(np.array(det), axis=0) if det else 0.0

    def fit(self, x):
        self.log.append(x)

    def transform(self, x, fitted):
        phase = (len(self.log) - (1 if fitted else 0)) % self.s
        return x - self.trend() - self.seasonal(phase)


def stl_latest(values, period, robust, kw):
    from statsmodels.tsa.seasonal import STL
    v = np.array(values, dtype=np.float64)
    if len(v) < 2 * period:
        return 0.0
    seas = STL(v, period=period, robust=robust, **kw).fit().seasonal
    return (v - seas - np.median(v))[-1]


class C16(Prop):
    id = "C16"
    runs = dict(quick=28000, thorough=420000)
    rule = ("A seeded world feeds a SeasonalTrendDecomposer or ModifiedSTLResidualTransformer with a random mix of fit, "
            "transform (retried, possibly before any fit), fit_transform and batch calls; every answer is compared with a "
            "reference recomputed from the log of fitted instances.")
    state_measure = "distinct (component, season/period, window, phase, window fill) tuples at comparisons"

    def gen(self, rng, tier, idx):
        kind = "SeasonalTrendDecomposer" if rng.chance(0.7) else "ModifiedSTLResidualTransformer"
        if kind[0] == "S":
            d = rng.int(1, 4)
            cfg = dict(d=d, s=rng.int(1, 8), w=rng.pick([None, None, 1, 2, 3, 5, 9]))
            n = rng.wpick([(rng.int(1, 8), 2), (rng.int(6, 40), 4), (rng.int(40, 90), 1), (rng.int(90, 400), 0.1)])
            if rng.chance(0.05):
                cfg.update(s=rng.int(9, 40), w=rng.pick([None, 7, 30]))
        else:
            per = rng.int(2, 4)
            cfg = dict(d=1, per=per, w=2 * per + rng.int(0, 6), robust=rng.chance(0.3), kw=catalog._stl_kw(rng))
            n = rng.int(1, 26)
        net = world.Net(rng)
        net.spike_mag = min(net.spike_mag, 50.0)
        ev, lost = world.script(rng, cfg["d"], n, net=net)
        if rng.chance(0.3):
            ev.insert(0, dict(op="read", x=[1.5] * cfg["d"], t=0, f=["read-before-fit"]))
        # some stretches as one batch call
        out, i = [], 0
        while i < len(ev):
            if rng.chance(0.08):
                j = min(len(ev), i + rng.int(1, 5))
                op = rng.pick(["fitall", "transformall", "fittransformall"])
                out.append(dict(op=op, xs=[e["x"] for e in ev[i:j]], t=ev[i]["t"], f=["batch"]))
                i = j
            else:
                out.append(ev[i])
                i += 1
        return dict(component=kind, cfg=cfg, lost=lost, events=out)

    def run(self, sc, st):
        import pysad.transform.preprocessing as P
        k, c = sc["component"], sc["cfg"]
        if k == "SeasonalTrendDecomposer":
            o = P.SeasonalTrendDecomposer(season_length=c["s"], trend_window=c["w"])
            ref = DecompRef(c["s"], c["w"])
        else:
            o = P.ModifiedSTLResidualTransformer(period=c["per"], window_size=c["w"], robust=c["robust"], **c["kw"])
            log = []
        st.components.add(k)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        M = [1.0]

        def want_fit(x):
            M[0] = max(M[0], float(np.max(np.abs(x))))
            if k[0] == "S":
                ref.fit(x)
            else:
                log.append(float(x[0]))

        def want_val(x, fitted):
            if k[0] == "S":
                return ref.transform(x, fitted)
            vals = log[-c["w"]:] if fitted else (log + [float(x[0])])[-c["w"]:]
            return stl_latest(vals, c["per"], c["robust"], c["kw"])

        def compare(got, want, what):
            st.checks += 1
            n = len(ref.log) if k[0] == "S" else len(log)
            st.state(k, tuple(sorted((a, str(b)) for a, b in c.items())), min(n, 3 * (c["w"] or 8)),
                     n % (c.get("s") or c.get("per")))
            g = np.asarray(got, dtype=np.float64).reshape(-1)
            w = np.asarray(want, dtype=np.float64).reshape(-1)
            t = 1e-9 * M[0] * (1 if k[0] == "S" else 10)
            if g.shape != w.shape or not np.all(np.abs(g - w) <= t):
                raise Violation("wrong-value", k, "%s after %d fits: got %r, expected %r (%r)" % (what, n, g.tolist(), w.tolist(), c))
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            op = e["op"]
            try:
                if op == "fit":
                    x = np.array(e["x"])
                    r = o.fit_partial(x)
                    if r is not o:
                        raise Violation("not-self", k, "fit_partial returned %r" % (r,))
                    want_fit(np.array(e["x"]))
                elif op == "read":
                    x = np.array(e["x"])
                    M[0] = max(M[0], float(np.max(np.abs(x))))
                    compare(o.transform_partial(x), want_val(np.array(e["x"]), False), "transform_partial")
                elif op == "fitread":
                    r = o.fit_transform_partial(np.array(e["x"]))
                    want_fit(np.array(e["x"]))
                    compare(r, want_val(np.array(e["x"]), True), "fit_transform_partial")
                else:
                    X = np.array(e["xs"])
                    if op == "fitall":
                        o.fit(X)
                        for x in e["xs"]:
                            want_fit(np.array(x))
                    elif op == "transformall":
                        r = o.transform(X)
                        M[0] = max(M[0], float(np.max(np.abs(X))))
                        compare(r, np.array([np.reshape(want_val(np.array(x), False), -1) for x in e["xs"]]), op)
                    else:
                        r = o.fit_transform(X)
                        w = []
                        for x in e["xs"]:
                            want_fit(np.array(x))
                            w.append(np.reshape(want_val(np.array(x), True), -1))
                        compare(r, np.array(w), op)
            except Violation:
                raise
            except Exception as ex:
                raise Violation("raises", k, "%s raised %r" % (op, ex))


PROP = C16()
