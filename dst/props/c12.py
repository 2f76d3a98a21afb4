"""C12: a replica that also receives inputs it refuses stays equal to one that does not."""
import math

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation

#: calls that are documented to be refused, per component: (kind, must_raise)
SHAPES = ([1.0, 2.0], [], 3.0, [[1.0]], [[1.0, 2.0]])
UNI = ("SeasonalESD", "SeasonalHybridESD")
BADREAD = ("ExactStorm", "HalfSpaceTrees", "IForestASD", "KitNet", "LODA", "OneFitModel", "ReferenceWindowKNN", "ReferenceWindowModel",
           "RobustRandomCutForest", "SeasonalTrendDecomposer", "GaussianRandomProjector", "SparseRandomProjector",
           "LocalOutlierProbability", "StreamhashProjector", "xStream", "MedianAbsoluteDeviation", "StandardAbsoluteDeviation")
BOOST = dict(SeasonalESD=1.5, SeasonalHybridESD=1.5, ModifiedSTLResidualTransformer=3, MedianAbsoluteDeviation=4,
             StandardAbsoluteDeviation=4, PerfectModel=8, MaxMeter=3, MinMeter=3, MedianMeter=3, AUROCMetric=2, WindowedMetric=2,
             RunningStatistic=0, Window=0, UnlimitedWindow=0)


def kinds(c):
    k = []
    if c.name in UNI:
        k += ["shape-fit", "shape-read", "shape-fitread"]
    if c.name == "ModifiedSTLResidualTransformer":
        k += ["shape-fit", "shape-read", "shape-fitread", "short-window"]
    if c.name in ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation"):
        k += ["len-fit", "len-fitread"]
    if c.name == "PerfectModel":
        k += ["no-label-fit", "no-label-fitread", "no-label-batch", "empty-read"]
    if c.name in ("MaxMeter", "MinMeter", "MedianMeter", "AbsStatistic"):
        k += ["remove-absent"]
    if c.name in ("AUROCMetric", "WindowedMetric"):
        k += ["undefined-read"]
    if c.family == "model" and c.name not in ("PerfectModel",):
        k += ["mismatch-fit", "mismatch-fitread"]
        if c.min_fit:
            k += ["early-read"]
    if c.name in BADREAD:
        k += ["wide-read", "narrow-read", "text-read"]
    return k


def absent(c, p, held, i):
    """A value the meter does not hold: far away, below all, between two held ones, next to one, or the mirror image of one."""
    f = abs if c.name == "AbsStatistic" else (lambda v: v)
    h = sorted(set(f(v) for v in held))
    if not h:
        return float(i)
    cand = [1e7 + i, h[0] - 1.0 - i, h[-1] + 0.5, h[i % len(h)] + 2.0**-20, -h[i % len(h)], math.nextafter(h[i % len(h)], 1e9)]
    cand += [(a + b) / 2 for a, b in zip(h, h[1:])][i % 3::3][:2]
    v = cand[i % len(cand)]
    return v if f(v) not in h else 1e7 + i


def bad_call(c, s, e, p):
    """Issues the call; returns the exception or None. x holds what to use."""
    o, k = s.obj, e["kind"]
    x = c.x(e["x"])
    d = p["d"]
    try:
        if k.startswith("shape-"):
            v = np.array(SHAPES[e["i"] % len(SHAPES)])
            if c.name == "ModifiedSTLResidualTransformer" and v.shape == (1, 1):
                v = np.array([1.0, 2.0, 3.0])
            {"fit": lambda: c.fit(o, v, None), "read": lambda: c.read(o, v), "fitread": lambda: c.fitread(o, v, None)}[k[6:]]()
        elif k == "short-window":
            o.transform_window(np.zeros(max(0, 2 * p["per"] - 1 - e["i"] % 3)))
        elif k.startswith("len-"):
            v = np.array([[], [1.0, 2.0], [4.0, 4.0, 4.0]][e["i"] % 3])
            c.fit(o, v, None) if k == "len-fit" else c.fitread(o, v, None)
        elif k == "no-label-fit":
            o.fit_partial(x, None)
        elif k == "no-label-fitread":
            o.fit_score_partial(x, None)
        elif k == "no-label-batch":
            o.fit(np.array([e["x"], e["x"]]))
        elif k == "empty-read":
            if s.pending > 0:
                return "skip"
            o.score_partial(x)
        elif k == "remove-absent":
            if c.name == "AbsStatistic" and p["m"] not in ("MaxMeter", "MinMeter", "MedianMeter"):
                return "skip"
            o.remove(absent(c, p, s.held, e["i"]))
        elif k == "undefined-read":
            o.get()
        elif k.startswith("mismatch-"):
            X = np.array([e["x"]] * 3).reshape(3, d)
            Y = np.zeros([0, 2, 4][e["i"] % 3])
            o.fit(X, Y) if k == "mismatch-fit" else o.fit_score(X, Y)
        elif k == "early-read":
            if s.allowed("read"):
                return "skip"
            c.read(o, x)
        elif k.endswith("-read"):
            if not s.nfit:
                return "skip"
            v = {"wide": np.zeros(d + 1 + e["i"] % 2), "narrow": np.zeros(max(0, d - 1)), "text": np.array(["a"] * d)}[k[:-5]]
            c.read(o, v)
    except (kernel.Cancelled, kernel.NoProgress):
        raise
    except BaseException as ex:
        return ex
    return None


MUST = ("shape-", "short-window", "len-", "no-label", "empty-read", "remove-absent", "mismatch-")


class C12(Prop):
    id = "C12"
    runs = dict(quick=12000, thorough=200000)
    rule = ("Two replicas with the same random draws get the same deliveries; one additionally receives calls it must refuse "
            "(wrong shapes, missing labels, absent values, undefined metrics, mismatched lengths, early reads) at seeded points, singly or in bursts. "
            "The refused call must raise, and all later results must be identical in both.")
    state_measure = "distinct (component, kind of refused call, fits so far) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.choose(rng, lambda c: kinds(c) and BOOST.get(c.name, 1.0) > 0, lambda c: BOOST.get(c.name, 0.6))
        p = c.params(rng)
        ev, lost = c.script(rng, p, catalog.length(rng, c, 40.0))
        ks = kinds(c)
        dens = rng.pick([0.1, 0.4])
        out = []
        for e in ev:
            while rng.chance(dens):
                k = rng.pick(ks)
                for _ in range(rng.pick([1, 1, 1, 3])):
                    out.append(dict(op="bad", kind=k, i=rng.int(0, 11), x=list(e["x"]), t=e["t"], f=[]))
            out.append(e)
        if ev:
            out.append(dict(op="bad", kind=rng.pick(ks), i=rng.int(0, 11), x=list(ev[-1]["x"]), t=0, f=[]))
            out.append(dict(op="fitread", x=list(ev[-1]["x"]), y=ev[-1]["y"] if ev[-1]["y"] is not None else 0.0, t=0, f=[]))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        sess, rngs = [], []
        for _ in range(2):
            kernel.rng_seed(sc["seed"])
            sess.append(catalog.Session(c, p))
            sess[-1].held = []
            rngs.append(kernel.rng_save())
        if sess[0].err:
            return
        refused = 0
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            if e["op"] == "bad":
                kernel.rng_load(rngs[1])
                ex = bad_call(c, sess[1], e, p)
                if ex == "skip":
                    continue
                if ex is None:
                    st.checks += 1
                    if any(e["kind"].startswith(m) for m in MUST):
                        raise Violation("not-refused", c.name, "%s (%d) was accepted after %d fits" % (e["kind"], e["i"], sess[1].nfit))
                    continue  # an accepted read is C05's business
                st.fault("refused-" + e["kind"])
                refused += 1
                continue
            vals = []
            for k in (0, 1):
                kernel.rng_load(rngs[k])
                vals.append(sess[k].do(e))
                if c.family == "stat" and e["op"] != "read":
                    sess[k].held.append(float(e["x"][0]))
                rngs[k] = kernel.rng_save()
            if not refused:
                continue
            st.checks += 1
            st.state(c.name, e["op"], min(sess[0].nfit, 60), min(refused, 5))
            if vals[0] != vals[1]:
                raise Violation("refused-input-left-a-trace", c.name, "%s after %d fits: %r without, %r with %d refused calls"
                                % (e["op"], sess[0].nfit, vals[0], vals[1], refused))


PROP = C12()
