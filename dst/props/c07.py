"""C07: postprocessors and calibrators refine their defining formula over the scores they hold."""
import math

from .base import Prop, tally
from .. import refs, world
from ..kernel import Violation, scalar

KINDS = ("AveragePostprocessor", "MaxPostprocessor", "MedianPostprocessor", "ZScorePostprocessor",
         "RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor",
         "RunningZScorePostprocessor", "ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator")


def build(sc):
    import pysad.transform.postprocessing as P
    import pysad.transform.probability_calibration as Q
    k, w = sc["component"], sc["w"]
    if k == "ConformalProbabilityCalibrator":
        return Q.ConformalProbabilityCalibrator(windowed=sc["windowed"], window_size=w)
    if k == "GaussianTailProbabilityCalibrator":
        return Q.GaussianTailProbabilityCalibrator(running_statistics=sc["windowed"], window_size=w)
    if k.startswith("Running"):
        return getattr(P, k)(window_size=w)
    return getattr(P, k)()


def expected(k, held, x, M, n, allexact):
    """(value, tolerance) or None where the formula is undefined or numerically meaningless."""
    base = k.replace("Running", "")
    if base == "AveragePostprocessor":
        return refs.mean(held), refs.tol("AverageMeter", M, n)
    if base == "MaxPostprocessor":
        return max(held), 0.0
    if base == "MedianPostprocessor":
        return refs.median(held), refs.tol("MedianMeter", M, n)
    if base == "ZScorePostprocessor":
        v = refs.var(held)
        e = refs.tol("VarianceMeter", M, n)
        if v <= 1e6 * e:
            return None
        s = math.sqrt(v)
        z = (x - refs.mean(held)) / s
        return z, (refs.tol("AverageMeter", M, n) + EPS2 * abs(x)) / s * 4 + abs(z) * (e / v) * 4 + 1e-12
    if k == "ConformalProbabilityCalibrator":
        return sum(1 for h in held if h > x) / float(len(held)), 1e-12
    if k == "GaussianTailProbabilityCalibrator":
        v = refs.var(held)
        e = refs.tol("VarianceMeter", M, n)
        if max(held) == min(held):
            return None if not allexact else (refs.phi(x - held[0]), 1e-9)
        if v <= 1e6 * e:
            return None
        s = math.sqrt(v)
        z = (x - refs.mean(held)) / s
        return refs.phi(z), ((refs.tol("AverageMeter", M, n) + EPS2 * abs(x)) / s * 4 + abs(z) * (e / v) * 4) + 1e-12
    raise KeyError(k)


EPS2 = 1e-14


def exact(v):
    """Integers this small have exact sums of squares, so a constant stream has exactly zero variance."""
    return v == int(v) and abs(v) < 1000


class C07(Prop):
    id = "C07"
    runs = dict(quick=60000, thorough=900000)
    rule = ("A seeded world of lost/duplicated/reordered/stuck/spiking scores drives one postprocessor or calibrator with a "
            "random mix of fit, transform (retried, at arbitrary scores), fit_transform and batch calls; each answer is "
            "compared with the defining formula over the scores held.")
    state_measure = "distinct (component, windowed, window, fill, ties) tuples at comparisons"

    def gen(self, rng, tier, idx):
        k = rng.pick(KINDS)
        n = rng.wpick([(rng.int(1, 10), 3), (rng.int(8, 50), 4), (rng.int(50, 300), 1), (rng.int(1000, 2200), 0.015)])
        dl, lost, mode = world.deliveries(rng, n, 1)
        w = rng.wpick([(rng.int(1, 6), 3), (rng.int(4, 25), 3), (rng.int(25, 120), 1)])
        ev = []
        p = rng.pick([0.2, 0.7])
        style = rng.pick([0.0, 0.5, 1.0])
        for (t, x, y, f) in dl:
            ev.append(dict(op="fitread" if rng.chance(style) else "fit", x=x[0], t=t, f=f))
            while rng.chance(p * 0.7):
                q = rng.pick([x[0], x[0], dl[rng.int(0, len(dl) - 1)][1][0], x[0] + rng.pick([-4.0, 0.5, 2.0])])
                ev.append(dict(op="read", x=q, t=t, f=[]))
                if rng.chance(0.2):
                    ev.append(dict(op="read", x=q, t=t, f=["retry"]))
        if k == "GaussianTailProbabilityCalibrator" and ev:
            ev.append(dict(op="mono", x=ev[-1]["x"], step=rng.pick([0.01, 1.0]), t=0, f=[]))
        return dict(component=k, w=w, windowed=rng.chance(0.7), lost=lost, mode=mode, events=ev)

    def run(self, sc, st):
        import numpy as np
        k, w = sc["component"], sc["w"]
        o = build(sc)
        windowed = k.startswith("Running") or (k.endswith("Calibrator") and sc["windowed"])
        held, M, n = [], 1e-300, 0
        allexact = True
        st.components.add(k)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            x = float(e["x"])
            if e["op"] in ("fit", "fitread"):
                held.append(x)
                n += 1
                M = max(M, abs(x))
                allexact = allexact and exact(x)
                if windowed:
                    held = held[-w:]
                    if len(held) == w:
                        st.probe("window_full")
            elif not held:
                continue
            try:
                if e["op"] == "fit":
                    r = o.fit_partial(np.float64(x))
                elif e["op"] == "fitread":
                    r = o.fit_transform_partial(np.float64(x))
                elif e["op"] == "mono":
                    r = [o.transform_partial(np.float64(x + j * e["step"])) for j in range(-12, 13)]
                else:
                    r = o.transform_partial(np.float64(x))
            except Exception as ex:
                raise Violation("raises", k, "%s(%r) raised %r with %d scores held" % (e["op"], x, ex, len(held)))
            if e["op"] == "fit":
                if r is not o:
                    raise Violation("not-self", k, "fit_partial returned %r" % (r,))
                continue
            if e["op"] == "mono":
                v = [scalar(a) for a in r]
                st.checks += 1
                if any(a is None or b is None or a > b + 1e-12 for a, b in zip(v, v[1:])):
                    raise Violation("not-monotone", k, "probabilities %r" % v)
                continue
            got = scalar(r)
            if k.endswith("Calibrator"):
                st.checks += 1
                if got is None or not (-1e-12 <= got <= 1 + 1e-12):
                    raise Violation("not-a-probability", k, "transform(%r) = %r" % (x, r))
            ex = expected(k, held, x, M, n, allexact)
            if ex is None:
                continue
            st.checks += 1
            st.state(k, windowed, w if windowed else 0, min(len(held), 30), len(set(held)) < len(held))
            if not refs.close(got, ex[0], ex[1]):
                raise Violation("wrong-value", k, "transform(%r) = %r, formula over the %d scores held = %r"
                                % (x, got, len(held), ex[0]))


PROP = C07()
