"""C13: after a corruption burst has left the window, the faulty replica equals the clean one."""
import math

from .base import Prop, tally
from .. import catalog, kernel, refs, world
from ..kernel import Violation, scalar

NAMES = ("ExactStorm", "HalfSpaceTrees", "xStream", "KNNCAD", "SeasonalESD", "SeasonalHybridESD",
         "ModifiedSTLResidualTransformer", "ReferenceWindowModel", "ReferenceWindowKNN", "IForestASD",
         "RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor", "RunningZScorePostprocessor",
         "ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator", "RunningStatistic", "Window")
W = dict(KNNCAD=0.05, IForestASD=0.06, ReferenceWindowKNN=0.5, SeasonalESD=0.6, SeasonalHybridESD=0.6,
         HalfSpaceTrees=2.0, xStream=2.0, ReferenceWindowModel=2.0)
#: incremental sums: equal up to rounding only
APPROX = ("RunningAveragePostprocessor", "RunningZScorePostprocessor", "GaussianTailProbabilityCalibrator", "RunningStatistic")


def params(c, rng):
    p = c.params(rng)
    if "run" in p:
        p["run"] = True
    if "win" in p:
        p["win"] = True
    if c.name == "IForestASD":
        p["init"] = None
    return p


def horizon(c, p):
    if c.name == "IForestASD":
        return 3 * p["w"] + 2
    return c.horizon(p)


class C13(Prop):
    id = "C13"
    runs = dict(quick=16000, thorough=240000)
    rule = ("Two replicas with the same random draws get the same stream except that one sees a burst of corrupted instances "
            "(spikes, stuck values, swapped values, near values, foreign values). Once the component's window has passed over correct data again, every "
            "result must be the same in both.")
    state_measure = "distinct (component, window parameters, burst position modulo window, burst length) tuples"

    def gen(self, rng, tier, idx):
        c = rng.wpick([(catalog.REG[n], W.get(n, 1.0)) for n in NAMES])
        p = params(c, rng)
        h = horizon(c, p)
        a = rng.wpick([(rng.int(0, 3), 1), (rng.int(0, max(1, 2 * p.get("w", p.get("pp", 5)))), 3)])
        b = rng.wpick([(1, 3), (rng.int(2, 5), 2), (rng.int(2, 2 * p.get("w", 5) + 2), 1)])
        after = rng.int(3, max(4, 2 * p.get("w", 6)))
        if c.name == "KNNCAD":
            after = rng.int(2, 12)
        n = a + b + h + after
        mode = None
        if c.name == "KNNCAD":
            mode = "gauss"
        f, mode = world.signal(rng, p["d"], mode or rng.wpick([("dyadic", 3), ("few", 3), ("two", 1), ("season", 2), ("gauss", 1)]))
        net = world.Net(rng)
        ev = []
        fits = 0
        t = 0.0
        k = rng.pick(["spike", "stuck", "foreign", "near", "swap"])
        stv = None
        mag = rng.pick([1.0, 8.0, 2.0 ** 20, 2.0 ** 30])
        pr = rng.pick([0.0, 0.4])
        while fits < n:
            x = f(fits)
            t += rng.random()
            tags = []
            cx = None
            if a <= fits < a + b:
                if k == "spike":
                    cx = [(v + 1.0) * mag * rng.pick([1.0, 8.0, -64.0]) for v in x]
                elif k == "stuck":
                    stv = stv or [v + 2.0 for v in x]
                    cx = list(stv)
                elif k == "near":
                    cx = [v + rng.pick([0.125, -0.125, 0.5]) for v in x]
                elif k == "swap":
                    cx = f(fits + 1)
                else:
                    cx = [float(rng.int(-80, 80)) / 8.0 for _ in x]
                tags.append("corrupt-" + k)
            elif c.name != "KNNCAD" and rng.chance(net.dup) and ev:
                x = list(ev[-1]["x"])
                tags.append("dup")
            lab = float(rng.chance(0.5)) if p.get("lab") else None
            quiet = c.name == "KNNCAD" and fits < a + b + h
            op = "fit" if quiet or rng.chance(0.5) else "fitread"
            ev.append(dict(op=op, x=x, cx=cx, y=lab, t=round(t, 2), f=tags))
            fits += 1
            while not quiet and rng.chance(pr):
                q = f(fits)
                ev.append(dict(op="read", x=q, cx=None, y=None, t=round(t, 2), f=[]))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), mode=mode, events=ev)

    def make(self, c, p):
        if c.name == "IForestASD":
            from pysad.models import IForestASD as C
            s = catalog.Session(c, p, build=False)
            s.obj = C(window_size=p["w"], n_estimators=2, n_jobs=1, random_state=7)
            return s
        return catalog.Session(c, p)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        sess, rngs = [], []
        for _ in range(2):
            kernel.rng_seed(sc["seed"])
            sess.append(self.make(c, p))
            rngs.append(kernel.rng_save())
        h = horizon(c, p)
        since = None           # fits since the last corrupted one
        first = None
        M = 1.0
        fitted = []
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            if e.get("cx") is not None:
                M = max(M, max(abs(v) for v in e["cx"]))
            M = max(M, max(abs(v) for v in e["x"]))
            vals = []
            for k in (0, 1):
                kernel.rng_load(rngs[k])
                ee = e if (k == 0 or e.get("cx") is None) else dict(e, x=e["cx"])
                vals.append(sess[k].do(ee))
                rngs[k] = kernel.rng_save()
            if e["op"] != "read":
                fitted.append(e["x"][0])
                if e.get("cx") is not None:
                    since = 0
                    first = sess[0].nfit if first is None else first
                elif since is not None:
                    since += 1
            if since is None or since < h or sess[0].err:
                continue
            st.checks += 1
            st.probe("compared_after_recovery")
            w = p.get("w", p.get("pp", 1))
            st.state(c.name, w, first % max(1, w), since - h if since - h < 30 else 30)
            va, vb = vals
            if same(c, p, va, vb, M, fitted, e["x"][0]):
                continue
            raise Violation("never-forgets", c.name, "%s at %d fits after the burst (window passed after %d): clean %r, faulty %r"
                            % (e["op"], since, h, va, vb))


def same(c, p, va, vb, M, fitted, x):
    """Equal results; up to the rounding of running sums (M: the largest magnitude seen, fitted: the values fitted) for APPROX and KNNCAD."""
    if va == vb:
        return True
    if not (va and vb and va[0] == vb[0] == "val"):
        return False
    if c.name in APPROX:
        fa, fb = num(va), num(vb)
        kind = p.get("m") if p.get("m") != "AbsStatistic" else p.get("inner")
        e1, e2 = refs.tol("SumMeter", M, len(fitted)), refs.tol("VarianceMeter", M, len(fitted))
        if c.name == "RunningZScorePostprocessor" or c.name.startswith("Gaussian"):
            held = fitted[-p["w"]:]
            v = refs.var(held)
            if v <= 1e4 * e2:
                return True   # the rounding of the incremental sums is amplified
            s = math.sqrt(v)
            z = abs(x - refs.mean(held)) / s
            t = (e1 + 1e-14 * abs(x)) / s * 8 + z * (e2 / v) * 8 + 1e-11
        elif kind in ("VarianceMeter", "SumSquaresMeter"):
            t = 2 * e2
        else:
            t = 2 * e1
        return fa != fa or fb != fb or abs(fa - fb) <= t
    return c.name == "KNNCAD" and refs.close(num(va), num(vb), 1e-9 * (1 + abs(num(va))))


def num(v):
    x = scalar(v[1] if not isinstance(v[1], tuple) else v[1][1])
    return float("nan") if x is None else x


PROP = C13()
