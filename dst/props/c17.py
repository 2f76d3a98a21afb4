"""C17: the object graph reachable from a windowed component stops growing once its window is full."""
import gc
import types

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, stubs, world
from ..kernel import Violation

SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.CodeType, types.FrameType)
GROWS = ("KNNCAD", "IForestASD")


def units(obj):
    """Reachable objects plus array elements."""
    seen, stack, n = set(), [obj], 0
    while stack:
        o = stack.pop()
        if o is None or isinstance(o, SKIP) or id(o) in seen:
            continue
        seen.add(id(o))
        n += 1
        if isinstance(o, (np.random.RandomState, np.random.Generator)):
            continue
        if isinstance(o, np.ndarray):
            if o.base is not None and isinstance(o.base, np.ndarray):
                stack.append(o.base)
            n += int(o.size) if o.base is None or not isinstance(o.base, np.ndarray) else 0
            if o.dtype == object:
                stack.extend(x for x in o.ravel().tolist())
            continue
        if isinstance(o, (str, bytes, bytearray)):
            n += len(o) // 8
            continue
        if isinstance(o, (int, float, complex, bool)):
            continue
        if isinstance(o, dict):
            stack.extend(o.keys())
            stack.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            n += len(o)
            stack.extend(o)
        else:
            stack.extend(r for r in gc.get_referents(o) if not isinstance(r, SKIP))
    return n


def sat(c, p):
    if c.name == "RSHash":
        return 60
    if c.name == "IForestASD":
        return 2 * p["w"] + 2
    return c.saturation(p)


W = dict(KNNCAD=0.04, IForestASD=0.03, SeasonalESD=0.25, SeasonalHybridESD=0.25, ModifiedSTLResidualTransformer=0.3,
         ReferenceWindowKNN=0.2, LocalOutlierProbability=0.2, RobustRandomCutForest=0.4, WindowedMetric=0.6)


class C17(Prop):
    id = "C17"
    runs = dict(quick=11000, thorough=165000)
    batch = 4
    rule = ("One component is streamed far past its saturation point, with duplicated reads, refused inputs and failing refits "
            "mixed in; the reachable object graph is measured after every instance of a burst longer than its window at the end of "
            "either half and at random instants between. The maximum over the second may exceed the maximum over the first only by less than one unit per ten operations.")
    state_measure = "distinct (component, window, growth bucket) tuples"

    def gen(self, rng, tier, idx):
        names = [n for n in catalog.NAMES if catalog.REG[n].weight > 0]
        while True:
            c = rng.wpick([(catalog.REG[n], W.get(n, 1.0) * min(1.0, catalog.REG[n].weight * 2)) for n in names])
            p = c.params(rng)
            if c.name == "IForestASD":
                p["init"] = None
            if sat(c, p) is not None:
                break
        if c.name in ("RSHash", "xStream"):
            # one counter per distinct grid cell: few distinct instances, so that the cells are soon all known
            p["d"] = 1
            if "mins" in p:
                p["mins"], p["maxes"] = p["mins"][:1], p["maxes"][:1]
        s = sat(c, p)
        n = {"KNNCAD": 140, "IForestASD": 40, "SeasonalESD": 150, "SeasonalHybridESD": 150,
             "ReferenceWindowKNN": 150}.get(c.name, rng.pick([240, 400, 700]))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), n=s + n, sat=s, stream=rng.int(0, 10**9),
                    mode="gauss" if c.name in ("KNNCAD", "RobustRandomCutForest") else "two" if c.name in ("RSHash", "xStream") else rng.pick(["few", "few", "two", "season"]),
                    reads=rng.pick([0.0, 0.3, 1.0]), fitread=rng.chance(0.5), bad=rng.pick([0.0, 0.1]),
                    partly=rng.int(1, 2) if c.name == "ReferenceWindowModel" and p["lab"] and rng.chance(0.4) else 0)

    def lists(self, sc):
        return []

    def simplify(self, sc):
        for k, v in (("reads", 0.0), ("bad", 0.0), ("fitread", False), ("mode", "two"), ("partly", 0)):
            if sc.get(k, v) != v:
                yield dict(sc, **{k: v})

    def run(self, sc, st):
        from . import c12
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        rng = kernel.Rng(sc["stream"])
        f, _ = world.signal(rng, p["d"], sc["mode"])
        kernel.rng_seed(sc["seed"])
        s = catalog.Session(c, p)
        if s.err:
            return
        n = sc["n"]
        half = sc["sat"] + (n - sc["sat"]) // 2
        m1 = m2 = 0
        ops2 = 0
        # every instance of a burst at the end of either half: a fixed stride could be in step with the period at
        # which a component fills and empties its buffers, and see its peak in one half only
        burst = max(1, min(sc["sat"] + 2, (n - sc["sat"]) // 2 - 1))
        when, share = kernel.Rng(sc["stream"] + 1), 80.0 / (n - sc["sat"])
        ks = [k for k in c12.kinds(c) if not k.startswith("early")]
        binary = c.family == "metric" and c.binary(p)
        for i in range(n):
            x = f(i)
            if c.lim:
                x = [min(c.lim[1], max(c.lim[0], v)) for v in x]
            if binary:
                x = [float(x[0] > 0)]
            if c.name == "ReferenceWindowModel" and rng.chance(sc["bad"]):
                x[0] = stubs.POISON
                st.fault("failing-refit")
            y = float(i % 2) if (c.labels or p.get("lab")) else None
            if sc.get("partly") and i % 3 != sc["partly"]:
                y = None       # labels missing here and there
                st.fault("missing-label")
            s.do(dict(op="fitread" if sc["fitread"] else "fit", x=x, y=y))
            ops = 1
            while rng.chance(sc["reads"] * 0.6):
                s.do(dict(op="read", x=f(i) if not binary else x))
                st.fault("extra-read")
                ops += 1
            if ks and rng.chance(sc["bad"]):
                ex = c12.bad_call(c, s, dict(kind=rng.pick(ks), i=rng.int(0, 9), x=x), p)
                if ex not in (None, "skip"):
                    st.fault("refused")
                ops += 1
            del x
            st.ops += ops
            st.simtime += 1.0
            if i < sc["sat"]:
                continue
            if i >= half:
                ops2 += ops
            if half - burst <= i < half or n - burst <= i or when.chance(share):
                u = units(s.obj)
                if i < half:
                    m1 = max(m1, u)
                else:
                    m2 = max(m2, u)
        st.checks += 1
        st.fault("long-stream")
        st.state(c.name, p.get("w"), sc["mode"], m1 // 50)
        slack = 6 + 0.1 * ops2 + (0.15 * m1 if c.name in ("xStream", "RobustRandomCutForest", "RSHash", "ReferenceWindowKNN", "IForestASD") else 0)
        if c.name in ("IForestASD",):
            slack += 400
        if m2 > m1 + slack:
            raise Violation("keeps-growing", c.name, "%d units up to instance %d, %d units up to instance %d (window %r)"
                            % (m1, half, m2, n, p.get("w")))


PROP = C17()
