"""C02: after fix_seed, a program gives the same outputs in a used process and on a fresh node with another hash seed,
clock and entropy."""
import os
import random
import sys
import time

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, peer, world
from ..kernel import LineBomb, LineTracer, Cancelled, Rng, Violation, canon

PRE = ("IdentityScaler", "InstanceStandardScaler", "InstanceUnitNormScaler", "GaussianRandomProjector", "SparseRandomProjector",
       "StreamhashProjector", "SeasonalTrendDecomposer")
POST = ("AveragePostprocessor", "RunningMedianPostprocessor", "RunningZScorePostprocessor", "ConformalProbabilityCalibrator",
        "GaussianTailProbabilityCalibrator", "MaxPostprocessor")
ENS = ("AverageScoreEnsembler", "MaximumScoreEnsembler", "MedianScoreEnsembler", "AverageOfMaximumScoreEnsembler",
       "MaximumOfAverageScoreEnsembler")


class World:
    """Clock, operating-system entropy and uninitialised memory of one node, behind the simulator's seam."""

    def __init__(self, seed):
        self.rng = Rng(kernel.H("world", seed))
        self.t0 = self.rng.uniform(1e9, 2e9)
        self.t = self.t0
        self.dirtied = 0

    def _tick(self):
        self.t += self.rng.uniform(0.0, 0.01)
        if self.rng.chance(0.02):
            self.t += self.rng.uniform(-3600, 3600)   # the clock is stepped
        return self.t

    def __enter__(self):
        self.keep = (time.time, time.time_ns, time.monotonic_ns, time.perf_counter, time.perf_counter_ns, os.urandom, os.getpid)
        self.pid = self.rng.int(2, 30000)
        time.time = self._tick
        time.time_ns = lambda: int(self._tick() * 1e9)
        time.perf_counter = lambda: self._tick() - self.t0
        time.perf_counter_ns = lambda: int((self._tick() - self.t0) * 1e9)
        time.monotonic_ns = lambda: int((self._tick() - self.t0) * 1e9)
        os.urandom = lambda n: bytes(self.rng.int(0, 255) for _ in range(n))
        random._urandom = os.urandom
        os.getpid = lambda: self.pid
        self.alloc = (np.empty, np.empty_like)
        np.empty, np.empty_like = (self._dirty(f) for f in self.alloc)
        return self

    def _dirty(self, real):
        def alloc(*a, **k):
            arr = real(*a, **k)
            if "/pysad/" in sys._getframe(1).f_code.co_filename and arr.dtype.kind in "iuf":
                self.dirtied += 1
                arr.fill(self.rng.int(0, 100) if arr.dtype.kind != "f" else self.rng.pick([0.0, -1.0, 1e200, float("nan"), self.rng.uniform(-9, 9)]))
            return arr
        return alloc

    def __exit__(self, *a):
        (time.time, time.time_ns, time.monotonic_ns, time.perf_counter, time.perf_counter_ns, os.urandom, os.getpid) = self.keep
        random._urandom = os.urandom
        np.empty, np.empty_like = self.alloc
        return False


def run_program(prog):
    """The seeded program itself: returns canonical outputs."""
    from pysad.utils import fix_seed, ArrayStreamer, PandasStreamer
    fix_seed(prog["seed"])
    out = []
    k = prog["kind"]
    if k == "component":
        c = catalog.REG[prog["component"]]
        return catalog.run_script(c, prog["params"], prog["events"])
    X = np.array([e["x"] for e in prog["events"]], dtype=np.float64).reshape(len(prog["events"]), -1)
    y = np.array([e["y"] for e in prog["events"]], dtype=np.float64)
    if k == "streamer":
        import pandas as pd
        for r in prog["iters"]:
            if r["pandas"]:
                it = PandasStreamer(shuffle=True).iter(pd.DataFrame(X), pd.Series(y) if r["y"] else None)
            else:
                it = ArrayStreamer(shuffle=True).iter(X, y if r["y"] else None)
            row = []
            for i, v in enumerate(it):
                if i >= r["stop"]:
                    break
                row.append(canon(v))
            out.append(row)
        return out
    stages = [(catalog.REG[n], p, catalog.REG[n].make(p)) for n, p in prog["pre"]]
    models = [(catalog.REG[n], p, catalog.REG[n].make(p)) for n, p in prog["models"]]
    ens = catalog.REG[prog["ens"][0]].make(prog["ens"][1])
    posts = [(catalog.REG[n], p, catalog.REG[n].make(p)) for n, p in prog["posts"]]
    order = ArrayStreamer(shuffle=prog["shuffle"]).iter(X, y)
    for x, lab in order:
        try:
            for c, p, o in stages:
                x = o.fit_transform_partial(x)
        except ValueError as ex:   # an earlier stage produced something that is not finite
            out.append(type(ex).__name__)
            continue
        scores = []
        for c, p, o in models:
            try:
                scores.append(float(np.asarray(o.fit_score_partial(x, lab)).reshape(-1)[0]))
            except Exception as ex:
                scores.append(0.0)
                out.append(type(ex).__name__)
        try:
            s = ens.fit_transform_partial(np.array(scores).reshape(1, -1)) if len(scores) > 1 else scores[0]
        except ValueError:   # a score that is not finite
            s = 0.0
        s = float(np.asarray(s).reshape(-1)[0])
        for c, p, o in posts:
            s = float(np.asarray(o.fit_transform_partial(s)).reshape(-1)[0])
        out.append((canon(scores), canon(s)))
    return out


def node(prog, wseed):
    with World(wseed):
        return run_program(prog)


def prior(job):
    """Activity before the seeding: other components, created, used, cancelled and discarded."""
    for j in job:
        kernel.rng_seed(j["seed"])
        c = catalog.REG[j["component"]]
        bomb = LineBomb(j["cancel"]) if j["cancel"] is not None else None
        try:
            if bomb:
                with LineTracer(bomb.hook):
                    catalog.run_script(c, j["params"], j["events"])
            else:
                catalog.run_script(c, j["params"], j["events"])
        except Cancelled:
            pass
        for _ in range(j["draws"]):
            random.random()
            np.random.normal()


class C02(Prop):
    id = "C02"
    runs = dict(quick=5500, thorough=80000)
    needs_peer = True
    batch = 4
    cpu = 90.0
    rule = ("A seeded program (one component under a delivery script, a streamer consumed in parts, or a shuffled multi-stage pipeline) is "
            "executed after fix_seed in a process with prior activity, again in the same process, and on node B: a fresh process with another "
            "string-hash seed, clock (with steps), process id, OS entropy and content of uninitialised arrays. All outputs must be bit-identical.")
    state_measure = "distinct (program kind, components, prior components) tuples"

    def gen(self, rng, tier, idx):
        kind = rng.wpick([("component", 5), ("pipeline", 3), ("streamer", 1)])
        prog = dict(kind=kind, seed=rng.pick([0, 1, 61, 2**31, rng.int(0, 2**32 - 1)]))
        if kind == "component":
            c = catalog.choose(rng, boost=lambda c: 3.0 if c.uses_rng else 1.0)
            if idx % 600 == 11:
                c = catalog.REG["Inqmad"]
            p = c.params(rng)
            n = 3 if c.name == "Inqmad" else catalog.length(rng, c, 30.0)
            ev, lost = c.script(rng, p, n)
            prog.update(component=c.name, params=p, events=ev)
        else:
            d = rng.int(1, 4)
            dl, lost, _ = world.deliveries(rng, rng.int(4, 20), d, labels=True)
            prog["events"] = [dict(t=t, x=x, y=y, f=f) for t, x, y, f in dl]
            prog["component"] = kind
            if kind == "streamer":
                prog["iters"] = [dict(pandas=rng.chance(0.4), y=rng.chance(0.5), stop=rng.pick([0, 1, 3, 99])) for _ in range(rng.int(1, 4))]
            else:
                pre = []
                dd = d
                for _ in range(rng.int(0, 2)):
                    c = catalog.REG[rng.pick(PRE)]
                    p = c.params(rng)
                    if "k" in p and c.name.endswith("Projector"):
                        dd = p["k"]
                    pre.append([c.name, p])
                models = []
                for _ in range(rng.int(1, 3)):
                    c = catalog.choose(rng, lambda c: c.family == "model" and c.cost < 2 and c.name not in (
                        "KNNCAD", "MedianAbsoluteDeviation", "StandardAbsoluteDeviation", "RelativeEntropy", "LocalOutlierProbability",
                        "OneFitModel", "HalfSpaceTrees", "RSHash", "ReferenceWindowKNN"))
                    p = c.params(rng)
                    if c.name == "ReferenceWindowModel":
                        p["init"] = None
                    models.append([c.name, p])
                if rng.chance(0.5) and dd <= 4:
                    for nm in ("HalfSpaceTrees", "RSHash"):
                        c = catalog.REG[nm]
                        p = c.params(rng)
                        p["mins"], p["maxes"] = [-9.0] * dd, [9.0] * dd
                        if rng.chance(0.5):
                            models.append([nm, p])
                e = catalog.REG[rng.pick(ENS if len(models) in (2, 4) else ENS[:3])]
                ep = e.params(rng)
                ep["nb"] = 2
                posts = []
                for _ in range(rng.int(0, 2)):
                    c = catalog.REG[rng.pick(POST)]
                    posts.append([c.name, c.params(rng)])
                prog.update(pre=pre, models=models, ens=[e.name, ep], posts=posts, shuffle=rng.chance(0.6))
        before = []
        for _ in range(rng.int(0, 3)):
            c = catalog.REG[prog["component"]] if kind == "component" and rng.chance(0.5) and prog["component"] != "Inqmad" else catalog.choose(rng)
            p = prog["params"] if kind == "component" and c.name == prog["component"] and rng.chance(0.4) else c.params(rng)
            ev, _ = c.script(rng, p, min(catalog.length(rng, c, 15.0), 20))
            before.append(dict(component=c.name, params=p, events=ev, seed=rng.int(0, 10**6), draws=rng.int(0, 9),
                               cancel=rng.int(0, 200) if rng.chance(0.3) else None))
        return dict(component=prog["component"], prog=prog, before=before, wa=rng.int(0, 10**6), wb=rng.int(0, 10**6), lost=lost)

    def lists(self, sc):
        return [("before",), ("prog", "events")]

    def simplify(self, sc):
        return []

    def run(self, sc, st):
        prog = sc["prog"]
        st.simtime += world.simtime(prog["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        for e in prog["events"]:
            st.ops += 1
            tally(st, e)
        names = [prog["component"]] if prog["kind"] == "component" else [n for n, _ in prog.get("pre", []) + prog.get("models", []) + prog.get("posts", [])]
        st.components.update(names or ["streamers"])
        st.state(prog["kind"], tuple(names), tuple(j["component"] for j in sc["before"]))
        prior(sc["before"])
        for j in sc["before"]:
            st.fault("prior-activity" if j["cancel"] is None else "prior-activity-cancelled")
        a = node(prog, sc["wa"])
        b = peer.get().call("dst.props.c02", "node", prog, sc["wb"])
        c = node(prog, sc["wb"] + 1)
        st.fault("other-process-hashseed-clock-entropy")
        st.fault("repeat-in-used-process")
        for who, o in (("a fresh process", b), ("the same process again", c)):
            st.checks += len(a) + 1
            if len(a) != len(o):
                raise Violation("not-reproducible", prog["component"], "%d outputs, %d in %s" % (len(a), len(o), who))
            for i, (u, v) in enumerate(zip(a, o)):
                if u != v:
                    raise Violation("not-reproducible", prog["component"], "output %d (%s): %r, in %s %r" % (i, names, u, who, v))


PROP = C02()
