"""C21: a whole pipeline equals the composition of its stages' definitions, through losses, polls, crashes and replays."""
import math
import pickle

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, refs, stubs, world
from ..kernel import Cancelled, LineBomb, LineTracer, Violation, canon, near, scalar
from . import c07, c08, c14

SCALERS = ("IdentityScaler", "InstanceStandardScaler", "InstanceUnitNormScaler")
PROJ = ("GaussianRandomProjector", "SparseRandomProjector", "StreamhashProjector")
ANYD = ("ExactStorm", "KitNet", "HalfSpaceTrees", "RSHash", "xStream", "LODA", "RobustRandomCutForest", "ReferenceWindowModel", "NullModel",
        "PerfectModel", "RandomModel")
ONED = ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation")
ENS = ("AverageScoreEnsembler", "MaximumScoreEnsembler", "MedianScoreEnsembler", "AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler")
DEF = ("ExactStorm", "KitNet", "NullModel", "PerfectModel", "MedianAbsoluteDeviation", "StandardAbsoluteDeviation")


def num(v):
    v = scalar(v)
    if v is None:
        raise Violation("wrong-shape", "pipeline", "a score is not one number")
    return v


class Stage:
    """A stage of the real pipeline with its own virtual random state."""

    def __init__(self, name, p, seed):
        self.name, self.p, self.c = name, p, catalog.REG[name]
        kernel.rng_seed(seed)
        self.o = self.c.make(p)
        self.rng = kernel.rng_save()

    def call(self, f):
        kernel.rng_load(self.rng)
        try:
            return f(self.o)
        finally:
            self.rng = kernel.rng_save()

    def save(self):
        kernel.rng_load(self.rng)
        return pickle.dumps(self.o), self.rng

    def load(self, blob):
        kernel.rng_load(blob[1])
        self.o = pickle.loads(blob[0])
        self.rng = kernel.rng_save()


class Pipe:
    def __init__(self, cfg):
        self.pre = [Stage(n, p, s) for n, p, s in cfg["pre"]]
        self.models = [Stage(n, p, s) for n, p, s in cfg["models"]]
        self.ens = Stage(*cfg["ens"]) if len(cfg["models"]) > 1 else None
        self.posts = [Stage(n, p, s) for n, p, s in cfg["posts"]]
        self.metric = Stage(*cfg["metric"])
        self.binary = self.metric.c.binary(self.metric.p)

    def stages(self):
        return self.pre + self.models + ([self.ens] if self.ens else []) + self.posts + [self.metric]

    def last(self, v):
        v = v if math.isfinite(v) else 0.0
        return float(v > 0.5) if self.binary else v

    def evaluate(self, s, y):
        v = self.last(s)
        try:
            self.metric.call(lambda o: o.update(y, v))
        except ValueError:
            pass          # an undefined window
        try:
            return num(self.metric.call(lambda o: o.get()))
        except (ValueError, ZeroDivisionError):
            return None

    def one(self, x, y):
        """Processes one instance; returns every intermediate value."""
        out = []
        for st in self.pre:
            x = st.call(lambda o: o.fit_transform_partial(x))
            out.append(np.array(x, dtype=np.float64).reshape(-1))
        sc = []
        for st in self.models:
            sc.append(num(st.call(lambda o: o.fit_score_partial(x, y))))
        out += sc
        s = sc[0]
        if self.ens:
            s = num(self.ens.call(lambda o: o.fit_transform_partial(np.array(sc))))
            out.append(s)
        for st in self.posts:
            s = num(st.call(lambda o: o.fit_transform_partial(np.float64(s))))
            out.append(s)
        out.append(self.evaluate(s, y))
        return out

    def many(self, X, Y):
        """The same through the batch methods, stage by stage."""
        n = len(X)
        cols = []
        for st in self.pre:
            X = st.call(lambda o: o.fit_transform(X))
            cols.append([np.array(r, dtype=np.float64).reshape(-1) for r in X])
        sc = []
        for st in self.models:
            sc.append([num(v) for v in st.call(lambda o: o.fit_score(X, Y))])
        cols += sc
        s = sc[0]
        if self.ens:
            s = [num(v) for v in self.ens.call(lambda o: o.fit_transform(np.array(sc).T))]
            cols.append(s)
        for st in self.posts:
            s = [num(v) for v in st.call(lambda o: o.fit_transform(np.array(s, dtype=np.float64)))]
            cols.append(s)
        cols.append([self.evaluate(v, y) for v, y in zip(s, Y.tolist())])
        return [[c[i] for c in cols] for i in range(n)]


class Oracle:
    """Expected value of each stage from the definitions and the previous stage's actual output."""

    def __init__(self, cfg, pipe):
        self.cfg, self.pipe = cfg, pipe
        self.rep = {}
        for i, st in enumerate(pipe.pre):
            if st.name not in SCALERS:
                self.rep["pre", i] = Stage(*cfg["pre"][i])
        for i, st in enumerate(pipe.models):
            self.rep["m", i] = c14.REFS[st.name](st.p) if st.name in DEF else Stage(*cfg["models"][i])
        if pipe.ens and pipe.ens.name in ENS[3:]:
            self.rep["ens"] = Stage(*cfg["ens"])
        self.held = [[] for _ in pipe.posts]
        self.M = [0.0 for _ in pipe.posts]
        self.yt, self.yp, self.done = [], [], []
        self.dead = set()

    def vec(self, st, name, got, want, i, scale=0.0):
        """Rounding grows with the largest operand of a sum, not with its result: `scale` is that operand."""
        tol = 1e-11 * scale if math.isfinite(scale) else 0.0
        got = np.asarray(got, dtype=np.float64).reshape(-1)
        want = np.asarray(want, dtype=np.float64).reshape(-1)
        if got.shape != want.shape or not all(a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(b)) + tol for a, b in zip(got, want)):
            raise Violation("stage-differs", name, "stage %d gave %r, by definition %r" % (i, got.tolist(), want.tolist()))

    def check(self, x, y, out, st):
        x = np.array(x, dtype=np.float64)
        k = 0
        P = self.pipe
        for i, s in enumerate(P.pre):
            scale = 0.0
            if ("pre", i) in self.rep:
                want = self.rep["pre", i].call(lambda o: o.fit_transform_partial(x.copy()))
            elif s.name == "IdentityScaler":
                want = x
            elif s.name == "InstanceStandardScaler":
                m = refs.mean(x.tolist())
                sd = math.sqrt(refs.var(x.tolist()))
                want = (x - m) / sd
                scale = float(np.max(np.abs(x))) / sd
            else:
                q = s.p["pow"]
                want = x / (sum(abs(v) ** q for v in x.tolist()) ** (1.0 / q))
            st.checks += 1
            self.vec(st, s.name, out[k], want, k, scale)
            x = np.array(out[k], dtype=np.float64)
            k += 1
        sc = []
        for i, s in enumerate(P.models):
            v = out[k]
            sc.append(v)
            r = self.rep["m", i]
            if isinstance(r, Stage):
                w = num(r.call(lambda o: o.fit_score_partial(x.copy(), y)))
                ok = near(canon(v), canon(w), 1e-9)
            elif ("m", i) in self.dead:
                ok, w = True, None
            else:
                try:
                    w = r.fitread(x.tolist(), y)
                    ok = c14.among(v, *w)
                except c14.Unclear:
                    self.dead.add(("m", i))
                    ok = True
            st.checks += 1
            if not ok:
                raise Violation("stage-differs", s.name, "detector %d gave %r, by definition %r" % (i, v, w))
            k += 1
        s = sc[0]
        if P.ens:
            v = out[k]
            n = P.ens.name
            if n == ENS[0]:
                wt = P.ens.p.get("wts") or [1.0] * len(sc)
                w = math.fsum(a * b for a, b in zip(wt, sc)) / math.fsum(wt)
            elif n == ENS[1]:
                w = max(sc)
            elif n == ENS[2]:
                w = refs.median(sc)
            elif len(sc) == 2:     # one score per bucket
                w = refs.mean(sc) if n == ENS[3] else max(sc)
            else:
                w = num(self.rep["ens"].call(lambda o: o.fit_transform_partial(np.array(sc))))
            st.checks += 1
            self.vec(st, n, v, w, k, max(abs(a) for a in sc))
            s = v
            k += 1
        for i, q in enumerate(P.posts):
            v = out[k]
            self.held[i].append(s)
            w = q.p.get("w")
            win = q.name.startswith("Running") or q.p.get("win") or q.p.get("run")
            held = self.held[i][-w:] if win else self.held[i]
            if all(math.isfinite(a) for a in self.held[i]):
                self.M[i] = max(self.M[i], abs(s))
                e = c07.expected(q.name, held, s, self.M[i], len(self.held[i]), all(c07.exact(a) for a in self.held[i]))
                if e is not None:
                    st.checks += 1
                    if not refs.close(v, e[0], e[1] + 1e-12):
                        raise Violation("stage-differs", q.name, "gave %r, by definition %r" % (v, e[0]))
            s = v
            k += 1
        # windowed metric
        p = P.metric.p
        self.yt.append(y)
        self.yp.append(P.last(s))
        if len(self.yt) == p["w"]:
            r = c08.sk(p["m"], self.yt, self.yp)
            if r is not None:
                self.done.append(r)
            self.yt, self.yp = [], []
        vals = list(self.done)
        if self.yt and (not p["ign"] or not vals):
            r = c08.sk(p["m"], self.yt, self.yp)
            if r is None:
                vals = None          # the partial window is undefined
            else:
                vals.append(r)
        want = None if not vals else refs.mean(vals)
        got = out[k]
        st.checks += 1
        if (want is None) != (got is None) or (want is not None and not refs.close(got, want, 1e-9)):
            raise Violation("stage-differs", "WindowedMetric", "reports %r, by definition %r (%d windows done, %d pairs in the current one)"
                            % (got, want, len(self.done), len(self.yt)))


class C21(Prop):
    id = "C21"
    runs = dict(quick=3000, thorough=60000)
    batch = 4
    rule = ("A random pipeline (scalers, seasonal decomposition, projection, one to four detectors, ensembler, postprocessors and calibrators, windowed "
            "metric) processes deliveries one by one or in batches; its stages are polled in between, it is killed before a seeded line inside "
            "any stage, restored from per-stage checkpoints and replays its log. Every intermediate value must follow from the previous stage's "
            "by the stage's definition (a reference, or an isolated replica of that stage), and replayed instances must give their recorded values.")
    state_measure = "distinct (stages, instances processed, fault) tuples"

    def gen(self, rng, tier, idx):
        d = rng.int(1, 5)
        sd = lambda: rng.int(0, 10**6)
        pre = []
        dd = d
        if d >= 2:
            for _ in range(rng.int(0, 2)):
                c = catalog.REG[rng.pick(SCALERS)]
                pre.append([c.name, c.params(rng), sd()])
        if rng.chance(0.3):
            c = catalog.REG["SeasonalTrendDecomposer"]
            pre.append([c.name, c.params(rng), sd()])
        if rng.chance(0.4):
            c = catalog.REG[rng.pick(PROJ)]
            p = c.params(rng)
            dd = p["k"]
            pre.append([c.name, p, sd()])
        models = []
        for _ in range(rng.pick([1, 2, 2, 3, 4])):
            c = catalog.REG[rng.pick(ANYD + (ONED if dd == 1 else ()))]
            p = c.params(rng)
            p["d"] = dd
            if c.name in ("HalfSpaceTrees", "RSHash"):
                p["mins"], p["maxes"] = [-9.0] * dd, [9.5] * dd
            if c.name == "ReferenceWindowModel":
                p["init"] = None
            models.append([c.name, p, sd()])
        e = catalog.REG[rng.pick(ENS if len(models) in (2, 4) else ENS[:3])]
        posts = []
        for _ in range(rng.int(0, 2)):
            c = catalog.REG[rng.pick(("AveragePostprocessor", "MaxPostprocessor", "MedianPostprocessor", "ZScorePostprocessor", "RunningAveragePostprocessor",
                                      "RunningMaxPostprocessor", "RunningMedianPostprocessor", "RunningZScorePostprocessor"))]
            posts.append([c.name, c.params(rng), sd()])
        if rng.chance(0.6):
            c = catalog.REG[rng.pick(("ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator"))]
            posts.append([c.name, c.params(rng), sd()])
        m = catalog.REG["WindowedMetric"]
        ep = dict(d=len(models), nb=2)
        if e.name == ENS[0] and rng.chance(0.4):
            ep["wts"] = [rng.int(1, 8) / 4.0 for _ in models]
        cfg = dict(pre=pre, models=models, ens=[e.name, ep, sd()], posts=posts, metric=[m.name, m.params(rng), sd()])
        dl, lost, mode = world.deliveries(rng, rng.wpick([(rng.int(4, 12), 2), (rng.int(12, 40), 3)]), d, labels=True)
        ev = []
        i = 0
        while i < len(dl):
            n = rng.int(2, 6) if rng.chance(0.15) else 1
            rows = []
            for (t, x, y, f) in dl[i:i + n]:
                if d >= 2 and (max(x) == min(x) or any(q[0] == "InstanceUnitNormScaler" for q in pre) and not any(x)):
                    x = [v + j * 0.75 + 0.5 for j, v in enumerate(x)]
                rows.append(dict(x=x, y=y))
            ev.append(dict(op="batch" if n > 1 else "one", rows=rows, t=dl[i][0], f=sorted(set(k for q in dl[i:i + n] for k in q[3])),
                           kill=rng.int(0, 250) if rng.chance(0.06) else None))
            i += n
            while rng.chance(0.25):
                ev.append(dict(op="poll", s=rng.int(0, 20), k=rng.int(1, 3), t=dl[min(i, len(dl)) - 1][0], f=[]))
            if rng.chance(0.1):
                ev.append(dict(op="ckpt", t=0.0, f=[]))
            if rng.chance(0.04):
                ev.append(dict(op="crash", t=0.0, f=[]))
        return dict(component="pipeline", cfg=cfg, lost=lost, events=ev)

    def simplify(self, sc):
        for part in ("pre", "posts"):
            for i in range(len(sc["cfg"][part])):
                import json
                c = json.loads(json.dumps(sc))
                n, p, _ = c["cfg"][part][i]
                if n in PROJ:
                    continue
                del c["cfg"][part][i]
                yield c

    def run(self, sc, st):
        cfg = sc["cfg"]
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        pipe = Pipe(cfg)
        names = [s.name for s in pipe.stages()]
        st.components.update(names)
        oracle = Oracle(cfg, pipe)
        log, outs = [], []                # delivered instances and the recorded intermediate values
        ck = dict(at=0, blobs=[s.save() for s in pipe.stages()])
        last = None

        def process(rows, batch):
            if batch:
                return pipe.many(np.array([r["x"] for r in rows], dtype=np.float64), np.array([r["y"] for r in rows], dtype=np.float64))
            return [pipe.one(np.array(r["x"], dtype=np.float64), r["y"]) for r in rows]

        def restore():
            for s, b in zip(pipe.stages(), ck["blobs"]):
                s.load(b)
            for i in range(ck["at"], len(log)):
                o = process([log[i]], False)[0]
                st.checks += 1
                if not all(near(canon(a), canon(b), 1e-9) for a, b in zip(o, outs[i])):
                    bad = [n for n, a, b in zip(names, o, outs[i]) if not near(canon(a), canon(b), 1e-9)]
                    raise Violation("replay-differs", bad[0], "instance %d replayed after a crash (checkpoint after %d): %r, recorded %r" % (i, ck["at"], o, outs[i]))
        for e in sc["events"]:
            tally(st, e)
            op = e["op"]
            st.state(tuple(names), min(len(log), 40), op)
            if op == "poll":
                stages = [s for s in pipe.stages() if not s.c.rng_read and s.name not in ("PerfectModel",)]
                s = stages[e["s"] % len(stages)]
                if not log:
                    continue
                for _ in range(e["k"]):
                    keep = s.rng
                    try:
                        self.poll(s, last)
                    except (ValueError, ZeroDivisionError):
                        pass
                    s.rng = keep
                st.fault("poll-" + s.c.family)
                continue
            if op == "ckpt":
                ck = dict(at=len(log), blobs=[s.save() for s in pipe.stages()])
                st.fault("checkpoint")
                continue
            if op == "crash":
                restore()
                st.fault("crash-between-instances")
                continue
            st.ops += len(e["rows"])
            try:
                if e["kill"] is not None:
                    bomb = LineBomb(e["kill"])
                    with LineTracer(bomb.hook):
                        got = process(e["rows"], op == "batch")
                else:
                    got = process(e["rows"], op == "batch")
            except Cancelled:
                st.fault("killed-inside-stage")
                restore()
                got = process(e["rows"], op == "batch")
            except Violation:
                raise
            except Exception as ex:
                raise Violation("raises", "pipeline", "%s: %r" % (names, ex))
            for r, o in zip(e["rows"], got):
                log.append(r)
                outs.append(o)
                last = (r, o, len(pipe.pre))
                oracle.check(r["x"], r["y"], o, st)
            if op == "batch":
                st.fault("batch")

    def poll(self, s, last):
        r, o, npre = last
        f = s.c.family
        if f == "transformer":
            x = np.array(r["x"], dtype=np.float64)
            s.call(lambda q: q.transform_partial(x)) if s.name not in PROJ else None
        elif f == "model":
            x = np.array(o[npre - 1] if npre else r["x"], dtype=np.float64) * 1.25
            s.call(lambda q: q.score_partial(x))
        elif f == "metric":
            s.call(lambda q: q.get())
        elif s.c.scalar_x:
            s.call(lambda q: q.transform_partial(np.float64(0.75)))


PROP = C21()
