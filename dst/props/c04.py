"""C04: batch calls refine the single-instance calls for every chunking and every failure point."""
import math

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, stubs, world
from ..kernel import Violation

OBJ = ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation", "SeasonalESD", "SeasonalHybridESD", "ModifiedSTLResidualTransformer")


SLOW = ("Inqmad", "KNNCAD", "IForestASD", "RobustRandomCutForest", "SeasonalESD", "SeasonalHybridESD", "ModifiedSTLResidualTransformer",
        "ReferenceWindowKNN", "LocalOutlierProbability", "xStream", "RSHash", "OneFitModel", "MedianAbsoluteDeviation")


UNSTABLE = ("LODA",)   # scores the fitted instance at a bin boundary: the last bit of a dot product, which depends on strides, decides


def layout(X, lay):
    """The same batch in another memory layout or element type."""
    if lay == "F":
        return np.asfortranarray(X)
    if lay == "strided":
        B = np.zeros((2 * len(X),) + X.shape[1:], dtype=X.dtype)
        B[::2] = X
        return B[::2]
    if lay == "int" and X.size and (X == np.round(X)).all() and np.abs(X).max() < 2.0 ** 40:
        return X.astype(np.int64)
    if lay == "f4" and (X.astype(np.float32) == X).all():
        return X.astype(np.float32)
    return X


def pred(c):
    return c.batch and c.family in ("model", "transformer", "post")


def can_fail(c):
    return c.name in OBJ or c.name in ("PerfectModel", "ReferenceWindowModel")


def flat(v):
    return np.asarray(v, dtype=np.float64).reshape(-1)


def near(a, b):
    a, b = flat(a), flat(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.tolist(), b.tolist()):
        if x == y or (x != x and y != y):
            continue
        if math.isinf(x) or math.isinf(y) or not abs(x - y) <= 1e-9 * (1.0 + abs(x)):
            return False
    return True


class C04(Prop):
    id = "C04"
    runs = dict(quick=24000, thorough=360000)
    rule = ("Two replicas with the same random draws get the same stream; one instance by instance, the other cut into seeded chunks (empty, "
            "one-row and longer ones, mixed with single calls) through the batch methods. Results, effects on later results, "
            "shapes, return values and, when an instance in mid-batch is refused, the absorbed prefix must agree.")
    state_measure = "distinct (component, chunk operation, chunk length, position, refused row) tuples"

    def gen(self, rng, tier, idx):
        if idx % 2500 == 5:
            c = catalog.REG["Inqmad"]
        else:
            c = catalog.choose(rng, pred, lambda c: 2.0 if can_fail(c) else 1.0)
        p = c.params(rng)
        n = min(catalog.length(rng, c, 40.0), 4 if c.name == "Inqmad" else 10**6)
        long = c.name not in SLOW and rng.chance(0.12 if c.name == "SeasonalTrendDecomposer" else 0.015)
        if long:
            n = rng.pick([rng.int(120, 300), rng.int(500, 1100)])
        dl, lost, mode = world.deliveries(rng, n, p["d"], labels=c.labels or bool(p.get("lab")), lim=c.lim)
        bad = rng.pick([0.0, 0.1, 0.25]) if can_fail(c) else 0.0
        chunks, i, fits = [], 0, 0
        while i < len(dl):
            m = rng.wpick([(0, 1), (1, 2), (rng.int(2, 5), 4), (rng.int(5, 20), 1)])
            if long:
                m = rng.int(60, 1100)
            part = dl[i:i + m]
            i += m
            op = rng.pick(["fit", "read", "fitread", "fitread"])
            if op == "read" and (fits < max(1, c.min_fit) or c.name == "PerfectModel"):
                op = "fitread"
            rows = []
            for (t, x, y, f) in part:
                r = dict(x=x, y=y, bad=False)
                if op != "read" and rng.chance(bad):
                    r["bad"] = True
                rows.append(r)
            single = rng.chance(0.25) and not long
            if op != "read":
                fits += len(rows)
            chunks.append(dict(op=op, rows=rows, single=single, t=part[0][0] if part else 0.0,
                               f=sorted(set(k for q in part for k in q[3])), lay=rng.wpick([("C", 6), ("F", c.name not in UNSTABLE), ("strided", c.name not in UNSTABLE), ("int", 1), ("f4", 1)])))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=chunks,
                    init=rng.int(0, 6) if c.name == "HalfSpaceTrees" and rng.chance(0.3) else None)

    def lists(self, sc):
        return [("events",)] + [("events", i, "rows") for i in range(len(sc["events"]))]

    def simplify(self, sc):
        return []

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        lab = c.labels or bool(p.get("lab"))
        sess, rngs = [], []
        for k in (0, 1):
            kernel.rng_seed(sc["seed"])
            if sc["init"] is not None:
                s = self.hst(c, p, sc["init"], k)
                st.fault("initial-window")
            else:
                s = catalog.Session(c, p)
            sess.append(s)
            rngs.append(kernel.rng_save())
        if sess[0].err:
            raise Violation("raises", c.name, "constructor raised %s" % sess[0].err)
        A, B = sess

        def inst(r):
            if r["bad"] and c.name in OBJ:
                return np.array([1.0, 2.0])
            x = list(r["x"])
            if r["bad"] and c.name == "ReferenceWindowModel":
                x[0] = stubs.POISON
            return c.x(x)

        def label(r):
            if not lab:
                return None
            return None if (r["bad"] and c.name == "PerfectModel") else r["y"]
        for e in sc["events"]:
            tally(st, e)
            op, rows = e["op"], e["rows"]
            st.ops += len(rows)
            if c.name == "ReferenceWindowModel" and op != "fit" and not A.allowed("read") and not rows:
                op = "fit"
            # the batch as the caller holds it
            anybad = any(r["bad"] for r in rows)
            xs = [inst(r) for r in rows]
            if anybad and c.name in OBJ:
                X = np.empty(len(xs), dtype=object)
                for i, x in enumerate(xs):
                    X[i] = x
                if c.name == "ModifiedSTLResidualTransformer" and op == "fitread":
                    X = Ragged(xs)
            elif c.scalar_x:
                X = layout(np.array([float(x) for x in xs], dtype=np.float64), e["lay"])
                xs = [v for v in X]
            else:
                X = layout(np.array(xs, dtype=np.float64).reshape(len(xs), p["d"]), e["lay"])
                xs = [np.array(v) for v in X]
            # replica A: row by row
            kernel.rng_load(rngs[0])
            want, exc = [], None
            for i, r in enumerate(rows):
                try:
                    v = A.raw(op, xs[i], label(r))
                except Exception as ex:
                    exc = ex
                    break
                A.account(op)
                want.append(v if op != "fit" else None)
            rngs[0] = kernel.rng_save()
            # replica B: chunked
            kernel.rng_load(rngs[1])
            got, exb, ret = None, None, None
            if e["single"]:
                got = []
                for i, r in enumerate(rows):
                    try:
                        v = B.raw(op, xs[i], label(r))
                    except Exception as ex:
                        exb = ex
                        break
                    got.append(v if op != "fit" else None)
            else:
                Y = None
                if lab and op != "read":
                    ys = [label(r) for r in rows]
                    Y = np.array(ys, dtype=object) if None in ys else np.array(ys, dtype=np.float64)
                try:
                    ret = catalog.batch_call(c, B.obj, op, X, Y)
                except Exception as ex:
                    exb = ex
                st.fault("batch-%s" % ("empty" if not rows else "one" if len(rows) == 1 else "many"))
                if exb is None:
                    if op == "fit":
                        if ret is not B.obj:
                            raise Violation("not-self", c.name, "fit(X) returned %r" % (ret,))
                        got = [None] * len(rows)
                    else:
                        a = np.asarray(ret)
                        if not isinstance(ret, np.ndarray) or a.dtype != np.float64 or a.shape[:1] != (len(rows),) or \
                                a.ndim != (2 if c.family == "transformer" else 1):
                            raise Violation("wrong-shape", c.name, "%s of %d rows returned %s %r %r" % (op, len(rows), type(ret).__name__, a.dtype, a.shape))
                        got = list(a)
            rngs[1] = kernel.rng_save()
            st.checks += 1
            st.state(c.name, op, min(len(rows), 8), e["single"], exc is not None, min(A.nfit, 40))
            if (exc is None) != (exb is None):
                raise Violation("failure-differs", c.name, "%s of %d rows: row by row %r, as a batch %r" % (op, len(rows), exc, exb))
            if exc is not None:
                st.fault("refused-in-batch")
                if type(exc) is not type(exb):
                    raise Violation("failure-differs", c.name, "%s: row by row %r, as a batch %r" % (op, exc, exb))
                continue
            for i, (a, b) in enumerate(zip(want, got)):
                if op != "fit" and not near(a, b):
                    raise Violation("batch-differs", c.name, "%s row %d of %d: row by row %r, as a batch %r (after %d instances)"
                                    % (op, i, len(rows), flat(a).tolist(), flat(b).tolist(), A.nfit))
        # what both have absorbed must agree from here on
        for e in reversed(sc["events"]):
            if e["rows"] and not e["rows"][0]["bad"]:
                r = e["rows"][0]
                out = []
                for k in (0, 1):
                    kernel.rng_load(rngs[k])
                    try:
                        out.append(sess[k].raw("fitread", inst(r), label(r)))
                    except Exception as ex:
                        out.append(type(ex).__name__)
                st.checks += 1
                if isinstance(out[0], str) or isinstance(out[1], str):
                    if type(out[0]) is not type(out[1]):
                        raise Violation("effect-differs", c.name, "afterwards: %r and %r" % tuple(out))
                elif not near(*out):
                    raise Violation("effect-differs", c.name, "next result row by row %r, after batches %r" % tuple(flat(o).tolist() for o in out))
                break

    def hst(self, c, p, m, k):
        from pysad.models import HalfSpaceTrees as C
        X = np.array([[a + (b - a) * ((i * 7 + j * 3) % 11) / 11.0 for j, (a, b) in enumerate(zip(p["mins"], p["maxes"]))]
                      for i in range(m)]).reshape(m, p["d"])
        kw = dict(feature_mins=np.array(p["mins"]), feature_maxes=np.array(p["maxes"]), window_size=p["w"],
                  num_trees=p["nt"], max_depth=p["depth"])
        s = catalog.Session(c, p, build=False)
        if k == 0:
            s.obj = C(**kw)
            for x in X:
                s.obj.fit_partial(x)
        else:
            try:
                s.obj = C(initial_window_X=X, **kw)
            except Exception as ex:
                raise Violation("raises", c.name, "initial_window_X of %d rows: %r" % (m, ex))
        return s


class Ragged:
    """A sequence of instances of differing width with an array-like shape."""

    def __init__(self, xs):
        self.xs = xs
        self.shape = (len(xs), 1)

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return self.xs[i]


PROP = C04()
