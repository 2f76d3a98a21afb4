"""C18: a producer that reuses (overwrites) its buffers is indistinguishable from one that does not; inputs stay intact."""
import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, stubs, world
from ..kernel import Violation

FAM = ("model", "transformer", "post")


def pred(c):
    return c.family in FAM


def build(c, p, keep):
    """Builds the component; arrays given to the constructor are appended to keep as (name, array)."""
    if c.name == "ReferenceWindowModel":
        from pysad.models.integrations import ReferenceWindowModel as C
        kw = {}
        if p["init"]:
            kw["initial_window_X"] = np.array(p["init"]["X"])
            keep.append(kw["initial_window_X"])
            if p["init"]["y"] is not None:
                kw["initial_window_y"] = np.array(p["init"]["y"])
                keep.append(kw["initial_window_y"])
        return C(model_cls=stubs.Mini, window_size=p["w"], sliding_size=p["s"], scale=p["scale"], bias=p["bias"], **kw)
    if c.name == "OneFitModel":
        from pysad.models.integrations import OneFitModel as C
        X = np.array(p["X"])
        keep.append(X)
        if p["y"] is not None:
            y = np.array(p["y"])
            keep.append(y)
            return C(model_cls=stubs.Mini, initial_X=X, initial_y=y, scale=p["scale"], bias=p["bias"])
        return C(model_cls=stubs.Mini, initial_X=X, scale=p["scale"], bias=p["bias"])
    if c.name == "HalfSpaceTrees":
        from pysad.models import HalfSpaceTrees as C
        a, b = np.array(p["mins"]), np.array(p["maxes"])
        X = np.array([[m + 1.0 + i for m in p["mins"]] for i in range(3)])
        keep += [a, b, X]
        return C(feature_mins=a, feature_maxes=b, window_size=p["w"], num_trees=p["nt"], max_depth=p["depth"],
                 initial_window_X=X)
    if c.name == "RSHash":
        from pysad.models import RSHash as C
        a, b = np.array(p["mins"]), np.array(p["maxes"])
        keep += [a, b]
        return C(feature_mins=a, feature_maxes=b, sampling_points=p["s"], decay=p["decay"], num_components=p["m"],
                 num_hash_fns=p["nh"])
    if c.name == "IForestASD" and p["init"] is not None:
        from pysad.models import IForestASD as C
        X = np.array(p["init"])[:, :p["d"]].copy()
        keep.append(X)
        return C(initial_window_X=X, window_size=p["w"], n_estimators=2, n_jobs=1)
    if c.name == "ReferenceWindowKNN":
        from pysad.models.integrations import ReferenceWindowModel as C
        from pyod.models.knn import KNN
        X = np.array(p["init"])
        keep.append(X)
        return C(model_cls=KNN, window_size=p["w"], sliding_size=p["s"], initial_window_X=X, n_neighbors=p["k"])
    if c.name == "LocalOutlierProbability":
        from pysad.models import LocalOutlierProbability as C
        X = np.array(p["X"])
        keep.append(X)
        return C(initial_X=X, num_neighbors=p["k"], extent=p["ext"])
    if c.name == "AverageScoreEnsembler" and p.get("wts"):
        from pysad.transform.ensemble import AverageScoreEnsembler as C
        w = np.array([p["wts"]])
        keep.append(w)
        return C(estimator_weights=w)
    return c.make(p)


W = dict(InstanceUnitNormScaler=3.0, InstanceStandardScaler=3.0, IdentityScaler=2.0, AverageScoreEnsembler=2.0, MaximumScoreEnsembler=1.5, MedianScoreEnsembler=1.5)


class C18(Prop):
    id = "C18"
    runs = dict(quick=12000, thorough=180000)
    rule = ("Replica A gets a fresh array per call; replica B gets one buffer that the simulated producer scribbles over as soon "
            "as each call returns (single and batch calls, labels and constructor arrays included). Results must be "
            "identical, and no call may change the contents of what it was given.")
    state_measure = "distinct (component, fits so far, operation, buffer kind) tuples at comparisons"

    def gen(self, rng, tier, idx):
        c = catalog.REG["Inqmad"] if idx % 3000 == 11 else catalog.choose(rng, pred, lambda k: W.get(k.name, 1.0))
        p = c.params(rng)
        n = min(catalog.length(rng, c, 50.0), 4 if c.name == "Inqmad" else 10**6)
        ev, lost = c.script(rng, p, n)
        out, i = [], 0
        pb = rng.pick([0.0, 0.1, 0.3])
        while i < len(ev):
            if rng.chance(pb):
                j = min(len(ev), i + rng.int(1, 5))
                op = rng.pick(["fit", "read", "fitread"] if c.name != "PerfectModel" else ["fit", "fitread"])
                ys = [e["y"] if e["y"] is not None else 0.0 for e in ev[i:j]]
                lab = (c.labels or p.get("lab")) and op != "read"
                if c.family == "model" and "ReferenceWindow" not in c.name and op != "read" and rng.chance(0.5):
                    ys = [rng.pick([0, 1, -1, 2, 1]) for _ in ys]   # integer or real labels, whether the model uses them or not
                    if rng.chance(0.7):
                        ys = [float(v) if v != 2 else 0.25 for v in ys]
                    lab = True
                out.append(dict(op="b" + op, xs=[e["x"] for e in ev[i:j]], ys=ys if lab else None, t=ev[i]["t"], f=[]))
                i = j
            else:
                out.append(ev[i])
                i += 1
        if rng.chance(0.15):    # unusual values: whatever the component makes of them, it must not write them back
            for e in out:
                for x in e["xs"] if "xs" in e else [e["x"]]:
                    if isinstance(x, list) and rng.chance(0.3):
                        x[rng.int(0, len(x) - 1)] = rng.pick(["nan", "inf", -1e-13, 1e-13, -0.0, 1e-300, 1e15, -1e15])
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out,
                    noncontig=rng.chance(0.2), junk=rng.pick([0.0, 1.5, -777.25, 1e9]))

    def lists(self, sc):
        return [("events",)]

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        junk = sc["junk"]
        sess, rngs, keeps = [], [], []
        for _ in range(2):
            kernel.rng_seed(sc["seed"])
            keep = []
            try:
                o = build(c, p, keep)
            except Exception as ex:
                raise Violation("raises", c.name, "constructor raised %r" % ex)
            sess.append(catalog.Session(c, p, obj=o))
            rngs.append(kernel.rng_save())
            keeps.append(keep)
        for a0, a1 in zip(*keeps):
            if not np.array_equal(a0, a1):
                raise Violation("input-modified", c.name, "constructor changed an argument")
        build_check(c, p, keeps[0])
        for arr in keeps[1]:
            arr[...] = 3.0 if junk == 0.0 else junk
            st.fault("ctor-array-overwritten")
        d = p["d"]
        big = np.zeros((2, 2 * d))
        buf = big[0, ::2] if sc["noncontig"] else np.zeros(d)
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            vals = []
            if "xs" in e:
                e = dict(e, xs=[[float(v) for v in x] if isinstance(x, list) else x for x in e["xs"]])
            elif isinstance(e["x"], list):
                e = dict(e, x=[float(v) for v in e["x"]])
            for k in (0, 1):
                s = sess[k]
                kernel.rng_load(rngs[k])
                if e["op"] in ("bfit", "bread", "bfitread"):
                    op = e["op"][1:]
                    if not s.allowed(op):
                        vals.append(None)
                        continue
                    X = catalog.batch_array(c, e["xs"])
                    Y = np.array(e["ys"]) if e["ys"] is not None else None
                    ref = X.copy()
                    refy = None if Y is None else Y.copy()
                    try:
                        r = catalog.batch_call(c, s.obj, op, X, Y)
                        v = ("self",) if r is s.obj else ("val", kernel.canon(r))
                    except Exception as ex:
                        v = ("exc", type(ex).__name__)
                    for _ in e["xs"]:
                        s.account(op)
                    if X.tobytes() != ref.tobytes() or (Y is not None and Y.tobytes() != refy.tobytes()):
                        raise Violation("input-modified", c.name, "%s changed its batch argument" % op)
                    if k == 1:
                        X[...] = junk
                        st.fault("batch-buffer-overwritten")
                        if Y is not None:
                            Y[...] = junk
                else:
                    if c.scalar_x:
                        x = c.x(e["x"])
                    elif k == 0:
                        x = np.zeros((2, 2 * d))[0, ::2] if sc["noncontig"] else np.zeros(d)  # same layout, fresh memory
                        x[:] = e["x"]
                    else:
                        buf[:] = e["x"]
                        x = buf
                    v = s.do(e, x)
                    if not c.scalar_x:
                        if x.tobytes() != np.array(e["x"], dtype=np.float64).tobytes():
                            raise Violation("input-modified", c.name, "%s changed its instance to %r" % (e["op"], x.tolist()))
                        if k == 1:
                            x[:] = junk
                            st.fault("buffer-overwritten")
                rngs[k] = kernel.rng_save()
                vals.append(v)
            st.checks += 1
            st.state(c.name, min(sess[0].nfit, 60), e["op"], sc["noncontig"])
            if vals[0] != vals[1]:
                raise Violation("depends-on-callers-buffer", c.name, "%s after %d fits: %r with fresh arrays, %r with a reused buffer"
                                % (e["op"], sess[0].nfit, vals[0], vals[1]))


def build_check(c, p, keep):
    """The constructor must not have changed the arrays it was given."""
    exp = None
    if c.name == "ReferenceWindowModel" and p["init"]:
        exp = [np.array(p["init"]["X"])] + ([np.array(p["init"]["y"])] if p["init"]["y"] is not None else [])
    elif c.name == "OneFitModel":
        exp = [np.array(p["X"])] + ([np.array(p["y"])] if p["y"] is not None else [])
    elif c.name == "IForestASD" and p["init"] is not None:
        exp = [np.array(p["init"])[:, :p["d"]]]
    elif c.name == "ReferenceWindowKNN":
        exp = [np.array(p["init"])]
    elif c.name == "LocalOutlierProbability":
        exp = [np.array(p["X"])]
    elif c.name == "AverageScoreEnsembler" and p.get("wts"):
        exp = [np.array([p["wts"]])]
    elif c.name == "HalfSpaceTrees":
        exp = [np.array(p["mins"]), np.array(p["maxes"]), np.array([[m + 1.0 + i for m in p["mins"]] for i in range(3)])]
    elif c.name == "RSHash":
        exp = [np.array(p["mins"]), np.array(p["maxes"])]
    for a, b in zip(keep, exp or []):
        if not np.array_equal(a, b):
            raise Violation("input-modified", c.name, "constructor changed an argument to %r" % a.tolist())


PROP = C18()
