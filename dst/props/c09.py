"""C09: wrapped batch detectors are trained on exactly the documented window, also when trainings fail."""
import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, refs, stubs, world
from ..kernel import Violation, scalar

KINDS = (("stub", 10), ("onefit", 1.5), ("knn", 0.8), ("iforest", 0.12))


class WindowRef:
    """The documented window, recomputed from the log of everything fitted."""

    def __init__(self, w, s, init):
        self.w, self.s = w, s
        self.cold = init is None
        self.X = [] if init is None else [list(r) for r in init["X"]]
        self.y = None if init is None or init.get("y") is None else list(init["y"])
        self.unlabelled = init is not None and self.y is None   # no labels for the initial window: none for later ones
        self.new = []        # fitted since the last slide: (x, y)
        self.slid = False

    def fit(self, x, y):
        """Returns (rows, labels) to train on now, or None."""
        self.new.append((list(x), y))
        if self.cold and not self.slid and len(self.new) < self.w:
            return self.rows(self.new)
        if len(self.new) % self.s != 0:
            return None
        old = [] if self.cold and not self.slid else list(zip(self.X, self.y if self.y is not None else [None] * len(self.X)))
        win = (old + self.new)[-self.w:]
        self.slid = True
        self.new = []
        X, Y = self.rows(win)
        if self.unlabelled:
            Y = None
        self.X, self.y = X, Y
        return X, Y

    @staticmethod
    def rows(win):
        X = [r for r, _ in win]
        Y = [l for _, l in win]
        return X, (None if Y[0] is None else Y)


class C09(Prop):
    id = "C09"
    runs = dict(quick=30000, thorough=450000)
    rule = ("A seeded world streams instances (some of which make the wrapped detector's training fail) into ReferenceWindowModel, "
            "IForestASD or OneFitModel wrapped around a stub whose scores fingerprint its whole training set, a real KNN or a seeded IForest; each score "
            "is compared with a fresh detector trained on the documented window.")
    state_measure = "distinct (wrapper, window, slide, initial size, fits since last slide, last training failed) tuples at scores"
    stubs = "fingerprint detector with injected training failures (most runs); PyOD KNN and IForest real in the rest"

    def gen(self, rng, tier, idx):
        k = rng.wpick(list(KINDS))
        d = rng.int(1, 3)
        w = rng.int(2, 9) if k == "stub" else rng.int(4, 7)
        lab = rng.chance(0.4) and k in ("stub", "onefit")
        init = None
        if rng.chance(0.5) or k in ("knn", "onefit"):
            m = rng.int(1, 2 * w) if k in ("stub", "onefit") else rng.int(4, 9)
            init = dict(X=[[rng.int(-40, 40) / 8.0 for _ in range(d)] for _ in range(m)],
                        y=[float(rng.chance(0.5)) for _ in range(m)] if lab and (k == "onefit" or rng.chance(0.8)) else None)
        cfg = dict(k=k, d=d, w=w, s=w if k == "iforest" else rng.int(1, w + 3) if k == "stub" else rng.int(2, w), init=init, lab=lab,
                   scale=rng.pick([1.0, 2.0, 2.0, 0.0]), bias=rng.pick([0.0, 0.5]), nn=rng.int(1, 2))
        n = rng.int(4, 14) if k in ("knn", "iforest") else rng.wpick([(rng.int(2, 12), 3), (rng.int(10, 50), 3), (rng.int(50, 120), 1), (rng.int(250, 1100), 0.02)])
        ev, lost = world.script(rng, d, n, labels=lab)
        if k == "stub":
            bad = rng.pick([0.0, 0.0, 0.03, 0.12])
            for e in ev:
                if e["op"] != "read" and rng.chance(bad):
                    e["x"][0] = stubs.POISON
                    e["f"] = e["f"] + ["poison"]
        out, i = [], 0
        while i < len(ev):
            if rng.chance(0.06) and ev[i]["op"] != "read" and ev[i]["x"][0] != stubs.POISON:
                j = i + 1
                while j < len(ev) and j < i + 4 and ev[j]["op"] != "read" and ev[j]["x"][0] != stubs.POISON:
                    j += 1
                out.append(dict(op=rng.pick(["bfit", "bfitread"]), xs=[e["x"] for e in ev[i:j]], ys=[e["y"] for e in ev[i:j]],
                                t=ev[i]["t"], f=["batch"]))
                i = j
            else:
                out.append(ev[i])
                i += 1
        return dict(component={"onefit": "OneFitModel", "iforest": "IForestASD"}.get(k, "ReferenceWindowModel"), cfg=cfg, lost=lost, events=out)

    def run(self, sc, st):
        from pysad.models import IForestASD
        from pysad.models.integrations import OneFitModel, ReferenceWindowModel
        from pyod.models.iforest import IForest
        from pyod.models.knn import KNN
        c, name = sc["cfg"], sc["component"]
        k = c["k"]
        if k in ("stub", "onefit"):
            cls, kw = stubs.Mini, dict(scale=c["scale"], bias=c["bias"])
        elif k == "knn":
            cls, kw = KNN, dict(n_neighbors=c["nn"])
        else:
            cls, kw = IForest, dict(n_estimators=2, random_state=7, n_jobs=1)
        st.components.add(name + "(" + cls.__name__ + ")")
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        init = c["init"]
        det = None

        def train(X, Y):
            m = cls(**kw)
            if Y is None:
                m.fit(np.array(X))
            else:
                m.fit(np.array(X), np.array(Y))
            return m
        ia = {}
        if init:
            ia["X"] = np.array(init["X"])
            ia["y"] = None if init["y"] is None else np.array(init["y"])
        try:
            if k == "onefit":
                o = OneFitModel(cls, ia["X"], ia["y"], **kw) if ia["y"] is not None else OneFitModel(cls, ia["X"], **kw)
            elif k == "iforest":
                o = IForestASD(initial_window_X=ia.get("X"), window_size=c["w"], **kw)
            elif init is None:
                o = ReferenceWindowModel(cls, c["w"], c["s"], **kw)
            elif ia["y"] is not None:
                o = ReferenceWindowModel(cls, c["w"], c["s"], initial_window_X=ia["X"], initial_window_y=ia["y"], **kw)
            else:
                o = ReferenceWindowModel(cls, c["w"], c["s"], initial_window_X=ia["X"], **kw)
        except Exception as ex:
            raise Violation("raises", name, "constructor raised %r" % ex)
        if init:
            det = train(init["X"], init["y"])
        ref = WindowRef(c["w"], c["s"], init)
        failed = False

        def expect_fit(x, y):
            """-> the training must fail now?"""
            nonlocal det, failed
            if k == "onefit":
                return False
            t = ref.fit(x, y)
            if t is None:
                return False
            try:
                det = train(*t)
                if failed:
                    st.probe("recovered_after_failed_training")
                failed = False
                st.probe("trained")
                return False
            except stubs.FitFailure:
                failed = True
                st.fault("training-failure")
                return True

        def compare(x, got, what):
            want = float(np.asarray(det.decision_function(np.array([x])))[0])
            st.checks += 1
            st.state(name, cls.__name__, c["w"], c["s"], len(init["X"]) if init else 0, len(ref.new), failed)
            if failed:
                st.probe("scored_after_failed_training")
            g = scalar(got)
            if not refs.close(g, want, (1e-10 if cls is stubs.Mini else 1e-7) * (1 + abs(want))):
                raise Violation("wrong-window", name, "%s(%r) = %r, a detector trained on the documented window gives %r (w=%d s=%d init=%s, %d since slide%s)"
                                % (what, x, g, want, c["w"], c["s"], len(init["X"]) if init else None, len(ref.new),
                                   ", last training failed" if failed else ""))
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            op = e["op"]
            if op in ("bfit", "bfitread"):
                X = np.array(e["xs"])
                Y = None if e["ys"][0] is None else np.array(e["ys"])
                if op == "bfitread" and (det is None or any_fail(ref, e, train)) or op == "bfit" and any_fail(ref, e, train):
                    if det is None and op == "bfitread" and not any_fail(ref, e, train):
                        op = "bfit"
                    else:
                        continue   # a failing training inside a batch is C04's business
                try:
                    r = catalog.batch_call(catalog.REG["ReferenceWindowModel"], o, op[1:], X, Y)
                except Exception as ex:
                    raise Violation("raises", name, "%s raised %r" % (op, ex))
                for i, (x, y) in enumerate(zip(e["xs"], e["ys"])):
                    expect_fit(x, y)
                    if op == "bfitread":
                        compare(x, r[i], "fit_score row %d" % i)
                continue
            if op == "read":
                if det is None:
                    continue
                try:
                    r = o.score_partial(np.array(e["x"]))
                except Exception as ex:
                    raise Violation("raises", name, "score raised %r%s" % (ex, " after a failed training" if failed else ""))
                compare(e["x"], r, "score_partial")
                continue
            must_fail = expect_fit(e["x"], e["y"])
            try:
                if op == "fitread" and det is not None:
                    r = o.fit_score_partial(np.array(e["x"]), e["y"]) if e["y"] is not None else o.fit_score_partial(np.array(e["x"]))
                else:
                    op = "fit"
                    r = o.fit_partial(np.array(e["x"]), e["y"]) if e["y"] is not None else o.fit_partial(np.array(e["x"]))
                ex = None
            except Exception as err:
                r, ex = None, err
            st.checks += 1
            if must_fail and ex is None:
                raise Violation("failure-hidden", name, "training failed but %s returned %r" % (op, r))
            if not must_fail and ex is not None:
                raise Violation("raises", name, "%s raised %r (w=%d s=%d, %d since slide)" % (op, ex, c["w"], c["s"], len(ref.new)))
            if must_fail:
                if not isinstance(ex, stubs.FitFailure):
                    raise Violation("failure-altered", name, "training failed with FitFailure, %s raised %r" % (op, ex))
                continue
            if op == "fit":
                if r is not o:
                    raise Violation("not-self", name, "fit_partial returned %r" % (r,))
            else:
                compare(e["x"], r, "fit_score_partial")


def any_fail(ref, e, train):
    """Would one of the trainings inside this batch fail?"""
    import copy
    r = copy.deepcopy(ref)
    for x, y in zip(e["xs"], e["ys"]):
        t = r.fit(x, y)
        if t is not None:
            try:
                train(*t)
            except Exception:
                return True
    return False


PROP = C09()
