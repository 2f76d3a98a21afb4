"""C25: results are snapshots. A replica whose results are scribbled over stays equal to one whose results are left alone, and a result never changes."""
import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation, canon

#: IdentityScaler's result is the instance itself; Window.get is a live view by contract (tests/test_utils.py)
SKIP = ("IdentityScaler", "Window", "UnlimitedWindow")
W = dict(SeasonalTrendDecomposer=2.0, InstanceStandardScaler=2.0, InstanceUnitNormScaler=2.0, StreamhashProjector=2.0)


def pred(c):
    return c.name not in SKIP


def scribble(r, how):
    """Overwrites a mutable result in place; returns whether there was anything to overwrite."""
    if isinstance(r, np.ndarray) and r.size and r.flags.writeable:
        r[...] = how
        return True
    if isinstance(r, list) and r:
        if how == 0.0:
            r.clear()
        else:
            r[0] = how
            r.append(how)
        return True
    return False


def mutable(r):
    return isinstance(r, (np.ndarray, list, dict))


class C25(Prop):
    id = "C25"
    runs = dict(quick=12000, thorough=180000)
    rule = ("Two replicas get the same deliveries with the same random draws; the consumer of one overwrites every mutable result it gets "
            "(at once or some operations later), the other keeps all its results. Results of both must be equal throughout, and nothing kept may "
            "ever change.")
    state_measure = "distinct (component, operation, fits so far, overwritten at once or later) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.REG["Inqmad"] if idx % 3000 == 17 else catalog.choose(rng, pred, lambda k: W.get(k.name, 1.0))
        p = c.params(rng)
        n = min(catalog.length(rng, c, 40.0), 4 if c.name == "Inqmad" else 10**6)
        ev, lost = c.script(rng, p, n)
        out, i = [], 0
        pb = rng.pick([0.0, 0.15]) if c.batch and c.name != "PerfectModel" else 0.0
        while i < len(ev):
            if rng.chance(pb):
                j = min(len(ev), i + rng.int(1, 5))
                op = rng.pick(["fit", "read", "fitread"])
                ys = [e["y"] if e["y"] is not None else 0.0 for e in ev[i:j]]
                lab = (c.labels or p.get("lab")) and op != "read"
                e = dict(op="b" + op, xs=[e["x"] for e in ev[i:j]], ys=ys if lab else None, t=ev[i]["t"], f=[])
                i = j
            else:
                e = ev[i]
                i += 1
            e["delay"] = rng.pick([0, 0, 0, 1, 2, 5])
            out.append(e)
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out, how=rng.pick([0.0, 777.25, -1.0, 1e9]))

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        sess, rngs = [], []
        for _ in range(2):
            kernel.rng_seed(sc["seed"])
            sess.append(Raw(c, p))
            rngs.append(kernel.rng_save())
        if sess[0].err:
            return
        kept, later = [], []
        for k, e in enumerate(sc["events"]):
            tally(st, e)
            st.ops += 1
            vals, raws = [], []
            for i in (0, 1):
                s = sess[i]
                kernel.rng_load(rngs[i])
                s.raw_result = None
                if e["op"] in ("bfit", "bread", "bfitread"):
                    v = s.many(e)
                else:
                    v = s.do(e)
                rngs[i] = kernel.rng_save()
                vals.append(v)
                raws.append(s.raw_result)
            st.checks += 1
            if vals[0] != vals[1]:
                raise Violation("depends-on-results-given-out", c.name, "%s after %d fits: %r, but %r where the consumer overwrote earlier results"
                                % (e["op"], sess[0].nfit, vals[0], vals[1]))
            if mutable(raws[0]) and raws[0] is not sess[0].obj:
                kept.append((k, raws[0], canon(raws[0])))
                st.state(c.name, e["op"], min(sess[0].nfit, 40), e["delay"] > 0)
            if mutable(raws[1]) and raws[1] is not sess[1].obj:
                later.append((k + e["delay"], raws[1]))
            for q in [q for q in later if q[0] <= k]:
                if scribble(q[1], sc["how"]):
                    st.fault("result-overwritten")
            later = [q for q in later if q[0] > k]
            if len(kept) > 24:
                self.same(c, kept[:12], k)
                kept = kept[12:] if k % 2 else kept[:6] + kept[18:]
            self.same(c, kept[-4:], k)
        self.same(c, kept, len(sc["events"]))
        st.probe("kept_results", len(kept))

    def same(self, c, kept, k):
        for j, r, v in kept:
            if canon(r) != v:
                raise Violation("result-changed", c.name, "the result of operation %d was %r and is %r after operation %d" % (j, v, canon(r), k))


class Raw(catalog.Session):
    """A session that also keeps the returned object itself."""
    raw_result = None

    def raw(self, op, x, y):
        r = super().raw(op, x, y)
        self.raw_result = r
        return r

    def many(self, e):
        c, op = self.comp, e["op"][1:]
        if not self.allowed(op):
            return None
        X = catalog.batch_array(c, e["xs"])
        Y = np.array(e["ys"]) if e["ys"] is not None else None
        try:
            r = catalog.batch_call(c, self.obj, op, X, Y)
        except (kernel.Cancelled, kernel.NoProgress):
            raise
        except Exception as ex:
            v = ("exc", type(ex).__name__)
        else:
            self.raw_result = r
            v = ("self",) if r is self.obj else ("val", canon(r))
        for _ in e["xs"]:
            self.account(op)
        return v


PROP = C25()
