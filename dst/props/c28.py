"""C28: detectors that ignore labels really do: a faulty labeller never changes a result."""
import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation

#: PerfectModel replays labels by definition; ReferenceWindowModel hands them to the wrapped detector
USES = ("PerfectModel", "ReferenceWindowModel")


def pred(c):
    return c.family == "model" and c.name not in USES


def label(kind, n=None):
    """A label object of the given kind (JSON-able description -> value)."""
    v = {"none": None, "zero": 0, "one": 1, "minus": -1, "float0": 0.0, "float1": 1.0, "nan": float("nan"), "true": True, "false": False,
         "np0": np.int64(0), "np1": np.int64(1), "npf1": np.float64(1.0), "arr0": np.array([0]), "arr1": np.array([1.0]), "text": "anomaly", "big": 7e9}[kind]
    return v


KINDS = ("none", "zero", "one", "minus", "float0", "float1", "nan", "true", "false", "np0", "np1", "npf1", "arr0", "arr1", "text", "big")
BKINDS = ("int", "float", "bool", "nan", "ones", "zeros", "list")


def labels(kind, bits):
    if kind == "none":
        return None
    if kind == "ones":
        return np.ones(len(bits), dtype=int)
    if kind == "zeros":
        return np.zeros(len(bits))
    if kind == "list":
        return [int(b) for b in bits]
    a = np.array(bits, dtype=np.float64)
    if kind == "int":
        return a.astype(np.int64)
    if kind == "bool":
        return a.astype(bool)
    if kind == "nan":
        a[::2] = np.nan
    return a


class C28(Prop):
    id = "C28"
    runs = dict(quick=9000, thorough=140000)
    rule = ("Two replicas get the same deliveries with the same random draws; one is never given a label, the other gets labels from a labeller that is "
            "right, wrong, missing, late or sends labels of odd types. All results must be equal.")
    state_measure = "distinct (component, label kind, operation, fits so far) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.REG["Inqmad"] if idx % 3000 == 11 else catalog.choose(rng, pred)
        p = c.params(rng)
        if c.name == "IForestASD" and not p["init"]:     # trains on the labels it is given until its window is full
            p["init"] = [[rng.gauss(0, 1) for _ in range(3)] for _ in range(6)]
        n = min(catalog.length(rng, c, 50.0), 3 if c.name == "Inqmad" else 10**6)
        ev, lost = c.script(rng, p, n)
        mode = rng.pick(["wild", "wild", "binary", "constant", "late", "sparse"])
        simple = rng.pick([("zero", "one"), ("float0", "float1"), ("false", "true"), ("one", "minus"), ("np0", "np1"), ("arr0", "arr1")])
        const = rng.pick(KINDS)
        since = rng.int(0, max(1, len(ev)))
        out, i = [], 0
        pb = rng.pick([0.0, 0.0, 0.2])
        while i < len(ev):
            if rng.chance(pb):
                j = min(len(ev), i + rng.int(1, 6))
                op = rng.pick(["fit", "fitread"])
                e = dict(op="b" + op, xs=[e["x"] for e in ev[i:j]], t=ev[i]["t"], f=[], lab=rng.pick(BKINDS), bits=[int(rng.chance(0.4)) for _ in range(i, j)])
                i = j
            else:
                e = ev[i]
                spiked = "spike" in e["f"]
                if e["op"] == "read":
                    e["lab"] = "none"
                elif mode == "wild":
                    e["lab"] = rng.pick(KINDS)
                elif mode == "constant":
                    e["lab"] = const
                elif mode == "binary":
                    e["lab"] = simple[int(spiked or rng.chance(0.2))]
                elif mode == "late":
                    e["lab"] = "none" if i < since else simple[int(spiked or rng.chance(0.2))]
                else:
                    e["lab"] = simple[int(spiked or rng.chance(0.5))] if rng.chance(0.2) else "none"
                i += 1
            out.append(e)
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        sess, rngs = [], []
        for _ in range(2):
            kernel.rng_seed(sc["seed"])
            sess.append(catalog.Session(c, p))
            rngs.append(kernel.rng_save())
        if sess[0].err:
            return
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            vals = []
            for i in (0, 1):
                kernel.rng_load(rngs[i])
                if e["op"].startswith("b"):
                    v = self.many(c, sess[i], e, labels(e["lab"], e["bits"]) if i else None)
                else:
                    v = sess[i].do(dict(e, y=label(e["lab"]) if i else None))
                vals.append(v)
                rngs[i] = kernel.rng_save()
            if e["lab"] != "none":
                st.fault("label-" + e["lab"])
            st.checks += 1
            st.state(c.name, e["lab"], e["op"], min(sess[0].nfit, 40))
            if vals[0] != vals[1]:
                raise Violation("depends-on-label", c.name, "%s with label %s after %d fits: %r without labels, %r with labels"
                                % (e["op"], e["lab"], sess[0].nfit, vals[0], vals[1]))

    def many(self, c, s, e, Y):
        X = catalog.batch_array(c, e["xs"])
        try:
            r = catalog.batch_call(c, s.obj, e["op"][1:], X, Y)
        except (kernel.Cancelled, kernel.NoProgress):
            raise
        except Exception as ex:
            r = "exc", type(ex).__name__
        s.nfit += len(X)
        return "self" if r is s.obj else kernel.canon(r)


PROP = C28()
