"""C29: the values of a stream decide, not how a sender encodes them."""
import json
import os
import shutil
import tempfile

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation

VEC = ("int64", "int32", "bigend", "readonly", "strided", "view", "memmap", "f8")
SCA = ("pyint", "int64", "int32", "zerod", "f8", "pyfloat")
LIM64, LIM32 = 2.0 ** 20, 2.0 ** 10
#: BLAS rounds a strided dot product in another order
BLAS = ("LODA", "xStream", "StreamhashProjector", "GaussianRandomProjector", "SparseRandomProjector", "KNNCAD", "KitNet")


class Sub(np.ndarray):
    """What other libraries hand over: an ndarray subclass."""


def encode(kind, x, scratch):
    """x: list of floats -> an array with the same values."""
    a = np.array(x, dtype=np.float64)
    top = float(np.max(np.abs(a))) if a.size else 0.0
    whole = bool(np.all(a == np.floor(a)))
    if kind == "int64":
        return a.astype(np.int64) if whole and top <= LIM64 else a
    if kind == "int32":
        return a.astype(np.int32) if whole and top <= LIM32 else a
    if kind == "bigend":
        return a.astype(">f8")
    if kind == "readonly":
        a.flags.writeable = False
        return a
    if kind == "strided":
        b = np.full((len(x), 3), 1e300)
        b[:, 1] = a
        return b[:, 1]
    if kind == "view":
        return a.view(Sub)
    if kind == "memmap":
        path = os.path.join(scratch(), "rows.bin")
        a.tofile(path)
        return np.memmap(path, dtype=np.float64, mode="r", shape=a.shape)
    return a


def encode_scalar(kind, v):
    whole = v == float(int(v)) if abs(v) < 2.0 ** 60 else False
    if kind == "pyint":
        return int(v) if whole and abs(v) <= LIM64 else float(v)
    if kind == "int64":
        return np.int64(v) if whole and abs(v) <= LIM64 else np.float64(v)
    if kind == "int32":
        return np.int32(v) if whole and abs(v) <= LIM32 else np.float64(v)
    if kind == "zerod":
        return np.array(v, dtype=np.float64)
    if kind == "pyfloat":
        return float(v)
    return np.float64(v)


def whole_params(p):
    """Constructor arguments with the same values as whole numbers, where they are whole."""
    def conv(v):
        if isinstance(v, list):
            flat = np.asarray(v, dtype=np.float64)
            if flat.size and np.all(flat == np.floor(flat)):
                return json.loads(json.dumps(flat.astype(int).tolist()))
        return v
    q = dict(p)
    for k in ("mins", "maxes", "X", "y", "wts"):
        if q.get(k) is not None:
            q[k] = conv(q[k])
    if isinstance(q.get("init"), dict):
        q["init"] = {k: conv(v) for k, v in q["init"].items()}
    elif isinstance(q.get("init"), list):
        q["init"] = conv(q["init"])
    return q


class C29(Prop):
    id = "C29"
    runs = dict(quick=12000, thorough=180000)
    rule = ("Two replicas get the same deliveries with the same random draws; one gets every instance as a plain float64 array, the other as a sender of the "
            "moment encodes it: whole numbers as integers, other byte order, read-only, strided, memory-mapped, ndarray subclass; constructor data likewise. All results must be equal.")
    state_measure = "distinct (component, encoding, operation, fits so far) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.choose(rng, lambda k: k.name != "ReferenceWindowKNN")     # scikit-learn takes another code path by layout, with other rounding
        p = c.params(rng)
        rnd = rng.chance(0.6)
        if rnd and rng.chance(0.7):
            p = self.rounded(p, rng)
        n = catalog.length(rng, c, 45.0)
        ev, lost = c.script(rng, p, n)
        frm = rng.int(0, len(ev)) if rng.chance(0.3) else 0
        kinds = SCA if c.scalar_x or c.family in ("stat", "window", "metric") else VEC
        if c.name in BLAS:
            kinds = [k for k in kinds if k != "strided"]
        mode = rng.pick(["one", "flap", "flap"])
        one = rng.pick(kinds)
        for i, e in enumerate(ev):
            if rnd and (i < frm or frm == 0 or rng.chance(0.5)):
                e["x"] = [float(round(v)) for v in e["x"]]
            e["enc"] = one if mode == "one" else rng.pick(kinds)
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=ev, whole=rng.chance(0.7))

    def rounded(self, p, rng):
        q = dict(p)
        for k in ("X", "wts"):
            if q.get(k) is not None:
                q[k] = np.ceil(np.asarray(q[k])).tolist()
        if isinstance(q.get("init"), dict):
            q["init"] = dict(q["init"], X=np.round(np.asarray(q["init"]["X"])).tolist())
        return q

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        box = []

        def scratch():
            if not box:
                box.append(tempfile.mkdtemp(prefix="dst29"))
            return box[0]
        try:
            self.go(c, p, sc, st, scratch)
        finally:
            for b in box:
                shutil.rmtree(b, ignore_errors=True)

    def go(self, c, p, sc, st, scratch):
        q = whole_params(p) if sc["whole"] else p
        if q != p or json.dumps(q) != json.dumps(p):
            st.fault("whole-number-arguments")
        sess, rngs = [], []
        for pp in (p, q):
            kernel.rng_seed(sc["seed"])
            sess.append(catalog.Session(c, pp))
            rngs.append(kernel.rng_save())
        if sess[0].err:
            return
        if sess[1].err:
            raise Violation("depends-on-encoding", c.name, "cannot be built from whole-number arguments: %s" % sess[1].err)
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            vals = []
            for i in (0, 1):
                kernel.rng_load(rngs[i])
                x = None
                if i:
                    if isinstance(c.x([0.0]), np.ndarray) and not c.scalar_x:
                        x = encode(e["enc"], e["x"], scratch)
                    else:
                        x = encode_scalar(e["enc"], float(e["x"][0]))
                vals.append(sess[i].do(e, x))
                rngs[i] = kernel.rng_save()
            st.fault("encoding-" + e["enc"])
            st.checks += 1
            st.state(c.name, e["enc"], e["op"], min(sess[0].nfit, 40))
            if vals[0] != vals[1]:
                raise Violation("depends-on-encoding", c.name, "%s of %r (%s) after %d fits: %r as plain float64, %r as encoded"
                                % (e["op"], e["x"], e["enc"], sess[0].nfit, vals[0], vals[1]))


PROP = C29()
