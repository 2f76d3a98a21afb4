"""C10: streamers deliver each row exactly once with its own label, under any interleaving of iterators and random draws."""
import os
import random
import shutil
import tempfile

import numpy as np

from .base import Prop
from .. import kernel
from ..kernel import Violation

SRC = ("array", "pandas", "data", "list", "series", "mat")
DT = ("f8", "f8", "int", "f4", "bool")      # element type of labels (and of whole-number rows)
IDX = ("range", "perm", "str", "same", "shift")
FILE = ("data", "mat")


def z(v):
    """NaN compares equal to itself."""
    return 1e300 if v != v else v


class C10(Prop):
    id = "C10"
    runs = dict(quick=36000, thorough=540000)
    rule = ("Two to four live iterators over shared or separate sources (arrays, lists, frames, data files) are stepped in a "
            "seeded interleaving with random draws, reseeding, abandonment, other iterators' creation and source-reuse in between. Each iterator's history must "
            "be every row exactly once with its own label, in the order determined by the generator state at its creation; sources stay unmodified.")
    state_measure = "distinct (source kind, shuffle, rows, labelled, steps interleaved) tuples at completion"

    def gen(self, rng, tier, idx):
        ns = rng.int(1, 3)
        srcs = []
        for _ in range(ns):
            n = rng.wpick([(0, 0.5), (1, 1), (rng.int(2, 6), 4), (rng.int(6, 25), 2), (rng.int(90, 300), 0.06),
                           (rng.pick([rng.int(400, 600), 999, 1000, 1001, 1024, 1025, rng.int(1500, 2500), 4097]), 0.04)])
            kind = rng.pick(SRC)
            if kind in FILE and n == 0:
                n = 1
            srcs.append(dict(kind=kind, n=n, d=rng.int(1, 3), labels=True if kind in FILE else rng.chance(0.6),
                             dup=rng.chance(0.2), nan=rng.chance(0.15), index=rng.pick(IDX), yindex=rng.pick(IDX), dt=rng.pick(DT), yframe=rng.chance(0.2)))
        ev = []
        its = 0
        for _ in range(rng.int(2, 60)):
            r = rng.random()
            if its == 0 or r < 0.12:
                s = rng.int(0, ns - 1)
                ev.append(dict(op="new", s=s, shuffle=rng.chance(0.6), seed=rng.pick([None, rng.int(0, 50)]),
                               reuse=rng.chance(0.4)))
                its += 1
            elif r < 0.22:
                ev.append(dict(op="rng", k=rng.pick(["draw", "seed", "py", "shuffle"]), v=rng.int(0, 50)))
            elif r < 0.27:
                ev.append(dict(op="abandon", i=rng.int(0, its - 1)))
            elif r < 0.31:
                ev.append(dict(op="mismatch", s=rng.int(0, ns - 1), k=rng.pick(["short", "long", "empty", "long2"]), shuffle=rng.chance(0.4)))
            else:
                ev.append(dict(op="step", i=rng.int(0, its - 1), k=rng.pick([1, 1, 1, 2, 5])))
        for i in range(its):
            ev.append(dict(op="step", i=i, k=10**6))
        return dict(component="streamers", srcs=srcs, events=ev, seed=rng.int(0, 10**6))

    def index(self, kind, n):
        if kind == "perm":
            return list(range(n))[::-1]
        if kind == "str":
            return ["r%d" % ((i * 7) % max(1, n)) for i in range(n)]
        if kind == "same":
            return [0] * n
        return list(range(1, n + 1)) if kind == "shift" else list(range(n))

    def lists(self, sc):
        return [("events",)]

    def simplify(self, sc):
        return []

    def run(self, sc, st):
        tmp = None
        try:
            if any(s["kind"] in FILE for s in sc["srcs"]):
                tmp = tempfile.mkdtemp(prefix="dst-c10-")
            self._run(sc, st, tmp)
        finally:
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)

    def _run(self, sc, st, tmp):
        import pandas as pd
        from scipy.io import savemat
        from pysad.utils import ArrayStreamer, Data, PandasStreamer, fix_seed
        srcs = []
        for j, s in enumerate(sc["srcs"]):
            n, d = s["n"], s["d"]
            rows = [[float((100 * j + (i // 2 if s["dup"] else i)) * 10 + c) for c in range(d)] for i in range(n)]
            labs = [float(i * 3 + j) for i in range(n)]
            if s["nan"]:
                for i in range(0, n, 3):
                    rows[i][i % d] = float("nan")
                    labs[i] = labs[i] if i % 2 else float("nan")
            dt = "f8" if s["nan"] and s["dt"] in ("int", "bool") else s["dt"]
            if dt == "bool":
                labs = [float(i % 3 == 0) for i in range(n)]
            xt = dict(int=np.int64, f4=np.float32).get(dt, np.float64)
            yt = dict(int=np.int64, f4=np.float32, bool=bool).get(dt, np.float64)
            rec = dict(rows=rows, labs=labs, s=s, streamers={})
            idx, yidx = self.index(s["index"], n), self.index(s["yindex"], n)
            if s["kind"] == "array":
                rec["X"], rec["y"] = np.array(rows).reshape(n, d).astype(xt), np.array(labs).astype(yt)
            elif s["kind"] == "list":
                rec["X"], rec["y"] = [[xt(v) for v in r] for r in rows], [yt(v) for v in labs]
            elif s["kind"] == "series":
                rec["X"], rec["y"] = pd.Series([r[0] for r in rows], index=idx, dtype=xt), pd.Series(labs, index=yidx, dtype=np.float64).astype(yt)
            elif s["kind"] == "pandas":
                rec["X"] = pd.DataFrame(np.array(rows).reshape(n, d).astype(xt), index=idx, columns=["f%d" % c for c in range(d)])
                rec["y"] = pd.Series(labs, index=yidx, dtype=np.float64).astype(yt)
                if s["yframe"]:
                    rec["y"] = rec["y"].to_frame("label")
            elif s["kind"] == "mat":
                savemat(os.path.join(tmp, "s%d.mat" % j), dict(X=np.array(rows).reshape(n, d), y=np.array(labs).reshape(n, 1)))
            else:
                with open(os.path.join(tmp, "s%d.txt" % j), "w") as f:
                    for r, l in zip(rows, labs):
                        f.write(",".join(repr(v) for v in r + [l]) + "\n")
            srcs.append(rec)
            st.components.add({"array": "ArrayStreamer", "list": "ArrayStreamer", "data": "Data", "mat": "Data"}.get(s["kind"], "PandasStreamer"))
        kernel.rng_seed(sc["seed"])
        its = []

        def create(rec, e, key):
            s = rec["s"]
            if s["kind"] in FILE:
                j = next(i for i, r in enumerate(srcs) if r is rec)
                if e["shuffle"] and e["seed"] is None and j % 2 == 0:      # the documented defaults
                    return iter(Data(tmp).get_iterator("s%d.%s" % (j, "txt" if s["kind"] == "data" else "mat")))
                return iter(Data(tmp).get_iterator("s%d.%s" % (j, "txt" if s["kind"] == "data" else "mat"), shuffle=e["shuffle"], seed=e["seed"]))
            cls = ArrayStreamer if s["kind"] in ("array", "list") else PandasStreamer
            so = rec["streamers"].get((e["shuffle"],)) if e["reuse"] else None
            if so is None:
                so = cls(shuffle=e["shuffle"]) if e["shuffle"] or e["s"] % 2 else cls()     # no shuffling by default
                rec["streamers"][(e["shuffle"],)] = so
            return iter(so.iter(rec["X"], rec["y"]) if s["labels"] else so.iter(rec["X"]))

        def norm(item, s):
            if s["labels"]:
                x, y = item
                return (tuple(z(v) for v in np.asarray(x, dtype=np.float64).reshape(-1).tolist()), z(float(np.asarray(y, dtype=np.float64).reshape(-1)[0])))
            return tuple(z(v) for v in np.asarray(item, dtype=np.float64).reshape(-1).tolist())

        def width(s):
            return 1 if s["kind"] == "series" else s["d"]
        for e in sc["events"]:
            st.ops += 1
            if e["op"] == "new":
                rec = srcs[e["s"]]
                # the order it would have on its own, from the same generator state
                keep = kernel.rng_save()
                try:
                    ref = [norm(it, rec["s"]) for it in create(rec, e, 0)]
                    kernel.rng_load(keep)
                    if rec["s"]["kind"] in FILE and e["seed"] is not None and e["shuffle"]:
                        st.probe("seeded_get_iterator")
                    it = create(rec, e, 0)
                except Exception as ex:
                    raise Violation("raises", rec["s"]["kind"], "creating or running an iterator raised %r" % ex)
                its.append(dict(it=it, rec=rec, e=e, got=[], done=False, ref=ref, interleaved=0, after=kernel.rng_save()))
                if rec["s"]["kind"] in FILE and e["seed"] is not None:
                    self.seeded(rec, e, create, norm, ref)
                    kernel.rng_load(its[-1]["after"])
            elif e["op"] == "rng":
                st.fault("rng-disturbed")
                if e["k"] == "draw":
                    np.random.rand(e["v"] + 1)
                elif e["k"] == "seed":
                    fix_seed(e["v"])
                elif e["k"] == "py":
                    random.random()
                else:
                    np.random.shuffle(np.arange(5))
            elif e["op"] == "abandon":
                if e["i"] < len(its) and not its[e["i"]]["done"]:
                    a = its[e["i"]]
                    a["done"] = True
                    st.fault("abandoned")
                    if hasattr(a["it"], "close"):
                        a["it"].close()
            elif e["op"] == "mismatch":
                rec = srcs[e["s"]]
                s = rec["s"]
                if s["kind"] in FILE or s["n"] < 1:
                    continue
                cls = ArrayStreamer if s["kind"] in ("array", "list") else PandasStreamer
                st.fault("length-mismatch")
                st.checks += 1
                got = []
                keep = kernel.rng_save()
                y = list(rec["labs"])
                y = dict(short=y[:-1], long=y + [1.0], empty=[], long2=y * 2)[e["k"]]
                if s["kind"] == "array":
                    y = np.array(y)
                elif s["kind"] != "list":
                    y = pd.Series(y, dtype=np.float64)
                try:
                    for it in cls(shuffle=e["shuffle"]).iter(rec["X"], y):
                        got.append(it)
                except Exception:
                    kernel.rng_load(keep)
                else:
                    raise Violation("mismatch-accepted", s["kind"], "%d rows, %d labels: %d pairs delivered" % (s["n"], len(y), len(got)))
                if got:
                    raise Violation("mismatch-accepted", s["kind"], "%d pairs delivered before refusing" % len(got))
            elif e["i"] < len(its):
                a = its[e["i"]]
                for o in its:
                    if o is not a and not o["done"] and o["got"]:
                        st.fault("interleaved-iterators")
                for _ in range(e["k"]):
                    if a["done"]:
                        break
                    try:
                        a["got"].append(norm(next(a["it"]), a["rec"]["s"]))
                    except StopIteration:
                        a["done"] = True
                        self.complete(a, st)
                    except Exception as ex:
                        raise Violation("raises", a["rec"]["s"]["kind"], "stepping raised %r" % ex)
        for a in its:   # prefixes of unfinished ones
            st.checks += 1
            if a["got"] != a["ref"][:len(a["got"])]:
                raise Violation("order-not-fixed-at-creation", a["rec"]["s"]["kind"], "delivered %r, alone %r" % (a["got"], a["ref"]))
        for rec in srcs:
            s = rec["s"]
            if s["kind"] in FILE or not s["n"]:
                continue
            st.checks += 1
            X = np.asarray(rec["X"], dtype=np.float64).reshape(s["n"], -1)
            want = np.array(rec["rows"]).reshape(s["n"], -1)[:, :width(s)]
            if not np.array_equal(X, want, equal_nan=True) or not np.array_equal(np.asarray(rec["y"], dtype=np.float64).reshape(-1), rec["labs"], equal_nan=True):
                raise Violation("source-modified", s["kind"], "source is now %r" % (X.tolist(),))

    def seeded(self, rec, e, create, norm, ref):
        """A seed given to get_iterator determines the order whatever the generator did before."""
        kernel.rng_seed(987654)
        got = [norm(it, rec["s"]) for it in create(rec, e, 0)]
        if got != ref:
            raise Violation("seed-does-not-determine-order", "data", "same seed: %r and %r" % (ref, got))

    def complete(self, a, st):
        s, e = a["rec"]["s"], a["e"]
        w = 1 if s["kind"] == "series" else s["d"]
        rows = [tuple(z(v) for v in r[:w]) for r in a["rec"]["rows"]]
        want = list(zip(rows, [z(v) for v in a["rec"]["labs"]])) if s["labels"] else rows
        st.checks += 1
        st.state(s["kind"], e["shuffle"], s["n"], s["labels"], s["index"])
        if not e["shuffle"]:
            if a["got"] != want:
                raise Violation("wrong-order", s["kind"], "unshuffled: %r instead of %r" % (a["got"], want))
        elif sorted(a["got"]) != sorted(want):
            raise Violation("not-exactly-once", s["kind"], "shuffled: %r from %r" % (a["got"], want))
        if a["got"] != a["ref"]:
            raise Violation("order-not-fixed-at-creation", s["kind"], "delivered %r, alone from the same state %r" % (a["got"], a["ref"]))
        if e["shuffle"] and a["got"] != want:
            st.probe("really_shuffled")
        elif e["shuffle"] and s["n"] >= 14:
            raise Violation("not-shuffled", s["kind"], "%d rows came in their original order although shuffled" % s["n"])


PROP = C10()
