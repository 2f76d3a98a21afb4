"""C11: the data loader returns exactly what is on the (simulated, faulty) disk, or raises."""
import errno
import io
import os
import shutil
import tempfile

import numpy as np

from .base import Prop
from .. import disk, kernel
from ..kernel import Violation


def table(rng):
    n = rng.wpick([(1, 2), (2, 2), (rng.int(3, 8), 4), (rng.int(8, 30), 1), (rng.int(30, 400), 0.06),
                   (rng.pick([1000, 1001, 1024, 1025, rng.int(1000, 4200)]), 0.006)])
    d = rng.wpick([(rng.int(1, 5), 9), (rng.int(6, 40), 0.7)]) if n <= 30 else rng.int(1, 3)
    lab = rng.wpick([("01", 6), ("int", 1), ("dec", 1)])
    style = rng.pick(["int", "dec", "sci", "neg"])

    def v():
        if style == "int":
            return float(rng.int(0, 99))
        if style == "dec":
            return rng.int(-9999, 9999) / 64.0
        if style == "sci":
            return rng.gauss(0, 1) * 10.0 ** rng.int(-9, 9)
        return -rng.random()
    return [[v() for _ in range(d)] + [float(rng.int(0, 1)) if lab == "01" else float(rng.int(-3, 300)) if lab == "int" else rng.int(-99, 99) / 8.0] for _ in range(n)]


class C11(Prop):
    id = "C11"
    runs = dict(quick=24000, thorough=360000)
    rule = ("A loader works on files of a simulated disk that are written, rewritten (keeping size and time stamps), truncated, removed and restored "
            "while reads are short, interrupted or fail; each load must return exactly the current rows and labels or raise, "
            "faults must surface as errors, and retries after the fault must succeed.")
    state_measure = "distinct (format, rows, columns, operation, fault outcome) tuples at loads"
    stubs = "raw file layer (short reads, EINTR, EIO, open errors); np.loadtxt, scipy.io.loadmat and Data are real"

    def gen(self, rng, tier, idx):
        files = [rng.pick(["a.txt", "a.csv", "data", "sub/a.txt", "pima-indians_sampled.txt"]), "b.txt", rng.pick(["c.mat", "c.mat", "satimage-2.mat", "sub/c d.mat"])]
        mat = lambda: rng.pick([None, "row", "int", "zip"])
        ev = [dict(op="write", base=0, f=f, rows=table(rng), mat=mat()) for f in files]
        for _ in range(rng.int(3, 16)):
            f = rng.pick(files)
            base = rng.pick([0, 0, 1])
            r = rng.random()
            if r < 0.14:
                ev.append(dict(op="write", base=base, f=f, rows=table(rng), stamp=rng.chance(0.5), mat=mat()))
            elif r < 0.24:
                ev.append(dict(op="patch", base=base, f=f, i=rng.int(0, 40), j=rng.int(0, 9), swap=rng.chance(0.4)))
            elif r < 0.30:
                ev.append(dict(op="remove", base=base, f=f))
            elif r < 0.36:
                ev.append(dict(op="cut", base=base, f=rng.pick(files[:2]), row=rng.int(0, 40), keep=rng.int(1, 3), junk=rng.pick([None, None, "", "x1", "\x00\x00", "1.5.2", " "])))
            elif r < 0.38:
                ev.append(dict(op="trunc", base=base, f=files[2], frac=rng.random() * 0.5))
            elif r < 0.43:
                ev.append(dict(op="iter", base=base, f=f, shuffle=rng.chance(0.4)))
            elif r < 0.49:
                ev.append(dict(op="drain", i=rng.int(0, 3)))
            elif r < 0.53:
                ev.append(dict(op="scribble"))
            else:
                plan = []
                kind = rng.wpick([("none", 3), ("short", 3), ("eio", 2), ("open", 1)])
                if kind in ("short", "eio"):
                    for _ in range(rng.int(1, 12)):
                        plan.append(rng.pick([["short", rng.int(1, 9)], ["eintr"], ["ok"]]))
                if kind == "eio":
                    plan.insert(rng.int(0, len(plan)), ["eio"])
                ev.append(dict(op="load", base=base, f=f, plan=plan, err=rng.pick([errno.EACCES, errno.EMFILE, errno.EIO]) if kind == "open" else None,
                               retry=rng.chance(0.7)))
        return dict(component="Data", events=ev, sep=rng.pick([",", ",", ", "]), nl=rng.chance(0.8), crlf=rng.chance(0.15))

    def simplify(self, sc):
        return []

    def run(self, sc, st):
        tmp = tempfile.mkdtemp(prefix="dst-c11-")
        try:
            self._run(sc, st, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def _run(self, sc, st, tmp):
        from pysad.utils import Data
        from scipy.io import savemat
        bases = [os.path.join(tmp, "d0"), os.path.join(tmp, "d1")]
        for b in bases:
            os.makedirs(os.path.join(b, "sub"))
        eol = "\r\n" if sc.get("crlf") else "\n"
        loaders = [Data(b) for b in bases]
        st.components.add("Data")
        model = {}            # (base, file) -> rows | "broken" ; absent: no file
        last = None
        its = []

        def put(base, f, rows, stamp=False):
            path = os.path.join(bases[base], f)
            old = os.stat(path) if os.path.exists(path) else None
            if f.endswith(".mat"):
                A = np.array(rows)
                bio = io.BytesIO()
                X, y = A[:, :-1], A[:, -1:]
                if e.get("mat") == "row":
                    y = y.T
                elif e.get("mat") == "int":
                    y = y.astype(np.int64) if (y == np.round(y)).all() else y
                    X = X.astype(np.int32) if (X == np.round(X)).all() and np.abs(X).max() < 2.0 ** 30 else X
                elif e.get("mat") == "zip":
                    pass
                savemat(bio, {"X": X, "y": y, "extra": np.arange(3.0)}, do_compression=e.get("mat") == "zip")
                data = bio.getvalue()
            else:
                data = (eol.join(sc["sep"].join(repr(v) for v in r) for r in rows) + (eol if sc["nl"] else "")).encode()
            with open(path, "wb") as h:
                h.write(data)
            if stamp and old is not None:
                os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
                st.fault("rewrite-keeping-mtime")
            model[(base, f)] = rows

        def compare(got, rows, f, what):
            X, y = got
            A = np.array(rows)
            X, y = np.asarray(X), np.asarray(y)
            st.checks += 1
            if X.shape != A[:, :-1].shape or y.shape != (len(rows),):
                raise Violation("wrong-shape", "Data", "%s of %s: X %r, y %r for %d rows of %d columns"
                                % (what, f, X.shape, y.shape, A.shape[0], A.shape[1]))
            X, y = X.astype(np.float64), y.astype(np.float64)
            if not (np.allclose(X, A[:, :-1], rtol=1e-13, atol=0) and np.allclose(y, A[:, -1], rtol=1e-13, atol=0)):
                raise Violation("wrong-contents", "Data", "%s of %s returned %r, the file holds %r"
                                % (what, f, np.column_stack([X, y]).tolist(), rows))
        with disk.SimDisk(tmp) as dk:
            for e in sc["events"]:
                st.ops += 1
                op = e["op"]
                if op == "write":
                    put(e["base"], e["f"], e["rows"], e.get("stamp"))
                    continue
                if op == "scribble":
                    if last is not None:
                        try:
                            for a in last:
                                a[...] = 77
                        except (ValueError, TypeError, OverflowError):
                            continue     # the caller cannot write into it: nothing to worry about
                        st.fault("caller-overwrites-result")
                    continue
                if op == "drain":
                    if its:
                        a = its[e["i"] % len(its)]
                        if not a["done"]:
                            a["done"] = True
                            got = list(a["it"])
                            rows = [tuple(r) for r in a["rows"]]
                            g = [tuple(np.asarray(x, dtype=np.float64).tolist()) + (float(y),) for x, y in got]
                            st.checks += 1
                            if (sorted(g) != sorted(rows)) if a["shuffle"] else (g != rows):
                                raise Violation("wrong-contents", "Data", "iterator created over %r delivered %r" % (rows, g))
                    continue
                key = (e["base"], e["f"])
                path = os.path.join(bases[e["base"]], e["f"])
                if op == "remove":
                    if os.path.exists(path):
                        os.unlink(path)
                        st.fault("file-removed")
                    model.pop(key, None)
                    continue
                if op == "patch":
                    rows = model.get(key)
                    if isinstance(rows, list):
                        rows = [list(r) for r in rows]
                        i, j = e["i"] % len(rows), e["j"] % len(rows[0])
                        v = rows[i][j]
                        if e.get("swap") and len(rows) > 1:      # same size, rows in another order
                            rows[i], rows[i - 1] = rows[i - 1], rows[i]
                        rows[i][j] = 1.0 - v if v in (0.0, 1.0) else -v if v < 0 else v
                        put(e["base"], e["f"], rows, True)
                    continue
                if op == "cut":
                    rows = model.get(key)
                    if isinstance(rows, list) and len(rows) >= 2 and len(rows[0]) >= 2:
                        lines = open(path, "rb").read().decode().split("\n")
                        i = e["row"] % len(rows)
                        cols = lines[i].split(",")
                        if e.get("junk") is not None:      # a field lost or garbled on the way to the disk
                            cols[e["keep"] % len(cols)] = e["junk"]
                            lines[i] = ",".join(cols)
                        else:
                            lines[i] = ",".join(cols[:1 + (e["keep"] - 1) % (len(cols) - 1)])
                        with open(path, "wb") as h:
                            h.write("\n".join(lines).encode())
                        model[key] = "broken"
                        st.fault("torn-row" if e.get("junk") is None else "garbled-field")
                    continue
                if op == "trunc":
                    if isinstance(model.get(key), list):     # a lost tail: neither variable can be complete
                        size = os.path.getsize(path)
                        with open(path, "rb") as h:
                            whole = h.read()
                        with open(path, "wb") as h:
                            h.write(whole[:int(size * e["frac"])])
                        model[key] = "broken"
                        st.fault("lost-tail")
                    continue
                ld = loaders[e["base"]]
                rows = model.get(key)
                if op == "iter":
                    if isinstance(rows, list):
                        try:
                            it = ld.get_iterator(e["f"], shuffle=e["shuffle"])
                        except Exception as ex:
                            raise Violation("raises", "Data", "get_iterator(%s) raised %r" % (e["f"], ex))
                        its.append(dict(it=it, rows=rows, shuffle=e["shuffle"], done=False))
                    continue
                for attempt in range(2 if e["retry"] else 1):
                    if attempt == 0:
                        dk.plan, dk.open_error = [list(a) for a in e["plan"]], e["err"]
                    else:
                        dk.plan, dk.open_error = [], None
                        st.fault("retry")
                    dk.log = []
                    try:
                        got, ex = ld.get_data(e["f"]), None
                    except Exception as err:
                        got, ex = None, err
                    dk.plan, dk.open_error = [], None
                    for l in dk.log:
                        st.fault(l)
                    hard = any(l == "eio" or l.startswith("open-") for l in dk.log)
                    st.state(e["f"][-3:], 0 if not isinstance(rows, list) else min(len(rows), 9), hard, ex is None, attempt)
                    st.checks += 1
                    if rows is None or rows == "broken":
                        if ex is None:
                            raise Violation("fault-hidden", "Data", "%s file %s loaded as %r"
                                            % ("missing" if rows is None else "torn", e["f"], np.asarray(got[0]).tolist()))
                        if rows is None:
                            st.fault("enoent")
                    elif hard:
                        if ex is None:
                            # a failed read may be retried inside, but then the contents must be right
                            compare(got, rows, e["f"], "load with a failed read")
                    elif ex is not None:
                        raise Violation("raises", "Data", "loading %s (%d rows) raised %r under %r" % (e["f"], len(rows), ex, dk.log))
                    else:
                        compare(got, rows, e["f"], "load")
                        last = got


PROP = C11()
