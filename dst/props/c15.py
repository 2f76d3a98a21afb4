"""C15: whatever the random choices, forests and sketches count exactly what they were fed."""
import copy
import itertools
import math
import pickle

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation, scalar

MINS, MAXES = -8.013, 9.037     # no half-space boundary coincides with a generated value


def eq(a, b):
    return a is not None and a == a and abs(a - b) <= 1e-9 * (1.0 + abs(b))


# ------------------------------------------------------------------ half-space trees, by definition
class Tree:
    """One possible tree: qs[i] is the split attribute of internal node i (heap order)."""

    def __init__(self, qs, depth, d, lo=MINS, hi=MAXES, right=False):
        self.qs, self.depth, self.d, self.lo, self.hi = qs, depth, d, lo, hi
        self.right = right      # the side on which an instance exactly on a boundary lies

    def path(self, x):
        lo, hi = [self.lo] * self.d, [self.hi] * self.d
        i, out = 0, [0]
        for _ in range(self.depth):
            q = self.qs[i]
            mid = (lo[q] + hi[q]) / 2.0
            if x[q] > mid or (self.right and x[q] == mid):
                lo[q] = mid
                i = 2 * i + 2
            else:
                hi[q] = mid
                i = 2 * i + 1
            out.append(i)
        return out

    def score(self, x, ref):
        """Sum over the path of (mass of the reference window in the node) * 2^level."""
        px = self.path(x)
        tot = 0
        for k, node in enumerate(px):
            tot += sum(1 for p in ref if p[k] == node) * 2 ** k
        return float(tot)


class Stub(np.random.RandomState):
    """Random source whose uniform draw is always the same fraction of its range: every tree makes the same cuts."""
    u = 0.5

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * Stub.u


class C15(Prop):
    id = "C15"
    runs = dict(quick=20000, thorough=300000)
    rule = ("Streams built so that the score does not depend on which random choices were made (one-dimensional or small half-space trees by "
            "elimination over all possible trees, well separated values for grids, identical cuts in all random cut trees), delivered with losses, "
            "duplicates and reordering and interleaved with polls, batch calls and restarts; every score must equal the count-based reference. "
            "Replicas with the same draws and permuted or doubled windows must agree.")
    state_measure = "distinct (kind, position in window, windows completed, rounded score) tuples"

    def gen(self, rng, tier, idx):
        kind = rng.wpick([("hst1", 3), ("hstd", 2), ("hstperm", 1.5), ("rs", 2), ("rs1", 1), ("xs2", 2.5), ("xsperm", 1), ("rrcf", 3), ("random", 0.4)])
        p = dict(kind=kind, w=rng.int(1, 9), d=1)
        n = rng.wpick([(rng.int(3, 15), 3), (rng.int(15, 50), 3), (rng.int(50, 120), 1), (rng.int(200, 700), 0.03)])
        if kind == "hst1":
            p.update(nt=rng.int(1, 4), depth=rng.int(0, 6), init=rng.int(1, 12) if rng.chance(0.3) else 0)
        elif kind == "hstd":
            p.update(d=rng.int(2, 3), nt=1, depth=rng.int(0, 2))
            if p["d"] == 2:
                p["nt"], p["depth"] = rng.pick([(1, 3), (1, 2), (2, 1), (2, 2), (1, 1)])
        elif kind == "hstperm":
            p.update(d=rng.int(1, 4), nt=rng.int(1, 4), depth=rng.int(0, 5), w=rng.int(2, 9))
        elif kind == "rs":
            p.update(d=rng.int(1, 5), m=rng.int(1, 6), nh=rng.int(1, 3), decay=rng.pick([0.015, 0.1, 0.5, 1.5]), s=rng.int(1, 30), nv=rng.int(1, 5))
        elif kind == "rs1":
            p.update(d=rng.int(2, 3), m=1, nh=rng.int(1, 2), decay=rng.pick([0.015, 0.1, 0.5]), s=rng.int(1, 30), nv=rng.int(2, 3))
        elif kind in ("xs2", "xsperm"):
            p.update(d=rng.int(4, 8) if kind == "xs2" else rng.int(1, 4), k=rng.int(1, 4), nc=rng.int(1, 5), depth=rng.int(1, 6), w=rng.int(2, 9))
            p["g"] = [float(rng.pick([1, -1, 2, -2])) for _ in range(p["d"])]
        elif kind == "rrcf":
            p.update(d=rng.int(1, 3), nt=rng.int(1, 4), w=rng.int(1, 10))
        if kind in ("hst1", "xs2", "rrcf", "hstperm", "xsperm") and rng.chance(0.04):   # longer windows
            p["w"] = rng.int(10, 40)
            n = rng.int(60, 200)
        if kind in ("hst1", "hstd", "hstperm"):   # aligned: instances may lie exactly on a boundary
            p["lo"], p["hi"] = rng.pick([(MINS, MAXES), (-8.0, 8.0), (-8.0, 9.0)])
        net = world.Net(rng)
        dl, lost, mode = world.deliveries(rng, n, p["d"], net=net, lim=(-8.0, 9.0) if kind != "rrcf" else None,
                                          mode=rng.pick(["dyadic", "gauss", "few", "walk", "two", "const"]))
        ev = []
        for (t, x, y, f) in dl:
            lv = [rng.int(0, 99) for _ in range(p["d"])]
            if f and "dup" in f and ev:
                lv = [e for e in ev if e["op"] != "restart"][-1]["lv"]
            ev.append(dict(t=t, op=rng.pick(["fit", "fitread"]), x=x, lv=lv, u=rng.random(), batch=rng.chance(0.1), f=f))
            while rng.chance(0.35):
                ev.append(dict(t=t, op="read", x=rng.pick(dl)[1] if rng.chance(0.7) else [v + 0.25 for v in x], lv=[rng.int(0, 99) for _ in range(p["d"])],
                               u=rng.random(), batch=rng.chance(0.1), f=[]))
            if rng.chance(0.02):
                ev.append(dict(t=t, op="restart", x=x, lv=lv, u=0.5, batch=False, f=[]))
        return dict(component=kind, params=p, seed=rng.int(0, 10**6), lost=lost, events=ev)

    def simplify(self, sc):
        return []

    def run(self, sc, st):
        p = sc["params"]
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        kernel.rng_seed(sc["seed"])
        keep = (np.random.uniform, np.random.mtrand._rand, np.random.RandomState)
        try:
            getattr(self, p["kind"])(sc, p, sc["events"], st)
        finally:
            np.random.uniform, np.random.mtrand._rand, np.random.RandomState = keep

    def step(self, o, e, x, st, name):
        """Executes one event on the real component: returns (object, value or None)."""
        st.ops += 1
        tally(st, e)
        st.components.add(name)
        op = e["op"]
        try:
            if op == "restart":
                st.fault("restart")
                return pickle.loads(pickle.dumps(o)), None
            if e["batch"]:
                st.fault("batch-call")
                X = np.array([x], dtype=np.float64)
                r = o.fit(X) if op == "fit" else (o.fit_score(X) if op == "fitread" else o.score(X))
            else:
                x = np.array(x, dtype=np.float64)
                r = o.fit_partial(x) if op == "fit" else (o.fit_score_partial(x) if op == "fitread" else o.score_partial(x))
        except Exception as ex:
            raise Violation("raises", name, "%s raised %r" % (op, ex))
        return o, (None if op == "fit" else scalar(r))

    # --- HalfSpaceTrees ----------------------------------------------------------
    def hst_make(self, p, **kw):
        from pysad.models import HalfSpaceTrees as C
        a = dict(feature_mins=np.array([p["lo"]] * p["d"]), feature_maxes=np.array([p["hi"]] * p["d"]), window_size=p["w"],
                 num_trees=p["nt"], max_depth=p["depth"])
        a.update(kw)
        return C(**a)

    def hst1(self, sc, p, ev, st):
        self._hst(sc, p, ev, st, [[0] * (2 ** p["depth"])])

    def hstd(self, sc, p, ev, st):
        m = 2 ** p["depth"] - 1
        self._hst(sc, p, ev, st, [list(q) for q in itertools.product(range(p["d"]), repeat=m)])

    def _hst(self, sc, p, ev, st, qss):
        k = len(qss)
        trees = [Tree(q, p["depth"], p["d"], p["lo"], p["hi"], right) for right in (False, True) for q in qss]
        name = "HalfSpaceTrees"
        hist = []
        init = [[-7.0 + ((i * 5 + j * 3) % 15) for j in range(p["d"])] for i in range(p.get("init", 0))]
        o = self.hst_make(p, initial_window_X=np.array(init)) if init else self.hst_make(p)
        combos = [c for b in (0, k) for c in itertools.combinations_with_replacement(range(b, b + k), p["nt"])]
        paths = [[t.path(x) for x in init] for t in trees]
        n = len(init)
        for e in ev:
            o, v = self.step(o, e, e["x"], st, name)
            if e["op"] in ("fit", "fitread"):
                for t, ps in zip(trees, paths):
                    ps.append(t.path(e["x"]))
                n += 1
            if v is None:
                if e["op"] in ("read", "fitread"):
                    raise Violation("wrong-count", name, "no single score")
                continue
            full = n // p["w"]
            a, b = (0, n) if full == 0 else ((full - 1) * p["w"], full * p["w"])
            ref = [t.score(e["x"], ps[a:b]) for t, ps in zip(trees, paths)]
            st.checks += 1
            st.state(p["kind"], n % p["w"], min(full, 9), round(v, 3))
            left = [c for c in combos if eq(-v, sum(ref[i] for i in c))]
            if not left:
                raise Violation("wrong-count", name, "score %r of %r after %d fits (window %d, depth %d, %d trees): %s" % (
                    v, e["x"], n, p["w"], p["depth"], p["nt"],
                    "expected %r" % -sum(ref[i] for i in combos[0]) if len(set(sum(ref[i] for i in c) for c in combos)) == 1 else "no possible set of trees has given this and the earlier scores"))
            combos = left

    def hstperm(self, sc, p, ev, st):
        self._perm(sc, p, ev, st, "HalfSpaceTrees", lambda **kw: self.hst_make(p, **kw), True)

    def _perm(self, sc, p, ev, st, name, make, doubled):
        kernel.rng_seed(sc["seed"])
        a = make()
        kernel.rng_seed(sc["seed"])
        b = make()
        c = None
        if doubled:
            kernel.rng_seed(sc["seed"])
            c = make(window_size=2 * p["w"])
        xs = [e["x"] for e in ev if e["op"] in ("fit", "fitread")]
        probes = [np.array(e["x"]) for e in ev if e["op"] == "read"][:6] + [np.array(x) for x in xs[:2]]
        prng = kernel.Rng(sc["seed"])
        for e in ev:
            tally(st, e)
        for k in range(len(xs) // p["w"]):
            win = xs[k * p["w"]:(k + 1) * p["w"]]
            per = list(win)
            prng.shuffle(per)
            for x in win:
                a.fit_partial(np.array(x))
                if c is not None:
                    c.fit_partial(np.array(x))
                    c.fit_partial(np.array(x))
            for x in per:
                b.fit_partial(np.array(x))
                if prng.chance(0.2):
                    b.score_partial(np.array(x))
            st.fault("permuted-window")
            st.ops += 3 * len(win)
            st.components.add(name)
            for q in probes:
                u, v = scalar(a.score_partial(q.copy())), scalar(b.score_partial(q.copy()))
                st.checks += 1
                st.state(p["kind"], k, round(u or 0.0, 3))
                if u is None or v is None or not eq(u, v):
                    raise Violation("order-counts", name, "score of %r after window %d: %r, with the windows' instances in another order %r" % (q.tolist(), k, u, v))
                if c is not None:
                    z = scalar(c.score_partial(q.copy()))
                    if z is None or not eq(z, 2 * u):
                        raise Violation("wrong-count", name, "score of %r after window %d: %r, with every instance delivered twice %r" % (q.tolist(), k, u, z))

    # --- RSHash -----------------------------------------------------------------
    def rs_make(self, p):
        from pysad.models import RSHash as C
        return C(feature_mins=np.array([-20.0] * p["d"]), feature_maxes=np.array([20.0] * p["d"]), sampling_points=p["s"], decay=p["decay"],
                 num_components=p["m"], num_hash_fns=p["nh"])

    def rs(self, sc, p, ev, st):
        self._rs(sc, p, ev, st, [tuple(range(p["d"]))], lambda e: [2.5 * (e["lv"][0] % p["nv"]) - 4.0] * p["d"])

    def rs1(self, sc, p, ev, st):
        dims = range(p["d"])
        self._rs(sc, p, ev, st, [s for r in range(1, p["d"] + 1) for s in itertools.combinations(dims, r)],
                 lambda e: [2.5 * (v % p["nv"]) - 4.0 for v in e["lv"]])

    def _rs(self, sc, p, ev, st, spaces, val):
        name = "RSHash"
        o = self.rs_make(p)
        hist = []
        alive = spaces
        for e in ev:
            x = val(e)
            if e["op"] == "read" and not hist:
                continue
            o, v = self.step(o, e, x, st, name)
            if e["op"] in ("fit", "fitread"):
                hist.append(x)
            if e["op"] not in ("read", "fitread"):
                continue
            st.checks += 1
            n = len(hist) - 1
            want = {}
            for s in alive:
                c = math.fsum(2.0 ** (-p["decay"] * (n - i)) for i in range(n) if all(hist[i][j] == hist[n][j] for j in s))
                want[s] = math.log(1.0 + c)
            st.state(p["kind"], min(n, 50), round(v or 0.0, 3))
            left = [s for s in alive if v is not None and eq(v, want[s])]
            if not left:
                raise Violation("wrong-count", name, "score %r after %d fits, decayed count gives %r (decay %r)" % (v, n + 1, sorted(set(want.values())), p["decay"]))
            alive = left

    # --- xStream ----------------------------------------------------------------
    def xs_make(self, p):
        from pysad.models import xStream as C
        return C(num_components=p["k"], n_chains=p["nc"], depth=p["depth"], window_size=p["w"])

    def xs2(self, sc, p, ev, st):
        from pysad.transform.projection import StreamhashProjector
        name = "xStream"
        c = np.asarray(StreamhashProjector(num_components=p["k"]).fit_transform_partial(np.array(p["g"]))).reshape(-1)
        if np.min(np.abs(c)) < 0.2:
            st.probe("projection-degenerate")
            return
        kernel.rng_seed(sc["seed"])
        o = self.xs_make(p)
        lv = (-30.0, 31.0, 95.0)
        hist = []
        for e in ev:
            k = e["lv"][0] % 2 if e["op"] != "read" else e["lv"][0] % 3
            x = [lv[k] * g for g in p["g"]]
            o, v = self.step(o, e, x, st, name)
            if e["op"] in ("fit", "fitread"):
                hist.append(k)
            if e["op"] not in ("read", "fitread"):
                continue
            full = len(hist) // p["w"]
            if full == 0:
                n = hist.count(k)
            else:
                wins = [hist[i * p["w"]:(i + 1) * p["w"]] for i in range(full)]
                if full < 2 or len(set(wins[-1])) != len(set(wins[-2])):
                    continue    # the grid was resized in between: counts of the two grids are not comparable
                n = wins[-1].count(k)
            st.checks += 1
            want = -(math.log2(1.0 + n) + 1.0)
            st.state(p["kind"], len(hist) % p["w"], min(full, 9), round(want, 3))
            if v is None or not eq(v, want):
                raise Violation("wrong-count", name, "score %r after %d fits (window %d): the reference window holds %d equal instances, expected %r"
                                % (v, len(hist), p["w"], n, want))

    def xsperm(self, sc, p, ev, st):
        self._perm(sc, p, ev, st, "xStream", lambda **kw: self.xs_make(p), False)

    # --- RobustRandomCutForest ------------------------------------------------------
    def rrcf(self, sc, p, ev, st):
        import rrcf as lib
        from pysad.models import RobustRandomCutForest as C
        name = "RobustRandomCutForest"
        stub = Stub(1)
        np.random.mtrand._rand = stub
        np.random.RandomState = Stub
        np.random.uniform = stub.uniform
        o = C(num_trees=p["nt"], shingle_size=4, tree_size=p["w"])
        ref = lib.RCTree(random_state=stub)
        n = 0
        for e in ev:
            if e["op"] == "restart" or (e["op"] == "read" and n == 0):
                continue
            Stub.u = 0.02 + 0.96 * e["u"]
            o, v = self.step(o, e, e["x"], st, name)
            x = np.array(e["x"], dtype=np.float64)
            if e["op"] in ("fit", "fitread"):
                if n >= p["w"]:
                    ref.forget_point(n - p["w"])
                ref.insert_point(x, index=n)
                n += 1
            if e["op"] not in ("read", "fitread"):
                continue
            st.checks += 1
            t = copy.deepcopy(ref)
            t.rng = stub
            leaf = t.find_duplicate(x)
            if leaf is None:
                leaf = t.insert_point(x, index="probe")
            want = float(t.codisp(leaf))
            st.state(p["kind"], min(n, 30), round(want, 3))
            if v is None or not eq(v, want):
                raise Violation("wrong-count", name, "score %r of %r after %d fits, displacement among the last %d is %r" % (v, e["x"], n, p["w"], want))

    # --- RandomModel ------------------------------------------------------------
    def random(self, sc, p, ev, st):
        from pysad.models import RandomModel as C
        o = C()
        vals = []
        for e in ev:
            o, v = self.step(o, e, e["x"], st, "RandomModel")
            if e["op"] in ("read", "fitread"):
                st.checks += 1
                if v is None or not (0.0 <= v < 1.0):
                    raise Violation("not-uniform", "RandomModel", "score %r" % v)
                vals.append(v)
        while len(vals) < 400:
            vals.append(scalar(o.score_partial(np.zeros(1))))
        if len(set(vals)) != len(vals):
            raise Violation("not-uniform", "RandomModel", "repeated draws")
        m = sum(vals) / len(vals)
        c = sum((a - m) * (b - m) for a, b in zip(vals, vals[1:])) / len(vals)
        q = [sum(1 for v in vals if int(v * 4) == j) / len(vals) for j in range(4)]
        if abs(m - 0.5) > 0.12 or abs(c) > 0.04 or min(q) < 0.08:
            raise Violation("not-uniform", "RandomModel", "mean %r, lag covariance %r, quartiles %r" % (m, c, q))


PROP = C15()
