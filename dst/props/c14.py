"""C14: deterministic detectors refine small executable reference models on every history."""
import math
import pickle

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, refs, world
from ..kernel import Violation, scalar


class Unclear(Exception):
    """The reference's own value depends on rounding here: nothing can be said from now on."""


def among(v, lo, hi):
    return v is not None and v == v and lo <= v <= hi


class Ref:
    def __init__(self, p):
        self.p = p
        self.h = []

    def fit(self, x, y):
        self.h.append([float(v) for v in x])

    def read(self, x):
        raise NotImplementedError

    def fitread(self, x, y):
        self.fit(x, y)
        return self.read(x)


def rng_of(v, rel=1e-9, ab=1e-12):
    t = rel * abs(v) + ab
    return (v - t, v + t)


class RExactStorm(Ref):
    def read(self, x):
        win = self.h[-self.p["w"]:][:-1]
        if not win:
            return (0.0, 0.0)
        n = 0
        amb = 0
        for v in win:
            d = math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(v, x)))
            if abs(d - self.p["r"]) < 1e-9 * (1 + d):
                amb += 1
            elif d < self.p["r"]:
                n += 1
        return (n / len(win) - 1e-12, (n + amb) / len(win) + 1e-12)


class RMAD(Ref):
    def __init__(self, p):
        super().__init__(p)
        self.dev = []

    def fit(self, x, y):
        super().fit(x, y)
        v = [a[0] for a in self.h]
        self.dev.append(abs(x[0] - refs.median(v)))

    def read(self, x):
        v = [a[0] for a in self.h]
        s = (x[0] - refs.median(v)) / (self.p["b"] * refs.median(self.dev) + 1e-10)
        return rng_of(abs(s) if self.p["a"] else s, 1e-9, 1e-9 * max(1.0, abs(x[0])))


class RSAD(Ref):
    def read(self, x):
        v = [a[0] for a in self.h]
        M = max(abs(a) for a in v) + abs(x[0])
        sub = refs.mean(v) if self.p["s"] == "mean" else refs.median(v)
        var = refs.var(v)
        tv, ts = refs.tol("VarianceMeter", M, 2 * len(v)), refs.tol("AverageMeter", M, 2 * len(v))
        nums = (x[0] - sub - ts, x[0] - sub + ts)
        dens = (math.sqrt(max(0.0, var - tv)) + 1e-10, math.sqrt(var + tv) + 1e-10)
        c = [a / b for a in nums for b in dens]
        lo, hi = min(c), max(c)
        if self.p["a"]:
            lo, hi = (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi))
        return (lo - 1e-9 * (1 + abs(lo)), hi + 1e-9 * (1 + abs(hi)))


class RRelEnt(Ref):
    first = None

    def hist(self, win):
        p = self.p
        n, step = p["nb"], (p["hi"] - p["lo"]) / p["nb"]
        c = [0] * n
        for v in win:
            q = (v - p["lo"]) / step
            if abs(q - round(q)) < 1e-9:
                raise Unclear
            c[min(n - 1, max(0, math.ceil(q)))] += 1
        return [a / len(win) for a in c]

    def fit(self, x, y):
        super().fit(x, y)
        if len(self.h) >= self.p["w"]:
            self.cur = self.hist([a[0] for a in self.h[-self.p["w"]:]])
            if self.first is None:
                self.first = self.cur

    def read(self, x):
        if len(self.h) < self.p["w"]:
            return (0.0, 0.0)
        from scipy import stats
        T = stats.chi2.isf(0.01, self.p["nb"] - 1)
        e = 0.0
        for a, b in zip(self.cur, self.first):
            if a > 0:
                e += a * math.log(a / b) if b > 0 else math.inf
        e *= 2 * self.p["w"]
        if abs(e - T) < 1e-9 * T:
            raise Unclear
        return (0.0, 0.0) if e < T else (-1.0, -1.0)


class RKNNCAD(Ref):
    def __init__(self, p):
        super().__init__(p)
        self.tr, self.cal, self.sc = [], [], None
        self.sigma = np.eye(19)
        self.mute = 0
        self.n = 0

    def ncm(self, item, extra=0):
        D = np.array(self.tr) - np.array(item)
        d = np.einsum("ij,jk,ik->i", D, self.sigma, D)
        return float(np.sort(d)[:27 + extra].sum())

    def fit(self, x, y):
        super().fit(x, y)
        self.n += 1
        pp = self.p["pp"]
        if self.n < 19:
            return
        item = [a[0] for a in self.h[-19:]]
        self.item = item
        if self.n < pp:
            self.tr.append(item)
            return
        if self.n % pp in (0, pp // 2):
            A = np.array(self.tr)
            G = A.T @ A
            if np.linalg.cond(G) > 1e9:
                raise Unclear
            self.sigma = np.linalg.inv(G)
        if self.sc is None:
            self.sc = [self.ncm(v, 1) for v in self.tr]
        new = self.ncm(item)
        if self.n >= 2 * pp:
            self.tr = self.tr[1:] + [self.cal.pop(0)]
        self.sc = self.sc[1:] + [new]
        self.cal.append(item)

    def read(self, x):
        if self.n < self.p["pp"]:
            return (0.0, 0.0)
        new = self.ncm(self.item)
        t = 1e-6 * (abs(new) + 1e-9)
        lo = sum(1 for s in self.sc if s < new - t) / len(self.sc)
        hi = sum(1 for s in self.sc if s < new + t) / len(self.sc)
        if self.mute > 0:
            self.mute -= 1
            return (0.5, 0.5)
        if (lo >= 0.9965) != (hi >= 0.9965):
            raise Unclear
        if lo >= 0.9965:
            self.mute = self.p["pp"] // 5
        return (lo - 1e-12, hi + 1e-12)


class RESD(Ref):
    hybrid = False

    def cs(self, v):
        if self.hybrid:
            m = refs.median(v)
            return m, 1.4826 * refs.median([abs(a - m) for a in v])
        m = refs.mean(v)
        return m, math.sqrt(math.fsum((a - m) ** 2 for a in v) / (len(v) - 1))

    def window(self, win):
        from scipy.stats import t as T
        from statsmodels.tsa.seasonal import STL
        p = self.p
        if len(win) < p["w"]:
            return (0.0, 0.0)
        X = np.array(win, dtype=np.float64)
        res = (X - STL(X, period=p["per"], robust=p["robust"], **p.get("kw", {})).fit().seasonal - refs.median(win)).tolist()
        n = len(res)
        idx = list(range(n))
        cand = []
        big = max(abs(a) for a in res) + max(abs(a) for a in win)
        for i in range(1, p["k"] + 1):
            vals = [res[j] for j in idx]
            c, s = self.cs(vals)
            if 1e-13 < s < 1e-7 or (s > 1e-10 and s < 1e-7 * big):
                raise Unclear
            if s <= 1e-10:
                break
            dev = [abs(a - c) / s for a in vals]
            m = max(dev)
            if sum(1 for a in dev if a > m - 1e-7 * (1 + m)) > 1:
                raise Unclear
            q = 1.0 - p["alpha"] / (2.0 * (n - i + 1))
            tv = T.ppf(q, n - i - 1)
            lam = (n - i) * tv / math.sqrt((n - i - 1 + tv * tv) * (n - i + 1))
            if abs(m - lam) < 1e-7 * (1 + lam):
                raise Unclear
            j = dev.index(m)
            cand.append((idx[j], m, m > lam))
            del idx[j]
        last = max([i for i, a in enumerate(cand) if a[2]], default=-1)
        for i, (j, m, _) in enumerate(cand):
            if i <= last and j == n - 1:
                return rng_of(m, 1e-7, 1e-9)
        return (0.0, 0.0)

    def read(self, x):
        return self.window(([a[0] for a in self.h] + [x[0]])[-self.p["w"]:])

    def fitread(self, x, y):
        self.fit(x, y)
        return self.window([a[0] for a in self.h[-self.p["w"]:]])


class RHybrid(RESD):
    hybrid = True


class _AE:
    """Tied-weight autoencoder with running 0-1 normalisation."""

    def __init__(self, n, lr, hr):
        self.lr = lr
        m = int(math.ceil(n * hr))
        self.W = np.random.RandomState(1234).uniform(low=-1.0 / n, high=1.0 / n, size=(n, m))
        self.bh, self.bv = np.zeros(m), np.zeros(n)
        self.hi, self.lo = np.full(n, -np.inf), np.full(n, np.inf)
        self.n = 0

    def norm(self, x):
        return (x - self.lo) / (self.hi - self.lo + 1e-16)

    def forward(self, x):
        y = 1.0 / (1.0 + np.exp(-(x @ self.W + self.bh)))
        return y, 1.0 / (1.0 + np.exp(-(y @ self.W.T + self.bv)))

    def train(self, x):
        self.n += 1
        self.hi, self.lo = np.maximum(self.hi, x), np.minimum(self.lo, x)
        x = self.norm(x)
        y, z = self.forward(x)
        e2 = x - z
        e1 = (e2 @ self.W) * y * (1 - y)
        self.W = self.W + self.lr * (np.outer(x, e1) + np.outer(e2, y))
        self.bh = self.bh + self.lr * e1.mean()
        self.bv = self.bv + self.lr * e2.mean()
        return math.sqrt((e2 ** 2).mean())

    def rmse(self, x):
        if self.n == 0:
            return 0.0
        x = self.norm(x)
        _, z = self.forward(x)
        return math.sqrt(((x - z) ** 2).mean())


class _Kit:
    def __init__(self, p, jitter):
        self.p, self.j = p, jitter
        self.fm = p["ad"] if p["fm"] is None else p["fm"]
        self.k = 0
        self.map = None
        self.xs = []

    def jit(self, s):
        return s * (1.0 + self.j) if self.j else s

    def fit(self, x):
        x = np.array(x)
        if self.k > self.fm + self.p["ad"]:
            return
        if self.map is None:
            self.xs.append(x)
            if self.k == self.fm:
                self.cluster()
        else:
            self.out.train(self.jit(np.array([a.train(x[m]) for a, m in zip(self.aes, self.map)])))
        self.k += 1

    def cluster(self):
        from scipy.cluster.hierarchy import linkage, to_tree
        n, lr, hr = self.p["d"], self.p["lr"], self.p["hr"]
        if n == 1:
            self.map = [[0]]
        else:
            c = np.zeros(n)
            R = []
            for i, x in enumerate(self.xs):
                c = c + x
                R.append(x - c / (i + 1))
            R = np.array(R)
            C = R.T @ R
            s = np.sqrt((R ** 2).sum(axis=0))
            S = np.outer(s, s)
            S[S == 0] = 1e-100
            D = np.maximum(1 - C / S, 0)
            v = np.sort(D[np.triu_indices(n, 1)])
            if len(v) > 1 and np.min(np.diff(v)) < 1e-9 * (1 + abs(v).max()):
                raise Unclear
            cap = max(1, min(self.p["m"], n))

            def cut(t):
                return [t.pre_order()] if t.count <= cap else cut(t.get_left()) + cut(t.get_right())
            self.map = cut(to_tree(linkage(D[np.triu_indices(n, 1)])))
        self.aes = [_AE(len(m), lr, hr) for m in self.map]
        self.out = _AE(len(self.map), lr, hr)

    def read(self, x):
        if self.map is None:
            return 0.0
        x = np.array(x)
        return self.out.rmse(self.jit(np.array([a.rmse(x[m]) for a, m in zip(self.aes, self.map)])))


class RKitNet(Ref):
    """Two references, one with its intermediate errors perturbed in the 12th digit: where they disagree, the
    definition itself is too sensitive to rounding to be decided."""

    def __init__(self, p):
        super().__init__(p)
        self.a, self.b = _Kit(p, 0.0), _Kit(p, 1e-12)

    def fit(self, x, y):
        self.a.fit(x)
        self.b.fit(x)

    def read(self, x):
        u, v = self.a.read(x), self.b.read(x)
        if abs(u - v) > 1e-8 * (1 + abs(u)):
            return (-math.inf, math.inf)
        return rng_of(u, 1e-6, 1e-7)


class RPerfect(Ref):
    def __init__(self, p):
        super().__init__(p)
        self.q = []

    def fit(self, x, y):
        self.q.append(y)

    def read(self, x):
        v = self.q.pop(0)
        return (v, v)


class RNull(Ref):
    def read(self, x):
        return (0.5, 0.5)


REFS = dict(ExactStorm=RExactStorm, MedianAbsoluteDeviation=RMAD, StandardAbsoluteDeviation=RSAD, RelativeEntropy=RRelEnt,
            KNNCAD=RKNNCAD, SeasonalESD=RESD, SeasonalHybridESD=RHybrid, KitNet=RKitNet, PerfectModel=RPerfect, NullModel=RNull)
WEIGHT = dict(ExactStorm=2, MedianAbsoluteDeviation=2, StandardAbsoluteDeviation=2, RelativeEntropy=2, KNNCAD=1.2, SeasonalESD=2.5,
              SeasonalHybridESD=2.5, KitNet=3, PerfectModel=1.5, NullModel=0.3)


class C14(Prop):
    id = "C14"
    runs = dict(quick=24000, thorough=360000)
    rule = ("A detector gets deliveries that were dropped, duplicated, reordered, delayed, stuck or spiked, interleaved with polls, batch calls and "
            "restarts from a checkpoint; every score must equal the one an independent reference computes from the history (skipped where the "
            "reference's own value hangs on rounding).")
    state_measure = "distinct (component, operation, fits so far, rounded score) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.REG[rng.wpick(sorted(WEIGHT.items()))]
        p = c.params(rng)
        n = catalog.length(rng, c, 90.0)
        mode = None
        if c.name in ("KNNCAD", "KitNet"):
            mode = rng.pick(["gauss", "gauss", "dyadic", "walk", "wide", None])
        if c.name == "KNNCAD":
            n = rng.int(60, 190)
        if c.name == "KitNet":
            n = rng.int(6, 45)
        if c.name.startswith("Seasonal"):
            n = max(n, p["w"] + rng.int(0, 14))
            p["alpha"] = rng.pick([0.05, 0.2, 0.5, 0.9])
            mode = rng.pick([None, "season", "gauss", "season"])
        if c.name == "RelativeEntropy":
            n = max(n, p["w"] + 5)
        dl, lost, mode = world.deliveries(rng, n, p["d"], labels=c.labels, lim=c.lim, mode=mode)
        ev = []
        style = rng.pick(["fitread", "mix", "mix"])
        recent = []
        for (t, x, y, f) in dl:
            op = "fitread" if style == "fitread" or rng.chance(0.5) else "fit"
            ev.append(dict(t=t, op=op, x=x, y=y, f=f, batch=rng.chance(0.15)))
            recent = (recent + [x])[-5:]
            while rng.chance(0.3):
                q = rng.pick(recent) if rng.chance(0.6) else [v + rng.pick([0.0, 0.5, -1.25, 3.0]) for v in x]
                if c.lim:
                    q = [min(c.lim[1], max(c.lim[0], v)) for v in q]
                ev.append(dict(t=t, op="read", x=list(q), y=None, f=[], batch=rng.chance(0.15)))
            if rng.chance(0.03):
                ev.append(dict(t=t, op="restart", x=list(x), y=None, f=[], batch=False))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=ev)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        kernel.rng_seed(sc["seed"])
        s = catalog.Session(c, p)
        if s.err:
            raise Violation("raises", c.name, "constructor raised %s" % s.err)
        ref = REFS[c.name](p)
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            op = e["op"]
            if op == "restart":
                try:
                    s.obj = pickle.loads(pickle.dumps(s.obj))
                except Exception as ex:
                    raise Violation("raises", c.name, "checkpoint: %r" % ex)
                st.fault("restart")
                continue
            if not s.allowed(op):
                continue
            x = c.x(e["x"])
            try:
                if e["batch"]:
                    Y = np.array([e["y"]]) if c.labels and op != "read" else None
                    r = catalog.batch_call(c, s.obj, op, x.reshape(1, -1), Y)
                    st.fault("batch-call")
                else:
                    r = s.raw(op, x, e["y"])
            except Exception as ex:
                raise Violation("raises", c.name, "%s after %d fits raised %r" % (op, s.nfit, ex))
            s.account(op)
            try:
                w = getattr(ref, op)(e["x"], e["y"]) if op != "read" else ref.read(e["x"])
            except Unclear:
                st.probe("rounding-sensitive")
                return
            if op == "fit":
                continue
            st.checks += 1
            v = scalar(r)
            st.state(c.name, op, min(s.nfit, 60), None if v is None or v != v else round(v, 2))
            if v is not None and abs(w[0]) != math.inf and v != 0.0:
                st.probe("nonzero-score-" + c.name)
            if not among(v, *w):
                raise Violation("wrong-score", c.name, "%s of %r after %d fits: %r, by definition within %r" % (op, e["x"], s.nfit, r, w))


PROP = C14()
