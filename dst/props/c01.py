"""C01: tenants in one process, preempted between any two lines of library code, behave as if alone."""
import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Cancelled, Scheduler, Violation
from . import c12

FLOATY = ("X", "mins", "maxes", "init", "y")


def freeze(p):
    """Configuration arrays as ndarrays, built once and handed to every tenant of the group."""
    out = {}
    for k, v in p.items():
        if k in FLOATY and isinstance(v, list):
            v = np.array(v, dtype=np.float64)
        elif k == "init" and isinstance(v, dict):
            v = {a: None if b is None else np.array(b, dtype=np.float64) for a, b in v.items()}
        out[k] = v
    return out


def drive(c, p, task, pool, bomb, point, seed):
    """Runs one tenant's whole life; returns its list of outputs. bomb arms the cancellation."""
    out = []
    if seed is not None:
        kernel.rng_seed(seed)
    s = catalog.Session(c, p)
    out.append(("built", s.err))
    for i, e in enumerate(task["events"]):
        if point:
            point()
        if bomb is not None and task.get("cancel") and task["cancel"][0] == i:
            bomb["left"] = task["cancel"][1]
        try:
            if e["op"] == "bad":
                if s.err:
                    continue
                ex = c12.bad_call(c, s, e, task["params"])
                out.append(("bad", type(ex).__name__ if isinstance(ex, BaseException) else None))
            else:
                x = None
                if pool is not None and not c.scalar_x and c.family in ("model", "transformer", "post"):
                    key = tuple(e["x"])
                    x = pool.get(key)
                    if x is None:
                        x = pool[key] = np.array(e["x"], dtype=np.float64)
                if e.get("nan"):
                    x = np.full(task["params"]["d"], float(e["nan"])) if not c.scalar_x else float(e["nan"])
                out.append(s.do(e, x))
        except Cancelled:
            out.append("cancelled")
            if bomb is not None:
                bomb["left"] = None
                bomb["fired"] = True
            if task["after"] == "drop":
                del s
                break
        finally:
            if bomb is not None:
                bomb["left"] = None
    return out


def alone(c, p, task, seed):
    return drive(c, p, task, None, None, None, seed)


class C01(Prop):
    id = "C01"
    runs = dict(quick=2400, thorough=40000)
    batch = 1
    rule = ("Two to four tenants (mostly of the same class, often built from one shared configuration and fed shared arrays) run as real "
            "threads under a seeded baton scheduler that may switch before any line of library code; each has its own virtual random "
            "state, or all share the process's and only one may draw from it. Neighbours are cancelled inside a call or fed bad input. "
            "Every output must equal the tenant's solo run in a pristine process.")
    state_measure = "distinct (schedule trace prefix hash, components) of executed interleavings"

    def gen(self, rng, tier, idx):
        shared = rng.chance(0.35)
        n = rng.int(2, 4)
        ok = lambda c: c.threads and c.name != "IForestASD" or rng.chance(0.2)
        c0 = catalog.choose(rng, ok)
        drawn = False
        tasks, groups = [], []
        for k in range(n):
            c = c0 if (k == 0 or rng.chance(0.65)) else catalog.choose(rng, ok)
            if shared and c.uses_rng and drawn:
                c = catalog.choose(rng, lambda q: ok(q) and not q.uses_rng)
            drawn = drawn or c.uses_rng
            same = [t for t in tasks if t["component"] == c.name]
            if same and rng.chance(0.45):
                p, g = rng.pick(same)["params"], None
                g = [t["group"] for t in same if t["params"] is p][0]
                if rng.chance(0.3):
                    g = k
            elif same and rng.chance(0.6):  # a near twin: one configuration value differs
                p, q, g = dict(rng.pick(same)["params"]), c.params(rng), k
                diff = [a for a in sorted(p) if a in q and a != "d" and a not in FLOATY and p[a] != q[a]]
                if diff:
                    a = rng.pick(diff)
                    p[a] = q[a]
            else:
                p, g = c.params(rng), k
            ev, lost = c.script(rng, p, min(catalog.length(rng, c, 25.0), 30 if c.name != "KNNCAD" else 80))
            if same and rng.chance(0.5) and tasks:
                src = rng.pick(same)
                if src["params"]["d"] == p["d"]:
                    ev = [dict(e) for e in src["events"] if e["op"] != "bad" and not e.get("nan")]
            role = rng.wpick([("good", 5), ("bad", 1.5), ("nan", 0.7), ("cancel", 2)]) if k else "good"
            t = dict(component=c.name, params=p, group=g, seed=rng.int(0, 10**6), events=ev, after=rng.pick(["drop", "go"]), cancel=None)
            if role == "cancel" and ev and not (shared and c.uses_rng):
                t["cancel"] = [rng.int(0, len(ev) - 1), rng.int(0, 40)]
            if role == "bad" and c12.kinds(c):
                out = []
                for e in ev:
                    if rng.chance(0.3):
                        out.append(dict(op="bad", kind=rng.pick(c12.kinds(c)), i=rng.int(0, 11), x=list(e["x"]), t=e["t"], f=[]))
                    out.append(e)
                t["events"] = out
            if role == "nan":
                for e in ev:
                    if rng.chance(0.15):
                        e["nan"] = rng.pick(["nan", "inf", "-inf"])
            tasks.append(t)
        st = rng.pick(["fine", "mid", "deep", "deep"])
        m, hi = dict(fine=(500, 4), mid=(200, 40), deep=(40, 500))[st]
        sched = [[rng.int(1, hi), rng.int(0, n - 1)] for _ in range(rng.int(m // 2, m))]
        return dict(component=c0.name, shared_rng=shared, seed=rng.int(0, 10**6), tasks=tasks, schedule=sched)

    def lists(self, sc):
        return [("schedule",)] + [("tasks", i, "events") for i in range(len(sc["tasks"]))]

    def simplify(self, sc):
        return []

    def run(self, sc, st):
        tasks = sc["tasks"]
        n = len(tasks)
        comps = [catalog.REG[t["component"]] for t in tasks]
        shared = sc["shared_rng"]
        base = []
        for c, t in zip(comps, tasks):
            st.components.add(c.name)
            tag, res = kernel.call_forked(alone, c, freeze(t["params"]), t, sc["seed"] if shared else t["seed"])
            if tag != "ok":
                raise Violation("no-progress", c.name, "solo run: %s %s" % (tag, res)) if tag == "noprogress" else RuntimeError(res)
            base.append(res)
        cfg = {}
        ps = [cfg.setdefault((t["component"], t["group"]), freeze(t["params"])) for t in tasks]
        pool = {}
        bombs = [dict(left=None, fired=False) for _ in tasks]

        def hook(b):
            def h():
                if b["left"] is not None:
                    if b["left"] <= 0:
                        b["left"] = None
                        raise Cancelled()
                    b["left"] -= 1
            return h
        bodies = [(lambda point, i=i: drive(comps[i], ps[i], tasks[i], pool, bombs[i], point, None)) for i in range(n)]
        if shared:
            kernel.rng_seed(sc["seed"])
        sch = Scheduler(bodies, sc["schedule"], virtual_rng=not shared, seeds=[t["seed"] for t in tasks], hooks=[hook(b) for b in bombs])
        before = kernel.rng_save()
        res = sch.run(wall=120.0)
        if sch.switches:
            st.fault("preemption", sch.switches)
        for b in bombs:
            if b["fired"]:
                st.fault("cancelled-inside-call")
        st.state(tuple(sch.trace[:40]), tuple(t["component"] for t in tasks))
        for i, (c, t) in enumerate(zip(comps, tasks)):
            for e in t["events"]:
                st.ops += 1
                tally(st, e)
                if e["op"] == "bad":
                    st.fault("refused-call-neighbour")
                if e.get("nan"):
                    st.fault("nan-neighbour")
            tag, out = res[i]
            if tag != "ok":
                raise RuntimeError(out)
            for j, v in enumerate(out):
                if v == "cancelled":
                    break
                st.checks += 1
                if v != base[i][j]:
                    raise Violation("influenced", c.name, "tenant %d of %s, output %d: %r together, %r alone%s"
                                    % (i, [q.name for q in comps], j, v, base[i][j], " (shared random state)" if shared else ""))
            else:
                if len(out) != len(base[i]):
                    raise Violation("influenced", c.name, "tenant %d produced %d outputs, %d alone" % (i, len(out), len(base[i])))
        if shared and not any(c.uses_rng for c in comps):
            st.checks += 1
            if repr(sch.end_rng) != repr(before):
                raise Violation("random-state-touched", sc["component"], "components without randomness changed the global random state: %s" % [c.name for c in comps])


PROP = C01()
