"""C33: reads of one component that overlap on several threads return what each would return alone."""
from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Scheduler, Violation, canon

NOT = ("PerfectModel", "KNNCAD", "RobustRandomCutForest", "Inqmad")


def pred(c):
    return c.threads and c.name not in NOT


def one_read(c, s, r, point=None):
    if r["rows"]:
        v = catalog.batch_call(c, s.obj, "read", catalog.batch_array(c, r["xs"][:r["rows"]]))
        return canon(v)
    return s.do(dict(op="read", x=r["xs"][0]))


def reader(c, s, reads, point=None):
    out = []
    for r in reads:
        if point:
            point()
        try:
            out.append(one_read(c, s, r))
        except Exception as e:
            out.append(("exc", type(e).__name__))
    return out


class C33(Prop):
    id = "C33"
    runs = dict(quick=6000, thorough=90000)
    batch = 1
    rule = ("Two replicas get the same deliveries with the same random draws. At seeded moments two to four readers each make some reads (single or batch) on each replica: "
            "one after the other on the first, on real threads preempted before seeded lines of library code on the second. Every read and everything later must be equal.")
    state_measure = "distinct (component, schedule trace, fits so far) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.choose(rng, pred)
        p = c.params(rng)
        ev, lost = c.script(rng, p, catalog.length(rng, c, 25.0))
        dens = rng.pick([0.1, 0.3])
        out = []
        for e in ev:
            out.append(e)
            if not rng.chance(dens):
                continue
            n = rng.int(2, 4)
            tasks = []
            for _ in range(n):
                reads = []
                for _ in range(rng.int(1, 3)):
                    xs = []
                    for _ in range(rng.int(1, 3)):
                        x = list(rng.pick([e["x"], rng.pick(ev)["x"], [v + rng.pick([0.0, 1.0, -3.0]) for v in e["x"]]]))
                        if c.lim:
                            x = [min(c.lim[1], max(c.lim[0], v)) for v in x]
                        if c.family == "metric":
                            x = list(e["x"])
                        xs.append(x)
                    reads.append(dict(xs=xs, rows=len(xs) if c.batch and rng.chance(0.4) else 0))
                tasks.append(dict(reads=reads, seed=rng.int(0, 10**6)))
            hi = rng.pick([2, 5, 30])
            out.append(dict(op="group", x=e["x"], t=e["t"], f=[], tasks=tasks, schedule=[[rng.int(1, hi), rng.int(0, n - 1)] for _ in range(rng.int(3, 60))]))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        kernel.rng_seed(sc["seed"])
        a = catalog.Session(c, p)
        ra = kernel.rng_save()
        kernel.rng_seed(sc["seed"])
        b = catalog.Session(c, p)
        rb = kernel.rng_save()
        if a.err:
            return
        groups = 0
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            if e["op"] == "group":
                if not b.allowed("read"):
                    continue
                solo = []
                for t in e["tasks"]:
                    kernel.rng_seed(t["seed"])
                    solo.append(reader(c, a, t["reads"]))
                bodies = [lambda point, t=t: reader(c, b, t["reads"], point) for t in e["tasks"]]
                sch = Scheduler(bodies, e["schedule"], virtual_rng=True, seeds=[t["seed"] for t in e["tasks"]])
                res = sch.run(wall=60.0)
                groups += 1
                st.fault("overlapping-reads")
                if sch.switches:
                    st.fault("preemption", sch.switches)
                st.state(c.name, tuple(sch.trace[:20]), min(b.nfit, 20))
                for i, (t, (tag, got)) in enumerate(zip(e["tasks"], res)):
                    if tag != "ok":
                        raise RuntimeError(got)
                    for j, (u, v) in enumerate(zip(solo[i], got)):
                        st.checks += 1
                        if u != v:
                            raise Violation("reads-disturb-one-another", c.name, "reader %d of %d, read %d after %d fits: %r alone, %r overlapping" % (i, len(res), j, a.nfit, u, v))
                continue
            kernel.rng_load(ra)
            va = a.do(e)
            ra = kernel.rng_save()
            kernel.rng_load(rb)
            vb = b.do(e)
            rb = kernel.rng_save()
            st.checks += 1
            if va != vb:
                raise Violation("overlapping-reads-have-effect", c.name, "%s after %d fits: %r after reads in turn, %r after %d groups of overlapping reads" % (e["op"], a.nfit, va, vb, groups))


PROP = C33()
