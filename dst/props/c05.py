"""C05: a replica that is polled anywhere, any number of times, stays equal to one that is not."""
from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation, scalar


def pred(c):
    return c.name != "PerfectModel"


class C05(Prop):
    id = "C05"
    runs = dict(quick=9000, thorough=150000)
    rule = ("Two replicas of a component get the same deliveries with the same random draws; one is additionally polled (single "
            "and batch reads, retried, on arbitrary instances) at seeded points; all common results must be identical, and "
            "an immediately retried read must return the same value.")
    state_measure = "distinct (component, fits so far, extra reads since last fit) tuples at comparisons"

    def gen(self, rng, tier, idx):
        if idx % 1500 == 7:
            c = catalog.REG["Inqmad"]
        else:
            c = catalog.choose(rng, pred)
        p = c.params(rng)
        n = min(catalog.length(rng, c, 50.0), 4 if c.name == "Inqmad" else 10**6)
        ev, lost = c.script(rng, p, n)
        out = []
        dens = rng.pick([0.15, 0.5, 1.0])
        early = [e["x"] for e in ev][:40]
        weird = rng.chance(0.3)
        storm = c.cost < 0.5 and rng.chance(0.06)
        for e in ev:
            while early and rng.chance(dens * 0.6):
                x = list(rng.pick([e["x"], rng.pick(early), [v + rng.pick([0.0, 1.0, -3.0]) for v in e["x"]]]))
                if c.lim:
                    x = [min(c.lim[1], max(c.lim[0], v)) for v in x]
                if c.family == "metric":
                    x = list(e["x"])
                if weird and rng.chance(0.4) and c.family != "metric":
                    x = list(x)
                    x[rng.int(0, len(x) - 1)] = rng.pick(["nan", "inf", "-inf", 1e300, -1e300, 1e-300])
                if rng.chance(0.2) and c.batch:
                    out.append(dict(op="xbatch", xs=[x, e["x"], x], t=e["t"], f=["extra-batch-read"], n=1))
                else:
                    out.append(dict(op="xread", x=x, t=e["t"], f=["extra-read"], n=rng.int(20, 300) if storm and rng.chance(0.1) else rng.pick([1, 1, 2, 3])))
            out.append(e)
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out)

    def run(self, sc, st):
        c = catalog.REG[sc["component"]]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        kernel.rng_seed(sc["seed"])
        a = catalog.Session(c, sc["params"])
        ra = kernel.rng_save()
        kernel.rng_seed(sc["seed"])
        b = catalog.Session(c, sc["params"])
        rb = kernel.rng_save()
        extra = 0
        total = 0
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            if e["op"] in ("xread", "xbatch"):
                if b.err or not b.allowed("read"):
                    continue
                kernel.rng_load(rb)
                got = []
                for _ in range(e["n"]):
                    kernel.rng_load(rb)
                    if e["op"] == "xread":
                        got.append(b.do(dict(op="read", x=[float(v) for v in e["x"]])))
                    else:
                        try:
                            got.append(("val", kernel.canon(catalog.batch_call(c, b.obj, "read", catalog.batch_array(c, [[float(v) for v in x] for x in e["xs"]])))))
                        except Exception as ex:
                            got.append(("exc", type(ex).__name__))
                    extra += 1
                    total += 1
                if c.name == "KNNCAD" and muted(got):
                    return
                st.checks += 1
                if any(g != got[0] for g in got):
                    raise Violation("unstable-read", c.name, "equal reads returned %r" % (got,))
                if e["op"] == "xbatch" and got[0][0] == "val":
                    flat = got[0][1][1]
                    k = len(flat) // 3
                    if not c.rng_read and flat[:k] != flat[2 * k:]:
                        raise Violation("unstable-read", c.name, "equal rows of one batch read returned %r" % (got[0],))
                continue
            kernel.rng_load(ra)
            va = a.do(e)
            ra = kernel.rng_save()
            kernel.rng_load(rb)
            vb = b.do(e)
            rb = kernel.rng_save()
            if total:
                st.checks += 1
            st.state(c.name, min(a.nfit, 60), min(extra, 4), e["op"])
            if va != vb:
                raise Violation("read-has-effect", c.name, "%s after %d fits: %r without and %r with %d extra reads"
                                % (e["op"], a.nfit, va, vb, total))
            if e["op"] != "read":
                extra = 0
            if c.name == "KNNCAD" and muted([va]):
                return


def muted(vals):
    for v in vals:
        if v and v[0] == "val":
            flat = v[1][1] if isinstance(v[1], tuple) else [v[1]]
            if any(isinstance(f, float) and f >= 0.9965 for f in flat):
                return True
    return False


PROP = C05()
