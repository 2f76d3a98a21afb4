"""C26: fit_score / fit_transform is fitting followed by scoring, and leaves the object as fitting alone does."""
from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Violation
from .c05 import muted

#: these judge the fitted instance as the newest of the window, as score / transform does just before the fit
BEFORE = ("SeasonalESD", "SeasonalHybridESD", "ModifiedSTLResidualTransformer")
#: the phase of the fitted instance, not of the next one, is used: only the effect is compared (C16 has the values)
EFFECT = ("SeasonalTrendDecomposer",)


def pred(c):
    return c.family in ("model", "transformer", "post")


class C26(Prop):
    id = "C26"
    runs = dict(quick=14000, thorough=210000)
    rule = ("Three replicas get the same deliveries with the same random draws; where the first one is given a combined call, the second one gets the fit and "
            "the score (or transform) separately, and the third one the fit only. Results of the first two must be equal, and so must "
            "everything all three return later.")
    state_measure = "distinct (component, fits so far, operation) tuples at comparisons"

    def gen(self, rng, tier, idx):
        c = catalog.REG["Inqmad"] if idx % 3500 == 23 else catalog.choose(rng, pred)
        p = c.params(rng)
        n = min(catalog.length(rng, c, 45.0), 3 if c.name == "Inqmad" else 10**6)
        ev, lost = c.script(rng, p, n)
        share = rng.pick([0.3, 0.6, 1.0])
        for e in ev:
            if e["op"] == "fit" and rng.chance(share):
                e["op"] = "fitread"
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=ev)

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        sess, rngs = [], []
        for _ in range(3):
            kernel.rng_seed(sc["seed"])
            sess.append(catalog.Session(c, p))
            rngs.append(kernel.rng_save())
        if sess[0].err:
            return
        third = c.name != "PerfectModel"      # its score consumes a label
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            kernel.rng_load(rngs[0])
            va = sess[0].do(e)
            rngs[0] = kernel.rng_save()
            kernel.rng_load(rngs[1])
            if e["op"] != "fitread":
                vb = sess[1].do(e)
            elif c.name in BEFORE:
                vb = sess[1].do(dict(e, op="read"))
                f = sess[1].do(dict(e, op="fit"))
                vb = f if f[0] == "exc" else vb
            else:
                f = sess[1].do(dict(e, op="fit"))
                vb = f if f[0] == "exc" else sess[1].do(dict(e, op="read"))
            rngs[1] = kernel.rng_save()
            st.checks += 1
            st.state(c.name, min(sess[0].nfit, 60), e["op"])
            if va != vb and not (e["op"] == "fitread" and c.name in EFFECT):
                if e["op"] == "fitread" and vb is None:
                    continue
                raise Violation("parts-differ" if e["op"] == "fitread" else "combined-call-has-other-effect", c.name, "%s after %d fits: %r, but %r where combined calls are made in two parts"
                                % (e["op"], sess[0].nfit, va, vb))
            if e["op"] == "fitread":
                st.probe("combined_calls")
            if third:
                kernel.rng_load(rngs[2])
                vc = sess[2].do(dict(e, op="fit") if e["op"] == "fitread" else e)
                rngs[2] = rngs[0]
                st.checks += 1
                if e["op"] != "fitread" and va != vc:
                    raise Violation("combined-call-has-other-effect", c.name, "%s after %d fits: %r, but %r where instances were only fitted"
                                    % (e["op"], sess[0].nfit, va, vc))
            if c.name == "KNNCAD" and muted([va, vb]):
                third = False


PROP = C26()
