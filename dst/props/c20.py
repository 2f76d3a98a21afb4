"""C20: a random projector is one fixed linear map for the whole stream, whatever else uses the random generator."""
import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, peer, world
from ..kernel import Violation

NAMES = ("GaussianRandomProjector", "SparseRandomProjector", "StreamhashProjector")


def node_b_map(name, params, seed):
    """Run on node B (another process, another hash seed): the images of the unit vectors."""
    c = catalog.REG[name]
    kernel.rng_seed(seed)
    o = c.make(params)
    d = params["d"]
    return [np.asarray(o.fit_transform_partial(row), dtype=np.float64).reshape(-1).tolist() for row in np.eye(d)]


def make(c, p):
    if c.name == "GaussianRandomProjector":
        from pysad.transform.projection import GaussianRandomProjector as C
        return C(num_components=p["k"], eps=p["eps"])
    if c.name == "SparseRandomProjector":
        from pysad.transform.projection import SparseRandomProjector as C
        return C(num_components=p["k"], density=p["dn"], eps=p["eps"])
    return c.make(p)


class C20(Prop):
    id = "C20"
    runs = dict(quick=32000, thorough=480000)
    needs_peer = True
    rule = ("A projector is streamed single and batch calls, in any order of fit and transform, while the simulator draws from, "
            "reseeds and saves/restores the shared random generator in between. The map is read off the unit vectors at a "
            "seeded moment; every projection before and after must be that linear map, with num_components entries; the "
            "stream-hash map is compared with the one another process computes.")
    state_measure = "distinct (component, dimensions, components, operation, generator disturbance) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.REG[rng.pick(NAMES)]
        p = c.params(rng)
        p.update(eps=rng.pick([0.1, 0.5]), dn=rng.pick(["auto", 0.5, 1.0, 0.3]))
        if rng.chance(0.05):
            p.update(d=rng.int(7, 130), k=rng.int(1, 50))
        n = rng.wpick([(rng.int(2, 10), 3), (rng.int(8, 30), 2), (rng.int(60, 300), 0.1 if p["d"] < 20 else 0.0)])
        dl, lost, mode = world.deliveries(rng, n, p["d"])
        ev = []
        odd = rng.chance(0.2)
        for (t, x, y, f) in dl:
            if odd and rng.chance(0.3):
                x = rng.pick([[0.0] * p["d"], [1.0] * p["d"], [0.0] * (p["d"] - 1) + [rng.pick([1e6, -1e-6])], [-v for v in x], [1e3 * v for v in x]])
            if rng.chance(0.4):
                ev.append(dict(op="rng", k=rng.pick(["draw", "reseed", "same-seed", "py"]), v=rng.int(0, 99), t=t, f=["rng-disturbed"]))
            if rng.chance(0.2):
                m = rng.int(0, 4)
                ev.append(dict(op=rng.pick(["bfit", "bread", "bfitread"]), xs=[x] + [rng.pick(dl)[1] for _ in range(m)], t=t, f=f))
            else:
                ev.append(dict(op=rng.pick(["fit", "read", "read", "fitread", "fitread"]), x=x, t=t, f=f))
            if rng.chance(0.15):
                ev.append(dict(op="fork", t=t, f=["second-projector"]))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=ev, at=rng.int(0, len(ev)),
                    peer=c.name == "StreamhashProjector" and rng.chance(0.1))

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        d, k = p["d"], p["k"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        kernel.rng_seed(sc["seed"])
        o = make(c, p)
        seen = []     # (instance, projection)
        images = None

        def note(x, r, what):
            r = np.asarray(r, dtype=np.float64)
            if r.shape != (k,):
                raise Violation("wrong-size", c.name, "%s gave shape %r for %d components" % (what, r.shape, k))
            seen.append((list(x), r.reshape(-1), what))

        def probe():
            im = []
            for row in np.eye(d):
                r = o.transform_partial(row.copy())
                note(row, r, "transform_partial")
                im.append(np.asarray(r, dtype=np.float64).reshape(-1))
            return np.array(im)
        for i, e in enumerate(sc["events"]):
            tally(st, e)
            st.ops += 1
            if i == sc["at"]:
                images = probe()
            op = e["op"]
            try:
                if op == "rng":
                    if e["k"] == "draw":
                        np.random.rand(e["v"] % 7 + 1)
                    elif e["k"] == "reseed":
                        kernel.rng_seed(e["v"])
                    elif e["k"] == "same-seed":
                        kernel.rng_seed(sc["seed"])
                    else:
                        import random
                        random.random()
                elif op == "fork":
                    o2 = make(c, p)
                    o2.fit_transform_partial(np.ones(d))
                elif op == "fit":
                    if o.fit_partial(np.array(e["x"])) is not o:
                        raise Violation("not-self", c.name, "fit_partial did not return the projector")
                elif op == "read":
                    note(e["x"], o.transform_partial(np.array(e["x"])), "transform_partial")
                elif op == "fitread":
                    note(e["x"], o.fit_transform_partial(np.array(e["x"])), "fit_transform_partial")
                else:
                    r = catalog.batch_call(c, o, op[1:], np.array(e["xs"]))
                    if op != "bfit":
                        if np.asarray(r).shape != (len(e["xs"]), k):
                            raise Violation("wrong-size", c.name, "batch gave %r" % (np.asarray(r).shape,))
                        for x, y in zip(e["xs"], np.asarray(r)):
                            note(x, y, op)
            except Violation:
                raise
            except Exception as ex:
                raise Violation("raises", c.name, "%s raised %r" % (op, ex))
        if images is None:
            images = probe()
        for x, r, what in seen:
            st.checks += 1
            want = np.array(x) @ images
            tol = 1e-9 * (1e-6 + float(np.abs(np.array(x)).max()) * (1.0 + float(np.abs(images).max())) * d)
            st.state(c.name, d, k, what)
            if not np.all(np.abs(want - r) <= tol):
                raise Violation("map-changed", c.name, "%s(%r) = %r but the map read off the unit vectors gives %r"
                                % (what, x, r.tolist(), want.tolist()))
        if not np.all(np.isfinite(images)):
            raise Violation("not-finite", c.name, "map %r" % images.tolist())
        if sc["peer"] and peer.get() is not None:
            other = np.array(peer.get().call("dst.props.c20", "node_b_map", c.name, p, sc["seed"] + 1))
            st.fault("other-process")
            st.checks += 1
            if not np.allclose(other, images, rtol=0, atol=1e-12):
                raise Violation("process-dependent", c.name, "map here %r, in another process %r" % (images.tolist(), other.tolist()))


PROP = C20()
