"""C03: checkpoints (pickle / deepcopy) on a simulated store, crashes inside later calls, restore here or on another node."""
import copy
import pickle

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, peer, world
from ..kernel import Cancelled, LineBomb, LineTracer, Violation


def resume(blob, rng, name, params, events, nfit, pending):
    """On a fresh node: restore the newest checkpoint and process the remaining events."""
    kernel.rng_load(rng)
    o = pickle.loads(blob)
    s = catalog.Session(catalog.REG[name], params, obj=o)
    s.nfit, s.pending = nfit, pending
    return [s.do(e) for e in events]


class C03(Prop):
    id = "C03"
    runs = dict(quick=9000, thorough=100000)
    needs_peer = True
    batch = 6
    rule = ("A component processes a delivery script while checkpoints are taken at seeded operation boundaries (pickle protocols 2-5, deepcopy, "
            "chains of them); crashes strike at a boundary or before a seeded line inside a later call, the newest checkpoint may be torn, and the "
            "component is restored from the newest intact one in this process or on node B and replays the log from there. Twin copies are "
            "driven with unrelated input in between. Every output must equal the uninterrupted run's.")
    state_measure = "distinct (component, checkpoint kind, position of crash, place of restore, fits at checkpoint) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.choose(rng)
        if idx % 1500 == 3:
            c = catalog.REG["Inqmad"]
        p = c.params(rng)
        n = 5 if c.name == "Inqmad" else catalog.length(rng, c, 30.0)
        ev, lost = c.script(rng, p, n)
        acts = {}
        m = len(ev)
        if m:
            for _ in range(rng.int(1, 4)):
                acts.setdefault(str(rng.int(0, m)), []).append(
                    dict(a="ckpt", k=rng.pick(["pickle", "pickle", "deepcopy", "chain"]), proto=rng.int(2, 5)))
            for _ in range(rng.int(0, 2)):
                acts.setdefault(str(rng.int(0, m)), []).append(
                    dict(a="twin", k=rng.pick(["deepcopy", "pickle"]), side=rng.pick(["copy", "orig"]), n=rng.int(1, 8)))
            for _ in range(rng.int(1, 2)):
                acts.setdefault(str(rng.int(0, m)), []).append(
                    dict(a="crash", line=rng.pick([None, rng.int(0, 5), rng.int(0, 60)]), torn=rng.chance(0.25), cut=rng.random(),
                         where=rng.pick(["here", "here", "B"])))
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=ev,
                    acts=[[int(k), a] for k in sorted(acts, key=int) for a in acts[k]])

    def lists(self, sc):
        return [("events",), ("acts",)]

    def run(self, sc, st):
        c, p, ev = catalog.REG[sc["component"]], sc["params"], sc["events"]
        st.components.add(c.name)
        st.simtime += world.simtime(ev)
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        for e in ev:
            st.ops += 1
            tally(st, e)
        # the uninterrupted run
        kernel.rng_seed(sc["seed"])
        ref = catalog.Session(c, p)
        if ref.err:
            raise Violation("raises", c.name, "constructor raised %s" % ref.err)
        want = [ref.do(e) for e in ev]
        # the run with checkpoints and crashes
        kernel.rng_seed(sc["seed"])
        s = catalog.Session(c, p)
        cks = [self.save(c, dict(k="pickle", proto=4), s, 0)]
        pend = [dict(a, at=k) for k, a in sc["acts"]]
        i = 0

        def check(j, v, how):
            st.checks += 1
            if not kernel.near(v, want[j]):
                raise Violation("diverged", c.name, "event %d (%s) %s: %r, uninterrupted %r" % (j, ev[j]["op"], how, v, want[j]))
        how = "with checkpoints taken"
        while i <= len(ev):
            crash = None
            while pend and pend[0]["at"] <= i:
                a = pend.pop(0)
                if a["a"] == "ckpt":
                    cks.append(self.save(c, a, s, i))
                    st.fault("checkpoint-" + a["k"])
                elif a["a"] == "twin":
                    s = self.twin(c, p, a, s, ev, i)
                    st.fault("twin-" + a["side"])
                else:
                    crash = a
            if crash is None:
                if i == len(ev):
                    break
                check(i, s.do(ev[i]), how)
                i += 1
                continue
            if crash["line"] is not None and i < len(ev):
                bomb = LineBomb(crash["line"])
                try:
                    with LineTracer(bomb.hook):
                        s.do(ev[i])
                except Cancelled:
                    st.fault("crash-inside-call")
            else:
                st.fault("crash-at-boundary")
            if crash["torn"] and len(cks) > 1 and isinstance(cks[-1]["blob"], bytes):
                b = cks[-1]["blob"]
                st.fault("torn-checkpoint")
                try:
                    pickle.loads(b[:int(crash["cut"] * len(b))])
                    raise Violation("torn-accepted", c.name, "a truncated checkpoint was loaded")
                except Violation:
                    raise
                except Exception:
                    cks.pop()
            ck = cks[-1]
            st.state(c.name, ck["k"], crash["line"] is not None, crash["where"], min(ck["nfit"], 60))
            i = ck["at"]
            if crash["where"] == "B" and isinstance(ck["blob"], bytes):
                st.fault("restored-on-node-B")
                try:
                    got = peer.get().call("dst.props.c03", "resume", ck["blob"], ck["rng"], c.name, p, ev[i:], ck["nfit"], ck["pending"])
                except RuntimeError as ex:
                    raise Violation("not-restorable", c.name, "on a fresh node: %s" % str(ex)[-600:])
                for j, v in enumerate(got):
                    check(i + j, v, "restored on another node from a %s taken after %d events" % (ck["k"], i))
                # this node stays alive too: go on here from the same checkpoint
            s = self.load(c, p, ck)
            how = "restored from a %s taken after %d events" % (ck["k"], i)

    # --- the checkpoint store -------------------------------------------------
    def save(self, c, a, s, at):
        rng = kernel.rng_save()
        o = s.obj
        try:
            if a["k"] == "pickle":
                blob = pickle.dumps(o, protocol=a["proto"])
            elif a["k"] == "deepcopy":
                blob = copy.deepcopy(o)
            else:
                blob = pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(o))), protocol=a["proto"])
        except Exception as ex:
            raise Violation("not-checkpointable", c.name, "%s after %d events: %r" % (a["k"], at, ex))
        return dict(at=at, blob=blob, rng=rng, nfit=s.nfit, pending=s.pending, k=a["k"])

    def load(self, c, p, ck):
        kernel.rng_load(ck["rng"])
        try:
            # a deepcopy kept in memory may be needed again: restore a copy of it
            o = pickle.loads(ck["blob"]) if isinstance(ck["blob"], bytes) else copy.deepcopy(ck["blob"])
        except Exception as ex:
            raise Violation("not-restorable", c.name, "%s: %r" % (ck["k"], ex))
        s = catalog.Session(c, p, obj=o)
        s.nfit, s.pending = ck["nfit"], ck["pending"]
        return s

    def twin(self, c, p, a, s, ev, i):
        """Copies the object, drives one of the two with other input and goes on with the other one."""
        rng = kernel.rng_save()
        try:
            o = copy.deepcopy(s.obj) if a["k"] == "deepcopy" else pickle.loads(pickle.dumps(s.obj))
        except Exception as ex:
            raise Violation("not-checkpointable", c.name, "%s after %d events: %r" % (a["k"], i, ex))
        t = catalog.Session(c, p, obj=o)
        t.nfit, t.pending = s.nfit, s.pending
        keep, play = (s, t) if a["side"] == "copy" else (t, s)
        junk = (ev[:i] or ev)[-a["n"]:][::-1]
        kernel.rng_seed(99)
        for e in junk:
            play.do(dict(e, op=["fit", "fitread", "read"][len(e["x"]) % 3 if a["n"] % 2 else 1]))
        kernel.rng_load(rng)
        return keep


PROP = C03()
