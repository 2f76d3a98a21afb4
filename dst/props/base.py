"""Common part of all property checks."""


class Prop:
    id = "C00"
    level = "exploration"
    rule = ""
    state_measure = ""
    stubs = "none"
    needs_peer = False
    needs_fault = True
    cpu = 60.0
    batch = 8          # runs per process
    runs = dict(quick=3000, thorough=60000)
    wall = dict(quick=240.0, thorough=700.0)
    assumptions = ["finite float64 inputs", "scikit-learn, PyOD, statsmodels, rrcf and PyNomaly run as they are"]

    def setup(self):
        pass

    def gen(self, rng, tier, idx):
        raise NotImplementedError

    def run(self, sc, st):
        raise NotImplementedError

    def lists(self, sc):
        return [("events",)]

    def simplify(self, sc):
        """Simpler variants of a failing scenario, tried one by one."""
        evs = sc.get("events")
        if isinstance(evs, list) and evs and isinstance(evs[0], dict) and "x" in evs[0]:
            import json
            for i in range(len(evs)):
                x = evs[i].get("x")
                if isinstance(x, list) and x and all(isinstance(v, float) for v in x):
                    r = [float(round(v)) for v in x]
                    if r != x:
                        c = json.loads(json.dumps(sc))
                        c["events"][i]["x"] = r
                        yield c


def tally(st, e):
    for f in e.get("f", ()):
        st.fault(f)
