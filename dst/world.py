"""The simulated outside world: sensors, an unreliable network, polling readers, all on a simulated clock.
Produces the ordered list of events a component sees; every choice comes from the run's Rng."""
import heapq
import math

TICK = 1.0


def signal(rng, d, mode=None):
    """Returns a function i -> vector of length d (the true process behind the sensors)."""
    mode = mode or rng.wpick([("dyadic", 4), ("gauss", 3), ("few", 3), ("two", 1), ("season", 2), ("const", 1),
                              ("walk", 2), ("wide", 1), ("neg", 1), ("tiny", 0.7), ("huge", 0.4)])
    period = rng.int(2, 6)
    lv = [rng.int(-16, 16) / 8.0 for _ in range(8)]
    c0 = rng.pick([0.0, 0.1, 1.0, -2.5, 3.0])
    walk = [0.0] * d

    def f(i):
        out = []
        for j in range(d):
            if mode == "dyadic":
                v = rng.int(-64, 64) / 8.0
            elif mode == "gauss":
                v = rng.gauss(0.0, 1.5)
            elif mode == "few":
                v = float(rng.int(-2, 3))
            elif mode == "two":
                v = rng.pick([-1.0, 2.0])
            elif mode == "season":
                v = lv[(i % period)] + (j + 1) * 0.5 + rng.pick([0.0, 0.0, 0.125, -0.25])
            elif mode == "const":
                v = c0
            elif mode == "walk":
                walk[j] += rng.gauss(0.0, 0.3)
                v = max(-9.0, min(9.0, walk[j]))
            elif mode == "wide":
                v = rng.gauss(0.0, 1.0) * 10.0 ** rng.int(-3, 3)
            elif mode == "tiny":
                v = rng.int(-64, 64) * 2.0 ** -30
            elif mode == "huge":
                v = rng.int(-64, 64) * 2.0 ** 22
            else:
                v = -abs(rng.gauss(0.0, 2.0)) - 0.5
            out.append(v)
        return out
    return f, mode


class Net:
    """Swarm-style configuration of one run's faults."""

    def __init__(self, rng, quiet=False):
        def on(p, lo, hi):
            return rng.uniform(lo, hi) if (not quiet and rng.chance(p)) else 0.0
        self.drop = on(0.4, 0.02, 0.25)
        self.dup = on(0.5, 0.02, 0.3)
        self.jitter = on(0.5, 0.5, 4.0)
        self.spike = on(0.35, 0.02, 0.15)
        self.stuck = on(0.3, 0.02, 0.1)
        self.partition = on(0.3, 0.01, 0.04)
        self.skewed = on(0.2, 0.5, 2.0)
        self.spike_mag = rng.pick([8.0, 50.0, 1000.0])


def deliveries(rng, n, d, labels=False, net=None, lim=None, mode=None):
    """n emitted readings -> delivered readings [(t, x, y, faults)], number of lost ones."""
    net = net or Net(rng)
    f, mode = signal(rng, d, mode)
    heap = []
    t = 0.0
    seq = 0
    lost = 0
    stuck_left = 0
    held = None
    part_until = -1.0
    for i in range(n):
        t += TICK * (0.5 + rng.random() * (1.0 + net.skewed))
        tags = []
        x = f(i)
        if stuck_left > 0:
            x = list(held)
            stuck_left -= 1
            tags.append("stuck")
        elif rng.chance(net.stuck):
            stuck_left = rng.int(2, 12)
            held = list(x)
        if rng.chance(net.spike):
            j = rng.int(0, d - 1)
            x = list(x)
            x[j] = (x[j] + 1.0) * net.spike_mag
            tags.append("spike")
        if lim is not None:
            x = [min(lim[1], max(lim[0], v)) for v in x]
        y = float(rng.chance(0.4)) if labels else None
        if t > part_until and rng.chance(net.partition):
            part_until = t + rng.uniform(2.0, 10.0)
        if rng.chance(net.drop):
            lost += 1
            continue
        arr = t + (rng.random() * net.jitter if net.jitter else 0.0)
        if t <= part_until:
            arr = part_until + rng.random()
            tags = tags + ["partition"]
        heapq.heappush(heap, (arr, seq, i, x, y, tags))
        seq += 1
        if rng.chance(net.dup):
            heapq.heappush(heap, (arr + rng.uniform(0.0, 3.0), seq, i, list(x), y, tags + ["dup"]))
            seq += 1
    out = []
    last = -1
    while heap:
        arr, _, i, x, y, tags = heapq.heappop(heap)
        if i < last and "dup" not in tags:
            tags = tags + ["reorder"]
        last = max(last, i)
        out.append((round(arr, 3), x, y, tags))
    return out, lost, mode


def script(rng, d, n, labels=False, lim=None, net=None, reads=True, fitread=True, mode=None, reader=None):
    """A component's full event list: deliveries handled as fit / fit-and-read, plus reader polls with
    retries, in simulated-time order. Returns (events, lost)."""
    dl, lost, mode = deliveries(rng, n, d, labels, net, lim, mode)
    ev = []
    style = rng.pick(["fit", "fitread", "mix", "mix"]) if fitread else "fit"
    poll = rng.pick([0.0, 0.3, 0.8, 1.5]) if reads else 0.0
    recent = []
    for (t, x, y, tags) in dl:
        op = "fit"
        if style == "fitread" or (style == "mix" and rng.chance(0.5)):
            op = "fitread"
        ev.append(dict(t=t, op=op, x=x, y=y, f=tags))
        recent.append(x)
        del recent[:-6]
        p = poll
        while p > 0 and rng.random() < p / (1.0 + p):
            q = rng.pick(recent) if rng.chance(0.7) else [v + rng.pick([0.0, 0.5, -1.25, 3.0]) for v in x]
            if lim is not None:
                q = [min(lim[1], max(lim[0], v)) for v in q]
            ev.append(dict(t=t, op="read", x=q, y=None, f=[]))
            if rng.chance(0.25):
                ev.append(dict(t=t, op="read", x=list(q), y=None, f=["retry"]))
            p -= 0.4
    return ev, lost


def simtime(ev):
    return max([e.get("t", 0.0) for e in ev], default=0.0)
