"""Seeded search over simulated runs, minimisation, replay files, evidence."""
import copy
import hashlib
import importlib
import json
import multiprocessing  # noqa
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import env, kernel, peer
from .kernel import H, Rng, Stats, Violation, call_forked, jsonable

EVID = os.path.join(env.VERIF, "evidence")
REPLAYS = os.path.join(env.VERIF, "replays")
WORKERS = int(os.environ.get("DST_WORKERS", "8"))


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower()).PROP


# ----------------------------------------------------------------- one run
def digest(sc):
    return hashlib.sha256(json.dumps(sc, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def execute(prop, sc):
    """Runs a scenario; returns (violation dict | None, packed stats). Called in a fork.
    "_before" holds scenarios that ran earlier in the same process and are needed to reproduce the failure."""
    for prev in sc.get("_before", ()):
        kernel.rng_seed(12345)
        try:
            prop.run(prev, Stats())
        except Violation:
            pass
    st = Stats()
    v = None
    kernel.rng_seed(12345)
    try:
        prop.run(sc, st)
    except Violation as e:
        v = dict(kind=e.kind, component=e.component, detail=str(e.detail)[:2000])
    except Exception as e:
        # An exception out of library code that no oracle expected is a violation; one of the harness's own is an error.
        where = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(kernel.REPO_PREFIX)]
        if not where:
            raise
        v = dict(kind="unexpected-exception", component=str(sc.get("component", "?")),
                 detail="%s: %s (in %s)" % (type(e).__name__, str(e)[:300], where[-1].name))
    return v, st.pack()


def scenario(prop, seed, idx, tier):
    return json.loads(json.dumps(jsonable(prop.gen(Rng(H(seed, prop.id, idx)), tier, idx))))


def one_run(prop, seed, idx, tier):
    sc = scenario(prop, seed, idx, tier)
    v, st = execute(prop, sc)
    return v, st, sc


def some_runs(prop, seed, idxs, tier):
    """Several runs in one process; stops at the first violation."""
    out = []
    for idx in idxs:
        v, st, sc = one_run(prop, seed, idx, tier)
        out.append((idx, v, st, digest(sc), sc if (v is not None or idx < 3) else None))
        if v is not None:
            break
    return out


def trial(prop, sc):
    """A scenario in a fresh fork -> violation dict | None (harness problems count as None)."""
    tag, res = call_forked(execute, prop, sc, cpu=prop.cpu)
    if tag == "ok":
        return res[0]
    if tag == "noprogress":
        return dict(kind="no-progress", component=sc.get("component", "?"), detail="operation did not finish")
    return None


def vclass(v):
    return (v["kind"], v["component"])


# ----------------------------------------------------------------- minimisation
def _get(sc, path):
    for k in path:
        sc = sc[k]
    return sc


def _with(sc, path, val):
    new = json.loads(json.dumps(sc))
    tgt = new
    for k in path[:-1]:
        tgt = tgt[k]
    tgt[path[-1]] = val
    return new


def shrink(prop, sc, v, budget=40.0):
    t0 = time.monotonic()
    cls = vclass(v)
    tried = 0

    def bad(c):
        nonlocal tried
        tried += 1
        r = trial(prop, c)
        return r if (r is not None and vclass(r) == cls) else None

    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        for path in ([("_before",)] if sc.get("_before") else []) + prop.lists(sc):
            try:
                lst = _get(sc, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = len(lst)
            size = max(1, n // 2)
            while size >= 1 and time.monotonic() - t0 < budget:
                i = 0
                while i < len(lst) and time.monotonic() - t0 < budget:
                    cand = lst[:i] + lst[i + size:]
                    c = _with(sc, path, cand)
                    r = bad(c)
                    if r:
                        sc, v, lst = c, r, cand
                        changed = True
                    else:
                        i += size
                size //= 2
        for c in prop.simplify(sc):
            if time.monotonic() - t0 > budget:
                break
            r = bad(c)
            if r:
                sc, v = c, r
                changed = True
                break
    return sc, v, tried


# ----------------------------------------------------------------- workers
def _worker(prop, seed, tier, w, W, count, deadline, wfd):
    if prop.needs_peer:
        peer.start(1000 + w)
    idx = w

    def send(obj):
        b = pickle.dumps(obj)
        b = struct.pack(">I", len(b)) + b
        while b:
            b = b[os.write(wfd, b):]
    step = prop.batch
    while idx * step < count and time.monotonic() < deadline:
        idxs = list(range(idx * step, min((idx + 1) * step, count)))
        tag, res = call_forked(some_runs, prop, seed, idxs, tier, cpu=prop.cpu)
        if tag == "ok":
            for (i, v, st, dg, sc) in res:
                if v is not None:  # does it fail on its own, or only after the runs before it?
                    alone = trial(prop, sc)
                    if (alone is None or vclass(alone) != vclass(v)) and i > idxs[0]:
                        sc["_before"] = [scenario(prop, seed, j, tier) for j in idxs if j < i]
                send(("run", i, v, st, dg, sc))
        elif tag == "noprogress":  # find the run that hangs
            for i in idxs:
                tag, res = call_forked(one_run, prop, seed, i, tier, cpu=prop.cpu)
                if tag == "noprogress":
                    sc = scenario(prop, seed, i, tier)
                    send(("run", i, dict(kind="no-progress", component=sc.get("component", "?"),
                                         detail="run did not finish within its CPU limit"),
                          Stats().pack(), digest(sc), sc))
                    break
        else:
            send(("harness", idxs[0], tag, res))
        idx += W
    send(("end", w))
    peer.stop()
    os._exit(0)


def search(prop, seed, tier, count, wall):
    """Runs `count` seeded runs (or until the wall cap) on WORKERS processes."""
    W = min(WORKERS, max(1, count))
    t0 = time.monotonic()
    deadline = t0 + wall
    fds, pids = [], []
    sys.stdout.flush()
    for w in range(W):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            for f in fds:
                os.close(f)
            try:
                _worker(prop, seed, tier, w, W, count, deadline, wf)
            except BaseException:
                b = pickle.dumps(("harness", -1, "worker", traceback.format_exc()))
                os.write(wf, struct.pack(">I", len(b)) + b)
            finally:
                os._exit(1)
        os.close(wf)
        fds.append(r)
        pids.append(pid)
    agg = dict(runs=0, ops=0, checks=0, simtime=0.0, faults={}, probes={}, states=set(), digests=set(),
               nontrivial=set(), components=set(), samples=[], harness=[])
    found = None
    bufs = {fd: b"" for fd in fds}
    live = set(fds)
    stop = False
    while live and not stop:
        ready, _, _ = select.select(list(live), [], [], 5.0)
        if time.monotonic() > deadline + 240:
            agg["harness"].append("worker stuck")
            break
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if not b:
                live.discard(fd)
                continue
            bufs[fd] += b
            while len(bufs[fd]) >= 4:
                n, = struct.unpack(">I", bufs[fd][:4])
                if len(bufs[fd]) < 4 + n:
                    break
                msg = pickle.loads(bufs[fd][4:4 + n])
                bufs[fd] = bufs[fd][4 + n:]
                if msg[0] == "end":
                    continue
                if msg[0] == "harness":
                    agg["harness"].append("run %s: %s %s" % (msg[1], msg[2], msg[3]))
                    continue
                _, idx, v, st, dg, sc = msg
                agg["runs"] += 1
                for k in ("ops", "checks", "simtime"):
                    agg[k] += st[k]
                for k in ("faults", "probes"):
                    for a, c in st[k].items():
                        agg[k][a] = agg[k].get(a, 0) + c
                agg["states"] |= st["states"]
                agg["components"] |= st["components"]
                agg["digests"].add(dg)
                if st["checks"] > 0 and (st["faults"] or not prop.needs_fault):
                    agg["nontrivial"].add(dg)
                if sc is not None and v is None and len(agg["samples"]) < 3:
                    agg["samples"].append(dict(run=idx, scenario=_trim(sc)))
                if v is not None and (found is None or idx < found[0]):
                    found = (idx, v, sc)
                    stop = True
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    for fd in fds:
        os.close(fd)
    agg["wall"] = time.monotonic() - t0
    return agg, found


def _trim(sc, n=6):
    """A readable excerpt of a scenario for the evidence file."""
    if isinstance(sc, dict):
        return {k: _trim(v, n) for k, v in sc.items()}
    if isinstance(sc, list):
        out = [_trim(x, n) for x in sc[:n]]
        if len(sc) > n:
            out.append("... %d more" % (len(sc) - n))
        return out
    if isinstance(sc, float):
        return round(sc, 4)
    return sc


# ----------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(env.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                parts = line.split(" ", 3)
                out.append(dict(scenario=parts[2].split("=", 1)[1], what=parts[3]))
    return out


# ----------------------------------------------------------------- the check
def write_replay(prop, seed, idx, sc, v, orig_v, tried, confirmed):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop.id, digest(sc)))
    with open(path, "w") as f:
        json.dump(dict(property=prop.id, verif_seed=seed, run=idx, violation=v, minimisation_trials=tried,
                       confirmed_in_fresh_process=confirmed, scenario=sc), f, indent=1)
    return path


def replay_file(path, prop=None):
    doc = json.load(open(path))
    prop = prop or load_prop(doc["property"])
    if prop.needs_peer and peer.get() is None:
        peer.start(4242)
    return doc, trial(prop, doc["scenario"])


def check(pid, tier, seed):
    t0 = time.monotonic()
    prop = load_prop(pid)
    prop.setup()
    status = 0
    lines = []
    # 1. findings already on record
    for k in known_findings(pid):
        path = os.path.join(env.VERIF, k["scenario"])
        doc, v = replay_file(path, prop)
        if v is not None and vclass(v) == vclass(doc["violation"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("NOTE: recorded finding of %s no longer reproduces: %s" % (pid, k["what"]))
    peer.stop()
    # 2. search
    count = int(os.environ.get("DST_RUNS", prop.runs[tier]))
    wall = float(os.environ.get("DST_WALL", prop.wall[tier]))
    agg, found = search(prop, seed, tier, count, wall)
    replay = None
    if found:
        idx, v, sc = found
        if prop.needs_peer:
            peer.start(4242)
        orig = v
        msc, mv, tried = shrink(prop, sc, v)
        peer.stop()
        path = write_replay(prop, seed, idx, msc, mv, orig, tried, None)
        ok = confirm(path)
        if not ok:
            os.unlink(path)
            path = write_replay(prop, seed, idx, sc, v, orig, tried, None)
            ok = confirm(path)
            mv = v
        doc = json.load(open(path))
        doc["confirmed_in_fresh_process"] = ok
        json.dump(doc, open(path, "w"), indent=1)
        replay = path
        status = 1
        print("run %d (VERIF_SEED=%d): %s in %s: %s" % (idx, seed, mv["kind"], mv["component"], mv["detail"]))
        print("replay: %s %s replay %s" % (env.PY, os.path.join(env.VERIF, "check.py"), path))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if agg["harness"] and status == 0:
        status = 2
        print("HARNESS ERROR (%d)\n%s" % (len(agg["harness"]), agg["harness"][0]), file=sys.stderr)
    if status == 0 and agg["checks"] == 0:
        status = 2
        print("HARNESS ERROR: nothing was checked", file=sys.stderr)
    evidence(prop, tier, seed, agg, time.monotonic() - t0, 1 if found else 0)
    if status == 0:
        print("OK property=%s runs=%d distinct=%d checks=%d faults=%s wall=%.1fs" % (
            pid, agg["runs"], len(agg["digests"]), agg["checks"], json.dumps(agg["faults"], sort_keys=True),
            time.monotonic() - t0))
    return status


def confirm(path):
    r = subprocess.run([env.PY, "-B", os.path.join(env.VERIF, "check.py"), "replay", path], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, cwd=env.VERIF)
    return r.returncode == 1


def evidence(prop, tier, seed, agg, wall, nviol):
    os.makedirs(EVID, exist_ok=True)
    h = max(agg["wall"], 1e-6) / 3600.0
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(agg["nontrivial"]),
        rule=prop.rule + " A run counts as distinct and non-trivial when its scenario (configuration, events, faults, "
             "schedule) has a hash not seen before, at least one oracle comparison was made in it"
             + (" and at least one injected fault or perturbation took effect." if prop.needs_fault else "."),
        samples=agg["samples"],
        oracle_comparisons=agg["checks"],
        operations_executed=agg["ops"],
        runs_per_hour=int(agg["runs"] / h),
        seeds_per_hour=int(agg["runs"] / h),
        simulated_time_units=round(agg["simtime"], 1),
        faults_injected=agg["faults"],
        probes_hit=agg["probes"],
        distinct_states=len(agg["states"]),
        state_measure=prop.state_measure,
        components_real=sorted(agg["components"]),
        components_stubbed=prop.stubs,
        workers=WORKERS,
    )
    doc = dict(property=prop.id, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=prop.assumptions,
               wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(EVID, prop.id + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


# ----------------------------------------------------------------- determinism self-test
def _det(prop, seed, idx, tier):
    v, st, sc = one_run(prop, seed, idx, tier)
    st = dict(st)
    st["states"] = sorted(st["states"])
    st["components"] = sorted(st["components"])
    return hashlib.sha256(repr((v, sorted(st["faults"].items()), sorted(st["probes"].items()), st["ops"], st["checks"],
                                st["states"], st["components"], digest(sc))).encode()).hexdigest()[:16]


def det_log(pid, seeds, per):
    prop = load_prop(pid)
    prop.setup()
    if prop.needs_peer:
        peer.start(77)
    out = []
    for s in seeds:
        for i in range(per):
            tag, res = call_forked(_det, prop, s, i, "quick", cpu=prop.cpu)
            out.append("%s %d %d %s %s" % (pid, s, i, tag, res))
    peer.stop()
    return out
