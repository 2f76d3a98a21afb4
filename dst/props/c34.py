"""C34: components neither change nor depend on the settings of the process they run in."""
import decimal
import gc
import io
import locale
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

from .base import Prop, tally
from .. import catalog, kernel, world
from ..kernel import Cancelled, LineBomb, LineTracer, Violation, canon
from . import c12

SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP)


def files(d):
    out = []
    for root, ds, fs in os.walk(d):
        out += [os.path.join(root, f) for f in fs + ds]
    return tuple(sorted(out))


def snapshot():
    """Everything a component has no business changing."""
    return dict(
        floating_point_errors=tuple(sorted(np.geterr().items())), error_callback=id(np.geterrcall()),
        print_options=repr(sorted(np.get_printoptions().items(), key=str)), warning_filters=tuple(map(repr, warnings.filters)),
        show_warning=id(warnings.showwarning), recursion_limit=sys.getrecursionlimit(), directory=os.getcwd(), environment=tuple(sorted(os.environ.items())),
        locale=locale.setlocale(locale.LC_ALL), decimal_context=repr(decimal.getcontext()), garbage_collector=(gc.isenabled(), gc.get_threshold()),
        switch_interval=sys.getswitchinterval(), signal_handlers=tuple(repr(signal.getsignal(s)) for s in SIGNALS), timer=signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        module_path=tuple(sys.path), threads=threading.active_count(), standard_streams=(id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        hooks=(id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook)), open_files=len(os.listdir("/proc/self/fd")),
        time_zone=(time.tzname, time.timezone), files_left=files(tempfile.gettempdir()), buffer_size=np.getbufsize(),
        random_generator=id(np.random.mtrand._rand), profiler=id(sys.getprofile()), dont_write=sys.dont_write_bytecode, int_digits=sys.get_int_max_str_digits())


class Ambient:
    """One node's settings, put back afterwards."""

    def __init__(self, kw):
        self.kw = kw

    def __enter__(self):
        kw = self.kw
        self.keep = (np.geterr(), np.get_printoptions(), list(warnings.filters), warnings.showwarning, decimal.getcontext(), gc.isenabled(), sys.getswitchinterval(),
                     sys.getrecursionlimit(), os.getcwd(), dict(os.environ), sys.stdout, np.getbufsize(), signal.getsignal(signal.SIGTERM))
        np.seterr(**kw["err"])
        np.set_printoptions(precision=kw["precision"], threshold=kw["threshold"], suppress=kw["suppress"], edgeitems=1 if kw["threshold"] < 10 else 3)
        warnings.simplefilter(kw["warn"])
        warnings.showwarning = lambda *a, **k: None
        decimal.setcontext(decimal.Context(prec=kw["decimal"]))
        gc.enable() if kw["gc"] == "on" else gc.disable()
        sys.setswitchinterval(kw["switch"])
        sys.setrecursionlimit(kw["recursion"])
        self.dir = tempfile.mkdtemp(prefix="cwd-") if kw["cwd"] else None
        if self.dir:
            os.chdir(self.dir)
        os.environ["TZ"] = kw["tz"]
        time.tzset()
        os.environ["LANG"] = kw["lang"]
        os.environ["COLUMNS"] = str(kw["precision"] + 20)
        if kw["stdout"]:
            sys.stdout = io.StringIO()
        np.setbufsize(kw["buf"])
        return self

    def __exit__(self, *a):
        e, p, w, s, d, g, i, r, c, env, o, b, sg = self.keep
        np.seterr(**e)
        np.set_printoptions(**p)
        warnings.filters[:] = w
        warnings._filters_mutated()
        warnings.showwarning = s
        decimal.setcontext(d)
        gc.enable() if g else gc.disable()
        sys.setswitchinterval(i)
        sys.setrecursionlimit(r)
        os.chdir(c)
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        for k in set(os.environ) - set(env):
            del os.environ[k]
        for k, v in env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v
        time.tzset()
        sys.stdout = o
        np.setbufsize(b)
        signal.signal(signal.SIGTERM, sg)
        return False


def settings(rng):
    e = lambda: rng.pick(["ignore", "warn"])
    return dict(err=dict(divide=e(), over=e(), under=e(), invalid=e()), precision=rng.pick([1, 2, 8, 17]), threshold=rng.pick([0, 3, 1000]), suppress=rng.chance(0.5),
                warn=rng.pick(["ignore", "always", "default", "once"]), decimal=rng.pick([3, 28, 50]), gc=rng.pick(["on", "off"]), switch=rng.pick([0.005, 0.0001, 0.5]),
                recursion=rng.pick([3000, 5000, 20000]), cwd=rng.chance(0.5), tz=rng.pick(["UTC", "XYZ-5:30", "ABC+11"]), lang=rng.pick(["C", "de_DE.UTF-8", "tr_TR"]),
                stdout=rng.chance(0.4), buf=rng.pick([8192, 4096, 65536]))


def pred(c):
    return c.name != "Inqmad"


class C34(Prop):
    id = "C34"
    runs = dict(quick=9000, thorough=140000)
    rule = ("A component lives on two nodes with the same deliveries and random draws but different floating point error modes, print options, warning filters, decimal contexts, working directories, "
            "environments, time zones, recursion limits and collector settings. Calls are cancelled and refused at the same points on both. All results must be equal, and each node's "
            "settings, threads, open files and signal handlers must be untouched after every call.")
    state_measure = "distinct (component, operation, outcome, differing settings) tuples"

    def gen(self, rng, tier, idx):
        c = catalog.choose(rng, pred)
        p = c.params(rng)
        if c.name == "HalfSpaceTrees" and rng.chance(0.15):
            p.update(depth=rng.int(8, 11), nt=rng.int(1, 2))
        ev, lost = c.script(rng, p, catalog.length(rng, c, 20.0))
        bad = c12.kinds(c) if c.name != "PerfectModel" else []
        pb, pc, pr = (rng.pick([0.0, 0.15]) if bad else 0.0), rng.pick([0.0, 0.1]), rng.pick([0.0, 0.2]) if c.batch else 0.0
        out = []
        for e in ev:
            if rng.chance(pb):
                out.append(dict(op="bad", kind=rng.pick(bad), i=rng.int(0, 11), x=list(e["x"]), t=e["t"], f=[]))
            if rng.chance(pr):
                out.append(dict(op="batch", how=rng.pick(["fit", "read", "fitread"]) if c.name != "PerfectModel" else "fitread",
                                xs=[list(e["x"]) for _ in range(rng.int(0, 3))], t=e["t"], f=[], y=e.get("y") or 0.0))
            if rng.chance(pc):
                e = dict(e, cancel=rng.int(0, 60))
            out.append(e)
        return dict(component=c.name, params=p, seed=rng.int(0, 10**6), lost=lost, events=out, a=settings(rng), b=settings(rng), cancel_new=rng.pick([None, None, None, rng.int(0, 40)]))

    def simplify(self, sc):
        for k in sc["b"]:
            if sc["b"][k] != sc["a"][k]:
                yield dict(sc, b=dict(sc["b"], **{k: sc["a"][k]}))

    def run(self, sc, st):
        c, p = catalog.REG[sc["component"]], sc["params"]
        st.components.add(c.name)
        st.simtime += world.simtime(sc["events"])
        if sc["lost"]:
            st.fault("drop", sc["lost"])
        for e in sc["events"]:
            tally(st, e)
            st.ops += 1
            if e.get("cancel") is not None:
                st.fault("cancel-inside-call")
            if e["op"] == "bad":
                st.fault("refused-call")
        keep = tempfile.tempdir
        tempfile.tempdir = own = tempfile.mkdtemp(prefix="node-")
        try:
            self.two(c, p, sc, st)
        finally:
            tempfile.tempdir = keep
            shutil.rmtree(own, ignore_errors=True)

    def two(self, c, p, sc, st):
        if (os.getpid(), c.name) not in WARM:        # imports done on first use are not the component's business
            kernel.rng_seed(sc["seed"])
            with Ambient(sc["a"]):
                self.life(c, p, sc, None)
            WARM.add((os.getpid(), c.name))
        res = []
        for kw in (sc["a"], sc["b"]):
            for attempt in (0, 1):
                kernel.rng_seed(sc["seed"])
                try:
                    with Ambient(kw):
                        res.append(self.life(c, p, sc, st))
                    break
                except Violation:
                    if attempt:          # not the side effect of an import on first use
                        raise
        diff = tuple(sorted(k for k in sc["a"] if sc["a"][k] != sc["b"][k]))
        for k in diff:
            st.fault("other-" + k)
        for e, u, v in zip([dict(op="new")] + sc["events"], *res):
            st.checks += 1
            st.state(c.name, e["op"], u[0] if u else None, diff[:6])
            if u != v:
                raise Violation("depends-on-settings", c.name, "%s: %r on one node, %r on another; settings that differ: %s" % (e["op"], u, v, {k: (sc["a"][k], sc["b"][k]) for k in diff}))

    def life(self, c, p, sc, st):
        before = snapshot()

        def untouched(what):
            if st is None:
                return
            st.checks += 1
            now = snapshot()
            bad = [k for k in now if (now[k] > before[k] if k in ("threads", "open_files") else now[k] != before[k])]
            if bad:
                raise Violation("settings-changed", c.name, "%s: %s" % (what, "; ".join("%s was %s and is %s" % (k, str(before[k])[:200], str(now[k])[:200]) for k in bad)))
        if sc["cancel_new"] is not None:
            try:
                with LineTracer(LineBomb(sc["cancel_new"]).hook):
                    catalog.Session(c, p)
            except Cancelled:
                pass
            untouched("a construction that was cancelled")
        s = catalog.Session(c, p)
        untouched("construction")
        out = [s.err]
        if s.err:
            return out
        for e in sc["events"]:
            v = self.act(c, s, e, p)
            out.append(v)
            untouched("%s%s after %d fits" % (e["op"], " cancelled before line %d" % e["cancel"] if e.get("cancel") is not None else "", s.nfit))
        return out

    def act(self, c, s, e, p):
        if e["op"] == "bad":
            ex = c12.bad_call(c, s, e, p)
            return ("bad", type(ex).__name__ if isinstance(ex, BaseException) else None)
        if e["op"] == "batch":
            if not s.allowed(e["how"]):
                return None
            try:
                r = canon(catalog.batch_call(c, s.obj, e["how"], catalog.batch_array(c, e["xs"]), np.full(len(e["xs"]), e["y"]) if c.labels or p.get("lab") else None))
                if e["how"] == "fit":
                    r = "fitted"
            except Exception as ex:
                r = ("exc", type(ex).__name__)
            if e["how"] != "read":
                for _ in e["xs"]:
                    s.account(e["how"])
            return ("batch", r)
        if e.get("cancel") is not None:
            try:
                with LineTracer(LineBomb(e["cancel"]).hook):
                    return s.do(e)
            except Cancelled:
                return ("cancelled",)
        return s.do(e)


WARM = set()
PROP = C34()
