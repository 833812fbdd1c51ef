"""C11: failed or interrupted operations leave no trace."""
from __future__ import annotations

import ast
import copy
import sys

import numpy as np

from props import c08, opskit, w90kit
from props import opscheck as oc
from props.cachekit import attach
from sim.core import Sim, SimKilled, Violation, current_task

RUNS = {"quick": 12000, "thorough": 150000}
BUDGET = {"quick": 420, "thorough": 860}
LEVEL = "exploration"
RULE = ("one run = 1-3 operations on shared values, called 2-8 times, in some runs while another client makes calls of its own; calls fail at a chosen line of the "
        "code under test (allocation, keyboard interrupt), at a chosen call into a library (not converged, allocation, bad value), or in a chosen call of a callback; "
        "after each call inputs and process-wide settings are compared with those before, and each call is repeated without a fault and compared with the same "
        "call made alone in a fresh copy of the process; non-trivial = a fault fired")
REAL = ["all public functions of surface_potential_analysis except file caches and loaders (C01-C04)", "numpy, scipy, matplotlib (Agg)"]
STUBS = ["threads scheduled by the simulator", "clocks", "random entropy", "the native solver (answers with numbers computed from its arguments)",
         "wannier90.x, its files and its operator", "the pool of worker processes"]
ASSUMPTIONS = ["faults strike between two lines of the code under test or at the entry of a library function it calls, but not inside code which restores "
               "settings (finally, the head of with and try, methods which end a with)",
               "axes handed to a plot and figures it opens are its output", "functions which draw random numbers may advance the random state"]

NAMES: list = []


FAILURES = [StopIteration, KeyError, IndexError, AttributeError, TypeError, ValueError, ZeroDivisionError, np.linalg.LinAlgError, OSError, MemoryError, KeyboardInterrupt, SystemExit]


class CallbackError(Exception):
    """Raised by a callback."""


def prepare() -> None:
    """Import the code under test."""
    m = opskit.load()
    NAMES.extend(sorted(m.ops))
    c08.prepare()
    w90kit.prepare()
    process_state()


# ---------------------------------------------------------------------------
def process_state() -> dict:
    """Process-wide settings which a caller can see."""
    import decimal
    import gc
    import locale
    import logging
    import os
    import random
    import signal
    import threading
    import warnings

    import matplotlib as mpl
    import matplotlib.pyplot as plt

    r = np.random.get_state()  # noqa: NPY002
    out = {
        "warning filters": [(f[0], getattr(f[1], "pattern", f[1]), f[2].__name__, getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters],
        "warning display": warnings.showwarning,
        "floating-point error handling": np.geterr(),
        "floating-point error callback": np.geterrcall(),
        "buffer size": np.getbufsize(),
        "print options": repr(np.get_printoptions()),
        "numpy random state": (r[0], r[1].tobytes(), r[2:]),
        "random state": random.getstate(),
        "plotting defaults": {k: repr(v) for k, v in dict.items(mpl.rcParams)},
        "plotting backend": mpl.get_backend(),
        "interactive plotting": mpl.is_interactive(),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(),
        "garbage collection": gc.isenabled(),
        "module path": list(sys.path),
        "standard streams": (sys.stdout, sys.stderr, sys.stdin),
        "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.getprofile()),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "colour maps": sorted(mpl.colormaps),
        "figure style": plt.rcParams["axes.prop_cycle"] == mpl.rcParams["axes.prop_cycle"],
        "file creation mask": umask(),
    }
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD):
        out[f"handler of signal {int(s)}"] = signal.getsignal(s)
    out["open files"] = sorted(open_files())
    return out


def prefer(ch):  # noqa: ANN001, ANN201
    """Settings of the caller which are not the defaults: a function which makes them (those of numpy belong to a thread)."""
    if not ch.chance(0.5):
        return lambda: None
    import decimal
    import gc
    import logging
    import os
    import random
    import warnings

    import matplotlib as mpl

    n = ch.bits() % 2**31
    pick = [ch.chance(0.4) for _ in range(10)]
    err = {k: ch.pick(["ignore", "warn", "ignore", "warn", "raise"]) for k in ("divide", "over", "under", "invalid")}
    if pick[0]:
        warnings.filterwarnings(ch.pick(["ignore", "always"]), message=f"none like this {n}")
    if pick[1]:
        mpl.rcParams.update({"lines.linewidth": 2.5, "image.cmap": "magma", "axes.grid": True, "axes.prop_cycle": mpl.cycler(color=["#102030", "#405060"]), "figure.figsize": (3.0, 2.0)})
    if pick[2]:
        np.random.seed(n % 2**31)  # noqa: NPY002
        random.seed(n)
    if pick[3]:
        logging.disable(5)
    if pick[4]:
        gc.disable()
    if pick[5]:
        os.chdir("/")
        os.environ["PREFERENCE"] = str(n)
        sys.setrecursionlimit(3000)
        np.set_printoptions(precision=5, suppress=True)

    if pick[9]:
        from matplotlib import backend_bases
        import matplotlib.pyplot as plt

        backend_bases.FigureCanvasBase.draw_idle = lambda _self, *_a, **_k: None  # a GUI draws later
        plt.ion()

    def here() -> None:
        if pick[6]:
            np.seterr(**err)
        if pick[7]:
            decimal.getcontext().prec = 11
        if pick[8]:
            np.setbufsize(16384)

    return here


def umask() -> int:
    """The file creation mask."""
    with open("/proc/self/status") as f:
        return next((int(line.split()[1], 8) for line in f if line.startswith("Umask")), 0)


def open_files() -> list:
    """Open file descriptors and what they refer to."""
    import os

    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append((n, os.readlink(f"/proc/self/fd/{n}")))
        except OSError:
            continue
    return [x for x in out if "/proc/" not in x[1]]


def state_differs(a: dict, b: dict, skip: tuple = ()) -> str | None:
    """Which setting is another one."""
    for k, v in a.items():
        if k not in skip and b[k] != v:
            if k in {"environment", "plotting defaults"}:
                return f"{k} ({sorted(x for x in {*v, *b[k]} if v.get(x) != b[k].get(x))[:3]})"
            return k
    return None


# ---------------------------------------------------------------------------
_guarded: dict = {}


def guarded(frame) -> bool:  # noqa: ANN001
    """Is this a line which cleans up?"""
    fn = frame.f_code.co_filename
    if fn not in _guarded:
        lines: set = set()
        try:
            with open(fn) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                lines.update(range(node.lineno, node.body[0].lineno))
            elif isinstance(node, ast.Try):
                lines.add(node.lineno)
                for x in node.finalbody:
                    lines.update(range(x.lineno, x.end_lineno + 1))
                for h in node.handlers:
                    lines.update(range(h.lineno, h.end_lineno + 1))
        _guarded[fn] = lines
    return frame.f_lineno in _guarded[fn]


def in_cleanup(frame) -> bool:  # noqa: ANN001
    """Is any caller of this line cleaning up?"""
    while frame is not None:
        co = frame.f_code
        if co.co_name in {"__exit__", "__del__"}:
            return True
        if co.co_filename.startswith(oc.opskit_root()) and guarded(frame):
            return True
        frame = frame.f_back
    return False


class Strike:
    """Counts the points of one call at which a fault may strike, and strikes at one of them."""

    def __init__(self) -> None:
        self.lines = self.calls = 0
        self.at_line = self.at_call = -1
        self.kind: type | None = None
        self.raised: BaseException | None = None
        self.where = ""

    def line(self, frame) -> None:  # noqa: ANN001
        """A line of the code under test."""
        if self.raised is None:
            if self.lines == self.at_line:
                if in_cleanup(frame):
                    self.at_line += 1
                else:
                    self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                    self.raised = self.kind("injected")
            self.lines += 1
            if self.raised is not None:
                raise self.raised

    def call(self, frame) -> None:  # noqa: ANN001
        """The code under test calls a library."""
        name = frame.f_code.co_name
        # numpy ignores failures of the helpers which its C code calls
        if self.raised is None and not name.startswith("__") and "/numpy/core/_" not in frame.f_code.co_filename:
            if self.calls == self.at_call:
                if in_cleanup(frame.f_back):
                    self.at_call += 1
                else:
                    fn = frame.f_code.co_filename
                    self.where = name
                    kind = self.kind
                    if kind is None:
                        kind = np.linalg.LinAlgError if "linalg" in fn else RuntimeError if "optimize" in fn else ValueError if "matplotlib" in fn else MemoryError
                    self.raised = kind("injected")
            self.calls += 1
            if self.raised is not None:
                raise self.raised


def callbacks(kwargs: dict, strike: dict) -> dict:
    """The same arguments, with callbacks which can fail."""
    out = dict(kwargs)
    for k, f in kwargs.items():
        if callable(f) and type(f).__name__ == "function":

            def call(*a, _f=f, **kw):  # noqa: ANN002, ANN003, ANN202
                strike["n"] = strike.get("n", 0) + 1
                if strike["n"] == strike.get("at", -1):
                    strike["raised"] = strike.get("kind", CallbackError)("injected")
                    raise strike["raised"]
                return _f(*a, **kw)

            out[k] = call
    return out


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001, C901, PLR0912, PLR0915
    """One run."""
    if index % 40 == 13:  # noqa: PLR2004
        return w90kit.run(ch, "C11", index // 40)
    if index % 40 == 33:  # noqa: PLR2004
        return c08.run(ch, tier, index // 40, "C11")
    other_client = index % 4 == 3
    world = opskit.World(ch.bits(), 0)
    calls: list[oc.Call] = []
    n_ops = 1 + ch.weighted([5, 2, 1])
    with_function = [n for n in NAMES if n.rsplit(".", 1)[-1] in oc.WITH_FUNCTION] if index % 10 == 4 else []  # noqa: PLR2004
    tries = 0
    while len(calls) < n_ops and tries < 30:
        tries += 1
        op = NAMES[(index * 7 + tries - 1) % len(NAMES)] if tries < 4 and not calls else NAMES[ch.choose(len(NAMES))]
        if with_function and not calls and tries < 10:
            op = ch.pick(with_function)
        if ("plot" in op or "animate" in op) and not ch.chance(0.35):
            continue
        if op.startswith(("BasisUtil", "TimeBasis", "ExplicitBasis")) and not ch.chance(0.4):
            continue
        try:
            calls.append(oc.Call(op, opskit.build(world, op, [ch.choose(1000), 5])))
        except opskit.NoArg:
            continue
    if not calls:
        return {"digest": "none", "faults": {}, "sim_time": 0.0, "n_events": 0, "switches": 0, "steps": 0, "nontrivial": False, "stats": {}, "sample": {}}
    settle = prefer(ch)

    def reference(req):  # noqa: ANN001, ANN202
        i, what = req
        kw = calls[i].kwargs
        if what == "count":
            s = Strike()
            cb: dict = {}

            def setup(sim) -> None:  # noqa: ANN001
                sim.on_line, sim.on_call = s.line, s.call

            def alone() -> None:
                settle()
                oc.call(calls[i].op, callbacks(kw, cb))

            oc.in_sim(alone, trace=True, setup=setup)
            return s.lines, s.calls, cb.get("n", 0)

        def only():  # noqa: ANN202
            settle()
            return oc.call(calls[i].op, oc.nudge(kw) if what == "nudge" else kw)[0]

        return oc.in_sim(only)

    ref = oc.Reference(reference)
    sim = Sim(ch, trace=True, preempt_mean=ch.pick([3, 10, 40]) if other_client else 0)
    proc = sim.process()
    stats = {"calls": 0, "failed": 0, "retried": 0, "raised": 0, "unstable": 0}
    before_all = [c.state() for c in calls]

    def on_line(frame) -> None:  # noqa: ANN001
        s = getattr(current_task(), "strike", None)
        if s is not None:
            s.line(frame)

    def on_call(frame) -> None:  # noqa: ANN001
        s = getattr(current_task(), "strike", None)
        if s is not None:
            s.call(frame)

    sim.on_line, sim.on_call = on_line, on_call

    def check_inputs(c, before, what: str) -> None:  # noqa: ANN001
        d = oc.changed(before, c.state())
        if d:
            raise Violation(f"{c.op} {what}: its input {d} was modified", f"input-{c.op}")

    def check_state(c, before, what: str) -> None:  # noqa: ANN001
        skip = ("numpy random state", "random state") if opskit.RANDOM.search(c.op.rsplit(".", 1)[-1]) else ()
        d = state_differs(before, process_state(), skip)
        if d:
            raise Violation(f"{c.op} {what}: {d} is not what it was before", f"state-{d.split(' (')[0]}-{c.op}")

    def check_result(i: int, outcome, what: str) -> None:  # noqa: ANN001
        op = calls[i].op
        if opskit.RANDOM.search(op.rsplit(".", 1)[-1]):
            return
        want = ref.ask((i, "result"))
        d = oc.differ(want, outcome, opskit.tolerance(op))
        if d is None:
            return
        if oc.differ(want, ref.ask((i, "nudge")), 1e-7):
            stats["unstable"] += 1
            return
        raise Violation(f"{op} {what}: {d}", f"result-{op}")

    def one(i: int, *, fault: int, alone: bool, history: str) -> str:
        """Make a call; returns what happened to it."""
        c = calls[i]
        me = current_task()
        strike, cb = None, {}
        if fault:
            lines, ncalls, ncb = ref.ask((i, "count"))
            if fault == 3 and ncb:
                cb["at"] = 1 + ch.choose(ncb)
                cb["kind"] = StopIteration if ch.chance(0.25) else ch.pick([CallbackError, *FAILURES])
            elif fault == 2 and ncalls:
                strike = Strike()
                strike.at_call = ch.choose(ncalls)
                strike.kind = ch.pick([None, None, MemoryError, KeyboardInterrupt])
            elif lines:
                strike = Strike()
                strike.at_line = ch.choose(lines)
                strike.kind = ch.pick([MemoryError, KeyboardInterrupt])
        before, settings = c.state(), process_state() if alone else None
        stats["calls"] += 1
        me.strike = strike
        try:
            outcome, _ = oc.call(c.op, callbacks(c.kwargs, cb) if cb else c.kwargs)
        finally:
            me.strike = None
            sys.settrace(sim._tracer)  # noqa: SLF001
        raised = (strike.raised if strike else None) or cb.get("raised")
        what = ""
        if raised is not None:
            where = strike.where if strike and strike.raised else "a callback"
            what = f"failed with {type(raised).__name__} at {where}"
            sim.fault(f"{type(raised).__name__} {'in a callback' if not strike else 'in a library call' if strike.at_call >= 0 else 'at a line'}")
            stats["failed"] += 1
        stats["raised"] += outcome[0] == "raise"
        sim.log(f"{c.op} {i}: {outcome[0]} {outcome[1] if outcome[0] == 'raise' else ''} {what}")
        check_inputs(c, before, what or "succeeded" if outcome[0] == "ok" else what or "failed")
        if alone:
            check_state(c, settings, what or ("succeeded" if outcome[0] == "ok" else "failed"))
        if raised is not None:
            if outcome[0] == "ok":
                raise Violation(f"{c.op}: {type(raised).__name__} at {where} was not reported", f"swallowed-{c.op}")
            if isinstance(raised, (KeyboardInterrupt, SystemExit)) and outcome[1] != type(raised).__name__:
                raise Violation(f"{c.op}: {type(raised).__name__} at {where} was reported as {outcome[1]}", f"interrupt-{c.op}")
        else:
            check_result(i, outcome, history)
            stats["retried"] += history != ""
        return what

    def client(faulty: bool) -> None:  # noqa: FBT001
        history = ""
        done = set()
        settle()
        for _ in range(1 + ch.choose(5 if faulty else 3)):
            i = ch.choose(len(calls))
            w = one(i, fault=ch.weighted([1, 1, 1, 8] if with_function else [1, 4, 3, 2]) if faulty else 0, alone=not other_client, history=f"called again after a call {history}" if history else "")
            history = w and f"of {calls[i].op} {w}" or history
            if w:
                done.add(i)
        for i in sorted(done):
            one(i, fault=0, alone=not other_client, history=f"called again after a call {history}")

    np.seterr(all="warn")
    settings = process_state()
    sim.spawn(lambda: client(True), proc, "client0")  # noqa: FBT003
    if other_client:
        sim.spawn(lambda: client(False), proc, "client1")  # noqa: FBT003
    try:
        sim.run()
        for c, b in zip(calls, before_all):
            check_inputs(c, b, "or another call")
        if other_client:
            skip = ("numpy random state", "random state") if any(opskit.RANDOM.search(c.op.rsplit(".", 1)[-1]) for c in calls) else ()
            d = state_differs(settings, process_state(), skip)
            if d:
                raise Violation(f"{[c.op for c in calls]}: {d} is not what it was before", f"state-{d.split(' (')[0]}-{calls[0].op}")
    except SimKilled:
        raise
    except Violation as e:
        raise attach(e, sim) from None
    finally:
        ref.close()
    assert copy is not None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches, "steps": sim.steps,
            "nontrivial": bool(sim.faults), "stats": stats, "sample": {"operations": [c.op for c in calls], "events": sim.events[:40]}}
