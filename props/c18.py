"""C18: operations leave nothing behind that grows with the number of calls."""
from __future__ import annotations

import collections
import copy
import gc
import sys
import threading

import numpy as np

from props import opscheck as oc
from props import opskit
from props.c11 import FAILURES, CallbackError, Strike, callbacks, open_files, prefer
from props.cachekit import attach
from sim.core import Choices, Sim, Violation, current_task

RUNS = {"quick": 7000, "thorough": 50000}
BUDGET = {"quick": 300, "thorough": 850}
LEVEL = "exploration"
RULE = ("one run = the same 1-3 calls of public operations made again and again (17 rounds, 250 more where something was left behind), each round with arguments of its own "
        "which are dropped with the results; in some of the runs a call fails in every round (at the same line, library call or callback), each round has a thread of its own, or two "
        "threads overlap; after each round the memory blocks in use, the open files, the threads, the figures and the signal and exit handlers are counted; "
        "non-trivial = a fault struck, or threads were used")
REAL = ["all public functions of surface_potential_analysis except file caches and loaders (C01-C04)", "numpy, scipy, matplotlib (Agg)", "Python's allocator and garbage collector"]
STUBS = ["threads scheduled by the simulator", "clocks", "random entropy", "the native solver", "file seams"]
ASSUMPTIONS = ["memory which is kept is bounded if it stops growing within 180 rounds", "figures are closed by their owner",
               "memory held by C libraries without a Python object is not counted", "arguments have the same shapes in every round"]

NAMES: list = []


def prepare() -> None:
    """Import the code under test."""
    m = opskit.load()
    NAMES.extend(sorted(m.ops))


def used() -> int:
    """Memory blocks in use."""
    sys._clear_type_cache()  # noqa: SLF001 (it keeps names which C code looked up)
    gc.collect()
    gc.collect()
    return sys.getallocatedblocks()


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001, C901, PLR0915
    """One run."""
    import matplotlib.pyplot as plt

    mode = ch.weighted([5, 5, 1, 1])  # alone, failing, in a thread of its own, with another thread
    world = opskit.World(ch.bits(), 0)
    calls: list = []
    tries = 0
    n_ops = 1 + ch.weighted([6, 2, 1])
    while len(calls) < n_ops and tries < 30:
        tries += 1
        op = NAMES[(index * 7 + tries - 1) % len(NAMES)] if tries < 4 and not calls else NAMES[ch.choose(len(NAMES))]
        if ("plot" in op or "animate" in op) and not ch.chance(0.3):
            continue
        if op.startswith(("BasisUtil", "TimeBasis", "ExplicitBasis")) and not ch.chance(0.3):
            continue
        try:
            calls.append((op, opskit.build(world, op, [ch.choose(1000), 5])))
        except opskit.NoArg:
            continue
    if not calls:
        return {"digest": "none", "faults": {}, "sim_time": 0.0, "n_events": 0, "switches": 0, "steps": 0, "nontrivial": False, "stats": {}, "sample": {}}
    ops = [op for op, _ in calls]
    vary = ch.chance(0.6)
    settle = prefer(ch)
    bits = ch.bits()
    # where one of the calls fails
    strike, cb, victim = None, {}, 0
    if mode == 1:
        victim = ch.choose(len(calls))

        def reference(req):  # noqa: ANN001, ANN202, ARG001
            s, n = Strike(), {}

            def setup(sim) -> None:  # noqa: ANN001
                sim.on_line, sim.on_call = s.line, s.call

            oc.in_sim(lambda: (settle(), oc.call(ops[victim], callbacks(calls[victim][1], n))), trace=True, setup=setup)
            return s.lines, s.calls, n.get("n", 0)

        ref = oc.Reference(reference)
        lines, ncalls, ncb = ref.ask(0)
        ref.close()
        how = ch.weighted([4, 3, 2])
        if how == 2 and ncb:  # noqa: PLR2004
            cb = {"at": 1 + ch.choose(ncb), "kind": ch.pick([CallbackError, *FAILURES])}
        elif how == 1 and ncalls:
            strike = ("call", ch.choose(ncalls), ch.pick([None, None, MemoryError, KeyboardInterrupt]))
        elif lines:
            strike = ("line", ch.choose(lines), ch.pick([MemoryError, KeyboardInterrupt]))
    faults: dict = {}
    totals = {"n_events": 0, "switches": 0, "steps": 0, "time": 0.0}
    stats = {"rounds": 0, "calls": 0, "suspected": 0, "raised": 0}
    digests = []
    last: list = [None]

    def body(sim, rnd: int) -> None:  # noqa: ANN001
        settle()
        for k, (op, kwargs) in enumerate(calls):
            kw = copy.deepcopy(kwargs)
            if vary:
                r = np.random.default_rng(bits + rnd)
                for _, _, x in oc.own_arrays(kw):
                    if x.flags.writeable:
                        x *= 1 + 1e-9 * r.normal()
                kw = {n: v * (1 + 1e-9 * r.normal()) if type(v) is float else v for n, v in kw.items()}
            me = current_task()
            s = c = None
            if mode == 1 and k == victim:
                if strike is not None:
                    s = Strike()
                    s.kind = strike[2]
                    setattr(s, "at_" + strike[0], strike[1])
                c = dict(cb)
            me.strike = s
            stats["calls"] += 1
            try:
                outcome = oc.call(op, callbacks(kw, c) if c else kw)[0][0]
            finally:
                me.strike = None
                if sim.trace_files:
                    sys.settrace(sim._tracer)  # noqa: SLF001
            stats["raised"] += outcome == "raise"
            if rnd < 2:  # noqa: PLR2004
                sim.log(f"{op}: {outcome}")
            raised = (s.raised if s else None) or (c or {}).get("raised")
            if raised is not None:
                what = f"{type(raised).__name__} {'in a callback' if s is None else 'in a library call' if s.at_call >= 0 else 'at a line'}"
                faults[what] = faults.get(what, 0) + 1
                if rnd < 2:  # noqa: PLR2004
                    sim.log(f"{what} {s.where if s else ''}")

    steady: list = []

    def one(rnd: int) -> None:
        """A round."""
        if steady:
            # in the same thread
            sim = steady[0]
            body(sim, rnd)
            stats["rounds"] += 1
            plt.close("all")
            sim.events.clear()
            sim.ch.log.clear()
            sim.tasks[:] = [t for t in sim.tasks if not t.done]
            sim.procs[:] = [q for q in sim.procs if any(t.proc is q for t in sim.tasks)]
            if hasattr(sim, "stdout"):
                sim.stdout.clear()
            return
        sim = new(rnd)
        last[0] = sim
        proc = sim.process()
        for k in range(2 if mode == 3 else 1):  # noqa: PLR2004
            sim.spawn(lambda: body(sim, rnd), proc, f"client{k}")
        sim.run()
        account(sim)
        plt.close("all")
        stats["rounds"] += 1
        if rnd < 2:  # noqa: PLR2004
            digests.append(sim.digest())
        last[0] = None

    def account(sim) -> None:  # noqa: ANN001
        for k in ("n_events", "switches", "steps"):
            totals[k] += getattr(sim, k)
        totals["time"] += sim.now

    def new(rnd: int) -> Sim:
        sim = Sim(Choices(seed=bits % 2**32 + rnd) if mode == 3 else Choices(replay=[]), trace=strike is not None or mode == 3, preempt_mean=20 if mode == 3 else 0)  # noqa: PLR2004

        def on_line(frame) -> None:  # noqa: ANN001
            s = getattr(current_task(), "strike", None)
            if s is not None:
                s.line(frame)

        def on_call(frame) -> None:  # noqa: ANN001
            s = getattr(current_task(), "strike", None)
            if s is not None:
                s.call(frame)

        if strike is not None:
            sim.on_line, sim.on_call = on_line, on_call
        return sim

    def grown(rounds: int, rnd: int) -> tuple[int, int]:
        before = used()
        gc.disable()  # so that it does not depend on when garbage is collected
        for k in range(rounds):
            one(rnd + k)
        return used() - before, rnd + rounds

    gc.collect()
    gc.freeze()
    where = f"{' and '.join(ops)}{f' (which fails at {strike[0]} {strike[1]})' if strike else ' (where a callback fails)' if cb else ''}"

    def measure() -> None:
        _, rnd = grown(5, 0)
        around = [len(open_files()), threading.active_count(), len(plt.get_fignums())]
        growth, rnd = grown(12, rnd)
        if growth >= 6:  # noqa: PLR2004
            growth, rnd = grown(12, rnd)
        if growth >= 6:  # noqa: PLR2004
            stats["suspected"] += 1
            _, rnd = grown(150, rnd)
            growths = []
            kinds = collections.Counter(type(x).__name__ for x in gc.get_objects())
            for _ in range(3):
                growth, rnd = grown(25, rnd)
                growths.append(growth)
            if min(growths) >= 20:  # noqa: PLR2004
                more = collections.Counter(type(x).__name__ for x in gc.get_objects())
                more.subtract(kinds)
                more = ", ".join(f"{n} {k}" for k, n in more.most_common(4) if n >= 50)  # noqa: PLR2004
                raise Violation(f"{where}: {sum(growths) / 75:.1f} objects are left in memory by every round, after {rnd} of them{f' (in 75 rounds: {more})' if more else ''}", f"memory-{'-'.join(ops)}")
        now = [len(open_files()), threading.active_count(), len(plt.get_fignums())]
        for a, b, name in zip(around, now, ("files are open", "threads run", "figures exist")):
            if b > a:
                raise Violation(f"{where}: {b - a} more {name} after {rnd} rounds", f"{name.split(' ')[0]}-{'-'.join(ops)}")

    try:
        if mode < 2 and ch.chance(0.5):  # noqa: PLR2004
            steady.append(new(0))
            last[0] = steady[0]
            steady[0].spawn(measure, steady[0].process(), "client0")
            steady[0].run()
            account(steady[0])
            digests.append(steady[0].digest())
        else:
            measure()
    except Violation as e:
        raise attach(e, last[0] or Sim(Choices(replay=[]))) from None
    return {"digest": "-".join(digests), "faults": faults, "sim_time": totals["time"], "n_events": totals["n_events"], "switches": totals["switches"], "steps": totals["steps"],
            "nontrivial": bool(faults) or mode > 1, "stats": stats, "sample": {"operations": ops, "mode": ["alone", "failing", "in its own thread", "with another thread"][mode]}}
