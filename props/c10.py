"""C10: operations never modify their inputs and do not depend on history or on other callers."""
from __future__ import annotations

import types

import numpy as np

from props import c08, opskit, w90kit
from props import opscheck as oc
from props.cachekit import attach
from sim.core import Sim, Violation

RUNS = {"quick": 18000, "thorough": 150000}
BUDGET = {"quick": 420, "thorough": 860}
LEVEL = "exploration"
RULE = ("one run = 4-14 calls of 1-4 operations (out of all public functions, basis members and helpers) on shared values, by one client, by one client with a "
        "handler which makes calls in the middle of its calls, or by 2-3 clients (threads preempted between any two lines of the code under test); calls repeat the same arguments, the same arguments rebuilt (and freed afterwards), the "
        "same shapes with other numbers, and arrays refilled by their owner; clients scribble over results which are theirs; every call is compared with the same "
        "call made alone in a fresh copy of the process; non-trivial = clients overlapped, or a call was repeated with other numbers, refilled or rebuilt arguments")
REAL = ["all public functions of surface_potential_analysis except file caches and loaders (C01-C04)", "numpy, scipy, matplotlib (Agg)"]
STUBS = ["threads scheduled by the simulator", "clocks", "random entropy", "the native solver (answers with numbers computed from its arguments)",
         "wannier90.x, its files and its operator", "the pool of worker processes"]
ASSUMPTIONS = ["axes handed to a plot are its output, not an input", "results of functions which draw random numbers are not compared",
               "results which change by more than 1e-7 when the inputs change by rounding errors are not compared",
               "what a call leaves in private caches (attributes added to an object) is not an input"]

NAMES: list = []


def prepare() -> None:
    """Import the code under test."""
    m = opskit.load()
    NAMES.extend(sorted(m.ops))
    c08.prepare()
    w90kit.prepare()


def is_plot(op: str) -> bool:
    """Is this operation slow to run?"""
    return "plot" in op or "animate" in op


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001, C901, PLR0912, PLR0915
    """One run."""
    if index % 40 == 13:  # noqa: PLR2004
        return w90kit.run(ch, "C10", index // 40)
    if index % 40 == 33:  # noqa: PLR2004
        return c08.run(ch, tier, index // 40, "C10")
    focus = index % 3 == 0  # a few calls of one operation
    n_clients = 2 + ch.choose(2) if index % 3 == 2 else 1  # noqa: PLR2004
    nested = n_clients == 1 and ch.chance(0.35)  # a handler makes calls in the middle of calls
    with_function = [n for n in NAMES if n.rsplit(".", 1)[-1] in oc.WITH_FUNCTION] if nested and ch.chance(0.25) else []
    n_ops = 1 if focus or with_function else 1 + ch.weighted([4, 4, 2, 1])
    world = opskit.World(ch.bits(), 0)
    calls: list[oc.Call] = []
    tries = 0
    ops: list[str] = []
    while len(ops) < n_ops and tries < 30:
        tries += 1
        op = NAMES[(index // 3 * 7 + tries - 1) % len(NAMES)] if focus else NAMES[ch.choose(len(NAMES))]
        if nested and with_function and tries < 10:  # noqa: PLR2004
            op = ch.pick(with_function)
        if is_plot(op) and not ch.chance(0.3):
            continue
        if op.startswith(("BasisUtil", "TimeBasis", "ExplicitBasis")) and not ch.chance(0.6):
            continue
        try:
            calls.append(oc.Call(op, opskit.build(world, op, [ch.choose(1000), 5])))
        except opskit.NoArg:
            continue
        ops.append(op)
    for _ in range(0 if focus else ch.choose(4)):
        if not calls:
            break
        op = ch.pick(ops)
        try:
            calls.append(oc.Call(op, opskit.build(world, op, [ch.choose(1000), 5])))
        except opskit.NoArg:
            continue
    for c in list(calls):
        for _ in range(1 + ch.choose(2) if focus or nested else ch.choose(2)):
            how = ch.choose(len(oc.TWINS))
            calls.append(oc.Call(c.op, oc.twin(c.kwargs, how, ch.choose(100))))
            calls[-1].twin_of, calls[-1].how = c, oc.TWINS[how]
    if not calls:
        return {"digest": "none", "faults": {}, "sim_time": 0.0, "n_events": 0, "switches": 0, "steps": 0, "nontrivial": False, "stats": {}, "sample": {}}
    # what each client does: (kind, call)
    n_steps = 3 + ch.choose(4 if focus else 8)
    if any(is_plot(c.op) for c in calls):
        n_steps = min(n_steps, 5)
    plans = []
    for _ in range(n_clients):
        steps = []
        for _ in range(max(2, n_steps // n_clients)):
            # the same values, rebuilt values, refilled values
            kind = ch.weighted([5, 2, 4] if focus else [6, 4, 2 if n_clients == 1 else 0])
            steps.append((kind, ch.choose(len(calls)), ch.chance(0.4)))
        plans.append(steps)

    def reference(req):  # noqa: ANN001, ANN202
        i, refills, nudged = req
        for a, b in refills:
            oc.rewrite(calls[a].kwargs, calls[b].template)
        kw = calls[i].kwargs
        return oc.in_sim(lambda: oc.call(calls[i].op, oc.nudge(kw) if nudged else kw)[0])

    ref = oc.Reference(reference)
    sim = Sim(ch, trace=n_clients > 1 or nested, preempt_mean=ch.pick([2, 8, 30]) if n_clients > 1 else 0)
    proc = sim.process()
    stats = {"calls": 0, "refilled": 0, "rebuilt": 0, "scribbled": 0, "nested": 0, "unstable": 0, "raised": 0, "twins": 0}
    refills: list = []
    active = {"now": 0, "max": 0}
    handler = {"in": -1, "inside": False, "of": 0}

    def on_line(frame=None) -> None:  # noqa: ANN001, ARG001
        if handler["in"] >= 0 and not handler["inside"]:
            handler["in"] -= 1
            if handler["in"] < 0:
                handler["inside"] = True
                stats["nested"] += 1
                sim.log("a handler is called" if frame else "a function which was handed in makes a call")
                same = [j for j, x in enumerate(calls) if x.op == calls[handler["of"]].op]
                try:
                    step(ch.choose(2), ch.pick(same) if ch.chance(0.6) else ch.choose(len(calls)), ch.chance(0.4))
                finally:
                    handler["inside"] = False
                sim.log("the handler returns")

    def calling(kw: dict) -> dict:
        """The same arguments, with functions which themselves make calls."""
        out = dict(kw)
        for k, f in kw.items():
            if isinstance(f, types.FunctionType):

                def call(*a, _f=f, **b):  # noqa: ANN002, ANN003, ANN202
                    on_line()
                    return _f(*a, **b)

                out[k] = call
        return out

    if nested:
        sim.on_line = on_line
    kept: list = []

    def expected(i: int, nudged: bool = False):  # noqa: ANN202, FBT001, FBT002
        return ref.ask((i, tuple(refills), nudged))

    def check(i: int, outcome, who: str) -> None:  # noqa: ANN001
        op = calls[i].op
        if opskit.RANDOM.search(op.rsplit(".", 1)[-1]):
            return
        want = expected(i)
        d = oc.differ(want, outcome, opskit.tolerance(op))
        if d is None:
            return
        other = expected(i, True)
        if oc.differ(want, other, 1e-7):
            stats["unstable"] += 1
            return
        raise Violation(f"{op} {who}: {d}", f"result-{op}")

    def step(kind: int, i: int, scribble: bool) -> None:  # noqa: FBT001
        c = calls[i]
        if kind == 2:
            source = next((j for j, x in enumerate(calls) if getattr(x, "twin_of", None) is c), None)
            if source is None and hasattr(c, "twin_of"):
                source = calls.index(c.twin_of)
            if source is None:
                kind = 0
            else:
                if any(a == i for a, _ in refills):
                    source = i if ch.chance(0.5) else source
                refilled = oc.rewrite(c.kwargs, calls[source].template)
                kept[:] = [k for k in kept if not any(np.may_share_memory(a, b) for a in k[3] for b in refilled)]
                refills.append((i, source))
                stats["refilled"] += 1
                for x in calls:
                    x.before = x.state()
        import copy

        kw = copy.deepcopy(c.template) if kind == 1 else c.kwargs
        before = oc.snapshot(kw) if kind == 1 else c.before
        stats["rebuilt"] += kind == 1
        stats["calls"] += 1
        active["now"] += 1
        active["max"] = max(active["max"], active["now"])
        sim.log(f"{c.op} {('shared', 'rebuilt', 'refilled')[kind]} {i}")
        mine = nested and not handler["inside"]
        given = kw
        if mine:
            handler["in"], handler["of"] = ch.choose(25) if ch.chance(0.5) else ch.choose(400), i
            if with_function and ch.chance(0.7):
                sim.on_line, given = None, calling(kw)
                handler["in"] //= 3
            else:
                sim.on_line = on_line
        outcome, result = oc.call(c.op, given)
        active["now"] -= 1
        if mine:
            handler["in"] = -1
        if outcome[0] == "raise" and outcome[1] in {"SystemExit", "KeyboardInterrupt"}:
            raise Violation(f"{c.op}: raised {outcome[1]}", f"exit-{c.op}")
        stats["raised"] += outcome[0] == "raise"
        sim.log(outcome[0] if outcome[0] == "ok" else f"raised {outcome[1]}")
        d = oc.changed(before, oc.snapshot(kw))
        if d:
            raise Violation(f"{c.op} modified its input {d}", f"input-{c.op}")
        # rebuilt arguments are those before any refill
        if kind == 1:
            was, refills[:] = list(refills), []
            try:
                check(i, outcome, "with rebuilt arguments")
            finally:
                refills[:] = was
        else:
            check(i, outcome, "with shared arguments" if kind == 0 else "with refilled arguments")
        if outcome[0] != "ok":
            return
        results = list(oc.arrays(result).values())
        inputs = [a for x in calls for a in oc.arrays(x.kwargs).values()] + list(oc.arrays(kw).values())
        own = [a for a in results if a.flags.writeable and a.dtype.kind in "fciu" and not any(np.may_share_memory(a, b) for b in inputs)]
        if scribble and own and not is_plot(c.op):
            for a in own:
                a[...] = 77
            stats["scribbled"] += 1
        elif not is_plot(c.op):
            kept.append((c.op, result, outcome, results))

    def client(steps) -> None:  # noqa: ANN001
        for kind, i, scribble in steps:
            step(kind, i, scribble)

    for n, steps in enumerate(plans):
        sim.spawn(lambda s=steps: client(s), proc, f"client{n}")
    try:
        sim.run()
        # nothing that was handed out or in has changed since
        for c in calls:
            d = oc.changed(c.before, c.state())
            if d:
                raise Violation(f"the input {d} of {c.op} was modified (calls: {sorted(set(ops))})", f"later-input-{c.op}")
        for op, result, outcome, _ in kept:

            if isinstance(result, types.GeneratorType) or hasattr(result, "__next__") or not oc.arrays(result):
                continue
            now = oc.canon([result])
            d = oc.differ(("ok", ("list", outcome[1][1][:1])), ("ok", now), 1e-12)
            if d:
                raise Violation(f"an earlier result of {op} changed later: {d}", f"later-result-{op}")
    except Violation as e:
        raise attach(e, sim) from None
    finally:
        ref.close()
    stats["twins"] = sum(hasattr(c, "twin_of") for c in calls)
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches, "steps": sim.steps,
            "nontrivial": active["max"] > 1 or stats["nested"] + stats["refilled"] + stats["rebuilt"] + stats["twins"] > 0, "stats": stats,
            "sample": {"clients": n_clients, "operations": ops, "events": sim.events[:40]}}
