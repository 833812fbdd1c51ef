"""C03: caching modes behave like a simple read/write-through register."""
from __future__ import annotations

import os
import pathlib

import numpy as np

from props import cachekit
from props.cachekit import Boom, World, attach, fresh_decorators, make_value, same, scribble
from sim.core import Sim, SimKilled, Violation, current_task
from sim.fs import FaultConfig, SimFS

RUNS = {"quick": 6000, "thorough": 200000}
BUDGET = {"quick": 100, "thorough": 800}
LEVEL = "exploration"
RULE = ("even runs: one sequential history of 3-14 calls (all modes, several functions, processes, entries, path kinds, function failures, "
        "caller mutations) compared step by step with a register model; odd runs: 2-4 concurrent callers, history checked as an atomic register; "
        "non-trivial = at least two calls on one entry, or a context switch")
REAL = ["surface_potential_analysis.util.decorators (freshly loaded per simulated process)", "pickle, numpy.save/load, pathlib"]
STUBS = ["file system (sim/fs.py)", "threads scheduled by the simulator", "os.urandom, getpid, clocks"]
ASSUMPTIONS = ["cached functions return mappings (pickle cache) or arrays and scalars (array cache), as their types say"]

MODES = ["load_or_call_cached", "load_or_call_uncached", "call_uncached", "call_cached"]


def value_for(ch, kind: str, key: int, uid: int):  # noqa: ANN001, ANN201
    """A value, sometimes a falsy one."""
    k = ch.choose(10)
    size = ch.choose(5)
    if kind == "pickle":
        if k == 9:
            return {}
        return make_value("pickle", key, uid, k % 3, size)
    if k == 9:
        return [np.zeros(0), np.zeros(()), np.float64(0.0), np.zeros((2, 0)), np.zeros(3), np.bool_(False), 0, 0.0, [1, 2, 3], (1.5, 2.5)][ch.choose(10)]
    return make_value("npy", key, uid, k % 7, size)


def equal(a, b, kind: str) -> bool:  # noqa: ANN001
    """Same value (an array cache may answer with an array where the function returned a list)."""
    if kind == "npy" and not isinstance(b, dict):
        return not isinstance(a, dict) and same(np.asanyarray(a), np.asanyarray(b))
    return same(a, b)


def sequential(ch) -> dict:  # noqa: ANN001
    """One history, one model."""
    sim = Sim(ch, trace=False)
    fs = sim.fs = SimFS(sim)
    sim.entropy = 3
    fs.faults = FaultConfig(short_read=0.1, short_write=0.1, max_faults=1000)
    stored: dict[str, object] = {}
    counter = {"uid": 1}
    stats = {"calls": 0, "hits": 0, "misses": 0, "restarts": 0}
    kind = ch.pick(["pickle", "npy"])
    shape = ch.pick(["callable", "callable", "callable", "constant", "none", "per_kwarg"])
    ext = ch.pick([".pkl", ".npy", "", ".v1", ".npz", ".tar.gz"])
    fs.mkdirs("/sim/data/d")
    null_key = ch.choose(4)

    def location(args: tuple, kw: dict) -> str | None:
        if shape == "none":
            return None
        if shape == "constant":
            return f"/sim/data/only{ext}"
        key = args[0] if args else kw["key"]
        if shape == "per_kwarg":
            return f"/sim/data/{key}_{kw.get('scale', 1)}_{kw.get('tag', 'x')}{ext}"
        if key == null_key and null_key < 2:
            return None
        return f"/sim/data/d/{key}{ext}"

    seen: dict = {}

    def build(default):  # noqa: ANN001, ANN202
        dec = fresh_decorators()

        def f(*args, **kw):  # noqa: ANN002, ANN003, ANN202
            seen["f"].append((args, kw))
            if seen["fail"]:
                sim.fault("function_error")
                e = seen["fail"]
                raise e
            return seen["value"]

        if shape == "none":
            path = None
        elif shape == "constant":
            path = pathlib.Path(f"/sim/data/only{ext}")
        else:
            def path(*args, **kw):  # noqa: ANN002, ANN003, ANN202
                seen["path"].append((args, kw))
                p = location(args, kw)
                return None if p is None else pathlib.Path(p)
        if kind == "pickle":
            return dec.cached(path, **({} if default is None else {"default_call": default}))(f)
        return dec.npy_cached(path, load_pickle=True)(f)

    steps = 3 + ch.choose(12)
    state = {"fn": None, "default": None}
    nontrivial = {"n": 0}

    def start() -> None:
        state["default"] = ch.pick([None, *MODES]) if kind == "pickle" else None
        state["fn"] = build(state["default"])
        state["default"] = state["default"] or "load_or_call_cached"
        stats["restarts"] += 1
        sim.log(f"process starts, default={state['default']}")

    def body() -> None:
        for _ in range(steps):
            if state["fn"] is None or ch.chance(0.15):
                start()
            fn = state["fn"]
            if kind == "pickle" and ch.chance(0.15):
                state["default"] = ch.pick(MODES)
                fn.default_call = state["default"]
                sim.log(f"default_call = {state['default']}")
            key = ch.choose(3)
            kw: dict = {}
            if shape == "per_kwarg":
                if ch.chance(0.5):
                    kw["scale"] = ch.choose(3)
                if ch.chance(0.3):
                    kw["tag"] = ch.pick(["x", "y"])
            elif ch.chance(0.2):
                kw["other"] = [ch.choose(2)]
            if ch.chance(0.3):
                args: tuple = ()
                kw["key"] = key
            else:
                args = (key,)
            how = ch.pick(["__call__", "__call__", *MODES]) if kind == "pickle" else "__call__"
            mode = ("load_or_call_cached" if kind == "npy" else state["default"]) if how == "__call__" else how
            loc = location(args, kw)
            uid = counter["uid"]
            counter["uid"] += 1
            value = value_for(ch, kind, key, uid)
            pristine = value_copy(value)
            seen.update(f=[], path=[], value=value, fail=None)
            if ch.chance(0.1):
                seen["fail"] = ch.pick([Boom(uid), ValueError("boom"), FileNotFoundError(2, "from the function"), KeyError(uid), KeyboardInterrupt(), EOFError("x")])
            expect_hit = mode.startswith("load") and loc is not None and loc in stored
            expect_calls = 0 if expect_hit else 1
            before = fs.tree("/sim")
            fs.touched = []
            stats["calls"] += 1
            sim.log(f"{how}({args}, {kw}) mode={mode} hit={expect_hit} fail={type(seen['fail']).__name__}")
            what = f"{kind} cache, {mode} via {how}, path {shape} -> {loc}, entry {'present' if expect_hit or (loc in stored) else 'absent'}"
            try:
                out = (fn if how == "__call__" else getattr(fn, how))(*args, **kw)
                err = None
            except SimKilled:
                raise
            except BaseException as e:  # noqa: BLE001
                out, err = None, e
            if len(seen["f"]) != expect_calls:
                raise Violation(f"{what}: the function was called {len(seen['f'])} times instead of {expect_calls}" + (f" ({err!r})" if err else ""), "call-count")
            for a in seen["f"] + seen["path"]:
                if a != (args, kw):
                    raise Violation(f"{what}: called with {(args, kw)} but passed on {a}", "arguments-changed")
            failed = seen["fail"] is not None and expect_calls == 1
            if failed:
                if err is not seen["fail"]:
                    raise Violation(f"{what}: the function raised {seen['fail']!r} but the call gave {err!r} / {str(out)[:80]}", "function-error-changed")
            elif err is not None:
                raise Violation(f"{what}: raised {type(err).__name__}: {err}", "spurious-error")
            else:
                want = stored[loc] if expect_hit else pristine
                if not equal(out, want, kind):
                    raise Violation(f"{what}: returned {str(out)[:120]} instead of {str(want)[:120]}", "wrong-value")
            writes = mode.endswith("_cached") and expect_calls == 1 and not failed and loc is not None
            after = fs.tree("/sim")
            if loc is None and fs.touched:
                raise Violation(f"{what}: no path is configured, but files were touched: {fs.touched}", "touched-without-path")
            if not writes:
                if after != before or any(m == "w" for m, _ in fs.touched):
                    raise Violation(f"{what}: nothing was to be stored, but files were written: {[p for m, p in fs.touched if m == 'w']}", "unwanted-write")
            else:
                if set(after) - set(before) - {loc}:
                    raise Violation(f"{what}: other files changed: {set(after) - set(before)}", "other-file")
                if loc not in after:
                    raise Violation(f"{what}: the value was not stored at {loc}; files: {sorted(after)}", "not-stored")
                for p in before:
                    if p != loc and after.get(p, 0) != before[p]:
                        raise Violation(f"{what}: storing {loc} changed {p}", "other-file")
                if loc in stored:
                    nontrivial["n"] += 1
                stored[loc] = pristine
            stats["hits" if expect_hit else "misses"] += 1
            if expect_hit:
                nontrivial["n"] += 1
            if fs.escapes:
                raise Violation(f"{what}: touched {fs.escapes}", "escape")
            if err is None and ch.chance(0.5):
                scribble(out)

    sim.spawn(body, sim.process(), "main")
    try:
        sim.run()
    except Violation as e:
        raise attach(e, sim) from None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": nontrivial["n"] > 0, "stats": stats, "sample": {"events": sim.events[:60]}}


def value_copy(v):  # noqa: ANN001, ANN201
    """Deep copy of a value."""
    if isinstance(v, dict):
        return {k: value_copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [value_copy(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.copy(order="K")
    return v


def concurrent(ch) -> dict:  # noqa: ANN001
    """Several callers at once, no I/O faults."""
    kind = ch.pick(["pickle", "npy"])
    n_keys = 1 + ch.choose(3)
    names = [ch.pick(["a", "b.npy", "c.pkl"]) + str(i) for i in range(n_keys)]
    if n_keys > 1 and ch.chance(0.2):
        names[0] = None
    w = World(ch, kind, n_keys=n_keys, names=names, trace=True, preempt=ch.pick([1.5, 4, 12, 40]))
    w.f_fail = 0.1 if ch.chance(0.4) else 0.0
    w.mutate = ch.chance(0.4)
    sim = w.sim
    w.fs.faults = FaultConfig(short_read=0.1, short_write=0.2, max_faults=1000)
    stats = {"calls": 0, "concurrent_runs": 1}
    try:
        for pi in range(1 + ch.choose(2)):
            proc = sim.process()
            fn = w.wrapper()
            for ti in range(2 if pi == 0 else 1 + ch.choose(2)):
                plan = [("npy" if kind == "npy" else ch.pick(MODES), ch.choose(n_keys)) for _ in range(1 + ch.choose(4))]
                stats["calls"] += len(plan)

                def body(plan=plan, fn=fn) -> None:  # noqa: ANN001
                    for mode, key in plan:
                        w.call(fn, mode, key)

                sim.spawn(body, proc, f"p{pi}t{ti}")
        sim.run()
        w.fs.faults = FaultConfig()
        w.f_fail = 0.0
        w.mutate = False
        if w.litter():
            raise Violation(f"files left behind: {w.litter()}", "litter")
        cachekit.finish(w)
        w.check_history()
        w.check_calls()
    except Violation as e:
        raise attach(e, sim) from None
    return w.result(nontrivial=sim.switches > 0, stats=stats)


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001
    """One run."""
    return sequential(ch) if index % 2 == 0 else concurrent(ch)
