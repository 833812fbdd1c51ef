"""C12: the timing wrapper is transparent and reports elapsed time."""
from __future__ import annotations

import functools
import inspect
import os
import re
import time

import numpy as np

from props.cachekit import attach, fresh_decorators
from sim.core import Sim, SimKilled, Violation, current_task

RUNS = {"quick": 6000, "thorough": 300000}
BUDGET = {"quick": 60, "thorough": 840}
LEVEL = "exploration"
RULE = ("one run = 1-4 threads (preempted between any two lines of the wrapper) which call timed functions of many kinds - plain, generators, coroutines, methods, recursive, "
        "doubly timed, failing with ordinary and with exiting exceptions, printing, sleeping - while the clock runs, stands still, jumps forwards, backwards and over "
        "daylight saving changes; each call is compared with what the function itself saw and with every reading of the clock; non-trivial = a clock jump, an "
        "exception, or a context switch happened")
REAL = ["surface_potential_analysis.util.decorators.timed"]
STUBS = ["clocks (datetime and time)", "standard output", "threads scheduled by the simulator"]
ASSUMPTIONS = ["elapsed time may be taken from the wall clock or from a monotonic clock, and is reported in seconds"]
NUMBER = re.compile(r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")


def prepare() -> None:
    """A time zone with daylight saving time."""
    os.environ["TZ"] = "GMT0BST,M3.5.0/1,M10.5.0"
    time.tzset()


class Odd(BaseException):
    """Not an Exception."""


EXC = [ValueError, KeyError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError, Odd, OSError, RecursionError]


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001, PLR0915
    """One run."""
    n_clients = 1 + (ch.choose(4) if index % 2 else 0)
    sim = Sim(ch, trace=True, preempt_mean=ch.pick([0, 1, 3, 8]) if n_clients > 1 else 0)
    proc = sim.process()
    dec = fresh_decorators()
    sim.clock_reads = []
    sim.stdout = []
    start = ch.weighted([3, 1, 1])
    from sim.seams import EPOCH

    if start:  # shortly before a change between summer and winter time
        sim.wall_offset = (1698541200.0 if start == 1 else 1711846800.0) - EPOCH - ch.pick([0.5, 5.0, 300.0, 5000.0])
    style = ch.weighted([2, 3, 2])
    stats = {"calls": 0, "failures": 0, "nested": 0, "jumps": 0}

    def clock() -> None:
        if style == 0:
            return
        sim.now += ch.pick([0.0, 1e-6, 0.003, 1.0])
        if style == 2 and ch.chance(0.3):
            sim.wall_offset += ch.pick([-3600.0, 3600.0, 86400.0 * 3, -1e-3, 1e8, -1e8])
            stats["jumps"] += 1
            sim.fault("clock jump")

    sim.clock_hook = clock

    def lines_of(me) -> list[str]:  # noqa: ANN001
        return "".join(s for n, s in sim.stdout if n == me.name).splitlines()

    def make(me, kind: int, rec: list):  # noqa: ANN001, ANN202, C901, PLR0915
        """A function of one kind; it notes what it was called with and what it did."""
        exc = ch.pick(EXC)("from the function") if ch.chance(0.35) else None
        value = ch.pick([None, 0, (), [1, 2], {"a": 1}, np.arange(3.0), np.float64(2.5), "text", object(), NotImplemented])
        naps = ch.pick([0.0, 0.0, 1e-6, 0.25, 59.0, 4000.0, 200000.0, 3e6])
        chat = ch.chance(0.15)
        unit = ch.choose(3)

        def body(a: tuple, kw: dict):  # noqa: ANN202
            e = {"args": a, "kw": kw, "first": len(sim.clock_reads), "exc": exc, "value": value, "lines": len(lines_of(me))}
            rec.append(e)
            if naps:
                sim.sleep(naps)
            for _ in range(unit):
                sim.point("body")
            if chat:
                print("chatter")  # noqa: T201
            e["last"] = len(sim.clock_reads)
            if exc is not None:
                raise exc
            return value

        name = ch.pick(["work", "_x", "f", "calculate_overlap_transform"])
        if kind == 1:
            def fn(x, *rest, flag: bool = False, **kw):  # noqa: ANN001, ANN002, ANN003, ANN202
                """Documented."""
                return body((x, *rest), {"flag": flag, **kw})
        elif kind == 2:
            class Owner:
                def work(self, *a, **kw):  # noqa: ANN002, ANN003, ANN202
                    return body((self, *a), kw)
            fn = Owner.work
        elif kind == 3:
            fn = lambda *a, **kw: body(a, kw)  # noqa: E731
        elif kind == 4:
            def fn(*a, **kw):  # noqa: ANN002, ANN003, ANN202
                return body(a, kw)
            fn.extra = {"k": 1}
            fn.__doc__ = None
            fn.__annotations__ = {"return": int}
            fn.__defaults__ = None
        else:
            def fn(*a, **kw):  # noqa: ANN002, ANN003, ANN202
                """Doc of fn."""
                return body(a, kw)
        if kind != 3 and kind != 2:
            fn.__name__ = name
            fn.__qualname__ = f"Owner.{name}"
            fn.__module__ = "some.module"
        return fn, exc, value

    def check_meta(fn, w) -> None:  # noqa: ANN001
        for k in ("__name__", "__qualname__", "__doc__", "__module__", "__annotations__", "__type_params__"):
            if getattr(fn, k, None) != getattr(w, k, None):
                raise Violation(f"{k} changed from {getattr(fn, k, None)!r} to {getattr(w, k, None)!r}", f"metadata-{k}")
        if any(w.__dict__.get(k) != v for k, v in fn.__dict__.items() if k != "__wrapped__"):
            raise Violation("attributes of the function are missing from the wrapper", "metadata-dict")
        if inspect.signature(fn) != inspect.signature(w):
            raise Violation(f"signature changed from {inspect.signature(fn)} to {inspect.signature(w)}", "metadata-signature")

    def check_line(me, line: str, name: str, reads: list, e: dict, before: int, after: int) -> None:  # noqa: ANN001, PLR0913, PLR0917
        if name not in line:
            raise Violation(f"the line {line!r} does not name {name}", "line-name")
        nums = [float(x) for x in NUMBER.findall(line.replace(name, " ", 1))]
        if len(nums) != 1:
            raise Violation(f"the line {line!r} holds {len(nums)} numbers", "line-format")
        pre = [(k, v) for t, k, v in reads[before:e["first"]] if t is me]
        post = [(k, v) for t, k, v in reads[e["last"]:after] if t is me]
        if not any(k1 == k2 and abs((v2 - v1) - nums[0]) < 3e-6 + 1e-9 * abs(v2 - v1) for k1, v1 in pre for k2, v2 in post):
            raise Violation(f"{line!r}: the clocks said {pre} before the function and {post} after it", "wrong-time")

    def common(*a, **kw):  # noqa: ANN002, ANN003, ANN202
        return current_task().fn(*a, **kw)

    shared = dec.timed(common)

    def client() -> None:
        me = current_task()
        for _ in range(1 + ch.choose(4)):
            rec: list[dict] = []
            kind = ch.choose(9)
            if kind == 5:  # recursion
                depth = 1 + ch.choose(3)
                boom = ch.chance(0.3)
                naps = [ch.pick([0.0, 0.5, 7.0]) for _ in range(depth + 1)]
                spans: list[dict] = [{} for _ in range(depth + 1)]

                @dec.timed
                def count(k: int):  # noqa: ANN202
                    e = spans[k]  # noqa: B023
                    e["first"] = len(sim.clock_reads)
                    try:
                        sim.sleep(naps[k])  # noqa: B023
                        if k == 0:
                            if boom:  # noqa: B023
                                raise ValueError("deep")
                            return 0
                        return 1 + level(k - 1)  # noqa: B023
                    finally:
                        e["last"] = len(sim.clock_reads)

                def level(k: int):  # noqa: ANN202
                    spans[k]["before"] = len(sim.clock_reads)  # noqa: B023
                    try:
                        return count(k)  # noqa: B023
                    finally:
                        spans[k]["after"] = len(sim.clock_reads)  # noqa: B023

                n0 = len(lines_of(me))
                stats["nested"] += 1
                try:
                    out = level(depth)
                except ValueError as e:
                    out = None
                    if not boom or str(e) != "deep":
                        raise Violation(f"recursion: {e!r}", "exception-changed") from None
                got = lines_of(me)[n0:]
                if (not boom and out != depth) or len(got) != depth + 1:
                    raise Violation(f"recursion of depth {depth}: result {out}, lines {got}", "recursion")
                for k, x in enumerate(got):
                    check_line(me, x, "count", sim.clock_reads, spans[k], spans[k]["before"], spans[k]["after"])
                stats["calls"] += depth + 1
                continue
            fn, exc, value = make(me, kind, rec)
            if kind == 6:  # a generator function: calling it only makes the generator
                def gen(*a):  # noqa: ANN002, ANN202
                    yield from (1, 2, a)

                w = dec.timed(gen)
                n0 = len(lines_of(me))
                g = w(5)
                if not inspect.isgenerator(g) or len(lines_of(me)) != n0 + 1 or list(g) != [1, 2, (5,)] or len(lines_of(me)) != n0 + 1:
                    raise Violation(f"generator function: {g!r}, lines {lines_of(me)[n0:]}", "generator")
                stats["calls"] += 1
                continue
            layers = 2 if kind == 7 else 1
            w = fn
            if kind == 8:  # one timed function, used by everybody
                me.fn = fn
                fn, layers, w = common, 0, shared
            for _i in range(layers):
                w = dec.timed(w)
            layers = layers or 1
            check_meta(fn, w)
            if any(x for x in rec):
                raise Violation("wrapping called the function", "called-early")
            arr = np.arange(2.0)
            args = ch.pick([(), (1,), (arr,), ([1], {"a": 2}), (None, ..., "x")])
            if kind == 1 and not args:
                args = (3,)
            if kind == 2:
                args = (object(), *args)
            kw = ch.pick([{}, {}, {"f": 1}, {"args": 2, "kw": 3}, {"self": arr, "result": 1, "ts": 0}]) if kind != 1 else ch.pick([{}, {"flag": True}, {"k": arr}])
            if kind == 2:
                kw = {k: v for k, v in kw.items() if k != "self"}
            n0, before = len(lines_of(me)), len(sim.clock_reads)
            err = None
            out = None
            old = ValueError("already handled") if ch.chance(0.2) else None
            try:
                if old is not None:
                    try:
                        raise old
                    except ValueError:
                        out = w(*args, **kw)
                else:
                    out = w(*args, **kw)
            except (SimKilled, Violation):
                raise
            except BaseException as e:  # noqa: BLE001
                err = e
            after = len(sim.clock_reads)
            stats["calls"] += layers
            sim.log(f"kind {kind} -> {type(err).__name__ if err else 'ok'} {lines_of(me)[n0:]}")
            if len(rec) != 1:
                raise Violation(f"the function was called {len(rec)} times", "call-count")
            e = rec[0]
            if len(e["args"]) != len(args) or any(a is not b for a, b in zip(e["args"], args, strict=True)):
                raise Violation(f"the function received {e['args']!r} instead of {args!r}", "arguments")
            want_kw = {"flag": False, **kw} if kind == 1 else kw
            if list(e["kw"]) != list(want_kw) or any(e["kw"][k] is not v for k, v in want_kw.items()):
                raise Violation(f"the function received {e['kw']!r} instead of {want_kw!r}", "arguments")
            if exc is not None:
                stats["failures"] += 1
                sim.fault("function fails")
                if err is not exc or err.args != ("from the function",) or err.__cause__ is not None or err.__context__ is not old:
                    raise Violation(f"the function raised {exc!r}, the caller saw {err!r} (context {getattr(err, '__context__', None)!r})", "exception-changed")
            elif err is not None:
                raise Violation(f"the wrapper raised {type(err).__name__}: {err}", "spurious-exception")
            elif out is not value:
                raise Violation(f"the function returned {value!r}, the caller saw {out!r}", "result-changed")
            got = [x for x in lines_of(me)[n0:] if x != "chatter"]
            text = "".join(s for n, s in sim.stdout if n == me.name)
            if len(got) != layers or not text.endswith("\n"):
                raise Violation(f"{layers} timed call(s) printed {got!r}", "line-count")
            for x in got:
                check_line(me, x, fn.__name__, sim.clock_reads, e, before, after)

    for i in range(n_clients):
        sim.spawn(client, proc, f"client{i}")
    try:
        sim.run()
    except Violation as e:
        raise attach(e, sim) from None
    assert functools is not None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": sim.switches > 0 or bool(sim.faults), "stats": stats,
            "sample": {"clients": n_clients, "events": sim.events[:40]}}
