"""Shared harness of the cache properties (C01, C02, C03): real decorators on a simulated machine."""
from __future__ import annotations

import importlib.util
import os
import pathlib
import sys
from dataclasses import dataclass, field

import numpy as np

from sim.core import REPO, Choices, Process, Sim, SimKilled, Violation, current_task
from sim.fs import FaultConfig, SimFS

_SPEC_PATH = os.path.join(REPO, "surface_potential_analysis", "util", "decorators.py")
_code = None


def fresh_decorators():  # noqa: ANN201
    """The decorators module as a newly started process sees it (nothing shared in memory)."""
    global _code
    if _code is None:
        with open(_SPEC_PATH, encoding="utf8") as f:
            _code = compile(f.read(), _SPEC_PATH, "exec")
    spec = importlib.util.spec_from_file_location("surface_potential_analysis.util.decorators", _SPEC_PATH)
    mod = importlib.util.module_from_spec(spec)
    old = sys.modules.get(spec.name)
    sys.modules[spec.name] = mod
    try:
        exec(_code, mod.__dict__)  # noqa: S102
    finally:
        if old is not None:
            sys.modules[spec.name] = old
    return mod


class Boom(Exception):
    """Raised by the cached function itself."""


# ---- values: everything about a value follows from (key, uid, shape code), so tearing shows ----------
SIZES = [0, 1, 5, 60, 700, 9000, 40000]


def pattern(key: int, uid: int, n: int) -> np.ndarray:
    """The content of version uid."""
    i = np.arange(n, dtype=np.int64)
    return ((i * 2654435761 + uid * 40503 + key * 97 + 13) % 1000003).astype(np.float64)


def make_value(kind: str, key: int, uid: int, code: int, size: int):  # noqa: ANN201
    """Build version uid of entry key."""
    n = SIZES[size]
    p = pattern(key, uid, n)
    if kind == "pickle":
        if code == 0:
            return {"key": key, "uid": uid, "n": n, "data": p}
        if code == 1:
            return {"key": key, "uid": uid, "n": n, "data": [float(x) for x in p[:2000]], "inner": {"z": p * 1j}}
        return {"key": key, "uid": uid, "n": n, "data": p.reshape(-1, 1), "text": "x" * n}
    head = np.array([key, uid, n], dtype=np.float64)
    v = np.concatenate([head, p])
    if code == 0:
        return v
    if code == 1:
        return (v + 1j * v)
    if code == 2:
        return np.stack([v, -v])
    if code == 3:
        return np.float64(key * 1000 + uid)
    if code == 4:
        return v.astype(np.int64)
    if code == 7:  # nothing but zeros; the version shows in the shape
        return np.zeros((key * 1000 + uid, 2))
    if code == 8:  # no elements at all
        return np.zeros((0, key * 1000 + uid), dtype=np.complex128)
    if code == 5:
        return np.asfortranarray(np.stack([v, 2 * v, 3 * v]))
    return np.array({"key": key, "uid": uid, "data": p}, dtype=object)[()]


def same(a, b) -> bool:  # noqa: ANN001
    """Deep equality of values, including types of containers and dtypes of arrays."""
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b, strict=True))
    if isinstance(b, np.ndarray | np.generic):
        a = np.asanyarray(a)
        b = np.asanyarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b))
    return type(a) is type(b) and a == b


@dataclass
class Op:
    """One call in the history."""

    task: str
    proc: int
    mode: str
    key: int
    start: int
    end: int = 1 << 60
    status: str = "running"  # ok, error, killed
    uid: int | None = None   # version returned
    made: list[int] = field(default_factory=list)  # versions computed by this call
    error: BaseException | None = None
    faults: int = 0


class World:
    """One simulated machine with processes using a cached function."""

    def __init__(self, ch: Choices, kind: str, *, n_keys: int, names: list[str], trace: bool, preempt: float) -> None:
        self.ch = ch
        self.kind = kind
        self.sim = Sim(ch, trace=trace, preempt_mean=preempt)
        self.fs = SimFS(self.sim)
        self.sim.fs = self.fs
        self.sim.entropy = 7
        self.paths = {k: (f"/sim/data/{names[k]}" if names[k] is not None else None) for k in range(n_keys)}
        for p in self.paths.values():
            if p is not None:
                self.fs.mkdirs(os.path.dirname(p))
        self.fs.sync_all()
        self.values: dict[int, tuple[int, object]] = {}
        self.next_uid = 1
        self.clock = 0
        self.history: list[Op] = []
        self.epochs: list[int] = []  # times of power losses
        self.f_fail = 0.0
        self.codes = 3 if kind == "pickle" else 9
        self.code_choice: int | None = None
        self.events_extra: list[str] = []
        self.litter_ok = False
        self.mutate = False
        self.current: dict[str, Op] = {}

    def tick(self) -> int:
        self.clock += 1
        return self.clock

    def compute(self, key: int):  # noqa: ANN201
        """The cached function's body."""
        t = current_task()
        op = self.current[t.name]
        if t.proc.dead:
            raise SimKilled
        uid = self.next_uid
        self.next_uid += 1
        code = self.ch.choose(self.codes) if self.code_choice is None else self.code_choice
        size = self.ch.weighted([3, 3, 3, 2, 2, 2, 1])
        self.sim.log(f"compute key={key} uid={uid} code={code} size={SIZES[size]}")
        op.made.append(uid)
        for _ in range(self.ch.choose(3)):
            self.sim.point("compute")
        if self.f_fail and self.ch.chance(self.f_fail):
            self.sim.fault("function_error")
            e = Boom(uid)
            e.injected = True
            raise e
        self.values[uid] = (key, make_value(self.kind, key, uid, code, size))
        return make_value(self.kind, key, uid, code, size)

    def wrapper(self, default: str | None = None):  # noqa: ANN201
        """A cached function in a fresh process."""
        dec = fresh_decorators()
        world = self

        def f(key: int, *, scale: int = 1):  # noqa: ANN202, ARG001
            """Docstring of f."""
            return world.compute(key)

        def path(key: int, *, scale: int = 1):  # noqa: ANN202, ARG001
            p = world.paths[key]
            return None if p is None else pathlib.Path(p)

        if self.kind == "pickle":
            kw = {} if default is None else {"default_call": default}
            return dec.cached(path, **kw)(f)
        return dec.npy_cached(path, load_pickle=True)(f)

    def identify(self, v, key: int) -> int:  # noqa: ANN001
        """Which version is this? Raises if it is none of those produced for key."""
        for uid in range(self.next_uid - 1, 0, -1):
            e = self.values.get(uid)
            if e is not None and same(v, e[1]):
                if e[0] != key:
                    raise Violation(f"call for key {key} returned version {uid}, which was computed for key {e[0]}", "wrong-key")
                return uid
        raise Violation(f"call for key {key} returned a value the function never produced: {str(v)[:200]}", "torn-value")

    def call(self, fn, mode: str, key: int) -> Op:  # noqa: ANN001
        """One call by the current task, recorded in the history."""
        t = current_task()
        op = Op(t.name, t.proc.pid, mode, key, self.tick())
        self.history.append(op)
        self.current[t.name] = op
        self.sim.log(f"call {mode} key={key}")
        before = len(self.fs.injected)
        target = fn if mode in {"default", "npy"} else getattr(fn, mode)
        try:
            v = target(key)
        except SimKilled:
            op.status = "killed"
            op.end = self.tick()
            raise
        except BaseException as e:  # noqa: BLE001
            if t.proc.dead:
                op.status = "killed"
                op.end = self.tick()
                raise SimKilled from None
            op.status = "error"
            op.error = e
            op.end = self.tick()
            self.sim.log(f"-> {type(e).__name__}")
            self.check_error(op, e)
            return op
        if t.proc.dead:
            op.status = "killed"
            op.end = self.tick()
            raise SimKilled
        op.end = self.tick()
        op.status = "ok"
        op.uid = self.identify(v, key)
        op.faults = len(self.fs.injected) - before
        self.sim.log(f"-> version {op.uid}")
        if self.mutate:
            scribble(v)
        return op

    def check_error(self, op: Op, e: BaseException) -> None:
        chain = []
        x: BaseException | None = e
        while x is not None and x not in chain:
            chain.append(x)
            x = x.__cause__ or x.__context__
        if not any(getattr(c, "injected", False) for c in chain):
            raise Violation(f"{op.mode}(key={op.key}) raised {type(e).__name__}: {e} although nothing failed in it", f"spurious-{type(e).__name__}")
        if not isinstance(e, (OSError, KeyboardInterrupt, Boom)):
            raise Violation(f"{op.mode}(key={op.key}) met an injected error but raised {type(e).__name__}: {e}", "error-not-reported")

    # ---- whole history -----------------------------------------------------------
    def check_history(self) -> None:
        """Every entry behaves as a register whose stores are atomic."""
        for key in self.paths:
            ops = [o for o in self.history if o.key == key]
            stores = []  # (uid, start, end, definite)
            for o in ops:
                writes = o.mode in {"call_cached", "load_or_call_cached", "npy", "default"} and self.paths[key] is not None
                for uid in o.made:
                    if writes:
                        stores.append((uid, o.start, o.end, o.status == "ok"))
            where = {s[0]: s for s in stores}
            for o in ops:
                if o.status != "ok":
                    continue
                if o.uid in o.made:
                    if o.mode in {"load_or_call_cached", "load_or_call_uncached", "npy", "default"}:
                        # a miss: no store had certainly completed
                        for uid, s, e, definite in stores:
                            if definite and e < o.start and not self._loss_between(s, o.start):
                                raise Violation(f"{o.mode}(key={key}) computed the value again although version {uid} had been stored", "lost-store")
                    continue
                if o.uid not in where:
                    raise Violation(f"{o.mode}(key={key}) returned version {o.uid}, which was never to be stored", "uncached-stored")
                if o.mode in {"call_cached", "call_uncached"}:
                    raise Violation(f"{o.mode}(key={key}) returned the stored version {o.uid} instead of calling the function", "stale-call")
                _, ws, we, _d = where[o.uid]
                if ws > o.end:
                    raise Violation(f"version {o.uid} was read before it was computed", "future-read")
                for uid, s, e, definite in stores:
                    if definite and s > we and e < o.start and not self._loss_between(s, o.start):
                        raise Violation(f"{o.mode}(key={key}) returned version {o.uid} although version {uid} was stored after it", "stale-read")

    def _loss_between(self, a: int, b: int) -> bool:
        return any(a <= t <= b for t in self.epochs)

    def check_calls(self) -> None:
        """Each completed call ran the function as often as its mode says."""
        for o in self.history:
            if o.status == "killed":
                continue
            n = len(o.made)
            if n > 1:
                raise Violation(f"{o.mode}(key={o.key}) called the function {n} times", "called-twice")
            if o.mode in {"call_cached", "call_uncached"} and n != 1:
                if not (o.status == "error" and isinstance(o.error, (OSError, KeyboardInterrupt))):
                    raise Violation(f"{o.mode}(key={o.key}) called the function {n} times", "call-count")

    def litter(self) -> list[str]:
        """Files which are no entries."""
        known = {p for p in self.paths.values() if p is not None}
        return [p for p, d in self.fs.tree("/sim").items() if d is not None and p not in known]

    def result(self, *, nontrivial: bool, stats: dict | None = None, sample: object = None) -> dict:
        s = self.sim
        return {
            "digest": s.digest(), "faults": s.faults, "sim_time": s.now, "n_events": s.n_events,
            "switches": s.switches, "steps": s.steps, "nontrivial": nontrivial,
            "stats": stats or {}, "sample": sample or {"events": s.events[:60]},
        }


def scribble(v) -> None:  # noqa: ANN001
    """What a careless caller does to a value it was given."""
    if isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v["scribbled"] = True
    elif isinstance(v, list):
        v.append("scribbled")
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype != object:
        v[...] = -7


def attach(e: Violation, sim: Sim) -> Violation:
    """Keep the trace of the failing run."""
    e.events = list(sim.events)  # type: ignore[attr-defined]
    return e


def fault_config(ch: Choices, rich: bool) -> FaultConfig:  # noqa: FBT001
    """A swarm configuration: each run enables its own subset of fault kinds."""
    if not rich:
        return FaultConfig(short_read=0.1, short_write=0.2, max_faults=1000)
    kinds = ["open", "read", "write", "fsync", "close", "rename", "unlink", "stat", "mkdir", "interrupt"]
    p = {k: (0.15 if ch.chance(0.35) else 0.0) for k in kinds}
    p["interrupt"] *= 0.4
    return FaultConfig(short_read=0.1, short_write=0.2, max_faults=1 + ch.choose(4), **p)


def run_faulty(ch: Choices, kind: str, index: int) -> dict:
    """Crash and fault simulation of one cache (C01: pickle, C02: npy)."""
    faulty = index % 4 != 0
    n_keys = 1 + ch.choose(2)
    pool = ["e.npy", "entry", "sub/x.y.z", "noext", "a b.pkl", "deep/er/d.npy"] if kind == "npy" else ["e.pkl", "entry", "sub/x.y.z", "a b.npy", "deep/er/d"]
    names = []
    for _ in range(n_keys):
        names.append(pool.pop(ch.choose(len(pool))))
    w = World(ch, kind, n_keys=n_keys, names=names, trace=ch.chance(0.5), preempt=ch.pick([0, 2, 5, 15, 60]))
    sim, fs = w.sim, w.fs
    stats = {"calls": 0, "kills": 0, "power_losses": 0, "rounds": 0, "errors": 0}
    try:
        rounds = 1 + ch.choose(3)
        for _ in range(rounds):
            stats["rounds"] += 1
            synced = ch.chance(0.4)
            if synced:
                fs.sync_all()
            had = {k for k, p in w.paths.items() if fs.get(p) is not None}
            durable = set(had) if synced else set()
            fs.faults = fault_config(ch, faulty)
            fs.n_faults = 0
            dead_before = sim.faults.get("unlink_error", 0)
            n_inj = len(fs.injected)
            procs = [sim.process() for _ in range(1 + ch.choose(3))]
            kill_at = ch.integer(0, 60) if faulty and ch.chance(0.4) else 0
            whole = bool(kill_at) and ch.chance(0.4)
            state = {"n": 0, "killed": False}

            def on_point(_kind: str, state=state, kill_at=kill_at, whole=whole, procs=procs) -> None:  # noqa: ANN001
                if not kill_at or state["killed"]:
                    return
                state["n"] += 1
                if state["n"] >= kill_at:
                    state["killed"] = True
                    sim.fault("kill")
                    if whole:
                        for p in procs:
                            sim.kill(p)
                    else:
                        sim.kill(current_task().proc)

            sim.on_point = on_point
            for pi, proc in enumerate(procs):
                default = ch.pick([None, "call_cached", "load_or_call_uncached"]) if kind == "pickle" else None
                fn = w.wrapper(default)
                for ti in range(1 + (ch.choose(2) if len(procs) < 3 else 0)):
                    plan = []
                    for _ in range(1 + ch.choose(3)):
                        mode = "npy" if kind == "npy" else ch.pick(["load_or_call_cached", "call_cached", "load_or_call_uncached", "call_uncached"])
                        plan.append((mode, ch.choose(n_keys)))
                    stats["calls"] += len(plan)

                    def body(plan=plan, fn=fn) -> None:  # noqa: ANN001
                        for mode, key in plan:
                            w.call(fn, mode, key)

                    sim.spawn(body, proc, f"r{stats['rounds']}p{pi}t{ti}")
            sim.run()
            sim.on_point = None
            if state["killed"]:
                stats["kills"] += 1
                w.litter_ok = True
            if whole and state["killed"] and ch.chance(0.7):
                stats["power_losses"] += 1
                w.epochs.append(w.tick())
                fs.power_loss()
            lost = bool(w.epochs) and w.epochs[-1] == w.clock
            # errors are reported: a call in which an operation failed did not claim success
            for o in w.history:
                if o.status == "error":
                    stats["errors"] += 1
                if o.status == "ok" and o.faults and len(procs) == 1 and sum(t.startswith(f"r{stats['rounds']}") for t in {h.task for h in w.history}) == 1:
                    raise Violation(f"{o.mode}(key={o.key}) succeeded although an I/O error struck in it", "error-swallowed")
                o.faults = 0
            if sim.faults.get("unlink_error", 0) > dead_before or any(isinstance(x, KeyboardInterrupt) and x.op in {"unlink", "stat"} for x in fs.injected[n_inj:]):
                w.litter_ok = True
            fs.faults = FaultConfig()
            if not w.litter_ok and w.litter():
                raise Violation(f"files left behind: {w.litter()}", "litter")
            if fs.escapes:
                raise Violation(f"touched files outside the cache directory: {fs.escapes}", "escape")
            # entries that existed are still there
            must = (had if not lost else durable)
            probe(w, must, stats["rounds"])
        finish(w)
        w.check_history()
        w.check_calls()
    except Violation as e:
        raise attach(e, sim) from None
    return w.result(nontrivial=bool(sim.faults) or sim.switches > 0, stats=stats)


def probe(w: World, must: set[int], rnd: int) -> None:
    """Read every entry from a new process: never torn, and present if it has to be."""
    sim = w.sim
    keys = sorted(must)
    if not keys or w.ch.chance(0.3):
        return
    proc = sim.process()
    fn = w.wrapper()

    def body() -> None:
        for k in keys:
            o = w.call(fn, "npy" if w.kind == "npy" else "load_or_call_uncached", k)
            if o.status == "ok" and o.made:
                raise Violation(f"the entry for key {k} was destroyed by a failed or killed store", "entry-destroyed")

    sim.spawn(body, proc, f"probe{rnd}")
    sim.run()


def finish(w: World) -> None:
    """Faults have stopped: everything works again, and stores stick."""
    sim = w.sim
    first: dict[int, int] = {}

    def one(second: bool) -> None:  # noqa: FBT001
        proc = sim.process()
        fn = w.wrapper()

        def body() -> None:
            for k, p in w.paths.items():
                o = w.call(fn, "npy" if w.kind == "npy" else "load_or_call_cached", k)
                if o.status != "ok":
                    raise Violation(f"the entry for key {k} is unusable after the faults stopped: {o.error!r}", "unusable")
                if second and p is not None:
                    if o.made:
                        raise Violation(f"the value for key {k} was computed again although it had been stored", "not-stored")
                    if o.uid != first[k]:
                        raise Violation(f"version {o.uid} returned for key {k} instead of {first[k]}", "unstable")
                first[k] = o.uid

        sim.spawn(body, proc, "final2" if second else "final1")
        sim.run()

    one(False)
    one(True)
