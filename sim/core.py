"""Choices, scheduler, tasks, processes: one seed is one exactly repeatable execution.

Every decision of a simulated run - which task runs next, when it is preempted, which fault fires,
which input is used, what the clock reads - is drawn from one `Choices` stream.  The stream is
recorded, so a run can be replayed exactly, and minimised by deleting or zeroing recorded draws
(0 is always the most boring outcome: no fault, no preemption, smallest input).
"""
from __future__ import annotations

import hashlib
import os
import random
import sys
import threading
import traceback

import _thread

REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_PKG = os.path.join(REPO, "surface_potential_analysis") + os.sep


class Violation(Exception):
    """The property does not hold. `sig` identifies what failed, independent of seeds and numbers."""

    def __init__(self, message: str, sig: str | None = None) -> None:
        super().__init__(message)
        self.sig = sig or message


class HarnessError(Exception):
    """The simulator itself is at fault (never reported as a violation)."""


class SimKilled(BaseException):
    """Raised in every task of a simulated process that was killed; has no effects of its own."""


class Choices:
    """The only source of nondeterminism."""

    def __init__(self, seed: int | None = None, replay: list[int] | None = None) -> None:
        self._rng = random.Random(seed) if replay is None else None
        self._replay = replay
        self.log: list[int] = []
        self.limit = 400_000

    def _next(self, n: int, draw) -> int:  # noqa: ANN001
        if n <= 1:
            return 0
        i = len(self.log)
        if i >= self.limit:
            raise HarnessError("too many choices")
        if self._replay is None:
            v = draw()
        elif i < len(self._replay):
            v = self._replay[i] % n
        else:
            v = 0
        self.log.append(v)
        return v

    def choose(self, n: int) -> int:
        """Uniform in [0, n)."""
        return self._next(n, lambda: self._rng.randrange(n))

    def chance(self, p: float) -> bool:
        """Draw a boolean which is True with probability p."""
        if p <= 0:
            return False
        return bool(self._next(2, lambda: int(self._rng.random() < p)))

    def weighted(self, weights: list[float]) -> int:
        """Index drawn with the given weights."""
        n = len(weights)
        return self._next(n, lambda: self._rng.choices(range(n), weights)[0])

    def integer(self, lo: int, hi: int) -> int:
        """Uniform in [lo, hi]."""
        return lo + self.choose(hi - lo + 1)

    def pick(self, seq):  # noqa: ANN001, ANN201
        """Uniform element of a sequence."""
        return seq[self.choose(len(seq))]

    def bits(self) -> int:
        """A seed for a data generator."""
        return self.choose(2**30)

    def geometric(self, mean: float, cap: int) -> int:
        """Roughly geometric in [0, cap]."""

        def draw() -> int:
            return min(cap, int(self._rng.expovariate(1.0 / mean)))

        return self._next(cap + 1, draw)


class Process:
    """A simulated operating system process: what a kill takes away."""

    def __init__(self, sim: "Sim", pid: int) -> None:
        self.sim = sim
        self.pid = pid
        self.dead = False
        self.data: dict = {}


class Task:
    """A simulated thread."""

    def __init__(self, sim: "Sim", fn, proc: Process, name: str) -> None:  # noqa: ANN001
        self.sim = sim
        self.fn = fn
        self.proc = proc
        self.name = name
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.done = False
        self.blocked_on = None
        self.wake_at: float | None = None
        self.deadline: float | None = None
        self.error: BaseException | None = None
        self.daemon = False

    def _main(self) -> None:
        self.go.acquire()
        _current.task = self
        if self.sim.trace_files is not None:
            sys.settrace(self.sim._tracer)
        try:
            self.fn()
        except SimKilled:
            pass
        except BaseException as e:  # noqa: BLE001
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            _current.task = None
            self.sim._finished(self)


class _Current(threading.local):
    task: Task | None = None


_current = _Current()


def current_task() -> Task | None:
    """Return the simulated task running on this thread, if any."""
    return _current.task


class Sim:
    """One simulated run."""

    def __init__(self, ch: Choices, *, trace: bool = False, preempt_mean: float = 0.0,
                 trace_files: tuple[str, ...] = (REPO_PKG,)) -> None:
        self.ch = ch
        self.tasks: list[Task] = []
        self.procs: list[Process] = []
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.trace_files = trace_files if trace else None
        self.preempt_mean = preempt_mean
        self.budget = 0
        self.events: list[str] = []
        self.keep_events = 4000
        self.hash = hashlib.sha256()
        self.n_events = 0
        self.switches = 0
        self.steps = 0
        self.now = 0.0          # simulated monotonic seconds
        self.wall_offset = 0.0  # wall clock = now + offset (jumps change the offset)
        self.faults: dict[str, int] = {}
        self.max_steps = 2_000_000
        self.on_point = None    # callable(kind) may raise/inject at any point
        self.on_line = None     # callable(frame) may raise/inject at any traced line
        self.on_call = None     # callable(frame) may raise/inject where traced code calls other Python code
        self._next_pid = 1000
        self._code_ok: dict = {}
        self.failed: BaseException | None = None

    # -- log ---------------------------------------------------------------
    def log(self, text: str) -> None:
        """Record an event of the run (hashed; the first ones are kept verbatim)."""
        t = _current.task
        line = f"{t.name if t else '-'}: {text}"
        self.hash.update(line.encode("utf8", "replace"))
        self.n_events += 1
        if len(self.events) < self.keep_events:
            self.events.append(line)

    def fault(self, kind: str) -> None:
        """Count a fault that really fired."""
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log(f"FAULT {kind}")

    # -- processes and tasks ------------------------------------------------
    def process(self) -> Process:
        """Start a new simulated process."""
        p = Process(self, self._next_pid)
        self._next_pid += 1
        self.procs.append(p)
        return p

    def kill(self, proc: Process) -> None:
        """Kill -9: every task of proc stops at its current point, with no further effect."""
        proc.dead = True

    def spawn(self, fn, proc: Process, name: str) -> Task:  # noqa: ANN001
        """Add a task."""
        t = Task(self, fn, proc, name)
        self.tasks.append(t)
        _thread.start_new_thread(t._main, ())
        return t

    # -- scheduling ----------------------------------------------------------
    def _runnable(self) -> list[Task]:
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.proc.dead:
                t.blocked_on = None
                t.wake_at = t.deadline = None
            if t.blocked_on is not None and t.blocked_on():
                continue
            if t.wake_at is not None and t.wake_at > self.now:
                continue
            out.append(t)
        return out

    def _pick(self, me: Task | None) -> Task | None:
        r = self._runnable()
        if not r:
            times = [x for t in self.tasks if not t.done for x in (t.wake_at, t.deadline) if x is not None]
            if not times:
                return None
            self.now = max(self.now, min(times))
            r = self._runnable()
            if not r:
                return None
        # the current task comes first, so that 0 means "no preemption"
        if me in r:
            r.remove(me)
            r.insert(0, me)
        t = r[self.ch.choose(len(r))]
        self.budget = self._new_budget(len(r))
        return t

    def _new_budget(self, n: int) -> int:
        if self.preempt_mean <= 0 or n <= 1 and len(self.tasks) <= 1:
            return 1 << 60
        k = self.ch.geometric(self.preempt_mean, int(self.preempt_mean * 8) + 1)
        return (1 << 60) if k == 0 else k

    def run(self) -> None:
        """Run all tasks to completion. A task error ends the run by being re-raised here."""
        first = self._pick(None)
        if first is not None:
            first.go.release()
            self.main_lock.acquire()
        if self.failed is not None:
            raise self.failed
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        stuck = [t.name for t in self.tasks if not t.done and not t.daemon]
        if stuck:
            raise Violation(f"deadlock: {stuck} can never run again", "deadlock")
        self.tasks = []

    def _finished(self, me: Task) -> None:
        nxt = self._pick(None)
        if nxt is None:
            self.main_lock.release()
        else:
            nxt.go.release()

    def switch(self, me: Task) -> None:
        """Let the scheduler decide who runs next."""
        nxt = self._pick(me)
        if nxt is me:
            return
        if nxt is None:
            # everybody is stuck: hand back to main, which reports the deadlock
            self.main_lock.release()
            me.go.acquire()
            return
        self.switches += 1
        nxt.go.release()
        me.go.acquire()

    def point(self, kind: str) -> None:
        """A place where the scheduler may switch, and where faults may strike."""
        t = _current.task
        if t is None:
            return
        if t.proc.dead:
            raise SimKilled
        self.steps += 1
        if self.steps > self.max_steps:
            raise HarnessError("step limit")
        if self.on_point is not None:
            self.on_point(kind)
            if t.proc.dead:
                raise SimKilled
        self.budget -= 1
        if self.budget <= 0:
            self.switch(t)
            if t.proc.dead:
                raise SimKilled

    def block(self, cond) -> None:  # noqa: ANN001
        """Block the current task while cond() is true."""
        t = _current.task
        while cond():
            t.blocked_on = cond
            self.switch(t)
            t.blocked_on = None
            if t.proc.dead:
                raise SimKilled

    def wait_timeout(self, cond, end: float) -> None:  # noqa: ANN001
        """Block while cond() is true, but not beyond simulated time `end`."""
        t = _current.task
        while cond() and self.now < end:
            t.deadline = end
            t.blocked_on = lambda: cond() and self.now < end
            self.switch(t)
            t.blocked_on = None
            t.deadline = None
            if t.proc.dead:
                raise SimKilled

    def sleep(self, seconds: float) -> None:
        """Simulated sleep."""
        t = _current.task
        t.wake_at = self.now + max(0.0, seconds)
        self.switch(t)
        t.wake_at = None
        if t.proc.dead:
            raise SimKilled

    # -- line tracing ----------------------------------------------------------
    def _tracer(self, frame, event, arg):  # noqa: ANN001, ANN202, ARG002
        co = frame.f_code
        ok = self._code_ok.get(co)
        if ok is None:
            fn = co.co_filename
            ok = fn.startswith(self.trace_files)
            self._code_ok[co] = ok
        if not ok:
            if self.on_call is not None and frame.f_back is not None and self._code_ok.get(frame.f_back.f_code):
                self.on_call(frame)
            return None
        return self._local

    def _local(self, frame, event, arg):  # noqa: ANN001, ANN202, ARG002
        if event == "line":
            if self.on_line is not None:
                self.on_line(frame)
            self.point("line")
        return self._local

    def digest(self) -> str:
        """Identify the interleaving and history of this run."""
        return self.hash.hexdigest()[:16]


class SimLock:
    """threading.Lock for tasks (an ordinary lock elsewhere)."""

    def __init__(self) -> None:
        self._real = _thread.allocate_lock()
        self._owner = None

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:  # noqa: FBT001, FBT002
        t = _current.task
        if t is None:
            return self._real.acquire(blocking, timeout)
        t.sim.point("lock")
        if not self._real.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                t.sim.sleep(timeout)
                return self._real.acquire(False)
            while not self._real.acquire(False):
                t.sim.block(self._real.locked)
        return True

    def release(self) -> None:
        self._real.release()

    def locked(self) -> bool:
        return self._real.locked()

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: object) -> None:
        self.release()

    def _at_fork_reinit(self) -> None:
        self._real = _thread.allocate_lock()


class SimRLock:
    """threading.RLock for tasks."""

    def __init__(self) -> None:
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:  # noqa: FBT001, FBT002
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self) -> None:
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._lock.release()

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: object) -> None:
        self.release()

    # used by threading.Condition
    def _is_owned(self) -> bool:
        return self._owner == _thread.get_ident()

    def _release_save(self):  # noqa: ANN202
        c = self._count
        self._count = 0
        self._owner = None
        self._lock.release()
        return c

    def _acquire_restore(self, c) -> None:  # noqa: ANN001
        self._lock.acquire()
        self._owner = _thread.get_ident()
        self._count = c

    def _at_fork_reinit(self) -> None:
        self.__init__()


def format_exc(e: BaseException) -> str:
    """Short traceback."""
    return "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
