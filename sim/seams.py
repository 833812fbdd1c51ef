"""The other seams: clocks, randomness, process ids, locks, processes, prompts and output."""
from __future__ import annotations

import builtins
import datetime as _dt
import io
import os
import random
import subprocess
import sys
import tempfile
import threading
import time

from . import fs as _fs
from . import pool
from .core import HarnessError, SimLock, SimRLock, current_task

_real_time = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "thread_time", "thread_time_ns", "perf_counter",
                                            "perf_counter_ns", "process_time", "process_time_ns", "sleep")}
_real_datetime = _dt.datetime
_real_getpid = os.getpid
_real_urandom = os.urandom
_real_input = builtins.input
_real_run = subprocess.run
_real_print_stdout = sys.stdout
wall_start = _time0 = _real_time["time"]  # the real clock, for budgets

EPOCH = 1_700_000_000.0


def real_monotonic() -> float:
    """The machine's own clock: only for time budgets of the checks."""
    return _real_time["monotonic"]()


def sim_wall(sim) -> float:  # noqa: ANN001
    """Wall clock of the simulated machine."""
    hook = getattr(sim, "clock_hook", None)
    if hook is not None:
        hook()
    v = EPOCH + sim.now + sim.wall_offset
    note(sim, "wall", v)
    return v


def note(sim, kind: str, v: float) -> None:  # noqa: ANN001
    """Keep a list of what the clocks said, for checks that need it."""
    reads = getattr(sim, "clock_reads", None)
    if reads is not None:
        reads.append((current_task(), kind, v))


class SimDateTime(_real_datetime):
    """datetime.datetime on the simulated clock."""

    @classmethod
    def now(cls, tz=None):  # noqa: ANN001, ANN206
        t = current_task()
        if t is None:
            return _real_datetime.now(tz)
        t.sim.point("clock")
        return _real_datetime.fromtimestamp(sim_wall(t.sim), tz)

    @classmethod
    def utcnow(cls):  # noqa: ANN206
        t = current_task()
        if t is None:
            return _real_datetime.now(_dt.UTC).replace(tzinfo=None)
        t.sim.point("clock")
        return _real_datetime.fromtimestamp(sim_wall(t.sim), _dt.UTC).replace(tzinfo=None)

    @classmethod
    def today(cls):  # noqa: ANN206
        return cls.now()


class _StdOut(io.TextIOBase):
    """Collects what simulated tasks print; each write is a scheduling point."""

    def write(self, s: str) -> int:
        t = current_task()
        if t is None:
            return _real_print_stdout.write(s)
        t.sim.point("print")
        out = getattr(t.sim, "stdout", None)
        if out is None:
            out = t.sim.stdout = []
        out.append((t.name, s))
        return len(s)

    def flush(self) -> None:
        if current_task() is None:
            _real_print_stdout.flush()

    def fileno(self) -> int:
        return _real_print_stdout.fileno()

    @property
    def encoding(self) -> str:
        return "utf-8"


def _clock(name: str, scale: float, kind: str):  # noqa: ANN202
    real_fn = _real_time[name]

    def f():  # noqa: ANN202
        t = current_task()
        if t is None:
            return real_fn()
        t.sim.point("clock")
        v = sim_wall(t.sim) if kind == "wall" else t.sim.now
        if kind == "cpu":  # does not advance while a task sleeps
            v = t.sim.steps * 1e-6
        elif kind != "wall":
            hook = getattr(t.sim, "clock_hook", None)
            if hook is not None:
                hook()
                v = t.sim.now
            note(t.sim, "monotonic", v)
        return int(v * 1e9) if scale != 1 else v

    f.__name__ = name
    return f


class _Names:
    """Deterministic temporary names (the same generator for every simulated process of a run)."""

    def __iter__(self):  # noqa: ANN204
        return self

    def __next__(self) -> str:
        t = current_task()
        if t is None:
            return "real" + _real_urandom(6).hex()
        n = getattr(t.sim, "_tmp_n", 0)
        t.sim._tmp_n = n + 1
        r = random.Random(f"name-{n}-{getattr(t.sim, 'entropy', 0)}")
        return "".join(r.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


def install(*, clock: bool = True) -> None:
    """Install every seam. Call before importing the code under test."""
    _fs.install()
    pool.install()
    threading.Lock = SimLock
    threading.RLock = SimRLock
    sys.stdout = _StdOut()
    if clock:
        _dt.datetime = SimDateTime
        for n, kind in (("time", "wall"), ("monotonic", "mono"), ("perf_counter", "mono"), ("process_time", "cpu"), ("thread_time", "cpu")):
            setattr(time, n, _clock(n, 1, kind))
            setattr(time, n + "_ns", _clock(n, 1e9, kind))

        def sleep(s: float) -> None:
            t = current_task()
            if t is None:
                _real_time["sleep"](s)
            else:
                t.sim.log(f"sleep {s}")
                t.sim.sleep(s)

        time.sleep = sleep

    def getpid() -> int:
        t = current_task()
        return _real_getpid() if t is None else t.proc.pid

    os.getpid = getpid

    def urandom(n: int) -> bytes:
        t = current_task()
        if t is None:
            return _real_urandom(n)
        hook = getattr(t.sim, "entropy_hook", None)
        if hook is not None:
            hook(n)  # may fail
        k = getattr(t.sim, "_urandom_n", 0)
        t.sim._urandom_n = k + 1
        return random.Random(f"urandom-{k}-{getattr(t.sim, 'entropy', 0)}").randbytes(n)

    os.urandom = urandom
    random._urandom = urandom  # secrets, and through it the entropy of numpy's generators
    tempfile._name_sequence = _Names()
    tempfile._get_candidate_names = lambda: _Names()
    real_temp = tempfile.gettempdir()

    def gettempdir() -> str:
        t = current_task()
        if t is not None and getattr(t.sim, "fs", None) is not None:
            return "/sim/tmp"
        return real_temp

    tempfile.gettempdir = gettempdir
    tempfile._gettempdir = gettempdir

    def sim_input(prompt: object = "") -> str:
        t = current_task()
        if t is None:
            return _real_input(prompt)
        t.sim.log("input()")
        h = getattr(t.sim, "operator", None)
        if h is None:
            raise EOFError("EOF when reading a line")
        return h(str(prompt))

    builtins.input = sim_input

    def proc_call(args, kw):  # noqa: ANN001, ANN202
        t = current_task()
        h = getattr(t.sim, "program", None)
        if h is None:
            raise FileNotFoundError(2, "No such file or directory", str(args))
        return h(args, kw)

    def sim_run(*popenargs, input=None, capture_output=False, timeout=None, check=False, **kw):  # noqa: A002, ANN002, ANN003, ANN202, FBT002
        if current_task() is None:
            return _real_run(*popenargs, input=input, capture_output=capture_output, timeout=timeout, check=check, **kw)
        args = popenargs[0] if popenargs else kw.pop("args")
        code, out, err = proc_call(args, kw)
        if check and code:
            raise subprocess.CalledProcessError(code, args, out, err)
        text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
        conv = (lambda b: b.decode()) if text else (lambda b: b)
        return subprocess.CompletedProcess(args, code, conv(out) if capture_output else None, conv(err) if capture_output else None)

    subprocess.run = sim_run

    def sim_call(*popenargs, **kw):  # noqa: ANN002, ANN003, ANN202
        kw.pop("timeout", None)
        return sim_run(*popenargs, **kw).returncode

    def sim_check_call(*popenargs, **kw):  # noqa: ANN002, ANN003, ANN202
        kw.pop("timeout", None)
        sim_run(*popenargs, check=True, **kw)
        return 0

    def sim_check_output(*popenargs, **kw):  # noqa: ANN002, ANN003, ANN202
        return sim_run(*popenargs, check=True, capture_output=True, **kw).stdout

    real_call, real_check_call, real_check_output, real_popen = (subprocess.call, subprocess.check_call, subprocess.check_output, subprocess.Popen)
    subprocess.call = lambda *a, **k: real_call(*a, **k) if current_task() is None else sim_call(*a, **k)
    subprocess.check_call = lambda *a, **k: real_check_call(*a, **k) if current_task() is None else sim_check_call(*a, **k)
    subprocess.check_output = lambda *a, **k: real_check_output(*a, **k) if current_task() is None else sim_check_output(*a, **k)

    class SimPopen(real_popen):  # type: ignore[misc, valid-type]
        def __init__(self, args, *a, **kw) -> None:  # noqa: ANN001, ANN002, ANN003
            if current_task() is None:
                super().__init__(args, *a, **kw)
                return
            self.args = args
            self._sim = True
            self.stdin = self.stdout = self.stderr = None
            self.pid = 4242
            self._child_created = False
            self.returncode, self._out, self._errb = proc_call(args, kw)

        def communicate(self, input=None, timeout=None):  # noqa: A002, ANN001, ANN201
            if getattr(self, "_sim", False):
                return self._out, self._errb
            return super().communicate(input, timeout)

        def wait(self, timeout=None):  # noqa: ANN001, ANN201
            if getattr(self, "_sim", False):
                return self.returncode
            return super().wait(timeout)

        def poll(self):  # noqa: ANN201
            if getattr(self, "_sim", False):
                return self.returncode
            return super().poll()

        def __exit__(self, *a: object) -> None:
            if not getattr(self, "_sim", False):
                super().__exit__(*a)

        def __del__(self, *a: object, **k: object) -> None:
            if not getattr(self, "_sim", False):
                super().__del__()

    subprocess.Popen = SimPopen

    real_system = os.system

    def sim_system(cmd: str) -> int:
        if current_task() is None:
            return real_system(cmd)
        code, _, _ = proc_call(cmd.split(), {})
        return code << 8

    os.system = sim_system


def check_not_in_task() -> None:
    """Guard for harness code that must not run inside a task."""
    if current_task() is not None:
        raise HarnessError("called inside a task")
