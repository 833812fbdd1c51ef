"""Worker pools: concurrent.futures executors whose workers are simulated processes.

Arguments and results cross the process border pickled, as with the real pool. The scheduler decides
which worker runs when, how slow it is, whether it fails, and in which order results arrive.
"""
from __future__ import annotations

import concurrent.futures as cf
import concurrent.futures.process as cfp
import pickle

from .core import HarnessError, SimKilled, current_task

_real = {"ProcessPoolExecutor": cf.ProcessPoolExecutor, "ThreadPoolExecutor": cf.ThreadPoolExecutor, "wait": cf.wait, "as_completed": cf.as_completed}


class SimFuture:
    """concurrent.futures.Future for simulated workers."""

    def __init__(self) -> None:
        self._state = "PENDING"
        self._result = None
        self._exception = None
        self._callbacks = []

    def done(self) -> bool:
        return self._state in {"FINISHED", "CANCELLED"}

    def cancelled(self) -> bool:
        return self._state == "CANCELLED"

    def running(self) -> bool:
        return self._state == "RUNNING"

    def cancel(self) -> bool:
        if self._state == "PENDING":
            self._finish("CANCELLED")
            return True
        return self._state == "CANCELLED"

    def _finish(self, state: str) -> None:
        if self.done():
            return
        self._state = state
        for f in self._callbacks:
            self._call(f)

    def _call(self, f) -> None:  # noqa: ANN001
        sim = current_task().sim
        plan = getattr(sim, "pool_plan", None)
        try:
            if plan is not None:
                plan.before_callback()
            f(self)
        except Exception as e:  # noqa: BLE001  the real Future logs and ignores these
            sim.log(f"callback failed: {type(e).__name__}")

    def add_done_callback(self, f) -> None:  # noqa: ANN001
        if self.done():
            self._call(f)
        else:
            self._callbacks.append(f)

    def _wait(self, timeout=None) -> None:  # noqa: ANN001
        _wait_until(self.done, timeout)
        if not self.done():
            raise cf.TimeoutError
        if self._state == "CANCELLED":
            raise cf.CancelledError

    def result(self, timeout=None):  # noqa: ANN001, ANN201
        self._wait(timeout)
        if self._exception is not None:
            raise self._exception
        return self._result

    def exception(self, timeout=None):  # noqa: ANN001, ANN201
        self._wait(timeout)
        return self._exception


def _wait_until(cond, timeout=None) -> None:  # noqa: ANN001
    t = current_task()
    sim = t.sim
    sim.point("wait")
    if cond():
        return
    plan = getattr(sim, "pool_plan", None)
    if plan is not None:
        plan.on_wait()
    if timeout is None or timeout > 1e8:
        sim.block(lambda: not cond())
        return
    end = sim.now + max(0.0, timeout)
    sim.wait_timeout(lambda: not cond(), end)


class SimExecutor:
    """A pool of simulated worker processes (or threads)."""

    processes = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), thread_name_prefix="", max_tasks_per_child=None) -> None:  # noqa: ANN001, ARG002, PLR0913, PLR0917
        t = current_task()
        if t is None:
            raise HarnessError("simulated pool outside of a task")
        if max_workers is not None and max_workers <= 0:
            msg = "max_workers must be greater than 0"
            raise ValueError(msg)
        self.owner = getattr(t, "owner", t)
        self.sim = t.sim
        self.proc = t.proc
        self.max_workers = int(max_workers or 8)
        self.init = (initializer, initargs)
        self.queue = []
        self.completed = []
        self.workers = []
        self.futures = []
        self.closed = False
        self.broken = None
        self.manager = None

    def __enter__(self):  # noqa: ANN204
        return self

    def __exit__(self, *a: object) -> bool:
        self.shutdown(wait=True)
        return False

    def submit(self, fn, /, *args, **kw):  # noqa: ANN001, ANN002, ANN003, ANN201
        sim = self.sim
        sim.point("submit")
        if self.broken:
            raise cfp.BrokenProcessPool(self.broken)
        if self.closed:
            msg = "cannot schedule new futures after shutdown"
            raise RuntimeError(msg)
        plan = getattr(sim, "pool_plan", None)
        if plan is not None:
            plan.on_submit()
        f = SimFuture()
        self.futures.append(f)
        payload = (fn, args, kw)
        if self.processes:
            try:
                payload = pickle.dumps(payload)
            except Exception as e:  # noqa: BLE001  the queue feeder reports this on the future
                f._exception = e
                f._finish("FINISHED")
                return f
        self.queue.append((f, payload))
        if self.manager is None:
            self.manager = self._spawn(self._manage, self.proc, "manager")
        idle = sum(1 for w in self.workers if getattr(w, "idle", False))
        if idle < len(self.queue) and len(self.workers) < self.max_workers:
            proc = sim.process() if self.processes else self.proc
            self.workers.append(self._spawn(self._work, proc, f"worker{len(self.workers)}"))
        return f

    def _spawn(self, fn, proc, name):  # noqa: ANN001, ANN202
        t = self.sim.spawn(fn, proc, f"{self.owner.name}/{name}")
        t.owner = self.owner
        t.daemon = True
        return t

    def map(self, fn, *iterables, timeout=None, chunksize=1):  # noqa: ANN001, ANN002, ANN201, ARG002
        fs = [self.submit(fn, *a) for a in zip(*iterables, strict=False)]
        return iter([f.result(timeout) for f in fs])

    def _work(self) -> None:
        t = current_task()
        sim = self.sim
        plan = getattr(sim, "pool_plan", None)
        if self.init[0] is not None:
            self.init[0](*self.init[1])
        while True:
            t.idle = True
            sim.block(lambda: not self.queue and not self.closed)
            t.idle = False
            if not self.queue:
                return
            f, payload = self.queue.pop(0)
            f._state = "RUNNING"
            res = exc = None
            try:
                if plan is not None:
                    plan.in_worker(self, t)
                fn, args, kw = pickle.loads(payload) if self.processes else payload
                sim.log("job starts")
                res = fn(*args, **kw)
                sim.log("job ends")
                if plan is not None:
                    plan.after_job(self, t)
                if self.processes:
                    res = pickle.dumps(res)
            except SimKilled:
                raise
            except BaseException as e:  # noqa: BLE001
                res, exc = None, e
                sim.log(f"job failed: {type(e).__name__}")
            self.completed.append((f, res, exc))
            sim.point("done")

    def break_pool(self, why: str) -> None:
        """A worker died: the real pool gives up all work that is not finished."""
        self.broken = why
        self.closed = True
        self.queue.clear()
        for w in self.workers:
            self.sim.kill(w.proc) if self.processes else None

    def _manage(self) -> None:
        sim = self.sim
        while True:
            sim.block(lambda: not self.completed and not self.broken and not (self.closed and all(f.done() for f in self.futures)))
            if self.completed:
                f, res, exc = self.completed.pop(0)
                f._exception = exc
                if exc is None:
                    f._result = pickle.loads(res) if self.processes else res
                f._finish("FINISHED")
                sim.point("delivered")
            elif self.broken:
                for f in self.futures:
                    if not f.done():
                        f._exception = cfp.BrokenProcessPool(self.broken)
                        f._finish("FINISHED")
                return
            else:
                return

    def shutdown(self, wait: bool = True, *, cancel_futures: bool = False) -> None:  # noqa: FBT001, FBT002
        if cancel_futures:
            for f, _ in self.queue:
                f.cancel()
            self.queue.clear()
        self.closed = True
        if wait and self.manager is not None:
            self.sim.block(lambda: not self.manager.done)


class SimThreads(SimExecutor):
    """ThreadPoolExecutor: workers share the memory of their process."""

    processes = False


def sim_wait(fs, timeout=None, return_when="ALL_COMPLETED"):  # noqa: ANN001, ANN201
    fs = set(fs)
    if current_task() is None:
        return _real["wait"](fs, timeout, return_when)

    def ready() -> bool:
        d = [f for f in fs if f.done()]
        if return_when == "FIRST_COMPLETED":
            return bool(d) or not fs
        if return_when == "FIRST_EXCEPTION" and any(not f.cancelled() and f._exception is not None for f in d):
            return True
        return len(d) == len(fs)

    _wait_until(ready, timeout)
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, fs - done)


def sim_as_completed(fs, timeout=None):  # noqa: ANN001, ANN201
    if current_task() is None:
        yield from _real["as_completed"](fs, timeout)
        return
    fs = list(dict.fromkeys(fs))
    while fs:
        _wait_until(lambda: any(f.done() for f in fs), timeout)
        ready = [f for f in fs if f.done()]
        if not ready:
            raise cf.TimeoutError
        for f in ready:
            fs.remove(f)
            yield f


def install() -> None:
    """Replace the executors (only inside simulated tasks)."""

    def make(name: str, cls):  # noqa: ANN001, ANN202
        class Executor(_real[name]):  # type: ignore[misc, valid-type]
            def __new__(cls_, *a, **k):  # noqa: ANN001, ANN002, ANN003, ANN204, N804
                if current_task() is not None:
                    return cls(*a, **k)
                return object.__new__(cls_)

        Executor.__name__ = name
        return Executor

    for n, c in (("ProcessPoolExecutor", SimExecutor), ("ThreadPoolExecutor", SimThreads)):
        setattr(cf, n, make(n, c))
    cfp.ProcessPoolExecutor = cf.ProcessPoolExecutor
    cf.wait = sim_wait
    cf.as_completed = sim_as_completed
