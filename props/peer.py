"""Processes with another hash seed, another address layout and another history: started once, each run talks to fresh copies of them."""
from __future__ import annotations

import io
import os
import select
import signal
import socket
import sys
import time

from props import opscheck as oc
from sim.core import HarnessError

SEEDS = (1, 20, 4242)
STARTED: list[str] = []


# ---------------------------------------------------------------------------
# the other side
def serve(path: str) -> None:
    """Wait for runs; every one of them gets a fresh copy of this process."""
    from props import opskit

    opskit.load()
    listening = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    listening.bind(path + ".tmp")
    listening.listen(256)
    os.rename(path + ".tmp", path)
    while True:
        ready, _, _ = select.select([listening, 0], [], [], 1.0)
        while True:
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    break
            except ChildProcessError:
                break
        if 0 in ready and not os.read(0, 1):
            os._exit(0)  # the check has ended
        if listening in ready:
            conn, _ = listening.accept()
            if oc._real_fork() == 0:  # noqa: SLF001
                listening.close()
                try:
                    talk(conn.detach())
                finally:
                    os._exit(0)
            conn.close()


def talk(fd: int) -> None:
    """Serve one run."""
    from props import c16

    sys.stdout = io.StringIO()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    place = c16.Place()
    while True:
        try:
            req = oc.receive(fd)
        except HarnessError:
            return
        if req[0] == "die":
            return
        try:
            out = ("ok", oc.in_sim(lambda: getattr(place, req[0])(*req[1:])))  # noqa: B023
        except BaseException as e:  # noqa: BLE001
            import traceback

            out = ("harness", f"{type(e).__name__}: {e} {traceback.format_exc()}")
        oc.send(fd, out)


# ---------------------------------------------------------------------------
# this side
def start() -> None:
    """Start one process for each hash seed."""
    for seed in SEEDS:
        path = os.path.join(os.environ["HOME"], f"peer{seed}.{os.getpid()}")
        r, w = oc._real_pipe()  # noqa: SLF001
        pid = oc._real_fork()  # noqa: SLF001
        if pid == 0:
            os.dup2(r, 0)
            os.set_inheritable(0, True)
            env = dict(os.environ, PYTHONHASHSEED=str(seed), PADDING="x" * (seed * 7))
            os.execve(sys.executable, [sys.executable, "-c", f"import sys; sys.argv = ['main', 'C16', {path!r}]\nfrom sim import main\nmain.peer()"], env)
        os.close(r)
        STARTED.append(path)
        _keep.append(w)
    end = _mono() + 120
    while not all(os.path.exists(p) for p in STARTED):
        if _mono() > end:
            raise HarnessError("the peer processes did not start")
        _sleep(0.05)


_keep: list = []  # closing these ends the processes
_mono, _sleep = time.monotonic, time.sleep


class Peer:
    """A fresh copy of a process with another hash seed."""

    def __init__(self, which: int) -> None:
        self.which = which
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        for attempt in range(50):
            try:
                s.connect(STARTED[which])
                break
            except (BlockingIOError, ConnectionRefusedError):
                if attempt == 49:  # noqa: PLR2004
                    raise
                _sleep(0.1)
        self.fd = s.detach()

    def __getattr__(self, name: str):  # noqa: ANN204
        if name.startswith("_"):
            raise AttributeError(name)

        def ask(*a):  # noqa: ANN002, ANN202
            oc.send(self.fd, (name, *a))
            status, out = oc.receive(self.fd)
            if status != "ok":
                raise HarnessError(out)
            return out

        return ask

    def die(self) -> None:
        """End it."""
        try:
            oc.send(self.fd, ("die",))
        except OSError:
            pass
        oc._real_close(self.fd)  # noqa: SLF001
