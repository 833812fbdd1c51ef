"""An in-memory file system with a page cache, a metadata journal and injected faults.

Paths under /sim are simulated; everything else goes to the real system (read only by convention;
writes outside /sim by a task are recorded in `escapes`).

* a kill (`kill -9`) loses user space buffers only;
* a power loss also loses any suffix of the un-committed metadata journal, and leaves every file
  whose data was not fsynced with its old content, its new content, a prefix, or a prefix padded
  with zeros;
* open / read / write / flush / fsync / close / rename / unlink / stat / mkdir / rmdir can fail.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import stat as stat_mod
import subprocess
import sys
import tempfile
import time as _time

from .core import Sim, SimKilled, current_task

PREFIX = "/sim"
FD_BASE = 1_000_000
real = {
    n: getattr(os, n)
    for n in ("open", "close", "read", "write", "fsync", "fdatasync", "fstat", "ftruncate", "lseek",
              "replace", "rename", "unlink", "remove", "stat", "lstat", "mkdir", "rmdir", "listdir",
              "scandir", "access", "chmod", "utime", "link", "symlink", "readlink", "truncate",
              "chdir", "fdopen", "sync", "isatty", "pread", "pwrite", "getxattr", "listxattr", "setxattr", "chown", "fchmod", "posix_fallocate")
    if hasattr(os, n)
}
real_open = builtins.open


def _err(code: int, path: str = "") -> OSError:
    return OSError(code, os.strerror(code), path)


class Inode:
    _n = 0

    def __init__(self, fs: "SimFS", kind: str, mode: int) -> None:
        fs.n_inodes += 1
        self.ino = fs.n_inodes
        self.kind = kind
        self.mode = mode
        self.data = bytearray()
        self.durable = b""
        self.dirty = False
        self.entries: dict[str, Inode] = {}
        self.durable_entries: dict[str, Inode] = {}
        self.mtime = fs.sim.now if fs.sim else 0.0
        self.mount = ""


class SimRaw(io.RawIOBase):
    """An open file description."""

    def __init__(self, fs: "SimFS", node: Inode, path: str, *, r: bool, w: bool, append: bool, mode: str) -> None:
        super().__init__()
        self.fs = fs
        self.node = node
        self.name = path
        self.mode = mode
        self._r, self._w, self._a = r, w, append
        self.pos = 0
        self.fd = fs.new_fd(self)
        t = current_task()
        self.proc = t.proc if t else None
        self.explicit_close = False
        fs.handles.append(self)

    def _alive(self) -> bool:
        return self.proc is None or not self.proc.dead

    def _check(self) -> None:
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self) -> bool:
        self._check()
        return self._r

    def writable(self) -> bool:
        self._check()
        return self._w

    def seekable(self) -> bool:
        self._check()
        return True

    def isatty(self) -> bool:
        return False

    def fileno(self) -> int:
        self._check()
        return self.fd

    def seek(self, off: int, whence: int = 0) -> int:
        self._check()
        base = 0 if whence == 0 else self.pos if whence == 1 else len(self.node.data)
        if base + off < 0:
            raise _err(errno.EINVAL, self.name)
        self.pos = base + off
        return self.pos

    def tell(self) -> int:
        self._check()
        return self.pos

    def readinto(self, b) -> int:  # noqa: ANN001
        self._check()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        n = min(len(b), max(0, len(self.node.data) - self.pos))
        n = self.fs.on_read(self, n)
        n = min(n, max(0, len(self.node.data) - self.pos))
        b[:n] = self.node.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b) -> int:  # noqa: ANN001
        self._check()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        data = bytes(b)
        n = self.fs.on_write(self, len(data))
        if self._a:
            self.pos = len(self.node.data)
        if self.pos > len(self.node.data):
            self.node.data.extend(b"\0" * (self.pos - len(self.node.data)))
        self.node.data[self.pos:self.pos + n] = data[:n]
        self.node.dirty = True
        self.fs.generation += 1
        self.pos += n
        err = self.fs.take_deferred()
        if err is not None:
            raise err
        return n

    def truncate(self, size: int | None = None) -> int:
        self._check()
        size = self.pos if size is None else size
        self.fs.op("truncate", self.name)
        d = self.node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        self.node.dirty = True
        self.fs.generation += 1
        return size

    def close(self) -> None:
        if self.closed:
            return
        t = current_task()
        super().close()
        self.fs.fds.pop(self.fd, None)
        if self in self.fs.handles:
            self.fs.handles.remove(self)
        if t is not None and self._alive() and not getattr(self, "_quiet", False):
            self.fs.op("close", self.name)

    def __del__(self) -> None:
        # an object nobody closed: the descriptor goes away silently, as in CPython
        self._quiet = True
        try:
            if not self.closed:
                self.fs.leaked.append(self.name)
                self.close()
        except BaseException:  # noqa: BLE001
            pass


class SimBuffered(io.BufferedIOBase):
    """A buffered binary file (deliberately no io.BufferedWriter, so numpy uses its public methods)."""

    def __init__(self, raw: SimRaw, inner) -> None:  # noqa: ANN001
        self._inner = inner
        self.raw = raw
        self.name = raw.name
        self.mode = raw.mode

    @property
    def closed(self) -> bool:
        return self._inner.closed

    def close(self) -> None:
        try:
            self._inner.close()
        except SimKilled:
            self._abandon()
            raise

    def _abandon(self) -> None:
        pass

    def __getattr__(self, k: str):  # noqa: ANN204
        return getattr(self._inner, k)

    def read(self, *a):  # noqa: ANN002, ANN201
        return self._inner.read(*a)

    def read1(self, *a):  # noqa: ANN002, ANN201
        return self._inner.read1(*a)

    def readinto(self, b):  # noqa: ANN001, ANN201
        return self._inner.readinto(b)

    def readline(self, *a):  # noqa: ANN002, ANN201
        return self._inner.readline(*a)

    def write(self, b):  # noqa: ANN001, ANN201
        return self._inner.write(b)

    def flush(self) -> None:
        if not self._inner.closed:
            self._inner.flush()

    def seek(self, *a):  # noqa: ANN002, ANN201
        return self._inner.seek(*a)

    def tell(self):  # noqa: ANN201
        return self._inner.tell()

    def truncate(self, *a):  # noqa: ANN002, ANN201
        return self._inner.truncate(*a)

    def readable(self):  # noqa: ANN201
        return self._inner.readable()

    def writable(self):  # noqa: ANN201
        return self._inner.writable()

    def seekable(self):  # noqa: ANN201
        return self._inner.seekable()

    def fileno(self):  # noqa: ANN201
        return self.raw.fileno()

    def isatty(self) -> bool:
        return False

    def __del__(self) -> None:
        raw = self.raw
        if not raw.closed:
            raw._quiet = True
            raw.fs.leaked.append(raw.name)
            if not raw._alive():
                # a dead process flushes nothing
                return
            try:
                self._inner.close()
            except BaseException:  # noqa: BLE001
                pass


class SimDirEntry:
    def __init__(self, path: str, name: str, node: Inode) -> None:
        self.path = path
        self.name = name
        self._node = node

    def is_dir(self, *, follow_symlinks: bool = True) -> bool:  # noqa: ARG002
        return self._node.kind == "d"

    def is_file(self, *, follow_symlinks: bool = True) -> bool:  # noqa: ARG002
        return self._node.kind == "f"

    def is_symlink(self) -> bool:
        return False

    def is_junction(self) -> bool:
        return False

    def inode(self) -> int:
        return self._node.ino

    def stat(self, *, follow_symlinks: bool = True):  # noqa: ANN201, ARG002
        return _stat(self._node)

    def __fspath__(self) -> str:
        return self.path


class _ScanDir:
    def __init__(self, items: list) -> None:
        self._it = iter(items)

    def __iter__(self):  # noqa: ANN204
        return self

    def __next__(self):  # noqa: ANN204
        return next(self._it)

    def __enter__(self):  # noqa: ANN204
        return self

    def __exit__(self, *a: object) -> None:
        pass

    def close(self) -> None:
        pass


def _stat(n: Inode) -> os.stat_result:
    m = (stat_mod.S_IFDIR if n.kind == "d" else stat_mod.S_IFREG) | n.mode
    sz = len(n.data)
    return os.stat_result((m, n.ino, 77, 1, 0, 0, sz, int(n.mtime), int(n.mtime), int(n.mtime),
                           float(n.mtime), float(n.mtime), float(n.mtime), int(n.mtime * 1e9), int(n.mtime * 1e9), int(n.mtime * 1e9)))


class FaultConfig:
    """Probabilities of each kind of I/O fault at each operation."""

    def __init__(self, **p: float) -> None:
        self.open = p.get("open", 0.0)
        self.read = p.get("read", 0.0)
        self.short_read = p.get("short_read", 0.0)
        self.write = p.get("write", 0.0)
        self.short_write = p.get("short_write", 0.0)
        self.fsync = p.get("fsync", 0.0)
        self.close = p.get("close", 0.0)
        self.rename = p.get("rename", 0.0)
        self.unlink = p.get("unlink", 0.0)
        self.stat = p.get("stat", 0.0)
        self.mkdir = p.get("mkdir", 0.0)
        self.interrupt = p.get("interrupt", 0.0)
        self.max_faults = int(p.get("max_faults", 3))


NO_FAULTS = FaultConfig()


class SimFS:
    """The file system of one simulated machine."""

    def __init__(self, sim: Sim) -> None:
        self.sim = sim
        self.n_inodes = 0
        self.n_fds = 0
        self.fds: dict[int, SimRaw] = {}
        self.handles: list[SimRaw] = []
        self.leaked: list[str] = []
        self.escapes: list[str] = []
        self.generation = 0
        self.root = Inode(self, "d", 0o755)
        self.journal: list[tuple] = []
        self.faults = NO_FAULTS
        self.n_faults = 0
        self.deferred: OSError | None = None
        self.injected: list[BaseException] = []
        self.ops: dict[str, int] = {}
        self.touched: list[tuple[str, str]] = []
        self.mkdirs("/sim/data")
        self.mkdirs("/sim/tmp")
        self.lookup("/sim/tmp").mount = "tmp"
        self.sync_all()

    # -- helpers for harnesses (no faults, no scheduling) ----------------------
    def mkdirs(self, path: str) -> None:
        node = self.root
        for part in path.strip("/").split("/"):
            if part not in node.entries:
                d = Inode(self, "d", 0o755)
                d.mount = node.mount
                node.entries[part] = d
            node = node.entries[part]

    def put(self, path: str, data: bytes) -> None:
        """Write a durable file, as another program would have long ago."""
        d, name = self.parent(path)
        n = Inode(self, "f", 0o644)
        n.data = bytearray(data)
        d.entries[name] = n
        self.sync_all()

    def get(self, path: str) -> bytes | None:
        """Content of a file, or None."""
        try:
            return bytes(self.lookup(path).data)
        except OSError:
            return None

    def tree(self, path: str = "/sim") -> dict[str, bytes | None]:
        """All paths below path, with contents (None for directories)."""
        out: dict[str, bytes | None] = {}

        def walk(p: str, n: Inode) -> None:
            for k in sorted(n.entries):
                c = n.entries[k]
                if c.kind == "d":
                    out[p + "/" + k] = None
                    walk(p + "/" + k, c)
                else:
                    out[p + "/" + k] = bytes(c.data)

        walk(path, self.lookup(path))
        return out

    # -- name resolution -----------------------------------------------------------
    @staticmethod
    def norm(path) -> str:  # noqa: ANN001
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            t = current_task()
            p = os.path.join(t.proc.data.get("cwd", "/sim/data") if t else "/sim/data", p)
        return os.path.normpath(p)

    def lookup(self, path) -> Inode:  # noqa: ANN001
        p = self.norm(path)
        node = self.root
        for part in p.strip("/").split("/"):
            if not part:
                continue
            if node.kind != "d":
                raise _err(errno.ENOTDIR, p)
            nxt = node.entries.get(part)
            if nxt is None:
                raise _err(errno.ENOENT, p)
            if len(part.encode()) > 255:
                raise _err(errno.ENAMETOOLONG, p)
            node = nxt
        return node

    def parent(self, path) -> tuple[Inode, str]:  # noqa: ANN001
        p = self.norm(path)
        d, name = os.path.split(p)
        if len(name.encode()) > 255:
            raise _err(errno.ENAMETOOLONG, p)
        node = self.lookup(d)
        if node.kind != "d":
            raise _err(errno.ENOTDIR, p)
        return node, name

    def new_fd(self, raw: SimRaw) -> int:
        self.n_fds += 1
        fd = FD_BASE + self.n_fds
        self.fds[fd] = raw
        return fd

    # -- fault injection -----------------------------------------------------------
    def _fires(self, p: float) -> bool:
        if p <= 0 or self.n_faults >= self.faults.max_faults:
            return False
        if self.sim.ch.chance(p):
            self.n_faults += 1
            return True
        return False

    def _raise(self, code: int, path: str, kind: str) -> None:
        self.sim.fault(kind)
        e = _err(code, path)
        e.injected = True  # type: ignore[attr-defined]
        e.op = kind  # type: ignore[attr-defined]
        e.task = getattr(current_task(), "name", None)  # type: ignore[attr-defined]
        self.injected.append(e)
        raise e

    def enter(self, kind: str, path: str) -> None:
        self.sim.log(f"{kind} {path}")
        self.ops[kind] = self.ops.get(kind, 0) + 1
        self.sim.point(kind)
        t = current_task()
        if t is not None and self.faults.interrupt and self._fires(self.faults.interrupt):
            self.sim.fault("interrupt")
            e = KeyboardInterrupt()
            e.injected = True  # type: ignore[attr-defined]
            e.op = kind  # type: ignore[attr-defined]
            e.task = t.name  # type: ignore[attr-defined]
            self.injected.append(e)
            raise e

    def op(self, kind: str, path: str) -> None:
        """Scheduling point + possible failure of a metadata or control operation."""
        self.enter(kind, path)
        f = self.faults
        if kind == "open_r":
            if self._fires(f.open):
                self._raise(self.sim.ch.pick([errno.EIO, errno.EMFILE]), path, "open_error")
        elif kind == "open_w":
            if self._fires(f.open):
                self._raise(self.sim.ch.pick([errno.EIO, errno.ENOSPC, errno.EMFILE, errno.EROFS]), path, "open_error")
        elif kind == "fsync":
            if self._fires(f.fsync):
                self._raise(self.sim.ch.pick([errno.EIO, errno.ENOSPC]), path, "fsync_error")
        elif kind == "close":
            if self._fires(f.close):
                self._raise(self.sim.ch.pick([errno.EIO, errno.ENOSPC]), path, "close_error")
        elif kind == "rename":
            if self._fires(f.rename):
                self._raise(self.sim.ch.pick([errno.EIO, errno.ENOSPC]), path, "rename_error")
        elif kind in {"unlink", "rmdir"}:
            if self._fires(f.unlink):
                self._raise(errno.EIO, path, "unlink_error")
        elif kind in {"stat", "scandir"}:
            if self._fires(f.stat):
                self._raise(errno.EIO, path, "stat_error")
        elif kind == "mkdir":
            if self._fires(f.mkdir):
                self._raise(self.sim.ch.pick([errno.EIO, errno.ENOSPC]), path, "mkdir_error")
        elif kind == "truncate":
            if self._fires(f.write):
                self._raise(errno.EIO, path, "truncate_error")

    def on_read(self, h: SimRaw, n: int) -> int:
        self.enter("read", h.name)
        if self._fires(self.faults.read):
            self._raise(errno.EIO, h.name, "read_error")
        if n > 1 and self._fires(self.faults.short_read):
            self.sim.fault("short_read")
            return 1 + self.sim.ch.choose(n - 1)
        return n

    def on_write(self, h: SimRaw, n: int) -> int:
        self.enter("write", h.name)
        if self._fires(self.faults.write):
            code = self.sim.ch.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT])
            k = self.sim.ch.choose(3)  # nothing, some, or all but nothing reported
            part = 0 if k == 0 else self.sim.ch.choose(n + 1)
            self.sim.fault("write_error")
            if part:
                self.sim.fault("torn_write")
            e = _err(code, h.name)
            e.injected = True  # type: ignore[attr-defined]
            e.op = "write_error"  # type: ignore[attr-defined]
            e.task = getattr(current_task(), "name", None)  # type: ignore[attr-defined]
            self.injected.append(e)
            self.deferred = e
            return part
        if n > 1 and self._fires(self.faults.short_write):
            self.sim.fault("short_write")
            return 1 + self.sim.ch.choose(n - 1)
        return n

    def take_deferred(self) -> OSError | None:
        e, self.deferred = self.deferred, None
        return e

    # -- durability ---------------------------------------------------------------
    def _journal(self, *op: object) -> None:
        self.journal.append(op)
        self.generation += 1

    @staticmethod
    def _apply(op: tuple) -> None:
        if op[0] == "link":
            op[1].durable_entries[op[2]] = op[3]
        elif op[0] == "unlink":
            op[1].durable_entries.pop(op[2], None)
        elif op[0] == "rename":
            _, sd, sn, dd, dn, node = op
            sd.durable_entries.pop(sn, None)
            dd.durable_entries[dn] = node

    def commit(self) -> None:
        """The metadata journal reaches the disk."""
        for op in self.journal:
            self._apply(op)
        self.journal = []

    def sync_all(self) -> None:
        self.commit()

        def walk(n: Inode) -> None:
            n.durable_entries = dict(n.entries)
            n.durable = bytes(n.data)
            n.dirty = False
            for c in n.entries.values():
                walk(c)

        walk(self.root)

    def power_loss(self) -> None:
        """Lose what was not made durable. All processes must be dead."""
        ch = self.sim.ch
        self.sim.fault("power_loss")
        # 0 = everything survived
        lost = ch.choose(len(self.journal) + 1)
        keep = len(self.journal) - lost
        if lost:
            self.sim.fault("lost_metadata")
        for op in self.journal[:keep]:
            self._apply(op)
        self.journal = []
        seen: set[int] = set()

        def walk(n: Inode) -> None:
            if n.ino in seen:
                return
            seen.add(n.ino)
            n.entries = dict(n.durable_entries)
            if n.kind == "f" and n.dirty:
                new, old = bytes(n.data), n.durable
                k = ch.choose(5)
                if k == 0:
                    res = new
                elif k == 1:
                    res = old
                    self.sim.fault("lost_write")
                elif k == 2:
                    res = new[: ch.choose(len(new) + 1)]
                    self.sim.fault("torn_write")
                elif k == 3:
                    cut = ch.choose(len(new) + 1)
                    res = new[:cut] + b"\0" * (len(new) - cut)
                    self.sim.fault("torn_write")
                else:
                    res = b""
                    self.sim.fault("lost_write")
                n.data = bytearray(res)
                n.durable = bytes(res)
                n.dirty = False
            for c in n.entries.values():
                walk(c)

        walk(self.root)
        self.handles = []
        self.fds = {}
        self.sync_all()
        self.generation += 1

    # -- operations -----------------------------------------------------------------
    def open_node(self, path: str, *, r: bool, w: bool, create: bool, excl: bool, trunc: bool,
                  append: bool, mode: str) -> SimRaw:
        p = self.norm(path)
        self.op("open_w" if w else "open_r", p)
        self.touched.append(("w" if w else "r", p))
        try:
            node = self.lookup(p)
        except FileNotFoundError:
            if not create:
                raise
            node = None
        if node is not None:
            if excl:
                raise _err(errno.EEXIST, p)
            if node.kind == "d":
                raise _err(errno.EISDIR, p)
        else:
            d, name = self.parent(p)
            node = Inode(self, "f", 0o644)
            node.mount = d.mount
            d.entries[name] = node
            self._journal("link", d, name, node)
        if trunc and node.data:
            node.data = bytearray()
            node.dirty = True
            self.generation += 1
        raw = SimRaw(self, node, p, r=r, w=w, append=append, mode=mode)
        if append:
            raw.pos = len(node.data)
        return raw

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):  # noqa: ANN001, ANN201, FBT002
        base = mode.replace("b", "").replace("t", "").replace("U", "")
        if base.strip("+") not in {"r", "w", "x", "a"} or len(set(mode)) != len(mode) or {"b", "t"} <= set(mode):
            raise ValueError(f"invalid mode: {mode!r}")
        r = "r" in base or "+" in base
        w = "w" in base or "a" in base or "x" in base or "+" in base
        binary = "b" in mode
        if isinstance(file, int):
            raw = self.fds.get(file)
            if raw is None:
                raise _err(errno.EBADF)
            raw.mode = mode
        elif opener is not None:
            flags = (os.O_RDWR if r and w else os.O_WRONLY if w else os.O_RDONLY)
            if "w" in base:
                flags |= os.O_CREAT | os.O_TRUNC
            if "x" in base:
                flags |= os.O_CREAT | os.O_EXCL
            if "a" in base:
                flags |= os.O_CREAT | os.O_APPEND
            raw = self.fds[opener(os.fspath(file), flags)]
            raw.mode = mode
        else:
            raw = self.open_node(file, r=r, w=w, create=("w" in base or "a" in base or "x" in base),
                                 excl="x" in base, trunc="w" in base, append="a" in base, mode=mode)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        if r and w:
            inner = io.BufferedRandom(raw, size)
        elif w:
            inner = io.BufferedWriter(raw, size)
        else:
            inner = io.BufferedReader(raw, size)
        if binary:
            return SimBuffered(raw, inner)
        t = io.TextIOWrapper(inner, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t

    def rename(self, src, dst) -> None:  # noqa: ANN001
        s, d = self.norm(src), self.norm(dst)
        self.op("rename", f"{s} -> {d}")
        self.touched.append(("w", s))
        self.touched.append(("w", d))
        node = self.lookup(s)
        sd, sn = self.parent(s)
        dd, dn = self.parent(d)
        if sd.mount != dd.mount:
            raise _err(errno.EXDEV, s)
        tgt = dd.entries.get(dn)
        if tgt is not None and tgt.kind == "d":
            if node.kind != "d":
                raise _err(errno.EISDIR, d)
            if tgt.entries:
                raise _err(errno.ENOTEMPTY, d)
        if tgt is node:
            return
        del sd.entries[sn]
        dd.entries[dn] = node
        self._journal("rename", sd, sn, dd, dn, node)

    def unlink(self, path) -> None:  # noqa: ANN001
        p = self.norm(path)
        self.op("unlink", p)
        self.touched.append(("w", p))
        n = self.lookup(p)
        if n.kind == "d":
            raise _err(errno.EISDIR, p)
        d, name = self.parent(p)
        del d.entries[name]
        self._journal("unlink", d, name)

    def mkdir(self, path, mode: int = 0o777) -> None:  # noqa: ANN001
        p = self.norm(path)
        self.op("mkdir", p)
        self.touched.append(("w", p))
        d, name = self.parent(p)
        if name in d.entries:
            raise _err(errno.EEXIST, p)
        n = Inode(self, "d", mode & 0o755)
        n.mount = d.mount
        d.entries[name] = n
        self._journal("link", d, name, n)

    def rmdir(self, path) -> None:  # noqa: ANN001
        p = self.norm(path)
        self.op("rmdir", p)
        self.touched.append(("w", p))
        n = self.lookup(p)
        if n.kind != "d":
            raise _err(errno.ENOTDIR, p)
        if n.entries:
            raise _err(errno.ENOTEMPTY, p)
        d, name = self.parent(p)
        del d.entries[name]
        self._journal("unlink", d, name)

    def link(self, src, dst) -> None:  # noqa: ANN001
        s, dpath = self.norm(src), self.norm(dst)
        self.op("rename", f"link {s} -> {dpath}")
        n = self.lookup(s)
        d, name = self.parent(dpath)
        if name in d.entries:
            raise _err(errno.EEXIST, dpath)
        d.entries[name] = n
        self._journal("link", d, name, n)

    def stat(self, path) -> os.stat_result:  # noqa: ANN001
        p = self.norm(path)
        self.op("stat", p)
        return _stat(self.lookup(p))

    def scandir(self, path) -> _ScanDir:  # noqa: ANN001
        p = self.norm(path)
        self.op("scandir", p)
        n = self.lookup(p)
        if n.kind != "d":
            raise _err(errno.ENOTDIR, p)
        return _ScanDir([SimDirEntry(os.path.join(p, k), k, n.entries[k]) for k in sorted(n.entries)])

    def fsync_fd(self, fd: int) -> None:
        raw = self.fds.get(fd)
        if raw is None:
            raise _err(errno.EBADF)
        self.op("fsync", raw.name)
        if raw.node.kind == "d":
            self.commit()
        else:
            raw.node.durable = bytes(raw.node.data)
            raw.node.dirty = False


# ---------------------------------------------------------------------------------------
# seams
# ---------------------------------------------------------------------------------------
_installed = False


def fs_of(path) -> SimFS | None:  # noqa: ANN001
    """Return the simulated file system responsible for path (None: the real one)."""
    t = current_task()
    if t is None:
        return None
    fs = getattr(t.sim, "fs", None)
    if fs is None:
        return None
    if isinstance(path, int):
        return fs if path >= FD_BASE else None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        cwd = t.proc.data.get("cwd")
        if cwd is None:
            return None
        p = os.path.join(cwd, p)
    p = os.path.normpath(p)
    if p == PREFIX or p.startswith(PREFIX + "/"):
        return fs
    return None


def _escape(what: str, path) -> None:  # noqa: ANN001
    t = current_task()
    fs = getattr(t.sim, "fs", None) if t else None
    if fs is not None:
        fs.escapes.append(f"{what} {path}")
        raise _err(errno.EACCES, str(path))


def install() -> None:
    """Route file operations of simulated tasks on /sim to the simulated file system."""
    global _installed
    if _installed:
        return
    _installed = True

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):  # noqa: ANN001, ANN202, FBT002
        fs = fs_of(file)
        if fs is None:
            if current_task() is not None and any(c in mode for c in "wax+") and not isinstance(file, int):
                _escape("open", file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return fs.open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    builtins.open = sim_open
    io.open = sim_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):  # noqa: ANN001, ANN202
        fs = fs_of(path)
        if fs is None:
            if current_task() is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                _escape("open", path)
            return real["open"](path, flags, mode, dir_fd=dir_fd)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        p = fs.norm(path)
        try:
            node = fs.lookup(p)
        except OSError:
            node = None
        if node is not None and node.kind == "d":
            fs.op("open_r", p)
            return SimRaw(fs, node, p, r=True, w=False, append=False, mode="rb").fd
        raw = fs.open_node(path, r=acc != os.O_WRONLY, w=acc != os.O_RDONLY, create=bool(flags & os.O_CREAT),
                           excl=bool(flags & os.O_EXCL), trunc=bool(flags & os.O_TRUNC),
                           append=bool(flags & os.O_APPEND), mode="rb+")
        raw.os_level = True
        return raw.fd

    os.open = os_open

    def os_close(fd):  # noqa: ANN001, ANN202
        fs = fs_of(fd)
        if fs is None:
            return real["close"](fd)
        raw = fs.fds.get(fd)
        if raw is None:
            raise _err(errno.EBADF)
        return raw.close()

    os.close = os_close

    def os_read(fd, n):  # noqa: ANN001, ANN202
        fs = fs_of(fd)
        if fs is None:
            return real["read"](fd, n)
        b = bytearray(n)
        return bytes(b[: fs.fds[fd].readinto(b)])

    os.read = os_read

    def os_write(fd, data):  # noqa: ANN001, ANN202
        fs = fs_of(fd)
        if fs is None:
            return real["write"](fd, data)
        return fs.fds[fd].write(data)

    os.write = os_write

    def os_fsync(fd):  # noqa: ANN001, ANN202
        n = fd if isinstance(fd, int) else fd.fileno()
        fs = fs_of(n)
        if fs is None:
            return real["fsync"](fd)
        return fs.fsync_fd(n)

    os.fsync = os_fsync
    os.fdatasync = os_fsync

    def os_fstat(fd):  # noqa: ANN001, ANN202
        fs = fs_of(fd)
        if fs is None:
            return real["fstat"](fd)
        raw = fs.fds[fd]
        fs.op("stat", raw.name)
        return _stat(raw.node)

    os.fstat = os_fstat

    def os_ftruncate(fd, n):  # noqa: ANN001, ANN202
        fs = fs_of(fd)
        if fs is None:
            return real["ftruncate"](fd, n)
        fs.fds[fd].truncate(n)
        return None

    os.ftruncate = os_ftruncate

    def os_lseek(fd, off, how):  # noqa: ANN001, ANN202
        fs = fs_of(fd)
        if fs is None:
            return real["lseek"](fd, off, how)
        return fs.fds[fd].seek(off, how)

    os.lseek = os_lseek

    def os_rename(src, dst, **kw):  # noqa: ANN001, ANN003, ANN202
        fs = fs_of(src) or fs_of(dst)
        if fs is None:
            _escape("rename", src)
            return real["rename"](src, dst, **kw)
        return fs.rename(src, dst)

    def os_replace(src, dst, **kw):  # noqa: ANN001, ANN003, ANN202
        fs = fs_of(src) or fs_of(dst)
        if fs is None:
            _escape("rename", src)
            return real["replace"](src, dst, **kw)
        return fs.rename(src, dst)

    os.rename = os_rename
    os.replace = os_replace

    def one(name, meth, *, writes=True):  # noqa: ANN001, ANN202
        def f(path, *a, **kw):  # noqa: ANN001, ANN002, ANN003, ANN202
            fs = fs_of(path)
            if fs is None:
                if writes:
                    _escape(name, path)
                return real[name](path, *a, **kw)
            return getattr(fs, meth)(path, *a)

        f.__name__ = name
        setattr(os, name, f)

    one("unlink", "unlink")
    one("remove", "unlink")
    one("mkdir", "mkdir")
    one("rmdir", "rmdir")

    def os_stat(path, *a, **kw):  # noqa: ANN001, ANN002, ANN003, ANN202
        fs = fs_of(path)
        if fs is None:
            return real["stat"](path, *a, **kw)
        if isinstance(path, int):
            return os_fstat(path)
        return fs.stat(path)

    def os_lstat(path, *a, **kw):  # noqa: ANN001, ANN002, ANN003, ANN202
        fs = fs_of(path)
        if fs is None:
            return real["lstat"](path, *a, **kw)
        return fs.stat(path)

    os.stat = os_stat
    os.lstat = os_lstat

    def os_scandir(path="."):  # noqa: ANN001, ANN202
        fs = fs_of(path)
        return real["scandir"](path) if fs is None else fs.scandir(path)

    def os_listdir(path="."):  # noqa: ANN001, ANN202
        fs = fs_of(path)
        return real["listdir"](path) if fs is None else [e.name for e in fs.scandir(path)]

    os.scandir = os_scandir
    os.listdir = os_listdir

    def os_access(path, mode, **kw):  # noqa: ANN001, ANN003, ANN202
        fs = fs_of(path)
        if fs is None:
            return real["access"](path, mode, **kw)
        try:
            fs.stat(path)
        except FileNotFoundError:
            return False
        return True

    os.access = os_access

    def os_link(src, dst, **kw):  # noqa: ANN001, ANN003, ANN202
        fs = fs_of(src)
        return real["link"](src, dst, **kw) if fs is None else fs.link(src, dst)

    os.link = os_link

    def noop(name):  # noqa: ANN001, ANN202
        def f(path, *a, **kw):  # noqa: ANN001, ANN002, ANN003, ANN202
            fs = fs_of(path)
            if fs is None:
                _escape(name, path)
                return real[name](path, *a, **kw)
            if isinstance(path, int):
                fs.op("stat", fs.fds[path].name)
            else:
                fs.op("stat", fs.norm(path))
                fs.lookup(path)
            return None

        f.__name__ = name
        setattr(os, name, f)

    for n in ("chmod", "utime", "chown", "fchmod", "setxattr"):
        if n in real:
            noop(n)

    def os_readlink(path, **kw):  # noqa: ANN001, ANN003, ANN202
        fs = fs_of(path)
        if fs is None:
            return real["readlink"](path, **kw)
        raise _err(errno.EINVAL, str(path))

    os.readlink = os_readlink

    def os_truncate(path, n):  # noqa: ANN001, ANN202
        fs = fs_of(path)
        if fs is None:
            _escape("truncate", path)
            return real["truncate"](path, n)
        with fs.open(path, "rb+") as f:
            f.truncate(n)
        return None

    os.truncate = os_truncate

    def os_chdir(path):  # noqa: ANN001, ANN202
        t = current_task()
        if t is None:
            return real["chdir"](path)
        t.sim.log(f"chdir {path}")
        t.proc.data["cwd"] = os.path.normpath(os.path.join(os_getcwd(), os.fspath(path)))
        t.sim.point("chdir")
        return None

    real_getcwd = os.getcwd

    def os_getcwd():  # noqa: ANN202
        t = current_task()
        if t is None or "cwd" not in t.proc.data:
            return real_getcwd()
        return t.proc.data["cwd"]

    os.getcwd = os_getcwd

    os.chdir = os_chdir
    # the generic (path based) variants go through the functions above
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    shutil.rmtree.avoids_symlink_attacks = False
