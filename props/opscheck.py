"""Shared parts of C10 and C11: what an operation was given, what it returned, and an isolated reference run of the same call."""
from __future__ import annotations

import copy
import dataclasses
import functools
import io
import os
import pickle
import struct
import sys
import types

import numpy as np

from props import opskit
from sim.core import REPO_PKG, Choices, HarnessError, Sim, SimKilled, Violation

_real_pipe, _real_close, _real_read, _real_write = os.pipe, os.close, os.read, os.write
_real_fork, _real_waitpid, _real_exit = os.fork, os.waitpid, os._exit


# ---------------------------------------------------------------------------
# a value as plain data
class Tree(dict):
    """A memo which forgets: values which are shared are described wherever they occur."""


def canon(x, exact: bool = False, memo: dict | None = None):  # noqa: ANN001, ANN201, FBT001, FBT002
    """Plain data which says everything about x that a caller can see."""
    out = _canon(x, exact, memo)
    if isinstance(memo, Tree) and not (isinstance(out, tuple) and out and out[0] == "again"):
        memo.pop(id(x), None)
    return out


def _canon(x, exact: bool = False, memo: dict | None = None):  # noqa: ANN001, ANN201, C901, FBT001, FBT002, PLR0911, PLR0912
    """Plain data which says everything about x that a caller can see.

    exact: also what an input may not lose, such as its memory layout
    """
    memo = {} if memo is None else memo
    if x is None or isinstance(x, (bool, str, bytes, int, np.bool_)):
        return x if not isinstance(x, (int, np.bool_)) or isinstance(x, bool) else int(x)
    if isinstance(x, (float, complex, np.number)):
        return ("number", complex(x)) if not exact else ("number", type(x).__name__, repr(x))
    if isinstance(x, type) or isinstance(x, types.ModuleType):
        return ("name", x.__name__)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, [canon(y, exact, memo) for y in x.ravel()])
        if exact:
            return ("array", x.shape, x.strides, x.dtype.str, x.flags.writeable, x.tobytes())
        return ("array", np.array(x))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, functools.partial)):
        return ("function", id(x) if exact else getattr(x, "__name__", ""))
    key = id(x)
    if key in memo:
        return ("again", memo[key][0])
    memo[key] = (len(memo), x)  # kept alive, so that no other value gets its identity
    if isinstance(x, dict):
        return ("dict", [(canon(k, exact, memo), canon(v, exact, memo)) for k, v in (x.items() if exact else sorted(x.items(), key=lambda kv: repr(kv[0])))])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__ if exact else "list", [canon(y, exact, memo) for y in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((canon(y, exact, memo) for y in x), key=repr))
    if isinstance(x, (range, slice)):
        return ("range", repr(x))
    mod = type(x).__module__
    if mod.startswith("matplotlib") or mod.startswith("mpl_toolkits"):
        return drawn(x, memo)
    if isinstance(x, types.GeneratorType) or (hasattr(x, "__next__") and not exact):
        return ("list", [canon(y, exact, memo) for y in x])
    if mod.startswith((opskit.PACKAGE, "props.", "types")) or dataclasses.is_dataclass(x):
        cached = {n for c in type(x).__mro__ for n, v in vars(c).items() if isinstance(v, functools.cached_property)}
        items = [(k, canon(v, exact, memo)) for k, v in sorted(vars(x).items()) if exact or k not in cached]
        return ("object", type(x).__name__, items)
    return ("other", type(x).__name__)


def drawn(x, memo: dict):  # noqa: ANN001, ANN201, C901, PLR0911
    """What can be seen of something drawn by matplotlib."""
    from matplotlib import animation, artist, axes, collections, figure, image, lines, patches, text

    if isinstance(x, figure.FigureBase):
        return ("figure", [canon(a, memo=memo) for a in x.axes])
    if isinstance(x, axes.Axes):
        out = {k: getattr(x, "get_" + k)() for k in ("xlabel", "ylabel", "title", "xlim", "ylim", "xscale", "yscale", "aspect")}
        out["artists"] = [*x.lines, *x.collections, *x.images, *x.patches, *x.texts]
        leg = x.get_legend()
        out["legend"] = [t.get_text() for t in leg.get_texts()] if leg else None
        return ("axes", canon(out, memo=memo))
    if isinstance(x, lines.Line2D):
        return ("line", canon([np.asarray(x.get_xdata(orig=False), dtype=float), np.asarray(x.get_ydata(orig=False), dtype=float), str(x.get_color()), x.get_linestyle(), x.get_label(), x.get_marker()], memo=memo))
    if isinstance(x, collections.QuadMesh):
        return ("mesh", canon([np.ma.getdata(x.get_coordinates()), np.ma.getdata(x.get_array()), x.get_clim()], memo=memo))
    if isinstance(x, collections.Collection):
        a = x.get_array()
        return ("collection", canon([np.ma.getdata(x.get_offsets()), None if a is None else np.ma.getdata(a), [p.vertices for p in x.get_paths()[:20]]], memo=memo))
    if isinstance(x, image.AxesImage):
        return ("image", canon([np.ma.getdata(x.get_array()), x.get_extent(), x.get_clim()], memo=memo))
    if isinstance(x, text.Text):
        return ("text", x.get_text())
    if isinstance(x, patches.Patch):
        return ("patch", canon([x.get_path().vertices], memo=memo))
    if isinstance(x, animation.ArtistAnimation):
        frames = list(getattr(x, "_framedata", []))
        x._draw_was_started = True  # noqa: SLF001  not shown: no warning about that
        return ("animation", [canon(list(f), memo=memo) for f in frames])
    if isinstance(x, animation.Animation):
        x._draw_was_started = True  # noqa: SLF001
        return ("animation",)
    if isinstance(x, artist.Artist):
        return ("artist", type(x).__name__)
    return ("matplotlib", type(x).__name__)


def differ(a, b, tol: float, path: str = "result") -> str | None:  # noqa: ANN001, PLR0911
    """Where two values (as plain data) differ; None if they do not."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == "array" and len(a) == 2:
            return array_differ(a[1], b[1], tol, path)
        if a[0] == "number":
            return array_differ(np.array(a[1]), np.array(b[1]), tol, path)
    if type(a) is not type(b):
        return f"{path}: {short(b)} instead of {short(a)}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {short(b)} instead of {short(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            label = f"{path}.{a[0]}" if i == 0 and isinstance(a[0], str) else path
            d = differ(x, y, tol, label if isinstance(a, tuple) else f"{path}[{a[i][0] if isinstance(a[i], tuple) and a[i] and isinstance(a[i][0], str) and len(a[i]) == 2 else i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {short(b)} instead of {short(a)}"


def array_differ(a: np.ndarray, b: np.ndarray, tol: float, path: str) -> str | None:
    """Compare arrays, up to rounding."""
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind and {a.dtype.kind, b.dtype.kind} - set("fciub"):
        return f"{path}: shape {b.shape} {b.dtype} instead of {a.shape} {a.dtype}"
    if a.dtype.kind in "USOMm" or a.size == 0:
        return None if np.array_equal(a, b) else f"{path}: {short(b)} instead of {short(a)}"
    x, y = a.astype(np.complex128), b.astype(np.complex128)
    bad = ~np.isfinite(x)
    if not np.array_equal(bad, ~np.isfinite(y)):
        return f"{path}: {short(b)} instead of {short(a)}"
    x, y = np.where(bad, 0, x), np.where(bad, 0, y)
    size = np.abs(x).max()
    error = np.abs(x - y).max()
    if error > tol * size:
        return f"{path}: {short(b)} instead of {short(a)} (off by {error / size:.1e})"
    return None


def short(x) -> str:  # noqa: ANN001
    """A few characters of a value."""
    if isinstance(x, np.ndarray):
        return np.array2string(x.ravel()[:4], precision=5) + (f"... of shape {x.shape}" if x.size > 4 else "")
    return repr(x)[:120]


def arrays(x, found: dict | None = None, seen: set | None = None) -> dict:  # noqa: ANN001
    """All arrays which can be reached from x."""
    found = {} if found is None else found
    seen = set() if seen is None else seen
    if isinstance(x, np.ndarray):
        found[id(x)] = x
        return found
    if id(x) in seen or isinstance(x, (str, bytes, int, float, complex, type, types.ModuleType)) or x is None:
        return found
    seen.add(id(x))
    if isinstance(x, dict):
        for v in x.values():
            arrays(v, found, seen)
    elif isinstance(x, (list, tuple, set)):
        for v in x:
            arrays(v, found, seen)
    elif isinstance(x, types.FunctionType):
        for c in x.__closure__ or ():
            try:
                arrays(c.cell_contents, found, seen)
            except ValueError:
                pass
    elif hasattr(x, "__dict__") and type(x).__module__.startswith((opskit.PACKAGE, "props.", "types")):
        arrays(vars(x), found, seen)
    return found


# ---------------------------------------------------------------------------
# calls
class Call:
    """An operation and its arguments."""

    def __init__(self, op: str, kwargs: dict) -> None:
        self.op, self.kwargs = op, kwargs
        self.template = copy.deepcopy(kwargs)
        self.before = self.state()

    def state(self) -> list:
        """The inputs, exactly."""
        return snapshot(self.kwargs)


def snapshot(kwargs: dict) -> list:
    """The inputs, exactly."""
    return [(k, canon(v, exact=True)) for k, v in kwargs.items()]


def changed(before: list, after: list, path: str = "") -> str | None:
    """Which input is not what it was (an object may have gained attributes)."""
    for (k, a), (_, b) in zip(before, after):
        d = _changed(a, b, k)
        if d:
            return d
    return None


def _changed(a, b, path: str) -> str | None:  # noqa: ANN001
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and a[0] == b[0]:
        if a[0] == "object" and a[1] == b[1]:
            now = dict(b[2])
            for k, v in a[2]:
                if k not in now:
                    return f"{path}.{k} is gone"
                if k.startswith("_") and (v is None or v in (("dict", []), ("list", [])) or (isinstance(v, tuple) and v[0] == "other")):
                    continue  # filled when it is first needed
                d = _changed(v, now[k], f"{path}.{k}")
                if d:
                    return d
            return None
        if a[0] == "dict":
            if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
                return f"{path} has other keys"
            for (k, v), (_, w) in zip(a[1], b[1]):
                d = _changed(v, w, f"{path}[{k!r}]")
                if d:
                    return d
            return None
        if a[0] in {"list", "tuple"} and len(a[1]) == len(b[1]):
            for i, (v, w) in enumerate(zip(a[1], b[1])):
                d = _changed(v, w, f"{path}[{i}]")
                if d:
                    return d
            return None
        if a[0] == "again":
            return None  # told apart by what new attributes refer to
    return path


TWINS = ("all numbers", "only bases", "only data", "order of the data", "one number", "one argument", "directions of the lattice")


# operations which are given a function
WITH_FUNCTION = ["calculate_hermitian_gamma_potential_integral", "calculate_real_gamma_integral", "get_jump_matrix_from_function", "get_collapse_operators_from_function",
                 "build_axis_kernel_from_function_stacked", "build_isotropic_kernel_from_function", "build_isotropic_kernel_from_function_stacked",
                 "apply_function_to_operator", "get_angle_averaged_diagonal_overlap_function", "build_animation", "generate_uneven_wavepacket", "generate_wavepacket"]


def other_function(f):  # noqa: ANN001, ANN201
    """A function with other values."""

    def call(*a, **kw):  # noqa: ANN002, ANN003, ANN202
        x = f(*a, **kw)
        if isinstance(x, dict) and "data" in x:
            return {**x, "data": x["data"] * 1.3}
        return x * 1.3 if isinstance(x, (float, complex, np.ndarray, np.number)) else x

    return call


def twin(kwargs: dict, how: int = 0, which: int = 0) -> dict:
    """The same arguments with other numbers, in the same shapes."""
    out = copy.deepcopy(kwargs)
    seen: set = set()
    places: list = []  # (name of the argument, inside a basis, name of the array, array)

    def other(x, key: str, inside: bool, name: str) -> None:  # noqa: ANN001, FBT001
        if id(x) in seen:
            return
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.dtype.kind in "cf" and x.size:
                seen.add(id(x))
                places.append((key, inside, name, x))
            return
        seen.add(id(x))
        if isinstance(x, dict):
            for k, v in x.items():
                other(v, key, inside or k == "basis", str(k))
        elif isinstance(x, (list, tuple)):
            for v in x:
                other(v, key, inside, name)
        elif hasattr(x, "__dict__") and not isinstance(x, types.FunctionType):
            for k, v in vars(x).items():
                other(v, key, True, k)  # noqa: FBT003

    for k in out:
        other(out[k], k, False, k)  # noqa: FBT003
    if how == 5:  # noqa: PLR2004
        keys = sorted({p[0] for p in places} | {k for k, v in out.items() if isinstance(v, float)})
        keys = keys[which % len(keys):][:1] if keys else []
    else:
        keys = list(out)
    if how == 4:  # noqa: PLR2004
        mine = [p for p in places if not p[1]]
        if mine:
            x = mine[which % len(mine)][3]
            i = np.unravel_index((which // 7) % x.size, x.shape)
            x[i] = x[i] * 1.01 if x[i] != 0 else 0.01
        return out
    for n, (k, inside, name, x) in enumerate(places):
        if k not in keys:
            continue
        if how in {0, 5}:
            if x.dtype.kind == "c":
                x[...] = x.conj() if inside else 1.7 * x.conj()
            else:
                x *= 1.3
        elif how in {1, 6} and inside and name == "_delta_x":
            if how == 1:
                x *= 1.3 + 0.1 * n
            elif x.size > 1:
                c, s = np.cos(0.1 + 0.05 * n), np.sin(0.1 + 0.05 * n)
                x[:2] = [c * x[0] - s * x[1], s * x[0] + c * x[1]]
        elif how == 2 and not inside:  # noqa: PLR2004
            if x.dtype.kind == "c":
                x[...] = 1.7 * x.conj()
            else:
                x *= 1.3
        elif how == 3 and not inside:  # noqa: PLR2004
            x[...] = x.ravel()[::-1].reshape(x.shape).copy()
    for k, v in out.items():
        if isinstance(v, float) and k in keys and how in {0, 5}:
            out[k] = v * 1.1
        if isinstance(v, types.FunctionType) and how in {0, 2, 5}:
            out[k] = other_function(v)
    return out


def own_arrays(kwargs: dict) -> list:
    """Arrays which a caller may fill with other numbers without changing any basis."""
    out = []
    for k in kwargs:
        v = kwargs[k]
        if isinstance(v, np.ndarray) and v.dtype.kind in "fc":
            out.append((k, None, v))
        elif isinstance(v, dict):
            out += [(k, q, x) for q, x in v.items() if isinstance(x, np.ndarray) and x.dtype.kind in "fc"]
    return out


def rewrite(kwargs: dict, source: dict) -> list:
    """Fill the arrays of kwargs with those of source; returns the arrays."""
    done = []
    for k, q, x in own_arrays(kwargs):
        y = source[k] if q is None else source[k][q]
        if x.flags.writeable and x.shape == y.shape and x.dtype == y.dtype:
            x[...] = y
            done.append(x)
    return done


def nudge(kwargs: dict) -> dict:
    """Change the numbers by rounding errors, in place (only in a copy of the process)."""
    r = np.random.default_rng(7)
    for _, _, x in own_arrays(kwargs):
        if x.flags.writeable:
            x *= 1 + 1e-12 * r.normal(size=x.shape)
    return kwargs


def call(op: str, kwargs: dict, memo: dict | None = None):  # noqa: ANN201
    """Run the operation: what happened (as plain data) and the result."""
    k = {n: opskit._NEW_AXES() if isinstance(v, str) and v == opskit._AX else v for n, v in kwargs.items()}  # noqa: SLF001
    axes = [v for n, v in k.items() if isinstance(kwargs[n], str) and kwargs[n] == opskit._AX]  # noqa: SLF001
    try:
        result = opskit.M.ops[op](**k)
        return ("ok", canon([result, *axes], memo=memo)), result
    except (SimKilled, HarnessError, Violation):
        raise
    except BaseException as e:  # noqa: BLE001
        return ("raise", type(e).__name__), e


# ---------------------------------------------------------------------------
# the isolated reference
class Watch:
    """Inputs and process-wide settings around a call which another harness makes, judged for C10 or C11."""

    def __init__(self, want: str, op: str, inputs: dict, settings=None, skip: tuple = ()) -> None:  # noqa: ANN001, PLR0913, PLR0917
        self.want, self.op, self.inputs, self.settings, self.skip = want, op, inputs, settings, skip
        self.before = snapshot(inputs)
        self.state = settings() if settings else None

    def judge(self, failed: BaseException | None) -> None:
        """Compare after the call (C10: calls which succeed; C11: calls which fail, and the settings after any call)."""
        how = f"failed with {type(failed).__name__}" if failed else "succeeded"
        if (failed is None) == (self.want == "C10"):
            d = changed(self.before, snapshot(self.inputs))
            if d:
                raise Violation(f"{self.op} {how}: its input {d} was modified", f"input-{self.op}")
        if self.want == "C11" and self.state is not None:
            from props.c11 import state_differs

            d = state_differs(self.state, self.settings(), self.skip)
            if d:
                raise Violation(f"{self.op} {how}: {d} is not what it was before", f"state-{d.split(' (')[0]}-{self.op}")


def read_exactly(fd: int, n: int) -> bytes:
    """Read n bytes."""
    out = b""
    while len(out) < n:
        b = _real_read(fd, n - len(out))
        if not b:
            raise HarnessError("the reference process ended")
        out += b
    return out


def send(fd: int, obj) -> None:  # noqa: ANN001
    """Write a message."""
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[_real_write(fd, data):]


def receive(fd: int):  # noqa: ANN201
    """Read a message."""
    return pickle.loads(read_exactly(fd, struct.unpack("<Q", read_exactly(fd, 8))[0]))


class Reference:
    """A process in which nothing ever ran: each call is made in a fresh copy of it."""

    def __init__(self, work) -> None:  # noqa: ANN001
        """`work(request)` is run in a fresh copy of this process, as it is now."""
        r1, w1 = _real_pipe()
        r2, w2 = _real_pipe()
        if _real_fork() == 0:
            try:
                _real_close(w1)
                _real_close(r2)
                sys.stdout = io.StringIO()
                while True:
                    try:
                        req = receive(r1)
                    except HarnessError:
                        break
                    pid = _real_fork()
                    if pid == 0:
                        try:
                            send(w2, ("ok", work(req)))
                        except BaseException as e:  # noqa: BLE001
                            import traceback

                            send(w2, ("harness", f"{type(e).__name__}: {e} {traceback.format_exc()}"))
                        finally:
                            _real_exit(0)
                    _real_waitpid(pid, 0)
            finally:
                _real_exit(0)
        _real_close(r1)
        _real_close(w2)
        self.to, self.fr = w1, r2
        self.known: dict = {}

    def ask(self, req):  # noqa: ANN001, ANN201
        """Run a request (once)."""
        key = repr(req)
        if key not in self.known:
            send(self.to, req)
            status, out = receive(self.fr)
            if status != "ok":
                raise HarnessError(out)
            self.known[key] = out
        return self.known[key]

    def close(self) -> None:
        """End the process."""
        _real_close(self.to)
        _real_close(self.fr)


def opskit_root() -> str:
    """Where the code under test is."""
    return REPO_PKG


def in_sim(fn, *, trace: bool = False, setup=None):  # noqa: ANN001, ANN201
    """Run fn in a simulated process of its own where nothing goes wrong."""
    sim = Sim(Choices(replay=[]), trace=trace)
    out: list = []
    if setup:
        setup(sim)
    sim.spawn(lambda: out.append(fn()), sim.process(), "alone")
    sim.run()
    return out[0]


def plan_calls(ch, *, n: int, plots: float, world_choices: int = 3, candidates=None):  # noqa: ANN001, ANN201
    """Calls on shared values. Operations are picked from `candidates` (a list), or from all."""
    w = opskit.World(ch.bits(), 0)
    out = []
    names = candidates
    tries = 0
    while len(out) < n and tries < 6 * n:
        tries += 1
        op = ch.pick(names)
        if ("plot" in op or "animate" in op) and plots < 1 and not ch.chance(plots):
            continue
        try:
            out.append(Call(op, opskit.build(w, op, [ch.choose(1000), 5])))
        except opskit.NoArg:
            continue
    return out
