"""C04: potential data files load completely or fail loudly."""
from __future__ import annotations

import io
import json
import pathlib

import numpy as np

from props.cachekit import attach
from sim.core import Sim, SimKilled, Violation, current_task
from sim.fs import FaultConfig, SimFS

RUNS = {"quick": 5000, "thorough": 150000}
BUDGET = {"quick": 100, "thorough": 800}
LEVEL = "exploration"
RULE = ("one run = 1-2 readers loading one file 1-3 times with one of the five loaders, while another process atomically replaces it with other "
        "complete or truncated versions, under read/open/close errors, short reads and interrupts; non-trivial = a fault fired, a truncated version "
        "was present, or the file was replaced")
REAL = ["surface_potential_analysis.potential.potential, .point_potential (loaders) and the basis classes they build", "json, pickle, numpy.load"]
STUBS = ["file system (sim/fs.py)", "threads scheduled by the simulator"]
ASSUMPTIONS = ["writers replace files atomically (a file overwritten in place while it is read is outside the property)",
               "a truncated file is a prefix of a complete one; bit rot is outside the property"]

P = PP = None


def prepare() -> None:
    """Import the code under test."""
    global P, PP
    from surface_potential_analysis.potential import point_potential, potential

    P, PP = potential, point_potential


LOADERS = ["load_potential", "load_uneven_potential", "load_potential_grid_json", "load_uneven_potential_json", "load_point_potential_json"]


def make(loader: str, ch) -> tuple[bytes, dict]:  # noqa: ANN001
    """A complete file and what it describes."""
    from surface_potential_analysis.basis.basis import FundamentalPositionBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    rng = np.random.Generator(np.random.PCG64(ch.bits()))
    big = ch.chance(0.3)
    shape = tuple(1 + ch.choose(12 if big else 4) for _ in range(3))
    dx = [rng.normal(size=3) for _ in range(3)]
    for i in range(3):
        dx[i][i] += 3
    ints = ch.chance(0.2)
    pts = rng.integers(-50, 50, size=shape) if ints else rng.normal(size=shape) * 1e-19
    if loader in {"load_potential", "load_uneven_potential"}:
        if loader == "load_potential":
            basis = TupleBasis(*(FundamentalPositionBasis(dx[i], shape[i]) for i in range(3)))
        else:
            basis = TupleBasis(FundamentalPositionBasis(dx[0][:2], shape[0]), FundamentalPositionBasis(dx[1][:2], shape[1]),
                               P.UnevenPotential3dZBasis(np.sort(rng.normal(size=shape[2]))))
        data = pts.astype(np.complex128).ravel() if ch.chance(0.5) else pts.ravel()
        b = io.BytesIO()
        np.save(b, np.asanyarray({"basis": basis, "data": data}), allow_pickle=True)
        return b.getvalue(), {"basis": basis, "data": data, "n": shape}
    indent = ch.pick([None, 1])
    if loader == "load_potential_grid_json":
        d = {"delta_x0": dx[0].tolist(), "delta_x1": dx[1].tolist(), "delta_x2": dx[2].tolist(), "points": pts.tolist()}
        want = {"delta": dx, "data": pts, "n": shape}
    elif loader == "load_uneven_potential_json":
        z = np.sort(rng.normal(size=shape[2]))
        d = {"delta_x0": dx[0][:2].tolist(), "delta_x1": dx[1][:2].tolist(), "z_points": z.tolist(), "points": pts.tolist()}
        want = {"delta": [dx[0][:2], dx[1][:2]], "z": z, "data": pts, "n": shape}
    else:
        n = shape[0] * shape[1] * shape[2]
        cols = {k: rng.normal(size=n) for k in ("x_points", "y_points", "z_points", "points")}
        d = {k: v.tolist() for k, v in cols.items()}
        want = cols
    keys = list(d)
    if ch.chance(0.3):
        keys.reverse()
    return json.dumps({k: d[k] for k in keys}, indent=indent).encode() + (b"\n" if ch.chance(0.5) else b""), want


def close(a, b) -> bool:  # noqa: ANN001
    """Exactly the numbers of the file (shape aside)."""
    b = np.asarray(b)
    return isinstance(a, np.ndarray) and a.dtype.kind == b.dtype.kind and a.size == b.size and bool(np.array_equal(a.ravel(), b.ravel()))


def matches(loader: str, got, want: dict) -> bool:  # noqa: ANN001
    """Is this the potential that the file describes?"""
    try:
        if loader in {"load_potential", "load_uneven_potential"}:
            ok = close(got["data"], want["data"]) and np.asarray(got["data"]).dtype == want["data"].dtype
            ok = ok and tuple(got["basis"].shape) == want["n"]
            for i in range(3):
                w = want["basis"][i]
                g = got["basis"][i]
                ok = ok and (close(g.z_points, w.z_points) if hasattr(w, "z_points") else close(g.delta_x, w.delta_x))
            return bool(ok)
        if loader == "load_point_potential_json":
            return set(got) == set(want) and all(close(got[k], want[k]) for k in want)
        b = got["basis"]
        ok = close(got["data"], want["data"]) and tuple(b.shape) == want["n"]
        for i, d in enumerate(want["delta"]):
            ok = ok and close(b[i].delta_x, d)
        if "z" in want:
            ok = ok and close(b[2].z_points, want["z"])
        return bool(ok)
    except Exception:  # noqa: BLE001
        return False


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001
    """One run."""
    sim = Sim(ch, trace=ch.chance(0.5), preempt_mean=ch.pick([0, 1.5, 4, 12]))
    fs = sim.fs = SimFS(sim)
    faulty = index % 3 != 0
    loader = LOADERS[ch.choose(5)]
    fn = getattr(PP if loader == "load_point_potential_json" else P, loader)
    path = "/sim/data/" + ch.pick(["pot.npy", "pot.json", "p", "my data.txt"])
    complete = [make(loader, ch) for _ in range(1 + ch.choose(3))]
    versions: list[tuple[bytes, dict | None]] = list(complete)
    torn = faulty and ch.chance(0.5)
    if torn:
        for _ in range(1 + ch.choose(2)):
            data, want = complete[ch.choose(len(complete))]
            cut = ch.choose(len(data)) if ch.chance(0.7) else max(0, len(data) - 1 - ch.choose(40))
            prefix = data[:cut]
            # dropping only white space after the document loses nothing
            versions.append((prefix, want if prefix.rstrip() == data.rstrip() and loader.endswith("json") else None))
    first = ch.choose(len(versions))
    fs.put(path, versions[first][0])
    present = {"now": first, "log": [(0, first)]}
    stats = {"loads": 0, "errors": 0, "replacements": 0, "torn_loads": 0}
    fs.faults = FaultConfig(open=0.1 if faulty and ch.chance(0.4) else 0, read=0.2 if faulty and ch.chance(0.5) else 0,
                            short_read=0.3 if ch.chance(0.6) else 0, close=0.2 if faulty and ch.chance(0.2) else 0,
                            interrupt=0.05 if faulty and ch.chance(0.3) else 0, stat=0.1 if faulty and ch.chance(0.3) else 0, max_faults=1000)
    clock = {"t": 0}

    def tick() -> int:
        clock["t"] += 1
        return clock["t"]

    readers = []

    def reader() -> None:
        for _ in range(1 + ch.choose(3)):
            start = tick()
            n0 = len(fs.injected)
            stats["loads"] += 1
            me = current_task()
            before_leak = len(fs.leaked)
            try:
                got = fn(pathlib.Path(path))
                err = None
            except SimKilled:
                raise
            except BaseException as e:  # noqa: BLE001
                got, err = None, e
            end = tick()
            sim.log(f"{loader} -> {type(err).__name__ if err else 'ok'}")
            held = [h.name for h in fs.handles if h.proc is me.proc]
            if held or len(fs.leaked) > before_leak:
                raise Violation(f"{loader} left {held or fs.leaked} open ({'error: ' + type(err).__name__ if err else 'success'})", "leak")
            possible = {v for i, (t, v) in enumerate(present["log"])
                        if t <= end and (i + 1 == len(present["log"]) or present["log"][i + 1][0] >= start)}
            mine = [x for x in fs.injected[n0:] if getattr(x, "task", None) is me] if False else fs.injected[n0:]
            if err is None:
                if len(readers) == 1 and mine:
                    raise Violation(f"{loader} returned although {mine[0]!r} struck while reading", "error-swallowed")
                if not any(versions[v][1] is not None and matches(loader, got, versions[v][1]) for v in possible):
                    bad = [v for v in possible if versions[v][1] is None]
                    raise Violation(f"{loader} returned data that is not what the file held at any moment of the call"
                                    + (" (the file was truncated)" if bad else "") + f": {str(got)[:200]}", "wrong-data")
            else:
                stats["errors"] += 1
                injected = any(err is x for x in mine) or any(x in mine for x in (err.__cause__, err.__context__))
                if any(versions[v][1] is None for v in possible):
                    stats["torn_loads"] += 1
                elif not injected:
                    raise Violation(f"{loader} raised {type(err).__name__}: {err} for a complete, readable file", "spurious-error")
                if not isinstance(err, (Exception, KeyboardInterrupt)):
                    raise Violation(f"{loader} raised {type(err).__name__}", "odd-error")
            del got, err

    def writer() -> None:
        for i in range(1 + ch.choose(3)):
            v = ch.choose(len(versions))
            for _ in range(ch.choose(4)):
                sim.point("writer")
            # the other program's write + rename, seen by readers as one atomic step
            fs.faults, keep = FaultConfig(), fs.faults
            node_data = versions[v][0]
            fs.put(path, node_data)
            fs.faults = keep
            present["log"].append((tick(), v))
            stats["replacements"] += 1
            sim.log(f"replaced by version {v}")

    reader_procs = [sim.process()]
    n_readers = 1 + (ch.choose(2) if faulty else 0)
    for i in range(n_readers):
        proc = reader_procs[0] if i == 0 else sim.process()
        readers.append(sim.spawn(reader, proc, f"reader{i}"))
    if ch.chance(0.6):
        sim.spawn(writer, sim.process(), "writer")
    try:
        sim.run()
        if any(m == "w" for m, _ in fs.touched) or fs.escapes:
            raise Violation(f"loading wrote to files: {[p for m, p in fs.touched if m == 'w'] + fs.escapes}", "file-modified")
        if fs.get(path) != versions[present["log"][-1][1]][0] or {p for p, d in fs.tree().items() if d is not None} != {path}:
            raise Violation("loading changed the files", "file-modified")
    except Violation as e:
        raise attach(e, sim) from None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": bool(sim.faults) or torn or stats["replacements"] > 0, "stats": stats,
            "sample": {"loader": loader, "bytes": [len(v[0]) for v in versions], "events": sim.events[:50]}}
