"""Shared harness of the localization properties (C05, C06, C07).

The real localization code talks, over a simulated file system, to a simulated second party: a
program `wannier90.x` which reads the files it is given, asks for arbitrary neighbour pairs, answers
with arbitrary unitaries, and can be missing, fail, die half way or write nonsense; and a human
operator who may finish a failed run by hand, do nothing, or go away.
"""
from __future__ import annotations

import importlib
import os
import re

import numpy as np

from sim.core import Choices, Sim, SimKilled, Violation, current_task
from sim.fs import FaultConfig, SimFS

M = None


def prepare() -> None:
    """Import the code under test once, before forking."""
    global M
    w = importlib.import_module("surface_potential_analysis.wavepacket.localization._wannier90")
    b = importlib.import_module("surface_potential_analysis.basis.basis")
    sb = importlib.import_module("surface_potential_analysis.basis.stacked_basis")

    class M_:  # noqa: N801
        pass

    M = M_
    M.w, M.b, M.TupleBasis = w, b, sb.TupleBasis


# ---- problems -------------------------------------------------------------------------------------


class Problem:
    """One localization problem with everything the oracle needs to know about it."""

    def __init__(self, ch: Choices, uid: int) -> None:
        self.uid = uid
        rng = np.random.Generator(np.random.PCG64(ch.bits()))
        nd = 1 + ch.weighted([3, 3, 2])
        self.nd = nd
        self.kshape = tuple(ch.integer(1, [4, 3, 2][nd - 1]) for _ in range(nd))
        self.gshape = tuple(ch.integer(1, [5, 4, 3][nd - 1]) for _ in range(nd))
        self.nb = ch.integer(1, 3)
        self.nk = int(np.prod(self.kshape))
        self.delta = np.triu(rng.uniform(0.5, 3.0, (nd, nd))) + np.tril(rng.uniform(-0.4, 0.4, (nd, nd)), -1)
        self.delta *= 1e-10
        self.kind = ch.pick(["operator", "operator", "localize", "individual"])
        self.default = self.kind != "localize" and ch.chance(0.3)
        self.position = [ch.chance(0.4) for _ in range(nd)]
        self.num_iter = ch.pick([10000, 1, 37])
        self.conv_window = ch.pick([3, 1, 12])
        self.conv_tol = ch.pick([1e-10, 1e-20, 0.25])
        self.ignore = tuple(a for a in range(nd) if ch.chance(0.2))
        self.projected = ch.chance(0.4)
        self.proj_position = ch.chance(0.5)
        if self.kind == "individual":
            self.num_iter, self.conv_window, self.conv_tol, self.ignore, self.projected = 10000, 3, 1e-20, (2,), False
        elif self.default:
            self.num_iter, self.conv_window, self.conv_tol, self.ignore, self.projected = 10000, 3, 1e-10, (), False
        c = rng.normal(size=(self.nb, self.nk, *self.gshape)) + 1j * rng.normal(size=(self.nb, self.nk, *self.gshape))
        c /= np.sqrt(np.sum(np.abs(c) ** 2, axis=tuple(range(2, 2 + nd)), keepdims=True))
        self.c = c  # plane wave coefficients
        lens = rng.integers
        del lens
        axes = [(M.b.FundamentalPositionBasis if p else M.b.FundamentalTransformedPositionBasis)(d, n)
                for p, d, n in zip(self.position, self.delta, self.gshape, strict=True)]
        data = c
        for a, p in enumerate(self.position):
            if p:
                data = np.fft.ifft(data, axis=2 + a, norm="ortho")
        self.list_basis = M.TupleBasis(*(M.b.FundamentalTransformedBasis(n) for n in self.kshape))
        self.band_basis = M.b.FundamentalBasis(self.nb)
        self.packets = {"basis": M.TupleBasis(M.TupleBasis(self.band_basis, self.list_basis), M.TupleBasis(*axes)),
                        "data": data.reshape(-1).copy()}
        self.projection = {"basis": M.TupleBasis(M.b.FundamentalBasis(self.nb))}
        if self.projected:
            ushape = tuple(a * b for a, b in zip(self.kshape, self.gshape, strict=True))
            p = rng.normal(size=(self.nb, *ushape)) + 1j * rng.normal(size=(self.nb, *ushape))
            self.p = p
            paxes = [(M.b.FundamentalPositionBasis if self.proj_position else M.b.FundamentalTransformedPositionBasis)(d * k, n)
                     for d, k, n in zip(self.delta, self.kshape, ushape, strict=True)]
            pd = np.fft.ifftn(p, axes=tuple(range(1, 1 + nd)), norm="ortho") if self.proj_position else p
            self.projection = {"basis": M.TupleBasis(M.b.FundamentalBasis(self.nb), M.TupleBasis(*paxes)), "data": pd.reshape(-1).copy()}
        self.n_sub = self.nb if self.kind == "individual" else 1  # how many delegations

    def options(self):  # noqa: ANN201
        if self.default:
            return None
        return M.w.Wannier90Options(projection=self.projection, num_iter=self.num_iter, convergence_window=self.conv_window,
                                    convergence_tolerance=self.conv_tol, ignore_axes=self.ignore)

    def bands(self, sub: int) -> list[int]:
        return [sub] if self.kind == "individual" else list(range(self.nb))

    # -- the oracle -----------------------------------------------------------
    def fractions(self) -> np.ndarray:
        g = np.meshgrid(*(np.fft.fftfreq(n) for n in self.kshape), indexing="ij")
        out = np.zeros((self.nk, 3))
        out[:, : self.nd] = np.array([x.ravel() for x in g]).T
        return out

    def overlap(self, sub: int, k0: int, k1: int, g: tuple[int, ...]) -> np.ndarray:
        """<u_m,k0| exp(-i G x) |u_n,k1> on the position grid, [n, m]."""
        b = self.bands(sub)
        ax = tuple(range(1, 1 + self.nd))
        u0 = np.fft.ifftn(self.c[b, k0], axes=ax, norm="ortho")
        u1 = np.fft.ifftn(self.c[b, k1], axes=ax, norm="ortho")
        for a, n in enumerate(self.gshape):
            if a in self.ignore:
                continue
            ph = np.exp(-2j * np.pi * g[a] * np.arange(n) / n)
            u1 = u1 * ph.reshape((1,) + tuple(n if i == a else 1 for i in range(self.nd)))
        return u1.reshape(len(b), -1) @ np.conj(u0.reshape(len(b), -1)).T

    def projections(self) -> np.ndarray:
        """<psi_m,k|g_n> for every k, [k, m, n]."""
        out = np.zeros((self.nk, self.nb, self.nb), dtype=complex)
        for k in range(self.nk):
            ks = np.unravel_index(k, self.kshape)
            idx = []
            for a in range(self.nd):
                kk = int(np.rint(np.fft.fftfreq(self.kshape[a])[ks[a]] * self.kshape[a]))
                gg = np.rint(np.fft.fftfreq(self.gshape[a]) * self.gshape[a]).astype(int)
                idx.append((gg * self.kshape[a] + kk) % (self.kshape[a] * self.gshape[a]))
            sel = self.p[(slice(None), *np.ix_(*idx))]
            out[k] = np.conj(self.c[:, k]).reshape(self.nb, -1) @ sel.reshape(self.nb, -1).T
        return out


# ---- the second party ---------------------------------------------------------------------------


class Bad(Exception):
    """The simulated program does not understand its input."""


def parse_win(text: str) -> dict:
    """Read a .win file the way the external program does."""
    out: dict = {}
    block = None
    for raw in text.splitlines():
        line = re.split(r"[!#]", raw)[0].strip()
        if not line:
            continue
        low = line.lower()
        if low.startswith("begin"):
            block = low.split()[1]
            if block in out:
                raise Bad(f"block {block} given twice")
            out[block] = []
        elif low.startswith("end"):
            if block is None or low.split()[1] != block:
                raise Bad("blocks do not match")
            block = None
        elif block is not None:
            out[block].append(line.split())
        else:
            m = re.match(r"([a-z_0-9]+)\s*[=:]?\s*(.*)$", low)
            if m is None:
                raise Bad(f"cannot read {line!r}")
            if m.group(1) in out:
                raise Bad(f"{m.group(1)} given twice")
            out[m.group(1)] = m.group(2).strip()
    if block is not None:
        raise Bad("unterminated block")
    return out


def logical(v: str | None) -> bool:
    """Fortran logical."""
    return v is not None and v.strip(".").startswith("t")


def cfloat(s: str) -> float:
    return float(s.replace("d", "e").replace("D", "E"))


class Delegation:
    """One call of get_localization_operator_wannier90: two runs of the program."""

    def __init__(self, call: "Call", sub: int) -> None:
        self.call, self.sub = call, sub
        self.dir: str | None = None
        self.runs = 0
        self.pairs: list | None = None
        self.nntot = 0
        self.answer: np.ndarray | None = None  # U[k, i, j] as written
        self.bad_output = False      # what lies there now is not a complete answer
        self.failed_run = [False, False]
        self.prompted = [0, 0]
        self.manual_ok = [False, False]


class Call:
    """One localization requested by a task."""

    def __init__(self, task: str, pid: int, problem: Problem, env: dict) -> None:
        self.task, self.pid, self.problem = task, pid, problem
        self.subs: list[Delegation] = []
        self.status = "running"
        self.error: BaseException | None = None
        self.result = None
        self.env = env
        self.troubles = 0
        self.n_inj = 0
        self.operator_gone = False


class W90World:
    """A machine on which localizations run."""

    def __init__(self, ch: Choices, want: str, *, faulty: bool, concurrent: bool) -> None:
        self.ch, self.want, self.faulty = ch, want, faulty
        self.concurrent = concurrent
        self.sim = Sim(ch, trace=concurrent and ch.chance(0.3), preempt_mean=ch.pick([2, 5, 20]) if concurrent else 0)
        self.fs = SimFS(self.sim)
        self.sim.fs = self.fs
        self.sim.entropy = ch.choose(4)
        self.sim.program = self.program
        self.sim.operator = self.operator
        self.calls: list[Call] = []
        self.current: dict[str, Call] = {}
        self.dirs: dict[str, Delegation] = {}
        self.p_run_fault = ch.pick([0.0, 0.15, 0.5]) if faulty else 0.0
        self.p_io = faulty and ch.chance(0.5)
        self.stats = {"localizations": 0, "program_runs": 0, "prompts": 0, "bad_outputs": 0, "errors": 0, "kills": 0, "pairs_checked": 0}
        # things that lie around from other work: must not be read, changed or removed
        for d in ("/sim/tmp", "/sim/data", "/sim/tmp/tmpold"):
            self.fs.mkdirs(d)
            self.fs.put(f"{d}/spa_u.mat", self.u_text(np.ones((2, 1, 1), dtype=complex)).encode())
            self.fs.put(f"{d}/spa.nnkp", b"begin nnkpts\n 1\n 1 1 0 0 0\nend nnkpts\n")
            self.fs.put(f"{d}/spa.win", b"num_wann = 77\n")
        self.before = self.fs.tree("/sim")
        self.violations: list[Violation] = []

    def bad(self, prop: str, msg: str, sig: str) -> None:
        """Report a violation, if it concerns the property being decided."""
        self.sim.log(f"! {prop} {msg}")
        if prop == self.want:
            raise_later = Violation(msg, sig)
            self.violations.append(raise_later)

    # -- program ------------------------------------------------------------------
    def delegation(self, path: str) -> Delegation:
        t = current_task()
        call = self.current[t.name]
        if path in self.dirs:
            d = self.dirs[path]
            if d.call is not call:
                self.bad("C07", f"two localizations share the directory {path}", "shared-directory")
                # give the caller its own record all the same
            elif d is call.subs[-1]:
                return d
            else:
                self.bad("C07", f"directory {path} of an earlier localization is used again", "reused-directory")
        if call.subs and call.subs[-1].runs == 1:
            d = call.subs[-1]
            if d.dir != path:
                self.bad("C07", f"the two runs of one localization use different directories {d.dir}, {path}", "directory-changed")
                d.dir = path
            self.dirs[path] = d
            return d
        d = Delegation(call, len(call.subs))
        d.dir = path
        call.subs.append(d)
        self.dirs[path] = d
        if path in self.before:
            self.bad("C07", f"the program was run in {path}, which existed before the call", "no-own-directory")
        return d

    def program(self, args, kw):  # noqa: ANN001, ANN201
        t = current_task()
        sim, fs, ch = self.sim, self.fs, self.ch
        args = [os.fspath(a) for a in args] if not isinstance(args, str) else args.split()
        cwd = kw.get("cwd")
        cwd = os.fspath(cwd) if cwd is not None else t.proc.data.get("cwd")
        sim.log(f"run {args} in {cwd}")
        sim.point("program")
        self.stats["program_runs"] += 1
        call = self.current[t.name]
        fault = ch.weighted([8, 2, 2, 2, 2, 2, 1, 1, 1]) if self.p_run_fault and ch.chance(self.p_run_fault) else 0
        if os.path.basename(args[0]) != "wannier90.x":
            raise FileNotFoundError(2, "No such file or directory", args[0])
        names = [a for a in args[1:] if not a.startswith("-")]
        seed = names[-1] if names else "wannier"
        seed = seed[:-4] if seed.endswith(".win") else seed
        path = os.path.normpath(os.path.join(cwd or "/nowhere", os.path.dirname(seed)))
        seed = os.path.basename(seed)
        d = self.delegation(path)
        run = d.runs
        d.runs += 1
        if run > 1:
            self.bad("C05", f"the program was started {run + 1} times for one localization", "run-count")
            run = 1
        self.check_input(d, path, seed, run)
        if fault == 1:
            sim.fault("program_missing")
            call.troubles += 1
            d.failed_run[run] = True
            d.bad_output = True
            raise FileNotFoundError(2, "No such file or directory: 'wannier90.x'")
        if ch.chance(0.5):
            sim.sleep(ch.choose(100) / 10)
        mode = {0: "ok", 2: "exit_only", 3: "partial_exit", 4: "absent_ok", 5: "truncated_ok", 6: "wrong_size_ok", 7: "interrupt", 8: "complete_exit"}[fault]
        if mode != "ok":
            sim.fault("program_" + mode)
            call.troubles += 1
        failing = mode in {"exit_only", "partial_exit", "complete_exit"}
        d.failed_run[run] = failing
        d.bad_output = mode in {"exit_only", "partial_exit", "absent_ok", "truncated_ok", "wrong_size_ok", "interrupt"}
        if d.bad_output:
            self.stats["bad_outputs"] += 1
        if mode == "interrupt":
            if ch.chance(0.5):
                self.output(d, path, seed, run, "truncated")
            e = KeyboardInterrupt()
            e.injected = True
            e.op = "program"
            e.task = t.name
            self.fs.injected.append(e)
            raise e
        try:
            self.output(d, path, seed, run, {"ok": "ok", "complete_exit": "ok", "exit_only": "none", "absent_ok": "none", "partial_exit": "truncated",
                                             "truncated_ok": "truncated", "wrong_size_ok": "wrong"}[mode])
        except Bad as e:
            sim.log(f"program fails: {e}")
            d.failed_run[run] = True
            d.bad_output = True
            return 1, b"", b""
        sim.point("program")
        return (ch.pick([1, 2, -9, -11]) if failing else 0), b"", b""

    def operator(self, prompt: str) -> str:
        t = current_task()
        call = self.current[t.name]
        self.stats["prompts"] += 1
        self.sim.point("input")
        d = call.subs[-1] if call.subs else None
        if d is None:
            return ""
        run = max(0, min(1, d.runs - 1))
        d.prompted[run] += 1
        if d.dir is not None and d.dir not in prompt:
            self.bad("C05", f"the request {prompt!r} does not name the directory {d.dir}", "prompt-directory")
        if not d.failed_run[run]:
            self.bad("C05", "the operator was asked to run a program which had succeeded", "prompt-without-failure")
        k = self.ch.weighted([4, 1, 1, 1, 1])
        self.sim.log(f"operator {k}")
        if k == 0 or not self.faulty:
            try:
                self.output(d, d.dir, "spa", run, "ok")
                d.bad_output = False
                d.manual_ok[run] = True
            except Bad:
                pass
            return ""
        if k == 1:
            self.sim.fault("operator_does_nothing")
            return ""
        if k == 4:
            self.sim.fault("operator_bad_result")
            d.bad_output = True
            self.output(d, d.dir, "spa", run, "truncated")
            return ""
        call.operator_gone = True
        self.sim.fault("operator_gone")
        e = EOFError("EOF when reading a line") if k == 2 else KeyboardInterrupt()
        e.injected = True
        e.op = "input"
        e.task = t.name
        self.fs.injected.append(e)
        raise e

    # -- what the program finds ------------------------------------------------------
    def check_input(self, d: Delegation, path: str, seed: str, run: int) -> None:
        p = d.call.problem
        tag = f"run {run + 1} of {p.kind}"

        def wrong(msg: str, sig: str) -> None:
            self.bad("C06", f"{tag}: {msg}", sig)

        mine = [e for e in self.fs.injected[d.call.n_inj:] if getattr(e, "task", None) == d.call.task
                and getattr(e, "op", "") in {"write_error", "close_error", "open_error", "mkdir_error"} and not getattr(e, "forgiven", False)]
        if mine:
            wrong(f"the program was started although writing its files had failed with {mine[0]!r}", "run-after-failed-write")
        win = self.fs.get(f"{path}/{seed}.win")
        if win is None:
            wrong(f"there is no {seed}.win", "no-win")
            return
        try:
            w = parse_win(win.decode())
            bands = p.bands(d.sub)
            want = {"num_wann": len(bands), "num_iter": p.num_iter, "conv_window": p.conv_window}
            for k, v in want.items():
                if k not in w or int(w[k]) != v:
                    wrong(f"{k} is {w.get(k)}, not {v}", f"win-{k}")
            if "conv_tol" not in w or not np.isclose(cfloat(w["conv_tol"]), p.conv_tol, rtol=1e-12, atol=0):
                wrong(f"conv_tol is {w.get('conv_tol')}, not {p.conv_tol}", "win-conv_tol")
            if "num_bands" in w and int(w["num_bands"]) != len(bands):
                wrong(f"num_bands is {w['num_bands']}", "win-num_bands")
            if logical(w.get("postproc_setup")) != (run == 0):
                wrong(f"postproc_setup is {w.get('postproc_setup')}", "win-postproc")
            if not logical(w.get("write_u_matrices")):
                wrong("write_u_matrices is not set", "win-write_u")
            if logical(w.get("use_bloch_phases")) == p.projected or logical(w.get("auto_projections")) != p.projected:
                wrong(f"projections given: {p.projected}, but use_bloch_phases {w.get('use_bloch_phases')}, auto_projections {w.get('auto_projections')}", "win-projections")
            cell = np.array([[cfloat(x) for x in r] for r in w.get("unit_cell_cart", []) if len(r) == 3])
            expect = np.eye(3)
            expect[: p.nd, : p.nd] = p.delta * 1e10
            if cell.shape != (3, 3) or not np.allclose(cell, expect, rtol=1e-9, atol=1e-9):
                wrong(f"the unit cell is {cell.tolist()}, not {expect.tolist()}", "win-cell")
            grid = [int(x) for x in w.get("mp_grid", "").split()]
            if grid != [*p.kshape, *([1] * (3 - p.nd))]:
                wrong(f"mp_grid is {grid} for a mesh {p.kshape}", "win-grid")
            kp = np.array([[cfloat(x) for x in r] for r in w.get("kpoints", [])])
            if kp.shape != (p.nk, 3) or not np.allclose(kp, p.fractions(), atol=1e-9):
                wrong(f"k points are {kp.tolist()}, not {p.fractions().tolist()}", "win-kpoints")
        except (Bad, ValueError, IndexError) as e:
            wrong(f"{seed}.win cannot be read: {type(e).__name__}: {e}", "win-unreadable")
            return
        if run == 0:
            return
        if d.pairs is None:
            return  # the first run never answered: whatever is there cannot be what was asked for
        overlaps = {pair: p.overlap(d.sub, pair[0] - 1, pair[1] - 1, pair[2:]) for pair in d.pairs}
        proj = p.projections() if p.projected else None
        try:
            self.check_mmn(d, path, seed, wrong, overlaps)
            self.check_amn(d, path, seed, wrong, proj)
        except (ValueError, IndexError) as e:
            wrong(f"input cannot be read: {type(e).__name__}: {e}", "input-unreadable")

    def check_mmn(self, d: Delegation, path: str, seed: str, wrong, oracle: dict) -> None:  # noqa: ANN001
        p = d.call.problem
        nb = len(p.bands(d.sub))
        raw = self.fs.get(f"{path}/{seed}.mmn")
        if raw is None:
            wrong("there is no overlap file", "no-mmn")
            return
        lines = raw.decode().split("\n")
        head = [int(x) for x in lines[1].split()]
        if head != [nb, p.nk, d.nntot]:
            wrong(f"the overlap file is headed {head}, not {[nb, p.nk, d.nntot]}", "mmn-header")
            return
        body = [x.split() for x in lines[2:] if x.strip()]
        if len(body) != len(d.pairs) * (1 + nb * nb):
            wrong(f"the overlap file has {len(body)} lines, not {len(d.pairs) * (1 + nb * nb)}", "mmn-length")
            return
        i = 0
        for pair in d.pairs:
            got = tuple(int(x) for x in body[i])
            if got != pair:
                wrong(f"overlap block {got} where {pair} was asked for", "mmn-order")
                return
            want = oracle[pair]
            vals = np.array([complex(cfloat(a), cfloat(b)) for a, b in body[i + 1: i + 1 + nb * nb]]).reshape(nb, nb)
            if not np.allclose(vals, want, atol=1e-8):
                wrong(f"overlaps for {pair} are {vals.tolist()}, not {want.tolist()}", "mmn-values")
                return
            self.stats["pairs_checked"] += 1
            i += 1 + nb * nb

    def check_amn(self, d: Delegation, path: str, seed: str, wrong, oracle: np.ndarray | None) -> None:  # noqa: ANN001
        p = d.call.problem
        raw = self.fs.get(f"{path}/{seed}.amn")
        if not p.projected:
            if raw is not None:
                wrong("there is a projection file, but no projections were given", "amn-unwanted")
            return
        if raw is None:
            wrong("there is no projection file", "no-amn")
            return
        lines = raw.decode().split("\n")
        head = [int(x) for x in lines[1].split()]
        if head != [p.nb, p.nk, p.nb]:
            wrong(f"the projection file is headed {head}", "amn-header")
            return
        got = np.full((p.nk, p.nb, p.nb), np.nan + 0j)
        body = [x.split() for x in lines[2:] if x.strip()]
        for m, n, k, re_, im in body:
            got[int(k) - 1, int(m) - 1, int(n) - 1] = complex(cfloat(re_), cfloat(im))
        if len(body) != got.size or not np.allclose(got, oracle, atol=1e-8):
            wrong(f"projections are {got.tolist()}, not {oracle.tolist()}", "amn-values")

    # -- what the program writes --------------------------------------------------------
    @staticmethod
    def u_text(u: np.ndarray, header: tuple[int, int, int] | None = None) -> str:
        nk, nb, _ = u.shape
        h = header or (nk, nb, nb)
        out = [" written on  1Jan2024 at 00:00:00 ", f"{h[0]:12d}{h[1]:12d}{h[2]:12d}"]
        for k in range(nk):
            out.append("")
            out.append(f"{k / nk:15.10f}{0:+15.10f}{0:+15.10f}")
            out.extend(f"{u[k, i, j].real:15.10f}{u[k, i, j].imag:+15.10f}" for j in range(nb) for i in range(nb))
        return "\n".join(out) + "\n"

    def output(self, d: Delegation, path: str, seed: str, run: int, how: str) -> None:
        """Write what the program writes (another process: its own I/O is not faulted here)."""
        ch, fs, p = self.ch, self.fs, d.call.problem
        try:
            fs.lookup(path)
        except OSError:
            return  # the directory is gone
        if fs.get(f"{path}/{seed}.win") is None:
            raise Bad("no input file")
        try:
            w = parse_win(fs.get(f"{path}/{seed}.win").decode())
        except (Bad, UnicodeDecodeError):
            raise Bad("unreadable input file") from None
        setup = logical(w.get("postproc_setup"))
        if how == "none":
            return
        if setup:
            nn = ch.integer(1, 4)
            pairs = []
            for k in range(p.nk):
                for _ in range(nn):
                    g = tuple(ch.pick([0, 0, 1, -1, 2]) for _ in range(3))
                    pairs.append((k + 1, 1 + ch.choose(p.nk), *g))
            text = ["File written on  1Jan2024 at 00:00:00", "", "calc_only_A  :  F", "", "begin real_lattice", "   1.0 0.0 0.0", "end real_lattice", "",
                    f"begin kpoints\n  {p.nk}", "end kpoints", "", "begin projections", "   0", "end projections", "", "begin nnkpts", f"   {nn}"]
            text += [f"  {a:4d}  {b:4d}    {c:3d} {e:3d} {g:3d}" for a, b, c, e, g in pairs]
            text += ["end nnkpts", "", "begin exclude_bands", "   0", "end exclude_bands", ""]
            s = "\n".join(text)
            if how == "ok":
                d.pairs, d.nntot = pairs, nn
                fs.put(f"{path}/{seed}.nnkp", s.encode())
                d.bad_output = False if run == 0 else d.bad_output
            elif how == "wrong":
                fs.put(f"{path}/{seed}.nnkp", s.replace("nnkpts", "kkpts").encode())
            else:
                cut = ch.choose(s.index("end nnkpts"))
                fs.put(f"{path}/{seed}.nnkp", s[:cut].encode())
            return
        if fs.get(f"{path}/{seed}.mmn") is None:
            raise Bad("no overlaps")
        nb = len(p.bands(d.sub))
        rng = np.random.Generator(np.random.PCG64(ch.bits()))
        z = rng.normal(size=(p.nk, nb, nb)) + 1j * rng.normal(size=(p.nk, nb, nb))
        u = np.linalg.qr(z)[0]
        u = np.round(u.real, 10) + 1j * np.round(u.imag, 10)
        if how == "ok":
            text = self.u_text(u)
            d.answer = u
            d.bad_output = False
        elif how == "wrong":
            k = ch.choose(4)
            if k == 0 and p.nk > 1:
                text = self.u_text(u[:-1])
            elif k == 1:
                text = self.u_text(np.concatenate([u, u[:1]]))
            elif k == 2:
                z = np.eye(nb + 1)[None].repeat(p.nk, 0).astype(complex)
                text = self.u_text(z)
            elif p.nk % (nb + 1) ** 2 == 0 and nb == 1:
                text = self.u_text(np.eye(nb + 1)[None].repeat(p.nk // (nb + 1) ** 2, 0).astype(complex))
            else:
                lines = self.u_text(u).split("\n")
                spots = [i for i in range(4, len(lines) - 1) if (i - 2) % (2 + nb * nb) >= 2]
                lines[ch.pick(spots)] = "***************+0.0000000000"
                text = "\n".join(lines)
        else:
            s = self.u_text(u)
            last = len(s.rstrip("\n")) - 15  # inside the very last number a cut cannot be noticed
            cut = ch.choose(last) if ch.chance(0.5) else max(0, s.rfind("\n", 0, max(1, ch.choose(last))))
            text = s[:cut]
        if ch.chance(0.5):  # in two writes, seen half way by anybody who looks
            fs.put(f"{path}/{seed}_u.mat", text[: len(text) // 2].encode())
            self.sim.point("program")
        fs.put(f"{path}/{seed}_u.mat", text.encode())
        if ch.chance(0.5):
            fs.put(f"{path}/{seed}.wout", b"All done: wannier90 exiting\n")

    # -- one call -----------------------------------------------------------------------------
    def localize(self, p: Problem) -> None:
        t = current_task()
        call = Call(t.name, t.proc.pid, p, dict(os.environ))
        call.n_inj = len(self.fs.injected)
        self.calls.append(call)
        self.current[t.name] = call
        self.stats["localizations"] += 1
        self.sim.log(f"localize {p.kind} nd={p.nd} nk={p.nk} nb={p.nb}")
        before = p.packets["data"].copy()
        options = p.options()
        watch = self.watch(p, options)
        try:
            if p.kind == "operator":
                call.result = M.w.get_localization_operator_wannier90(p.packets, options=options)
            elif p.kind == "localize":
                call.result = M.w.localize_wavepacket_wannier90(p.packets, options=options)
            else:
                call.result = M.w.get_localization_operator_wannier90_individual_bands(p.packets)
            call.status = "ok"
        except SimKilled:
            call.status = "killed"
            raise
        except BaseException as e:  # noqa: BLE001
            if t.proc.dead:
                call.status = "killed"
                raise SimKilled from None
            call.status = "error"
            call.error = e
            self.stats["errors"] += 1
            self.sim.log(f"-> {type(e).__name__}: {str(e)[:80]}")
        if t.proc.dead:
            call.status = "killed"
            raise SimKilled
        self.judge(call)
        if watch is not None:
            try:
                watch.judge(call.error)
            except Violation as v:
                self.bad(self.want, str(v), v.sig)
        if not np.array_equal(before, p.packets["data"]):
            self.bad("C05", "the caller's wavepackets were changed", "input-mutated")

    def watch(self, p: Problem, options):  # noqa: ANN001, ANN201
        """C10, C11: inputs and settings of this call."""
        if self.want not in {"C10", "C11"}:
            return None
        from props import opscheck

        settings = None
        if self.want == "C11" and not self.concurrent:
            from props.c11 import process_state as settings
        return opscheck.Watch(self.want, f"localization ({p.kind})", {"packets": p.packets, "options": options}, settings)

    def mine(self, call: Call) -> list:
        return [e for e in self.fs.injected[call.n_inj:] if getattr(e, "task", None) == call.task]

    def judge(self, call: Call) -> None:
        p = call.problem
        inj = self.mine(call)
        io = [e for e in inj if getattr(e, "op", "") not in {"program", "input"}]
        t = current_task()
        # C07: nothing left behind
        self.clean_up(call, io)
        if call.status == "error":
            chain, x = [], call.error
            while x is not None and x not in chain:
                chain.append(x)
                x = x.__cause__ or x.__context__
            failed = [d for d in call.subs if d.bad_output or any(d.failed_run[r] and not d.manual_ok[r] for r in (0, 1))]
            if not inj and not failed:
                self.bad("C05", f"{p.kind} raised {type(call.error).__name__}: {call.error}, although every run of the program was successful", f"spurious-{type(call.error).__name__}")
                if len(call.subs) < p.n_sub or any(d.runs < 2 for d in call.subs):  # noqa: PLR2004
                    self.bad("C06", f"{p.kind} raised {type(call.error).__name__}: {call.error}, and the program was never handed the complete problem", "never-handed")
                if isinstance(call.error, OSError):
                    self.bad("C07", f"{p.kind} raised {type(call.error).__name__}: {call.error}, although nothing struck it and every run of the program was successful", "interference")
            return
        io = [e for e in io if isinstance(e, KeyboardInterrupt) or getattr(e, "op", "") in {"write_error", "close_error", "open_error", "mkdir_error", "read_error"}]
        if io:
            self.bad("C06", f"{p.kind} returned although {io[0]!r} ({getattr(io[0], 'op', '')}) struck its files", "error-swallowed")
        if any(getattr(e, "op", "") == "input" for e in inj):
            self.bad("C05", "the operator went away, but a result was returned", "result-without-operator")
        if len(call.subs) != p.n_sub:
            self.bad("C05", f"{len(call.subs)} localizations were delegated, not {p.n_sub}", "delegation-count")
            return
        for d in call.subs:
            for r in (0, 1):
                if d.failed_run[r] and not d.prompted[r]:
                    self.bad("C05", f"run {r + 1} of the program failed, and a result was returned without asking anybody to complete it", "failure-ignored")
            if d.runs != 2:
                self.bad("C05", f"a result was returned after {d.runs} runs of the program", "run-count")
            if d.bad_output or d.answer is None:
                self.bad("C05", "an operator was returned, but the program never left a complete answer", "bad-answer-accepted")
                return
            if d.pairs is None:
                return
        self.compare(call)
        del t

    def compare(self, call: Call) -> None:
        p = call.problem
        # U[k, band i, wannier j] as written -> operator [k, j, i]
        if p.kind == "individual":
            want = np.zeros((p.nk, p.nb, p.nb), dtype=complex)
            for d in call.subs:
                want[:, d.sub, d.sub] = d.answer[:, 0, 0]
        else:
            want = np.swapaxes(call.subs[0].answer, 1, 2)
        r = call.result
        try:
            if p.kind == "localize":
                exp = np.einsum("kjb,bkg->jkg", want, p.packets["data"].reshape(p.nb, p.nk, -1))
                ok_basis = r["basis"][0][0].n == p.nb and r["basis"][0][1] == p.list_basis and r["basis"][1] == p.packets["basis"][1]
                got = np.asarray(r["data"]).reshape(p.nb, p.nk, -1)
            else:
                exp = want
                ok_basis = r["basis"][0] == p.list_basis and r["basis"][1].shape == (p.nb, p.nb)
                got = np.asarray(r["data"]).reshape(p.nk, p.nb, p.nb)
        except (ValueError, KeyError, AttributeError) as e:
            self.bad("C05", f"{p.kind}: the result does not have the shape of the problem ({e})", "result-shape")
            return
        if not ok_basis:
            self.bad("C05", f"{p.kind}: the result is on basis {r['basis']}", "result-basis")
        elif not np.allclose(got, exp, atol=1e-9):
            self.bad("C05", f"{p.kind} nk={p.nk} nb={p.nb}: returned {got.tolist()}, the program answered {exp.tolist()}", "result-values")

    def clean_up(self, call: Call, io: list) -> None:
        t = current_task()
        blocked = any(getattr(e, "op", "") in {"unlink_error", "stat_error", "unlink", "rmdir", "scandir", "stat"}
                      for e in io if isinstance(e, OSError) or getattr(e, "op", "") in {"unlink", "rmdir", "scandir", "stat", "open_r", "close"})
        # an interrupt in the middle of creating or removing the directory itself cannot be undone
        blocked = blocked or any(isinstance(e, KeyboardInterrupt) and getattr(e, "op", "") not in {"write", "open_w", "read", "program", "input"} for e in io)
        call.blocked = blocked
        if not blocked:
            for d in call.subs:
                if d.dir is not None and d.dir not in self.before and self.dirs.get(d.dir) is d:
                    left = [x for x in self.fs.tree("/sim") if x == d.dir or x.startswith(d.dir + "/")]
                    if left:
                        how = "error " + type(call.error).__name__ if call.error else "success"
                        self.bad("C07", f"{left} were left behind ({how})", "left-behind")
        held = [h.name for h in self.fs.handles if h.proc is t.proc and any(d.dir and h.name.startswith(d.dir + "/") for d in call.subs)]
        if held:
            self.bad("C07", f"{held} are still open after the call", "handle-leak")
        if dict(os.environ) != call.env:
            self.bad("C07", "the environment was changed", "environment")
        if "cwd" in t.proc.data:
            self.bad("C07", f"the working directory was changed to {t.proc.data['cwd']}", "chdir")

    def finish(self) -> None:
        """Checks after all tasks have ended."""
        fs = self.fs
        after = fs.tree("/sim")
        changed = [k for k, v in self.before.items() if k not in after or after[k] != v]
        if changed:
            self.bad("C07", f"files outside the scratch directory were changed or removed: {changed}", "outside-changed")
        if fs.escapes:
            self.bad("C07", f"files outside the scratch directory were to be changed: {fs.escapes}", "outside-changed")
        if not any(c.status == "killed" or getattr(c, "blocked", False) for c in self.calls):
            new = [k for k in after if k not in self.before]
            if new:
                self.bad("C07", f"files were left behind: {new}", "left-behind")
        allowed = {d.dir for c in self.calls for d in c.subs if d.dir}
        known = allowed | set(self.before)
        out = [p for m, p in fs.touched if m == "w" and p not in known and not any(p.startswith(a + "/") for a in allowed)]
        out = [p for p in out if p in after]
        # directories of calls which failed before they started the program are fine once they are gone
        if out and not any(c.status == "killed" or getattr(c, "blocked", False) for c in self.calls):
            self.bad("C07", f"files outside the scratch directories: {out}", "outside-created")
        read = [p for m, p in fs.touched if m == "r" and p in self.before]
        if read:
            self.bad("C07", f"files of others were read: {read}", "foreign-read")


def run(ch: Choices, want: str, index: int) -> dict:
    """One run for property `want`."""
    from props.cachekit import attach

    faulty = index % 4 != 0
    concurrent = (index % 3 == 0) if want != "C07" else (index % 4 != 1)
    w = W90World(ch, want, faulty=faulty, concurrent=concurrent)
    sim, fs = w.sim, w.fs
    n_tasks = 2 + ch.choose(2) if concurrent else 1
    procs = [sim.process()]
    plans = []
    uid = 0
    for i in range(n_tasks):
        if i and ch.chance(0.4):
            procs.append(sim.process())
        plan = []
        for _ in range(1 + ch.choose(2)):
            uid += 1
            plan.append(Problem(ch, uid))
        plans.append((plan, procs[-1]))
    if w.p_io:
        kinds = ["open", "read", "write", "close", "unlink", "stat", "mkdir", "interrupt"]
        pr = {k: (0.08 if ch.chance(0.4) else 0.0) for k in kinds}
        fs.faults = FaultConfig(short_read=0.1, short_write=0.1, max_faults=1 + ch.choose(3), **pr)
    else:
        fs.faults = FaultConfig(short_read=0.1, short_write=0.2, max_faults=1000)

    def body(plan: list) -> None:
        for p in plan:
            w.localize(p)
            if w.violations:
                return

    for i, (plan, proc) in enumerate(plans):
        sim.spawn(lambda plan=plan: body(plan), proc, f"t{i}")
    if faulty and concurrent and ch.chance(0.3):
        victim = procs[ch.choose(len(procs))]

        def reaper() -> None:
            for _ in range(ch.choose(60)):
                sim.point("reaper")
            sim.fault("kill")
            w.stats["kills"] += 1
            sim.kill(victim)

        sim.spawn(reaper, sim.process(), "reaper")
    try:
        sim.run()
        w.finish()
        if w.violations:
            raise w.violations[0]
    except Violation as e:
        raise attach(e, sim) from None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": bool(sim.faults) or sim.switches > 0, "stats": w.stats, "sample": {"events": sim.events[:60]}}


REAL = ["surface_potential_analysis.wavepacket.localization._wannier90, _projection, localization_operator, basis and state conversions", "tempfile, pathlib, numpy"]
STUBS = ["wannier90.x and the operator at the prompt (props/w90kit.py)", "file system (sim/fs.py)", "threads scheduled by the simulator", "temporary names, pids, clocks"]
ASSUMPTIONS = ["the result file has the layout of wannier90 3.x; a cut inside its very last number cannot be noticed by any reader and is not injected",
               "the simulated processes share one copy of the code under test (pids, tasks and files are separate)"]
