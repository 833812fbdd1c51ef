"""C13: wavepackets hold each sample's own bands, whatever the Hamiltonian source."""
from __future__ import annotations

import sys

import numpy as np

from props.cachekit import attach
from props.ssekit import hbar, rng_for
from sim.core import Sim, SimKilled, SimLock, Violation, current_task

RUNS = {"quick": 2500, "thorough": 120000}
BUDGET = {"quick": 120, "thorough": 840}
LEVEL = "exploration"
RULE = ("one run = 1-3 clients (threads preempted between any two lines of the code under test) which each generate 1-3 wavepackets from a simulated Hamiltonian source; "
        "the source reuses and scribbles over its buffers, is slow, is shared between clients, answers differently each time, fails or returns garbage at a chosen "
        "sample; the diagonalisation fails, allocations fail and the user interrupts at chosen points; every call to the source and every stored sample is compared with "
        "what was asked and returned; non-trivial = a fault fired, a buffer was reused, or clients overlapped")
REAL = ["surface_potential_analysis.wavepacket.wavepacket (generate_wavepacket, generate_uneven_wavepacket, selectors)", "state_vector.eigenstate_calculation", "bases",
        "hamiltonian_builder.momentum_basis (in some runs)", "scipy.linalg.eigh"]
STUBS = ["the Hamiltonian source (most runs)", "clocks", "threads scheduled by the simulator"]
ASSUMPTIONS = ["a mesh is given as a stacked basis of fundamental transformed axes or as explicit fractions", "the source does not change the fractions it is handed",
               "the source may be asked for a sample more than once"]

M = None


def prepare() -> None:
    """Import the code under test."""
    global M
    import types

    import scipy.linalg

    from surface_potential_analysis.basis import basis, block_fraction_basis, evenly_spaced_basis, stacked_basis
    from surface_potential_analysis.hamiltonian_builder import momentum_basis
    from surface_potential_analysis.wavepacket import wavepacket

    M = types.SimpleNamespace(w=wavepacket, b=basis, TB=stacked_basis.TupleBasis, ES=evenly_spaced_basis.EvenlySpacedBasis,
                              EB=block_fraction_basis.ExplicitBlockFractionBasis, mb=momentum_basis, real_eigh=scipy.linalg.eigh)

    def eigh(*a, **kw):  # noqa: ANN002, ANN003, ANN202
        t = current_task()
        if t is not None and getattr(t, "eigh_left", -1) >= 0:
            t.eigh_left -= 1
            if t.eigh_left == -1:
                t.sim.fault("diagonalisation does not converge")
                t.fail = np.linalg.LinAlgError("did not converge")
                raise t.fail
        return M.real_eigh(*a, **kw)

    scipy.linalg.eigh = eigh


class SourceError(Exception):
    """Raised by the source."""


class Source:
    """A simulated Hamiltonian source."""

    def __init__(self, ch, rng, shape, ndim: int) -> None:  # noqa: ANN001
        self.ch, self.shape = ch, shape
        n = self.n = int(np.prod(shape))
        a = rng.normal(size=(2 * ndim + 1, n, n)) + 1j * rng.normal(size=(2 * ndim + 1, n, n))
        self.c = (a + a.conj().transpose(0, 2, 1)) / 2 * 10.0 ** ch.integer(-22, 1)
        self.degenerate = n % 2 == 0 and ch.chance(0.15)
        if self.degenerate:
            m = n // 2
            self.c = np.array([np.kron(x[:m, :m], np.eye(2)) for x in self.c])
        self.reuse = ch.weighted([3, 3, 2, 3])  # 0: fresh arrays, 1: one buffer, 2: one dictionary and one buffer, 3: keeps what it calculated
        self.memo: dict = {}
        self.noisy = ch.chance(0.15)  # a different answer for every call
        self.real = not self.degenerate and ch.chance(0.15)
        self.slow = ch.chance(0.2)
        self.buffers: dict = {}
        self.rng = rng

    def matrix(self, k: np.ndarray) -> np.ndarray:
        h = self.c[0].copy()
        for i, x in enumerate(k):
            h += np.cos(2 * np.pi * x) * self.c[2 * i + 1] + np.sin(2 * np.pi * x) * self.c[2 * i + 2]
        if self.noisy:
            h *= 1 + self.rng.random()
        return h.real.copy() if self.real else h

    def __call__(self, fraction: np.ndarray) -> dict:
        me = current_task()
        k = np.array(fraction, dtype=float)
        call = me.call
        i = len(call["asked"])
        if k.shape != (call["ndim"],):
            raise Violation(f"the source was asked for fraction {fraction!r}", "wrong-fraction-shape")
        if not np.isrealobj(fraction):
            raise Violation(f"the source was handed complex fractions {fraction!r}", "complex-fraction")
        me.sim.log(f"asked {np.round(k, 6).tolist()}")
        if self.slow and me.sim.ch.chance(0.3):
            me.sim.sleep(30.0)
            me.sim.fault("slow source")
        if call["fail_at"] == i:
            me.sim.fault("source fails")
            call["failed"] = call["failure"]
            raise call["failure"]
        h = self.matrix(k)
        call["asked"].append((k, h.copy()))
        if call["garbage_at"] == i:
            me.sim.fault("source returns garbage")
            h = h.copy()
            h[0, 0] = me.sim.ch.pick([np.nan, np.inf])
            call["failed"] = ValueError
        b = M.TB(*(M.b.FundamentalPositionBasis(np.eye(len(self.shape))[j], s) for j, s in enumerate(self.shape)))
        if self.reuse == 0:
            return {"basis": M.TB(b, b), "data": h.ravel()}
        if self.reuse == 3 and not self.noisy and call["garbage_at"] != i:
            key = k.tobytes()
            if key not in self.memo:
                self.memo[key] = ({"basis": M.TB(b, b), "data": h.ravel()}, h.copy())
            got, keep = self.memo[key]
            if not np.array_equal(got["data"], keep.ravel()):
                raise Violation(f"the hamiltonian returned for {k.tolist()} was modified", "source-data-modified")
            return got
        key = me.name
        if key not in self.buffers:
            self.buffers[key] = {"basis": M.TB(b, b), "data": np.empty(h.size, dtype=h.dtype)}
        out = self.buffers[key]
        out["data"][:] = h.ravel()
        if self.reuse == 1:
            return {"basis": M.TB(b, b), "data": out["data"]}
        return out

    def scribble(self, name: str) -> None:
        """The buffers are used for something else."""
        if name in self.buffers:
            self.buffers[name]["data"][:] = 7e300


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001, PLR0915
    """One run."""
    n_clients = 1 + (ch.choose(3) if index % 2 else 0)
    sim = Sim(ch, trace=n_clients > 1 or index % 4 == 2, preempt_mean=ch.pick([0, 3, 10, 40]))
    proc = sim.process()
    rng = rng_for(ch)
    stats = {"wavepackets": 0, "failures": 0, "samples": 0, "reused": 0, "real_sources": 0}
    reached = {"active": 0, "overlap": 0}
    lock = SimLock()
    faulty = ch.chance(0.4)
    shape0 = [2 + ch.choose(3) for _ in range(1 + ch.choose(2))]
    shared = Source(ch, rng, shape0, len(shape0)) if n_clients > 1 and ch.chance(0.5) else None

    def on_point(kind: str) -> None:
        me = current_task()
        if kind != "line" or not getattr(me, "in_call", False) or me.strike < 0:
            return
        me.strike -= 1
        if me.strike == -1:
            me.fail = ch.pick([MemoryError, KeyboardInterrupt])("injected")
            sim.fault(type(me.fail).__name__)
            raise me.fail

    sim.on_point = on_point

    def real_problem(me):  # noqa: ANN001, ANN202
        """The library's own Hamiltonian builder as the source."""
        ndim = 1 + ch.choose(2)
        shape = [3 + ch.choose(3) for _ in range(ndim)]
        dx = np.diag(rng.random(ndim) + 0.5) + (np.triu(rng.random((ndim, ndim)), 1) * 0.4)
        basis = M.TB(*(M.b.FundamentalPositionBasis(dx[i] * 1e-10, n) for i, n in enumerate(shape)))
        v = rng.normal(size=shape) * 1e-21
        mass = 10.0 ** ch.integer(-27, -25)
        pot = {"basis": basis, "data": v.ravel().astype(complex)}
        recip = 2 * np.pi * np.linalg.inv(dx * 1e-10).T
        nk = [np.fft.fftfreq(n, 1 / n) for n in shape]
        grid = np.stack(np.meshgrid(*nk, indexing="ij"), axis=-1).reshape(-1, ndim)
        vk = np.fft.fftn(v) / v.size
        idx = np.array(np.unravel_index(np.arange(v.size), shape)).T
        vm = np.array([[vk[tuple((a - b) % shape)] for b in idx] for a in idx])

        def source(fraction):  # noqa: ANN001, ANN202
            k = np.array(fraction, dtype=float)
            kin = ((((grid + k) @ recip) ** 2).sum(axis=1)) * hbar**2 / (2 * mass)
            me.call["asked"].append((k, vm + np.diag(kin)))
            sim.log(f"asked {np.round(k, 6).tolist()}")
            was, me.in_call = me.in_call, False
            try:
                return M.mb.total_surface_hamiltonian(pot, mass, fraction)
            finally:
                me.in_call = was

        return source, shape

    def client() -> None:  # noqa: PLR0915
        me = current_task()
        for _ in range(1 + ch.choose(3)):
            real = ch.chance(0.08)
            uneven = ch.chance(0.25)
            if shared is not None and not real and ch.chance(0.7):
                src, shape = shared, shape0
            elif real:
                src, shape = real_problem(me)
                stats["real_sources"] += 1
            else:
                shape = [1 + ch.choose(4) for _ in range(1 + ch.choose(3))]
                src = Source(ch, rng, shape, len(shape))
            ndim, n = len(shape), int(np.prod(shape))
            if uneven:
                fr = (rng.random((ndim, 1 + ch.choose(5))) - 0.5) * ch.pick([1, 3])
                lb = M.EB(fr.copy())
                want = fr.T
                mesh = (fr.shape[1],)
            else:
                mesh = tuple(1 + ch.choose(3) for _ in range(ndim))
                lb = M.TB(*(M.b.FundamentalTransformedBasis(m) for m in mesh)) if ch.chance(0.5) else M.TB(
                    *(M.b.FundamentalTransformedPositionBasis(np.eye(ndim)[i] * (1 + i), m) for i, m in enumerate(mesh)))
                ax = [np.fft.fftfreq(m) for m in mesh]
                want = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, ndim)
            nb = 1 + ch.choose(n)
            kind = ch.choose(3)
            bands = list(range(nb))
            if kind == 0:
                bb = M.b.FundamentalBasis(nb)
            elif kind == 1:
                bb = M.b.TruncatedBasis(nb, n + ch.choose(3))
            else:
                step = 1 + ch.choose(3)
                nb = max(1, nb // step)
                offset = ch.choose(min(step, n - step * (nb - 1)))
                bb = M.ES(nb, step, offset)
                bands = [offset + step * b for b in range(nb)]
            me.call = call = {"asked": [], "ndim": ndim, "fail_at": -1, "garbage_at": -1, "failed": None, "failure": None}
            me.fail, me.eigh_left, me.strike = None, -1, -1
            total = len(want) + 1
            if faulty and not real:
                f = ch.weighted([5, 2, 1, 2, 2])
                if f == 1:
                    call["fail_at"] = ch.choose(total)
                    call["failure"] = ch.pick([SourceError, MemoryError, KeyboardInterrupt, ValueError, StopIteration, OSError])("source")
                elif f == 2:
                    call["garbage_at"] = ch.choose(total)
                elif f == 3:
                    me.eigh_left = ch.choose(len(want))
                elif f == 4 and sim.trace_files:
                    me.strike = 1 + ch.geometric(60, 1000)
            what = f"{'uneven ' if uneven else ''}mesh {mesh}, {n} states, bands {bands}"
            stats["wavepackets"] += 1
            reached["active"] += 1
            reached["overlap"] = max(reached["overlap"], reached["active"])
            me.in_call = True
            try:
                out, err = (M.w.generate_uneven_wavepacket if uneven else M.w.generate_wavepacket)(src, lb, bb), None
            except (SimKilled, Violation):
                raise
            except BaseException as e:  # noqa: BLE001
                out, err = None, e
            finally:
                me.in_call = False
                if sim.trace_files:
                    sys.settrace(sim._tracer)
            reached["active"] -= 1
            me.eigh_left = me.strike = -1
            sim.log(f"{what} -> {type(err).__name__ if err else 'ok'}")
            asked = call["asked"]
            for k, _ in asked:
                if not (np.abs(want - k).max(axis=1) < 1e-9).any():
                    raise Violation(f"{what}: the source was asked for fraction {k.tolist()}, which is not a sample of the mesh", "wrong-fraction")
            expected = me.fail or call["failed"]
            if expected is not None:
                stats["failures"] += 1
                if err is None and call["garbage_at"] == 0 and sum((np.abs(k - asked[0][0]).max() < 1e-9) for k, _ in asked) > 1:
                    expected = None  # only an answer that was not used
                elif err is None:
                    raise Violation(f"{what}: {expected!r} was not reported", "failure-not-reported")
                elif err is not expected and not (isinstance(expected, type) and isinstance(err, (expected, np.linalg.LinAlgError))):
                    if not (isinstance(expected, StopIteration) or err.__cause__ is expected or err.__context__ is expected):
                        raise Violation(f"{what}: {expected!r} was reported as {err!r}", "failure-changed")
                if expected is not None:
                    continue
            if err is not None:
                raise Violation(f"{what}: raised {type(err).__name__}: {err}", f"spurious-{type(err).__name__}")
            if not real:
                stats["reused"] += src.reuse > 0
                if not real:
                    src.scribble(me.name)
                if not real and any(not np.array_equal(g["data"], h.ravel()) for g, h in src.memo.values()):
                    raise Violation(f"{what}: a hamiltonian of the source was modified", "source-data-modified")
            b = out["basis"]
            if b[0].shape != (nb, len(want)) or b[1].n != n or out["data"].size != nb * len(want) * n or out["eigenvalue"].size != nb * len(want):
                raise Violation(f"{what}: the wavepacket has basis {b[0].shape} x {b[1].n} and {out['data'].size} entries", "wrong-shape")
            if b[0][0] is not bb and b[0][0] != bb or b[0][1] is not lb and (uneven or b[0][1] != lb):
                raise Violation(f"{what}: the wavepacket is labelled with other bands or another mesh", "wrong-basis")
            data = out["data"].reshape(nb, len(want), n)
            energy = out["eigenvalue"].reshape(nb, len(want))
            for i, f in enumerate(want):
                stats["samples"] += 1
                cand = [h for k, h in asked if np.abs(k - f).max() < 1e-9]
                if not cand:
                    raise Violation(f"{what}: the source was never asked for sample {i} at {f.tolist()}", "sample-not-asked")
                problems = [check_sample(h, data[:, i], energy[:, i], bands, real) for h in cand]
                if all(problems):
                    raise Violation(f"{what}: sample {i} at {np.round(f, 4).tolist()}: {problems[-1][0]}", problems[-1][1])
            # the selectors agree with the whole
            if not uneven:
                j = ch.choose(nb)
                one = M.w.get_wavepacket_at_band(out, j)
                some = M.w.get_wavepackets_with_eigenvalues(out, slice(j, None))
                if not (np.array_equal(one["data"].ravel(), data[j].ravel()) and np.array_equal(one["eigenvalue"].ravel(), energy[j])
                        and np.array_equal(some["data"].ravel(), data[j:].ravel()) and np.array_equal(some["eigenvalue"].ravel(), energy[j:].ravel())
                        and np.array_equal(M.w.get_wavepacket(out, j)["data"].ravel(), data[j].ravel())):
                    raise Violation(f"{what}: the selected band {j} is not band {j} of the wavepacket", "selector")
                avg = M.w.get_average_eigenvalues(out)["data"].ravel()
                if not np.abs(avg - energy.mean(axis=1)).max() <= 1e-9 * np.abs(energy).max():
                    raise Violation(f"{what}: average energies {avg} instead of {energy.mean(axis=1)}", "average")

    for i in range(n_clients):
        sim.spawn(client, proc, f"client{i}")
    try:
        sim.run()
    except Violation as e:
        raise attach(e, sim) from None
    assert lock is not None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": bool(sim.faults) or reached["overlap"] > 1 or stats["reused"] > 0, "stats": stats,
            "sample": {"clients": n_clients, "events": sim.events[:40]}}


def check_sample(h: np.ndarray, v: np.ndarray, e: np.ndarray, bands: list[int], only_energy: bool):  # noqa: ANN201, FBT001
    """Are these the bands of h? Returns (message, signature) if not."""
    size = np.abs(h).max() * len(h) + 1e-300
    want = np.linalg.eigvalsh(h / size)[bands] * size
    if not (np.isfinite(e).all() and np.isfinite(v).all()):
        return "the states or energies are not finite", "not-finite"
    if np.abs(e - want).max() > 1e-8 * size:
        return f"energies {e} instead of {want}", "wrong-energies"
    if (np.diff(e.real) < -1e-9 * size).any():
        return f"energies {e} are not in order", "not-ordered"
    if np.abs(v.conj() @ v.T - np.eye(len(v))).max() > 1e-8:
        return "the states are not orthonormal", "not-orthonormal"
    if not only_energy and np.abs(v @ h.T - e[:, None] * v).max() > 1e-7 * size:
        return "the states are not eigenstates of the hamiltonian returned for this sample", "wrong-states"
    return None
