"""C08: stochastic trajectories survive any parallel worker schedule."""
from __future__ import annotations

import errno
import random

import numpy as np

from props.cachekit import attach
from props.ssekit import crandn, hbar, hermitian, rng_for, stub_module
from sim.core import Sim, SimKilled, Violation, current_task

RUNS = {"quick": 3000, "thorough": 60000}
BUDGET = {"quick": 120, "thorough": 840}
TIMEOUT = 120
LEVEL = "exploration"
RULE = ("one run = 1-2 clients (threads of one simulated process) each making 1-3 runs of the stochastic solver (sometimes the localized one) with 1-5 "
        "trajectories on a simulated pool of worker processes; the scheduler decides delays, completion order, worker exceptions, worker deaths, signals "
        "to one worker, failing forks, failing allocations while results arrive, interrupts of the caller and clock jumps; non-trivial = a fault fired "
        "or at least two trajectories ran in parallel")
REAL = ["surface_potential_analysis.dynamics.stochastic_schrodinger.solve (solve_stochastic_schrodinger_equation, ..._localized)",
        "qutip's ssesolve, its parallel map and result collection", "numpy's random generators"]
STUBS = ["worker pool (sim/pool.py: pickled arguments and results, manager thread, broken pool semantics)", "operating system entropy, clocks",
         "sse_solver_py (not installed here, not called by these functions)"]
ASSUMPTIONS = ["simulated workers share the imported modules of the parent (arguments and results are still pickled)",
               "the reference for a trajectory is qutip run serially on the same problem with the worker's own seed; collapse operators may be scaled by "
               "1/hbar or 1/sqrt(hbar)"]

S = None
MTS = None


def prepare() -> None:
    """Import the code under test."""
    global S, MTS
    stub_module()
    from surface_potential_analysis.dynamics.stochastic_schrodinger import solve

    S = solve
    from qutip.solver.multitraj import MultiTrajSolver

    MTS = MultiTrajSolver
    orig = MTS._run_one_traj

    def recording(self, seed, state, tlist, e_ops, **kw):  # noqa: ANN001, ANN003, ANN202
        t = current_task()
        out = orig(self, seed, state, tlist, e_ops, **kw)
        if t is not None:
            call = getattr(getattr(t, "owner", t), "call", None)
            if call is not None:
                call["records"].append({"seed": seed, "options": {k: self.options[k] for k in ("method", "dt") if k in self.options},
                                        "tlist": np.array(tlist, dtype=float), "start": state.to_array().reshape(-1).copy(),
                                        "states": [s.full().reshape(-1) for s in out[1].states]})
        return out

    recording.__name__ = orig.__name__  # pickled by name
    MTS._run_one_traj = recording


class Plan:
    """Which faults the pool meets during a call."""

    def __init__(self, ch, sim) -> None:  # noqa: ANN001
        self.ch, self.sim = ch, sim

    def _call(self):  # noqa: ANN202
        t = current_task()
        return getattr(getattr(t, "owner", t), "call", None)

    def _hit(self, kind: str) -> bool:
        c = self._call()
        p = c["plan"].get(kind, 0) if c else 0
        if p and self.ch.chance(p):
            self.sim.fault(kind)
            c["faults"].append(kind)
            return True
        return False

    def on_submit(self) -> None:
        if self._hit("fork fails"):
            raise OSError(errno.EAGAIN, "Resource temporarily unavailable")

    def on_wait(self) -> None:
        t = current_task()
        if not hasattr(t, "owner") and self._hit("caller interrupted"):
            raise KeyboardInterrupt

    def before_callback(self) -> None:
        if self._hit("allocation fails while a result arrives"):
            raise MemoryError

    def in_worker(self, executor, t) -> None:  # noqa: ANN001
        c = self._call()
        if c and c["plan"].get("slow"):
            d = self.ch.pick([0.0, 0.001, 1.0, 60.0, 7200.0])
            if d:
                self.sim.fault("slow worker")
                self.sim.sleep(d)
        self._strike(executor, t)

    def after_job(self, executor, t) -> None:  # noqa: ANN001
        self._strike(executor, t)

    def _strike(self, executor, t) -> None:  # noqa: ANN001
        if self._hit("worker raises"):
            raise self.ch.pick([MemoryError, FloatingPointError, RuntimeError, np.linalg.LinAlgError, OSError])("injected")
        if self._hit("worker interrupted"):
            raise KeyboardInterrupt
        if self._hit("worker dies"):
            executor.break_pool("A process in the process pool was terminated abruptly")
            self.sim.kill(t.proc)
            self.sim.point("dead")


KINDS = ["worker raises", "worker dies", "worker interrupted", "fork fails", "allocation fails while a result arrives", "caller interrupted"]


def problem(ch, localized: bool) -> dict:  # noqa: ANN001, FBT001
    """Everything a call needs."""
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis

    rng = rng_for(ch)
    n = (3 if localized else 2) + ch.choose(3)
    nt = 1 + ch.choose(3 if localized else 6)
    step = 1 + ch.choose(8)
    offset = 0 if ch.chance(0.7) else 1 + ch.choose(3)
    times = EvenlySpacedTimeBasis(nt, step, offset, nt * step * 0.01 * (1 + ch.choose(3)))
    h = hermitian(rng, n) * hbar
    kinds = [ch.weighted([4, 1, 1, 2]) for _ in range(ch.choose(4))]
    ops = []
    for k in kinds:
        ops.append({0: lambda: crandn(rng, n, n) * 0.5, 1: lambda: np.eye(n, dtype=complex), 2: lambda: np.zeros((n, n), dtype=complex),
                    3: lambda: np.diag(crandn(rng, n))}[k]() * hbar)
    psi = crandn(rng, n)
    psi /= np.linalg.norm(psi)
    b = FundamentalBasis(n)
    bb = TupleBasis(b, b)
    collapse = [{"basis": bb, "data": o.ravel()} for o in ops]
    return {"n": n, "times": times, "t": times.times.astype(float), "h": h, "ops": ops, "psi": psi, "kinds": kinds, "localized": localized,
            "n_traj": 1 + ch.weighted([1, 3, 3, 2, 1]) if not localized else 1 + ch.choose(2),
            "args": ({"basis": b, "data": psi.copy()}, times, {"basis": bb, "data": h.ravel().copy()},
                     None if not ops and ch.chance(0.5) else collapse)}


def reference(p: dict, rec: dict, scale: float) -> np.ndarray:
    """The trajectory which this seed stands for, computed serially."""
    import qutip

    seed = rec["seed"]
    if isinstance(seed, np.random.SeedSequence):
        seed = np.random.SeedSequence(seed.entropy, spawn_key=seed.spawn_key, pool_size=seed.pool_size)
    r = qutip.ssesolve(qutip.Qobj(p["h"] / hbar), qutip.Qobj(p["psi"]), p["t"], sc_ops=[qutip.Qobj(o / scale) for o in p["ops"]], e_ops=[],
                       options={"progress_bar": "", "store_states": True, "keep_runs_results": True, "map": "serial", **rec["options"]},
                       ntraj=1, seeds=[seed])
    return np.array([s.full().reshape(-1) for s in r.states[0]])


def check_result(p: dict, call: dict, out) -> None:  # noqa: ANN001, C901
    """Is this a result that the workers of this very call produced?"""
    what = f"{p['n_traj']} trajectories of {len(p['t'])} times and {p['n']} states with {len(p['ops'])} collapse operators"
    data = np.asarray(out["data"])
    basis = out["basis"]
    if basis[0][0].n != p["n_traj"] or basis[0][1].n != len(p["t"]) or basis[1].n != p["n"] or not np.allclose(basis[0][1].times, p["t"], rtol=1e-12):
        raise Violation(f"{what}: the basis of the result has shape {basis[0].shape} x {basis[1].n}", "wrong-basis")
    if data.size != p["n_traj"] * len(p["t"]) * p["n"]:
        raise Violation(f"{what}: the result holds {data.size / max(1, len(p['t']) * p['n'])} trajectories", "lost-trajectories")
    if not np.all(np.isfinite(data)):
        raise Violation(f"{what}: the result is not finite", "not-finite")
    data = data.reshape(p["n_traj"], len(p["t"]), p["n"])
    for i in range(p["n_traj"]):
        if not np.allclose(data[i, 0], p["psi"], atol=1e-9):
            raise Violation(f"{what}: trajectory {i} starts at {data[i, 0]}, not at the initial state {p['psi']}", "wrong-start")
    if all(k in {1, 2} for k in p["kinds"]):
        # these operators do nothing to a state: every trajectory is the closed evolution
        e, v = np.linalg.eigh(p["h"] / hbar)
        exact = np.array([v @ (np.exp(-1j * e * (t - p["t"][0])) * (v.conj().T @ p["psi"])) for t in p["t"]])
        span = np.max(np.abs(e)) * (p["t"][-1] - p["t"][0])
        for i in range(p["n_traj"]):
            err = np.abs(data[i] / np.linalg.norm(data[i], axis=-1, keepdims=True) - exact).max()
            if err > 0.02 + 0.3 * span * np.max(np.abs(e)) * 0.03:
                raise Violation(f"{what}: trajectory {i} is not the evolution of the initial state (error {err:.2g})", "wrong-evolution")
    recs = call["records"]
    if not recs:
        return
    for scale in (hbar, np.sqrt(hbar)):
        refs = [reference(p, r, scale) for r in recs]
        left = list(range(len(refs)))
        bad = None
        for i in range(p["n_traj"]):
            j = next((j for j in left if refs[j].shape == data[i].shape and np.allclose(refs[j], data[i], rtol=1e-6, atol=1e-8)), None)
            if j is None:
                bad = (i, any(np.allclose(refs[k], data[i], rtol=1e-6, atol=1e-8) for k in range(len(refs)) if refs[k].shape == data[i].shape))
                break
            left.remove(j)
        if bad is None:
            return
        if not p["ops"]:
            break
    i, again = bad
    if again:
        raise Violation(f"{what}: trajectory {i} repeats another one", "repeated-trajectory")
    raise Violation(f"{what}: trajectory {i} is not what any worker's realisation of this problem gives", "foreign-trajectory")


def check_localized(p: dict, call: dict, out) -> None:  # noqa: ANN001
    """Every state follows from realisations that started at the state before it."""
    data = np.asarray(out["data"])
    what = f"localized, {p['n_traj']} trajectories of {len(p['t'])} times"
    if out["basis"].shape != (p["n_traj"] * len(p["t"]), p["n"]) or data.size != p["n_traj"] * len(p["t"]) * p["n"]:
        raise Violation(f"{what}: the result has {data.size} numbers and basis {out['basis'].shape}", "lost-trajectories")
    data = data.reshape(p["n_traj"], len(p["t"]), p["n"])
    if not np.all(np.isfinite(data)):
        raise Violation(f"{what}: the result is not finite", "not-finite")
    dt = p["times"].fundamental_dt * p["times"].step
    for i in range(p["n_traj"]):
        if not np.allclose(data[i, 0], p["psi"], atol=1e-9):
            raise Violation(f"{what}: trajectory {i} starts at {data[i, 0]}, not at the initial state {p['psi']}", "wrong-start")
        for k in range(len(p["t"]) - 1):
            if not call["records"]:
                return
            g = [r for r in call["records"] if np.allclose(r["start"], data[i, k], atol=1e-9)]
            if not g:
                raise Violation(f"{what}: no realisation started at the state of trajectory {i} at time {k}", "broken-chain")
            if not np.allclose(g[0]["tlist"][-1] - g[0]["tlist"][0], dt, rtol=1e-9):
                raise Violation(f"{what}: the state at time {k + 1} is {g[0]['tlist'][-1] - g[0]['tlist'][0]} later, the times are {dt} apart", "wrong-time")
            a = np.array([r["states"][-1] for r in g]).T
            c, *_ = np.linalg.lstsq(a, data[i, k + 1], rcond=None)
            if not np.abs(a @ c - data[i, k + 1]).max() <= 1e-7:
                raise Violation(f"{what}: the state of trajectory {i} at time {k + 1} is no combination of the realisations", "foreign-trajectory")


def run(ch, tier, index, want="C08"):  # noqa: ANN001, ANN201, ARG001, C901, PLR0915
    """One run (for C10 and C11 only inputs and settings are judged)."""
    sim = Sim(ch, preempt_mean=ch.pick([1, 2, 5]))
    sim.entropy = ch.bits()
    faulty = index % 4 != 0
    sim.pool_plan = Plan(ch, sim)
    proc = sim.process()
    calls: list[dict] = []
    random.seed(1)
    np.random.seed(1)
    stats = {"calls": 0, "failed_calls": 0, "trajectories": 0, "localized": 0}
    if ch.chance(0.3):

        def clock() -> None:
            if ch.chance(0.05):
                sim.wall_offset += ch.pick([-86400.0, 3600.0, 1e7])
                sim.fault("clock jump")
                c = Plan._call(sim.pool_plan)
                if c is not None:
                    c["jumped"] = True

        sim.clock_hook = clock

    def client() -> None:
        me = current_task()
        if hasattr(S, "rng"):  # created when the module was imported
            S.rng = np.random.default_rng()
        for _ in range(1 + ch.choose(3)):
            localized = ch.chance(0.15)
            p = problem(ch, localized)
            call = {"records": [], "faults": [], "plan": {"slow": ch.chance(0.4)}, "p": p, "client": me.name}
            if faulty and ch.chance(0.5):
                for k in KINDS:
                    if ch.chance(0.35):
                        call["plan"][k] = 0.25
            me.call = call
            stats["calls"] += 1
            stats["localized"] += int(localized)
            fn = S.solve_stochastic_schrodinger_equation_localized if localized else S.solve_stochastic_schrodinger_equation
            kw = {} if p["n_traj"] == 1 and ch.chance(0.5) else {"n_trajectories": p["n_traj"]}
            watch = None
            if want != "C08":
                from props import opscheck
                from props.c11 import process_state

                watch = opscheck.Watch(want, fn.__name__, {"args": p["args"]}, process_state if want == "C11" and not index % 2 else None)
            try:
                out = fn(*p["args"], **kw)
                err = None
            except SimKilled:
                raise
            except BaseException as e:  # noqa: BLE001
                out, err = None, e
            me.call = None
            call["out"], call["err"] = out, err
            if watch is not None:
                watch.judge(err)
            sim.log(f"{'localized' if localized else 'solve'} {p['n_traj']}x{len(p['t'])}x{p['n']} ops {p['kinds']} -> {type(err).__name__ if err else 'ok'}")
            if out is not None:
                sim.log(f"data {hash(np.round(out['data'], 6).tobytes()) & 0xFFFFFFFF:x}")
            calls.append(call)

    for i in range(1 + (ch.choose(2) if index % 2 else 0)):
        sim.spawn(client, proc, f"client{i}")
    try:
        sim.run()
        drawn: dict = {}
        for n, call in enumerate(calls if want == "C08" else []):
            p, err = call["p"], call["err"]
            stats["trajectories"] += p["n_traj"]
            if err is not None:
                stats["failed_calls"] += 1
                if not call["faults"] and not (call.get("jumped") and isinstance(err, (OverflowError, ValueError))):  # qutip prints dates
                    raise Violation(f"{p['n_traj']} trajectories, {len(p['t'])} times, {len(p['ops'])} collapse operators: raised {type(err).__name__}: {err}",
                                    f"spurious-{type(err).__name__}")
                continue
            if call["faults"]:
                got = np.asarray(call["out"]["data"]).size / (len(p["t"]) * p["n"])
                raise Violation(f"returned {got:g} of {p['n_traj']} trajectories although: {', '.join(call['faults'])}", "failure-not-reported")
            (check_localized if p["localized"] else check_result)(p, call, call["out"])
            for r in call["records"]:
                s = r["seed"]
                key = (s.entropy, s.spawn_key) if isinstance(s, np.random.SeedSequence) else repr(s)
                if key in drawn:
                    raise Violation(f"two trajectories use the same random stream (calls {drawn[key]} and {n})", "shared-noise")
                drawn[key] = n
        rows = {}
        for n, call in enumerate(calls if want == "C08" else []):
            p = call["p"]
            if call["err"] is None and not p["localized"] and any(k in {0, 3} for k in p["kinds"]) and len(p["t"]) > 1:
                for row in np.asarray(call["out"]["data"]).reshape(p["n_traj"], -1):
                    k = row.tobytes()
                    if k in rows:
                        raise Violation(f"calls {rows[k]} and {n} returned the same trajectory", "repeated-trajectory")
                    rows[k] = n
    except Violation as e:
        raise attach(e, sim) from None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": bool(sim.faults) or any(c["p"]["n_traj"] > 1 for c in calls), "stats": stats,
            "sample": {"calls": [(c["client"], c["p"]["n_traj"], c["p"]["kinds"], c["faults"], type(c["err"]).__name__) for c in calls],
                       "events": sim.events[:40]}}
