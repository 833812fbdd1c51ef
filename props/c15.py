"""C15: the native stochastic solver is handed the caller's exact problem."""
from __future__ import annotations

import numpy as np

from props.cachekit import attach
from props.ssekit import SOLVER, crandn, hbar, rng_for, stub_module
from sim.core import Sim, SimKilled, Violation, current_task

RUNS = {"quick": 4000, "thorough": 150000}
BUDGET = {"quick": 120, "thorough": 840}
LEVEL = "exploration"
RULE = ("one run = 1-3 clients (threads of one process, preempted between any two lines of the code under test) each making 1-3 runs of the dense or banded "
        "native solver; the simulated solver records what it is handed, takes its time, scribbles over its arguments, answers with labelled data or fails; "
        "non-trivial = the solver failed, clients overlapped, or an operator was given in another basis")
REAL = ["surface_potential_analysis.dynamics.stochastic_schrodinger.solve (rust and rust_banded)", "operator and state conversion", "util.decorators.timed"]
STUBS = ["sse_solver_py (not installed here): a stub with the signatures of its type hints", "clocks", "threads scheduled by the simulator"]
ASSUMPTIONS = ["a banded operator with offset i has the entries M[(c + i) % n, c] in column order, as the code under test and sse_solver_py define it",
               "times handed over may use any unit as long as dt H / hbar and dt L L / hbar are those of the caller"]

S = None


def prepare() -> None:
    """Import the code under test."""
    global S
    stub_module()
    from surface_potential_analysis.dynamics.stochastic_schrodinger import solve

    S = solve


def dft(n: int) -> np.ndarray:
    """Position to momentum."""
    k = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(k, k) / n) / np.sqrt(n)


class Spec:
    """A basis: for each axis its size and whether it is a momentum axis."""

    def __init__(self, shape, flags) -> None:  # noqa: ANN001
        self.shape, self.flags = shape, flags

    def basis(self):  # noqa: ANN201
        from surface_potential_analysis.basis.basis import FundamentalPositionBasis, FundamentalTransformedPositionBasis
        from surface_potential_analysis.basis.stacked_basis import TupleBasis

        d = [(FundamentalTransformedPositionBasis if f else FundamentalPositionBasis)(np.eye(len(self.shape))[i], n)
             for i, (n, f) in enumerate(zip(self.shape, self.flags, strict=True))]
        return d[0] if len(d) == 1 else TupleBasis(*d)

    def unitary(self, to: "Spec") -> np.ndarray:
        u = np.eye(1)
        for n, a, b in zip(self.shape, self.flags, to.flags, strict=True):
            u = np.kron(u, np.eye(n) if a == b else dft(n) if b else dft(n).conj().T)
        return u


def matrix(ch, rng, n: int) -> tuple[np.ndarray, str]:  # noqa: ANN001
    """An operator, often with few diagonals."""
    kind = ["full", "diagonal", "hop", "tiny parts", "real", "zero"][ch.weighted([4, 2, 2, 2, 1, 1])]
    a = crandn(rng, n, n)
    if kind == "diagonal":
        a = np.diag(np.diag(a))
    elif kind == "hop":
        a = np.roll(np.diag(np.diag(a)), 1 + ch.choose(n), axis=0)
    elif kind == "tiny parts":
        a *= 10.0 ** rng.integers(-12, 1, size=(n, n))
        a.imag *= 10.0 ** rng.integers(-12, 1, size=(n, n))
    elif kind == "real":
        a = a.real + 0j
    elif kind == "zero":
        a *= 0
    return a, kind


def problem(ch) -> dict:  # noqa: ANN001
    """Everything a call needs."""
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis

    rng = rng_for(ch)
    banded = ch.chance(0.6)
    shape = [1 + ch.choose(6)] if ch.chance(0.7) else [1 + ch.choose(3), 1 + ch.choose(3)]
    n = int(np.prod(shape))

    def spec(other: bool = True) -> Spec:  # noqa: FBT001, FBT002
        return Spec(shape, [banded and other and ch.chance(0.4) for _ in shape])

    hs = spec()
    a, hk = matrix(ch, rng, n)
    h = (a + a.conj().T) / 2 * hbar * 10.0 ** ch.integer(-2, 3)
    ops, convs = [], []
    for _ in range(ch.weighted([2, 3, 2, 1, 1])):
        left, right = (spec(), spec()) if banded and ch.chance(0.6) else (hs, hs)
        if banded and ch.chance(0.6):
            right = left
        o, k = matrix(ch, rng, n)
        o = o * np.sqrt(hbar) * 10.0 ** ch.integer(-3, 2)
        ops.append((left, right, o, k))
        convs.append(left.unitary(hs) @ o @ right.unitary(hs).conj().T)
    ss = spec() if ch.chance(0.5) else hs
    psi = crandn(rng, n)
    times = EvenlySpacedTimeBasis(1 + ch.choose(6), 1 + ch.choose(12), 0 if ch.chance(0.7) else 1 + ch.choose(5), 10.0 ** ch.integer(-4, 1) * (1 + ch.choose(7)))
    nt, nr = 1 + ch.choose(4), 1 + ch.choose(3)
    collapse = [{"basis": TupleBasis(lft.basis(), rgt.basis()), "data": o.ravel().copy()} for lft, rgt, o, _ in ops]
    hb = hs.basis()
    kw: dict = {}
    if nt > 1 or ch.chance(0.5):
        kw["n_trajectories"] = nt
    if nr > 1 or ch.chance(0.5):
        kw["n_realizations"] = nr
    thr, method = 1e-8, "Euler"
    if banded:
        if ch.chance(0.4):
            thr = kw["r_threshold"] = 10.0 ** ch.integer(-12, -2)
        if ch.chance(0.4):
            method = kw["method"] = ch.pick(["Euler", "NormalizedEuler", "Milsten", "Order2ExplicitWeak"])
    return {"banded": banded, "n": n, "h": h, "convs": convs, "psi": ss.unitary(hs) @ psi, "times": times, "t": times.times.astype(float).copy(), "nt": nt, "nr": nr,
            "thr": thr, "method": method, "kw": kw, "other": any(lft.flags != hs.flags or rgt.flags != hs.flags for lft, rgt, _, _ in ops) or ss.flags != hs.flags,
            "what": f"{'banded' if banded else 'dense'} {shape} H {hk} ops {[k for *_, k in ops]}",
            "args": [{"basis": ss.basis(), "data": psi.copy()}, times, {"basis": TupleBasis(hb, hb), "data": h.ravel().copy()},
                     None if not ops and ch.chance(0.5) else collapse]}


def snapshot(p: dict) -> list[bytes]:
    """Bytes of everything the caller owns."""
    a = p["args"]
    return [a[0]["data"].tobytes(), a[2]["data"].tobytes(), *(o["data"].tobytes() for o in a[3] or [])]


def unband(diagonals, offsets, n: int, what: str) -> np.ndarray:  # noqa: ANN001
    """The dense operator of a banded one."""
    m = np.zeros((n, n), dtype=complex)
    if len(diagonals) != len(offsets) or len(set(offsets)) != len(offsets):
        raise Violation(f"{what}: {len(diagonals)} diagonals with offsets {offsets}", "malformed-bands")
    for d, i in zip(diagonals, offsets, strict=True):
        if len(d) != n or not 0 <= i < n:
            raise Violation(f"{what}: a diagonal of {len(d)} entries at offset {i} for {n} states", "malformed-bands")
        for c in range(n):
            m[(c + i) % n, c] = d[c]
    return m


def check_call(p: dict, name: str, a: tuple, kw: dict) -> None:
    """Is this the caller's problem?"""
    what = p["what"]
    want_name = "solve_sse_banded" if p["banded"] else "solve_sse"
    if name != want_name:
        raise Violation(f"{what}: {name} was called", "wrong-solver")
    names = (["initial_state", "hamiltonian_diagonal", "hamiltonian_offset", "operators_diagonals", "operators_offsets", "config"] if p["banded"]
             else ["initial_state", "hamiltonian", "operators", "config"])
    v = {**dict(zip(names, a, strict=False)), **kw}
    c = v["config"]
    for k, want in (("n", p["times"].n), ("step", p["times"].step), ("n_trajectories", p["nt"]), ("n_realizations", p["nr"]), ("method", p["method"])):
        if getattr(c, k) != want:
            raise Violation(f"{what}: {k}={getattr(c, k)!r} was handed over instead of {want!r}", f"wrong-{k}")
    if not isinstance(c.dt, float) or not np.isfinite(c.dt) or c.dt <= 0:
        raise Violation(f"{what}: dt={c.dt!r}", "wrong-dt")
    psi = np.array(v["initial_state"])
    if psi.shape != (p["n"],) or np.abs(psi - p["psi"]).max() > 1e-10 * np.abs(p["psi"]).max():
        raise Violation(f"{what}: initial state {psi} instead of {p['psi']}", "wrong-state")
    n = p["n"]
    if p["banded"]:
        h = unband(v["hamiltonian_diagonal"], v["hamiltonian_offset"], n, what)
        if len(v["operators_diagonals"]) != len(v["operators_offsets"]):
            raise Violation(f"{what}: {len(v['operators_diagonals'])} sets of diagonals, {len(v['operators_offsets'])} of offsets", "malformed-bands")
        ops = [unband(d, o, n, what) for d, o in zip(v["operators_diagonals"], v["operators_offsets"], strict=True)]
        slack = p["thr"] / c.dt * 1.4143
    else:
        h = np.array(v["hamiltonian"])
        ops = [np.array(o) for o in v["operators"]]
        slack = 0.0
    if len(ops) != len(p["convs"]):
        raise Violation(f"{what}: {len(ops)} collapse operators were handed over", "wrong-operator-count")
    fdt = (p["t"][1] - p["t"][0]) / p["times"].step if len(p["t"]) > 1 else p["times"].delta_t / (p["times"].n * p["times"].step)
    want = p["h"] / hbar * (fdt / c.dt)
    for label, got, w in [("hamiltonian", h, want)] + [(f"operator {i}", o, x * np.sqrt(fdt / c.dt / hbar)) for i, (o, x) in enumerate(zip(ops, p["convs"], strict=True))]:
        if got.shape != (n, n):
            raise Violation(f"{what}: {label} has shape {got.shape}", "wrong-shape")
        err = np.abs(got - w).max()
        if not err <= slack + 1e-9 * np.abs(w).max():
            raise Violation(f"{what}: {label} differs by {err:.3g} (threshold {slack:.3g}, size {np.abs(w).max():.3g}): {np.round(got, 4).tolist()} instead of "
                            f"{np.round(w, 4).tolist()}", f"wrong-{label.split()[0]}")


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001
    """One run."""
    n_clients = 1 + (ch.choose(3) if index % 2 else 0)
    sim = Sim(ch, trace=n_clients > 1, preempt_mean=ch.pick([0, 2, 6, 20]))
    proc = sim.process()
    stats = {"calls": 0, "failures": 0, "operators": 0, "banded": 0, "other_basis": 0}
    if ch.chance(0.3):

        def clock() -> None:
            if ch.chance(0.1):
                sim.wall_offset += ch.pick([-86400.0, 3600.0])
                sim.fault("clock jump")

        sim.clock_hook = clock

    def handler(name: str, a: tuple, kw: dict):  # noqa: ANN202
        t = current_task()
        call = t.call
        call["calls"] += 1
        if call["calls"] > 1:
            raise Violation(f"{call['p']['what']}: the solver was called twice", "called-twice")
        check_call(call["p"], name, a, kw)
        sim.log(f"{name} starts")
        for _ in range(ch.choose(4)):
            sim.point("solver")
        if ch.chance(0.2):
            sim.sleep(ch.pick([1.0, 4000.0]))
            sim.fault("slow solver")
        if call["fail"] is not None:
            sim.fault("solver fails")
            raise call["fail"]
        for x in [*a, *kw.values()]:  # what it was handed is its own
            if isinstance(x, list):
                x.clear()
        r = call["answer"]
        return r.tolist() if call["as_list"] else r

    SOLVER["handler"] = handler
    reached = {"overlap": 0, "active": 0}

    def client() -> None:
        me = current_task()
        for _ in range(1 + ch.choose(3)):
            p = problem(ch)
            rng = rng_for(ch)
            nt, nn = p["nt"], p["times"].n
            me.call = {"p": p, "calls": 0, "answer": crandn(rng, nt * nn * p["n"]), "as_list": ch.chance(0.8), "fail": None}
            call = me.call
            if ch.chance(0.2):
                call["fail"] = ch.pick([RuntimeError, ValueError, MemoryError, KeyboardInterrupt, NotImplementedError])("the native solver failed")
            answer = call["answer"].copy()
            before = snapshot(p)
            fn = S.solve_stochastic_schrodinger_equation_rust_banded if p["banded"] else S.solve_stochastic_schrodinger_equation_rust
            stats["calls"] += 1
            stats["banded"] += p["banded"]
            stats["operators"] += len(p["convs"])
            stats["other_basis"] += p["other"]
            reached["active"] += 1
            reached["overlap"] = max(reached["overlap"], reached["active"])
            try:
                out, err = fn(*p["args"], **p["kw"]), None
            except (SimKilled, Violation):
                raise
            except BaseException as e:  # noqa: BLE001
                out, err = None, e
            reached["active"] -= 1
            sim.log(f"{p['what']} -> {type(err).__name__ if err else 'ok'}")
            if snapshot(p) != before or not np.array_equal(p["times"].times, p["t"]):
                raise Violation(f"{p['what']}: the caller's data were modified", "inputs-modified")
            if call["fail"] is not None:
                stats["failures"] += 1
                if err is not call["fail"] or not call["calls"]:
                    raise Violation(f"{p['what']}: the solver failed with {call['fail']!r}, the caller saw {err!r}", "failure-not-reported")
                continue
            if err is not None:
                raise Violation(f"{p['what']}: raised {type(err).__name__}: {err}", f"spurious-{type(err).__name__}")
            if call["calls"] != 1:
                raise Violation(f"{p['what']}: the solver was called {call['calls']} times", "not-called")
            b = out["basis"]
            shape = (b[0][0].n, b[0][1].n, b[1].n)
            if shape != (nt, nn, p["n"]) or not np.allclose(b[0][1].times, p["t"], rtol=1e-12):
                raise Violation(f"{p['what']}: the basis of the result is {shape}", "wrong-basis")
            if type(b[1]) is not type(p["args"][2]["basis"][0]) or b[1] != p["args"][2]["basis"][0]:
                raise Violation(f"{p['what']}: the result is labelled with basis {b[1]!r}", "wrong-basis")
            if np.asarray(out["data"]).size != answer.size or not np.array_equal(np.asarray(out["data"]).ravel(), answer):
                raise Violation(f"{p['what']}: the result is not what the solver returned", "wrong-data")

    for i in range(n_clients):
        sim.spawn(client, proc, f"client{i}")
    try:
        sim.run()
    except Violation as e:
        raise attach(e, sim) from None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": stats["failures"] > 0 or reached["overlap"] > 1 or stats["other_basis"] > 0, "stats": stats,
            "sample": {"clients": n_clients, "events": sim.events[:40]}}
