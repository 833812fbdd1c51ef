"""C09: sampled noise has the covariance its operators define."""
from __future__ import annotations

import os
import pickle
import random
import struct
import sys

import numpy as np

from props.cachekit import attach
from props.ssekit import crandn, hbar, rng_for
from sim.core import Sim, SimKilled, Violation, current_task

RUNS = {"quick": 1500, "thorough": 60000}
BUDGET = {"quick": 150, "thorough": 840}
LEVEL = "exploration"
RULE = ("one run = a history of sampling calls: 1-3 client threads (preempted between any two lines of the code under test), then forked child processes, then "
        "a client again; the operating system's entropy, the clocks and the process ids are simulated (clocks may stand still, so nothing but entropy tells two calls "
        "apart), users seed the process-wide generators before calls, entropy reads and allocations fail. The random factors are recovered from each result and tested "
        "jointly; non-trivial = several calls overlapped or came from several processes, or a fault fired")
REAL = ["surface_potential_analysis.kernel.sample", "kernel.plot (single samples)", "kernel.build (truncation)", "kernel.solve (eigenvalue)", "numpy's generators",
        "fork (child processes are real forks, run one at a time)"]
STUBS = ["operating system entropy (seeded)", "clocks, process ids", "threads scheduled by the simulator"]
ASSUMPTIONS = ["the statistical tests reject at more than 8 standard deviations, so a correct sampler is not rejected in practice",
               "a kernel K with operators o_a of eigenvalue l_a is K[x, y] = sum_a l_a conj(o_a[x]) o_a[y], as kernel.kernel defines it"]

M = None


def prepare() -> None:
    """Import the code under test."""
    global M
    import types

    import matplotlib.pyplot as plt

    from surface_potential_analysis.basis import basis, stacked_basis
    from surface_potential_analysis.kernel import build, kernel, plot, sample

    fig, ax = plt.subplots()
    plt.close(fig)
    M = types.SimpleNamespace(sample=sample, plot=plot, build=build, kernel=kernel, FB=basis.FundamentalBasis, FPB=basis.FundamentalPositionBasis,
                              TB=stacked_basis.TupleBasis, plt=plt)
    assert ax is not None


KINDS = ["split", "unsplit", "full", "kernel", "plot", "plot_full", "plot_kernel"]


def position_basis(shape):  # noqa: ANN001, ANN201
    return M.TB(*(M.FPB(np.eye(len(shape))[i] * (1.0 + i), n) for i, n in enumerate(shape)))


def problem(ch, big: bool, plots: bool) -> dict:  # noqa: ANN001, FBT001
    """A call of one of the sampling functions."""
    rng = rng_for(ch)
    kind = KINDS[ch.weighted([3, 3, 3, 3] + ([0.2, 0.1, 0.1] if plots and not big else [0, 0, 0]))]
    p: dict = {"kind": kind, "overcomplete": False}
    scale = 10.0 ** ch.integer(-6, 3)
    p["n_samples"] = 1 + ch.choose(8)
    if big:
        p["n_samples"] = ch.pick([400, 1500, 3000])
    trunc = None
    if kind in {"split", "unsplit", "full"}:
        full = kind == "full"
        n = 1 + ch.choose(4 if full else 8)
        dim = n * n if full else n
        n_ops = 1 + ch.choose(min(dim, 6))
        if kind != "split" and n_ops and ch.chance(0.15):
            n_ops = dim + 1 + ch.choose(4)
            p["overcomplete"] = True
        ops = crandn(rng, n_ops, dim)
        if ch.chance(0.3):
            ops.imag = 0  # real operators, complex noise
        if ch.chance(0.2) and not p["overcomplete"] and dim:
            ops = np.eye(dim, dtype=complex)[rng.permutation(dim)[:n_ops]]  # local noise
        ops = ops * 10.0 ** ch.integer(-3, 3)
        ev = np.exp(rng.normal(size=n_ops)) * scale
        if ch.chance(0.3):
            ev[rng.random(n_ops) < 0.3] = 0
        if ch.chance(0.3):
            ev[rng.random(n_ops) < 0.3] *= -1
        if ch.chance(0.2):
            ev = ev.astype(complex)
        b = M.FB(n)
        p["args"] = [{"basis": M.TB(M.FB(n_ops), M.TB(b, b)), "data": ops.ravel().copy(), "eigenvalue": ev.copy()}]
        p["kw"] = {"n_samples": p["n_samples"]}
        p["n"], p["dim"] = n, dim
    else:
        plot = kind.startswith("plot")
        shape = [6 + ch.choose(4)] if plot else [1 + ch.choose(7)] if ch.chance(0.6) else [1 + ch.choose(3), 1 + ch.choose(3)]
        n = dim = int(np.prod(shape))
        b = position_basis(shape)
        if kind in {"kernel", "plot_kernel"}:
            # a hermitian kernel with known operators: K = sum_a l_a conj(o_a) o_a^T with orthonormal o_a
            u = np.linalg.qr(crandn(rng, n, n))[0].T
            style = ch.weighted([4, 1, 1, 0 if plot else 1])
            if style == 1 and n > 1:  # uncorrelated patches: entries which are exactly zero
                c = 1 + int(rng.integers(n - 1))
                u = np.zeros((n, n), dtype=complex)
                u[:c, :c] = np.linalg.qr(crandn(rng, c, c))[0]
                u[c:, c:] = np.linalg.qr(crandn(rng, n - c, n - c))[0]
            elif style == 2:  # local noise
                u = np.eye(n, dtype=complex)
            elif style == 3:  # isotropic noise
                u = np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / np.sqrt(n)
            ev = np.sort(np.cumsum(0.3 + rng.random(n)))[::-1] * scale
            if plot:
                ev[2:] *= 1e-14
            elif ch.chance(0.3):
                ev[1 + int(rng.integers(n)):] = 0
            k = np.einsum("a,ai,aj->ij", ev, u.conj(), u)
            k = (k + k.conj().T) / 2
            p["args"] = [{"basis": M.TB(M.TB(b, b), M.TB(b, b)), "data": k.ravel().copy()}]
            rank = int((ev > 0).sum()) if not plot else 2
            if ch.chance(0.6) or plot:
                idx = list(rng.permutation(rank)[: 1 + int(rng.integers(rank))])
                trunc = [int(i) for i in idx]
            ops = u
        else:
            n_ops = 1 + ch.choose(2)
            ops = crandn(rng, n_ops, n)
            ev = np.sort(0.3 + rng.random(n_ops))[::-1] * scale
            data = ops
            if kind == "plot_full":
                data = np.array([np.diag(o) for o in ops])
            p["args"] = [{"basis": M.TB(M.FB(n_ops), M.TB(b, b)), "data": data.ravel().copy(), "eigenvalue": ev.copy()}]
            if ch.chance(0.5):
                trunc = [int(i) for i in rng.permutation(n_ops)[: 1 + int(rng.integers(n_ops))]]
        if trunc is not None:
            ops, ev = ops[trunc], ev[trunc]
        p["n"], p["dim"] = n, dim
        p["trunc"] = trunc
        how = ch.choose(4) if trunc is not None else 0
        given = None if trunc is None else [trunc, tuple(trunc), np.array(trunc), trunc][how]
        p["oneshot"] = how == 3
        p["given"] = given
        p["kw"] = {"n_samples": p["n_samples"]} if not plot else {"measure": "real" if ch.chance(0.6) else "imag"}
    p["ops"], p["ev"] = ops, np.asarray(ev)
    return p


def call(p: dict, ax=None):  # noqa: ANN001, ANN201
    """Make the call; returns the noise as (samples, dim), or (samples, ops, dim) for the split form."""
    s = M.sample
    kw = dict(p["kw"])
    given = iter(list(p["given"])) if p.get("oneshot") else p.get("given")
    if p["kind"] == "split":
        out = s.sample_noise_from_diagonal_operators_split(p["args"][0], **kw)
        whole = s.diagonal_operator_list_from_diagonal_split(out)
        parts = s.get_diagonal_split_noise_components(out)
        return out, whole, parts
    if p["kind"] == "unsplit":
        return s.sample_noise_from_diagonal_operators(p["args"][0], **kw)
    if p["kind"] == "full":
        return s.sample_noise_from_operators(p["args"][0], **kw)
    if p["kind"] == "kernel":
        return s.sample_noise_from_diagonal_kernel(p["args"][0], truncation=given, **kw)
    fn = {"plot": M.plot.plot_diagonal_noise_operators_single_sample, "plot_full": M.plot.plot_noise_operators_single_sample_x,
          "plot_kernel": M.plot.plot_noise_kernel_single_sample}[p["kind"]]
    return fn(p["args"][0], given, ax=ax, **kw)


def interpret(p: dict, out) -> np.ndarray | None:  # noqa: ANN001
    """Recover the random factors (samples, operators) behind a result; NaN where an eigenvalue is zero."""
    what = f"{p['kind']} with {len(p['ev'])} operators on {p['n']} states, {p['n_samples']} samples"
    ops, amp = p["ops"], np.sqrt(np.abs(p["ev"]) * hbar)
    n_ops, n_s = len(p["ev"]), p["n_samples"]
    scaled = amp[:, None] * ops
    live = np.abs(amp) > 0

    def data_of(o, lead: int) -> np.ndarray:  # noqa: ANN001
        d = np.asarray(o["data"])
        if o["basis"][0].n != lead or d.size != lead * p["dim"]:
            raise Violation(f"{what}: a list of {o['basis'][0].n} operators with {d.size} entries instead of {lead} of {p['dim']}", "wrong-shape")
        if not np.isfinite(d).all():
            raise Violation(f"{what}: the noise is not finite", "not-finite")
        return d.reshape(lead, p["dim"])

    if p["kind"] == "split":
        o, whole, parts = out
        if o["basis"][0].shape != (n_ops, n_s):
            raise Violation(f"{what}: the split form is labelled {o['basis'][0].shape}", "wrong-shape")
        d = data_of(o, n_ops * n_s).reshape(n_ops, n_s, p["dim"])
        w = data_of(whole, n_s)
        size = np.abs(scaled).sum() + 1e-300
        if np.abs(w - d.sum(axis=0)).max(initial=0) > 1e-9 * size:
            raise Violation(f"{what}: the split form does not sum to the unsplit form", "split-sum")
        if len(parts) != n_ops or any(np.abs(data_of(x, n_s) - d[i]).max(initial=0) > 1e-9 * size for i, x in enumerate(parts)):
            raise Violation(f"{what}: the components differ from the split form", "split-components")
        f = np.full((n_s, n_ops), np.nan, dtype=complex)
        for i in range(n_ops):
            if not live[i]:
                if np.abs(d[i]).max(initial=0) > 0:
                    raise Violation(f"{what}: noise from an operator with eigenvalue zero", "spurious-noise")
                continue
            nrm = np.vdot(scaled[i], scaled[i]).real
            f[:, i] = d[i] @ scaled[i].conj() / nrm
            if np.abs(d[i] - np.outer(f[:, i], scaled[i])).max(initial=0) > 1e-8 * np.abs(d[i]).max(initial=0):
                raise Violation(f"{what}: entry {i} of the split form is not noise of operator {i}", "wrong-operator")
        return f
    if p["kind"].startswith("plot"):
        y = np.asarray(out[2].get_ydata(), dtype=float)
        if y.shape != (p["n"] + 1,):
            raise Violation(f"{what}: {y.shape} points are plotted", "wrong-shape")
        if not np.isfinite(y).all():
            raise Violation(f"{what}: the plotted noise is not finite", "not-finite")
        y = y[: p["n"]]
        d = scaled - scaled[:, :1]
        a = np.concatenate([d.real, -d.imag]) if p["kw"]["measure"] == "real" else np.concatenate([d.imag, d.real])
        x, *_ = np.linalg.lstsq(a.T / amp.max(), y / amp.max(), rcond=1e-12)
        if np.abs(a.T @ x - y).max() > 1e-5 * np.abs(y).max():
            raise Violation(f"{what}: the plotted noise is not that of its operators: {y} instead of a combination of {a}", "wrong-operator")
        sv = np.linalg.svd(a / amp.max(), compute_uv=False)
        if sv.min() < 1e-4 * sv.max():
            return None  # only part of the factors shows in this plot
        return (x[:n_ops] + 1j * x[n_ops:])[None, :]
    d = data_of(out, n_s)
    if p["overcomplete"]:
        check_covariance(what, d, scaled)
        return None
    f = np.full((n_s, n_ops), np.nan, dtype=complex)
    if live.any():
        sc = scaled[live]
        nr = np.linalg.norm(sc, axis=1)
        x, *_ = np.linalg.lstsq((sc / nr[:, None]).T, d.T, rcond=1e-13)
        f[:, live] = x.T / nr
        fit = f[:, live] @ sc
    else:
        fit = 0 * d
    if np.abs(d - fit).max(initial=0) > 1e-6 * np.abs(d).max(initial=0) + 1e-30 * np.abs(scaled).max(initial=0):
        raise Violation(f"{what}: the noise is not a combination of its operators", "wrong-operator")
    cond = np.linalg.cond(scaled[live] / np.linalg.norm(scaled[live], axis=1)[:, None]) if live.any() else 1
    if cond > 1e4:
        return None
    return f


def check_covariance(what: str, d: np.ndarray, scaled: np.ndarray) -> None:
    """Covariance of many samples, when the factors cannot be recovered."""
    n = len(d)
    if n < 300:
        return
    want = np.einsum("ai,aj->ij", scaled, scaled.conj())
    sd = np.sqrt(np.outer(np.diag(want).real, np.diag(want).real) / n)
    for label, got, w in (("covariance", d.T @ d.conj() / n, want), ("pseudo-covariance", d.T @ d / n, 0 * want)):
        z = np.abs(got - w) / np.maximum(sd * (1 if label == "covariance" else 1.5), 1e-300)
        if z.max() > 9:
            i = np.unravel_index(z.argmax(), z.shape)
            raise Violation(f"{what}: the {label} at {i} is {got[i]:.4g} instead of {w[i]:.4g} ({z.max():.0f} standard deviations)", f"wrong-{label}")
    z = np.abs(d.mean(axis=0)) / np.maximum(np.sqrt(np.diag(want).real / n), 1e-300)
    if z.max() > 8:
        raise Violation(f"{what}: the mean is {z.max():.0f} standard deviations from zero", "wrong-mean")


def check_normal(what: str, x: np.ndarray) -> None:
    """Are these the standard normal numbers they should be? (Kolmogorov-Smirnov, moments)"""
    from scipy.special import erf

    n = len(x)
    if n < 30:
        return
    s = np.sort(x)
    c = 0.5 * (1 + erf(s / np.sqrt(2)))
    i = np.arange(1, n + 1) / n
    ks = max(np.abs(c - i).max(), np.abs(c - i + 1 / n).max()) * np.sqrt(n)
    if ks > 4.2:
        raise Violation(f"{what}: not standard normal ({n} numbers, Kolmogorov-Smirnov {ks:.1f}, mean {x.mean():.3f}, variance {x.var():.3f})", "wrong-distribution")
    if abs(x.mean()) * np.sqrt(n) > 8:
        raise Violation(f"{what}: mean {x.mean():.4f} over {n} numbers", "wrong-mean")
    if n >= 100 and abs((x**2).mean() - 1) * np.sqrt(n / 2) > 10:
        raise Violation(f"{what}: variance {(x**2).mean():.4f} over {n} numbers", "wrong-variance")


def check_factors(what: str, f: np.ndarray) -> None:
    """One call with many samples: independent, circular, unit variance."""
    f = f[:, ~np.isnan(f).any(axis=0)]
    n, k = f.shape
    if n < 300 or k == 0:
        return
    for label, m in (("between operators", f.conj().T @ f / n - np.eye(k)), ("between real and imaginary parts", f.T @ f / n)):
        z = np.abs(m) * np.sqrt(n)
        if z.max() > 10:
            i = np.unravel_index(z.argmax(), z.shape)
            raise Violation(f"{what}: correlation {label} at {i}: {m[i]:.3f} over {n} samples", f"correlated-{label.split()[-1]}")
    for lag in (1, 2, n // 2):
        z = np.abs((f[:-lag].conj() * f[lag:]).mean(axis=0)) * np.sqrt(n - lag)
        if z.max() > 10:
            raise Violation(f"{what}: samples {lag} apart are correlated", "correlated-samples")
    q = (np.abs(f) ** 4).mean()
    if abs(q - 2) * np.sqrt(f.size / 20) > 12:
        raise Violation(f"{what}: fourth moment {q:.3f} instead of 2", "wrong-distribution")


def check_fresh(calls: list[tuple[str, np.ndarray]]) -> None:
    """No two factors of a run may be the same, up to sign, conjugation and factors of i."""
    keys, owner, labels = [], [], []
    for j, (label, f) in enumerate(calls):
        labels.append(label)
        v = f[~np.isnan(f)].ravel()
        a, b = np.abs(v.real), np.abs(v.imag)
        keys.append(np.stack([np.maximum(a, b), np.minimum(a, b)], axis=1))
        owner.append(np.full(len(v), j))
    if not keys:
        return
    k, o = np.concatenate(keys), np.concatenate(owner)
    i = np.argsort(k[:, 0])
    k, o = k[i], o[i]
    for step in (1, 2):
        same = (np.abs(k[step:] - k[:-step]) < 3e-9).all(axis=1)
        if same.any():
            j = int(same.argmax())
            a, b = labels[o[j]], labels[o[j + step]]
            raise Violation(f"the same random numbers were used twice: {int(same.sum())} times, first in [{a}] and in [{b}]", "randomness-reused")


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001
    """One run."""
    n_clients = 1 + (ch.choose(3) if index % 2 else 0)
    sim = Sim(ch, trace=n_clients > 1 or index % 4 == 2, preempt_mean=ch.pick([0, 2, 6, 20]))
    sim.entropy = ch.bits()
    proc = sim.process()
    stats = {"calls": 0, "factors": 0, "failed_calls": 0, "children": 0, "plots": 0, "updates": 0}
    calls: list[tuple[str, np.ndarray]] = []
    pooled: list[np.ndarray] = []
    plotted: list[np.ndarray] = []
    still = ch.chance(0.5)  # clocks stand still

    def clock() -> None:
        if not still and ch.chance(0.2):
            sim.now += ch.pick([1e-6, 1e-3, 10.0])

    sim.clock_hook = clock
    faulty = ch.chance(0.3)
    pending = {"exc": None}

    def entropy(n: int) -> None:  # noqa: ARG001
        if faulty and ch.chance(0.15):
            sim.fault("entropy read fails")
            e = ch.pick([OSError, NotImplementedError, InterruptedError])("no entropy")
            pending["exc"] = e
            current_task().injected = e
            raise e

    sim.entropy_hook = entropy
    strike = {"left": -1}

    def on_point(kind: str) -> None:
        me = current_task()
        if kind != "line" or not getattr(me, "in_call", False) or me.strike < 0:
            return
        me.strike -= 1
        if me.strike == -1:
            me.injected = ch.pick([MemoryError, KeyboardInterrupt])("injected")
            sim.fault(type(me.injected).__name__)
            raise me.injected

    sim.on_point = on_point
    seeds = ch.bits() % 2**32

    def one(label: str, big: bool = False, repeat: dict | None = None) -> dict:  # noqa: FBT001, FBT002
        me = current_task()
        p = repeat or problem(ch, big, n_clients == 1 and not label.startswith("child"))
        if repeat is not None and repeat is not shared and ch.chance(0.4):  # the owner updates its operators in place
            c = ch.pick([4.0, 0.25, 1e-4])
            for a in p["args"]:
                a["eigenvalue" if "eigenvalue" in a else "data"] *= c
            p["ev"] = p["ev"] * c
            stats["updates"] += 1
        times = 40 if p["kind"].startswith("plot") else 1
        for r in range(times):
            before = [(a["data"].copy(), np.copy(a.get("eigenvalue", 0))) for a in p["args"]]
            solo = n_clients == 1 or label.startswith("child")
            if solo and ch.chance(0.4):  # a user who seeds the global generators before every call
                np.random.seed(seeds)
                random.seed(seeds)
            state = (pickle.dumps(np.random.get_state()), random.getstate())
            me.injected = None
            me.strike = 1 + ch.choose(30) if faulty and sim.trace_files and ch.chance(0.15) else -1
            me.in_call = True
            ax = None
            stats["calls"] += 1
            try:
                if times > 1:
                    if me.data_ax is None:
                        me.data_ax = M.plt.Figure().add_subplot()
                    ax = me.data_ax
                    stats["plots"] += 1
                    sys.settrace(None)
                out, err = call(p, ax), None
            except (SimKilled, Violation):
                raise
            except BaseException as e:  # noqa: BLE001
                out, err = None, e
            finally:
                me.in_call = False
                if sim.trace_files:
                    sys.settrace(sim._tracer)
            what = f"{label} call {stats['calls']} {p['kind']} {p['n_samples']}x{len(p['ev'])}"
            if (pickle.dumps(np.random.get_state()), random.getstate()) != state:
                raise Violation(f"{what}: the process-wide random state changed", "global-state")
            for a, (d, e) in zip(p["args"], before, strict=True):
                if not np.array_equal(a["data"], d) or not np.array_equal(a.get("eigenvalue", 0), e):
                    raise Violation(f"{what}: the operators were modified", "inputs-modified")
            if err is not None:
                stats["failed_calls"] += 1
                sim.log(f"{what}: {type(err).__name__}")
                if me.injected is None:
                    raise Violation(f"{what}: raised {type(err).__name__}: {str(err)[:200]}", f"spurious-{type(err).__name__}")
                continue
            f = interpret(p, out)
            sim.log(f"{what}: ok {'' if f is None else hash(f.tobytes()) % 9973}")
            if ax is not None:
                ax.lines.clear() if hasattr(ax.lines, "clear") else [x.remove() for x in list(ax.lines)]
                ax.containers.clear()
            if f is None:
                continue
            calls.append((f"{what} #{r}", f))
            stats["factors"] += int((~np.isnan(f)).sum())
            check_factors(what, f)
            if len(p["ev"]) and np.isfinite(f).any():
                v = f[~np.isnan(f)]
                pooled.append(v)
                if ax is not None:
                    plotted.append(v)
        return p

    def client(label: str, n: int, big: bool) -> None:  # noqa: FBT001
        me = current_task()
        me.data_ax = None
        last = shared
        for i in range(n):
            last = one(label, big and i == 0, last if last is not None and ch.chance(0.8 if last is shared else 0.4) else None)

    def start(label: str, n: int, big: bool) -> None:  # noqa: FBT001
        sim.spawn(lambda: client(label, n, big), proc, label)

    shared = problem(ch, False, False) if n_clients > 1 and ch.chance(0.6) else None  # noqa: FBT003

    def child(i: int) -> None:
        """A forked process makes calls; it has its own entropy but otherwise starts as an exact copy."""
        me = current_task()
        entropy_seed = ch.bits()
        rfd, wfd = os.pipe()
        stats["children"] += 1
        pid = os.fork()
        if pid == 0:
            try:
                sim.entropy = f"child-{i}-{entropy_seed}"
                sim.preempt_mean, sim.budget = 0, 1 << 60
                calls.clear()
                pooled.clear()
                try:
                    client(f"child{i}", 2, False)
                    res = ("ok", calls, None)
                except Violation as e:
                    res = ("violation", str(e), e.sig)
                except BaseException as e:  # noqa: BLE001
                    res = ("harness", repr(e), None)
                data = pickle.dumps((res, ch.log, sim.faults, stats))
                os.write(wfd, struct.pack("<Q", len(data)))
                while data:
                    data = data[os.write(wfd, data):]
            finally:
                os._exit(0)
        os.close(wfd)
        data = b""
        while True:
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            data += b
        os.close(rfd)
        os.waitpid(pid, 0)
        if len(data) < 8:
            raise RuntimeError("the child process died")
        (kind, a, sig), log, faults, st = pickle.loads(data[8:])
        for v in log[len(ch.log):]:  # the child's decisions are part of this run
            ch._next(1 << 62, lambda v=v: v)
        sim.faults = faults
        stats.update(st)
        sim.log(f"child {i}: {kind} {len(log)}")
        if kind == "violation":
            raise Violation(f"in a forked process: {a}", sig)
        if kind == "harness":
            raise RuntimeError(f"child: {a}")
        calls.extend(a)
        pooled.extend(f[~np.isnan(f)] for _, f in a)
        assert me is not None

    n_children = ch.weighted([4, 1, 2, 1])
    try:
        for c in range(n_clients):
            start(f"client{c}", 1 + ch.choose(4), ch.chance(0.5))
        sim.run()
        if n_children:

            def forks() -> None:
                for i in range(n_children):
                    child(i)

            sim.spawn(forks, proc, "parent")
            sim.run()
            start("later", 1 + ch.choose(2), False)
            sim.run()
        check_fresh(calls)
        if pooled:
            v = np.concatenate(pooled) * np.sqrt(2)
            check_normal("real parts of all factors", v.real)
            check_normal("imaginary parts of all factors", v.imag)
        if plotted:
            v = np.concatenate(plotted) * np.sqrt(2)
            check_normal("factors of the plotted samples", np.concatenate([v.real, v.imag]))
    except Violation as e:
        raise attach(e, sim) from None
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": n_clients > 1 or n_children > 0 or bool(sim.faults), "stats": stats,
            "sample": {"clients": n_clients, "children": n_children, "events": sim.events[:40]}}
