"""Runs many seeds of one property in parallel, minimises and replays failures, writes evidence."""
from __future__ import annotations

import hashlib
import importlib
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
from pathlib import Path

from .core import REPO_PKG, Choices, HarnessError, Violation

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
_mono = time.monotonic


def seed_for(prop: str, base: int, index: int) -> int:
    """Seed of one run."""
    return int.from_bytes(hashlib.sha256(f"{prop}/{base}/{index}".encode()).digest()[:6], "big")


def _execute(mod, ch: Choices, tier: str, index: int) -> dict:  # noqa: ANN001
    """Run one scenario in this process, and classify how it ended."""
    try:
        r = mod.run(ch, tier, index) or {}
        r["status"] = "ok"
    except Violation as e:
        r = {"status": "violation", "message": str(e), "sig": e.sig, "events": getattr(e, "events", [])}
    except HarnessError as e:
        r = {"status": "harness", "message": f"{e}\n{traceback.format_exc()}"}
    except BaseException as e:  # noqa: BLE001
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(f.startswith(REPO_PKG) for f in files) and not files[-1].startswith(str(VERIF)) and isinstance(e, Exception):
            # nothing in this run can make the code under test fail like this
            where = next(f for f in reversed(traceback.extract_tb(e.__traceback__)) if f.filename.startswith(REPO_PKG))
            r = {"status": "violation", "sig": f"unexpected-{type(e).__name__}-{where.name}", "events": getattr(e, "events", []),
                 "message": f"unexpected {type(e).__name__}: {e} (in {where.name})"}
        elif (isinstance(e, (KeyError, TypeError, ValueError, IndexError, AssertionError, AttributeError)) and not files[-1].startswith(str(VERIF / "sim"))
              and any(f.startswith(str(VERIF / "props")) for f in files) and "module '" not in str(e)):
            # what the code under test returned is not what every run on a sound tree returns (a part is missing, or of another type)
            where = next(f for f in reversed(traceback.extract_tb(e.__traceback__)) if f.filename.startswith(str(VERIF / "props")))
            r = {"status": "violation", "sig": f"unusable-{type(e).__name__}-{where.name}", "events": getattr(e, "events", []),
                 "message": f"a result cannot be used: {type(e).__name__}: {e} (when judged in {where.name}:{where.lineno})"}
        else:
            r = {"status": "harness", "message": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"}
    r["choices"] = ch.log
    return r


def fork_run(mod, ch: Choices, tier: str, index: int, timeout: float) -> dict:  # noqa: ANN001
    """Run one scenario in a fresh copy of this process image."""
    rfd, wfd = _real_pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            _real_close(rfd)
            res = _execute(mod, ch, tier, index)
            data = pickle.dumps(res)
            buf = struct.pack("<Q", len(data)) + data
            while buf:
                n = _real_write(wfd, buf)
                buf = buf[n:]
            code = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc(file=sys.__stderr__)
        finally:
            os._exit(code)
    _real_close(wfd)
    end = _mono() + timeout
    data = b""
    need = None
    try:
        while need is None or len(data) < need:
            left = end - _mono()
            if left <= 0 or not select.select([rfd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return {"status": "hang", "message": f"no result within {timeout} s", "choices": []}
            b = _real_read(rfd, 1 << 20)
            if not b:
                break
            data += b
            if need is None and len(data) >= 8:
                need = 8 + struct.unpack("<Q", data[:8])[0]
    finally:
        _real_close(rfd)
        _, st = os.waitpid(pid, 0)
    if need is None or len(data) < need:
        return {"status": "harness", "message": f"run ended without a result (status {st})", "choices": []}
    return pickle.loads(data[8:])


_first_bad = mmap.mmap(-1, 8)  # shared by the workers: no need to go beyond the first failing run
_first_bad[:8] = struct.pack("<q", 1 << 62)
_real_pipe, _real_close, _real_read, _real_write = os.pipe, os.close, os.read, os.write


def merge(into: dict, r: dict) -> None:
    """Add up the counters of runs."""
    for k, v in (r.get("faults") or {}).items():
        into["faults"][k] = into["faults"].get(k, 0) + v
    for k, v in (r.get("stats") or {}).items():
        into["stats"][k] = into["stats"].get(k, 0) + v
    into["sim_time"] += r.get("sim_time", 0.0)
    into["events"] += r.get("n_events", 0)
    into["switches"] += r.get("switches", 0)
    into["steps"] += r.get("steps", 0)
    if r.get("digest"):
        into["digests"].add(r["digest"])
        if r.get("nontrivial"):
            into["nontrivial"].add(r["digest"])


def blank() -> dict:
    """An empty set of counters."""
    return {"faults": {}, "stats": {}, "sim_time": 0.0, "events": 0, "switches": 0, "steps": 0,
            "digests": set(), "nontrivial": set(), "runs": 0, "samples": [], "bad": [], "known": {}, "rechecked": 0, "differ": 0}


def worker(mod, prop: str, base: int, tier: str, w: int, n: int, deadline: float, known: set, timeout: float) -> dict:  # noqa: ANN001, PLR0913, PLR0917
    """One worker process: a fixed share of the runs."""
    acc = blank()
    for i in range(w, n, WORKERS):
        if _mono() > deadline or i > struct.unpack("<q", _first_bad[:8])[0]:
            break
        seed = seed_for(prop, base, i)
        r = fork_run(mod, Choices(seed), tier, i, timeout)
        if r["status"] == "hang":
            r = fork_run(mod, Choices(seed), tier, i, timeout * 3)
        acc["runs"] += 1
        if r["status"] == "ok":
            merge(acc, r)
            if len(acc["samples"]) < 1 and r.get("nontrivial"):
                acc["samples"].append({"seed": seed, "index": i, "run": r.get("sample")})
            if i % 64 == w:  # is one seed really one execution?
                r2 = fork_run(mod, Choices(seed), tier, i, timeout)
                acc["rechecked"] += 1
                if r2.get("digest") != r.get("digest") or r2["choices"] != r["choices"]:
                    acc["differ"] += 1
        elif r["status"] == "violation" and r["sig"] in known:
            acc["known"].setdefault(r["sig"], r["message"])
        else:
            acc["bad"].append((i, seed, r))
            if i < struct.unpack("<q", _first_bad[:8])[0]:
                _first_bad[:8] = struct.pack("<q", i)
            break
    return acc


def run_all(mod, prop: str, base: int, tier: str, n: int, budget: float, known: set, timeout: float) -> dict:  # noqa: ANN001, PLR0913, PLR0917
    """Run n scenarios on all workers (stopping early at the time budget)."""
    deadline = _mono() + budget
    pipes = []
    for w in range(WORKERS):
        rfd, wfd = _real_pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                _real_close(rfd)
                data = pickle.dumps(worker(mod, prop, base, tier, w, n, deadline, known, timeout))
                buf = data
                while buf:
                    k = _real_write(wfd, buf)
                    buf = buf[k:]
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc(file=sys.__stderr__)
            finally:
                os._exit(code)
        _real_close(wfd)
        pipes.append((pid, rfd))
    total = blank()
    for pid, rfd in pipes:
        data = b""
        while True:
            b = _real_read(rfd, 1 << 20)
            if not b:
                break
            data += b
        _real_close(rfd)
        os.waitpid(pid, 0)
        if not data:
            total["bad"].append((-1, 0, {"status": "harness", "message": "a worker died", "choices": []}))
            continue
        a = pickle.loads(data)
        for k in ("sim_time", "events", "switches", "steps", "runs", "rechecked", "differ"):
            total[k] += a[k]
        for k in ("faults", "stats"):
            for kk, v in a[k].items():
                total[k][kk] = total[k].get(kk, 0) + v
        total["digests"] |= a["digests"]
        total["nontrivial"] |= a["nontrivial"]
        total["samples"] += a["samples"]
        total["bad"] += a["bad"]
        total["known"].update(a["known"])
    total["bad"].sort(key=lambda x: x[0])
    return total


def minimise(mod, r: dict, tier: str, index: int, timeout: float, budget: float = 60.0) -> dict:  # noqa: ANN001
    """Shrink the recorded choices while the same violation is reported."""
    end = _mono() + budget
    best = r
    tried: set = set()

    def attempt(log: list[int]) -> bool:
        nonlocal best
        key = tuple(log)
        if key in tried or _mono() > end:
            return False
        tried.add(key)
        res = fork_run(mod, Choices(replay=list(log)), tier, index, min(timeout, 15.0))
        if res["status"] == "violation" and res["sig"] == r["sig"]:
            new = res["choices"]
            while new and new[-1] == 0:
                new = new[:-1]
            old = best["choices"]
            if (len(new), sum(1 for x in new if x), sum(new)) < (len(old), sum(1 for x in old if x), sum(old)):
                res["choices"] = new
                best = res
                return True
        return False

    log = list(best["choices"])
    while log and log[-1] == 0:
        log.pop()
    best = dict(best, choices=log)
    changed = True
    while changed and _mono() < end:
        changed = False
        size = max(1, len(best["choices"]) // 2)
        while size >= 1 and _mono() < end:
            i = 0
            while i < len(best["choices"]) and _mono() < end:
                cur = best["choices"]
                if attempt(cur[:i] + cur[i + size:]):
                    changed = True
                elif any(cur[i:i + size]) and attempt(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]):
                    changed = True
                    i += size
                else:
                    i += size
            size //= 2
        for i in range(len(best["choices"])):
            cur = best["choices"]
            if i < len(cur) and cur[i] > 1:
                for v in (1, cur[i] // 2, cur[i] - 1):
                    if v < cur[i] and attempt(cur[:i] + [v] + cur[i + 1:]):
                        changed = True
                        break
    return best


def write_replay(prop: str, base: int, tier: str, index: int, seed: int, r: dict, original: int) -> Path:  # noqa: PLR0913, PLR0917
    """Save everything needed to repeat the failing run."""
    d = EVIDENCE / "replays"
    d.mkdir(parents=True, exist_ok=True)
    p = d / f"{prop}-{base}-{index}.json"
    p.write_text(json.dumps({
        "property": prop, "tier": tier, "base_seed": base, "index": index, "seed": seed,
        "message": r["message"], "sig": r["sig"], "choices": r["choices"],
        "choices_before_minimising": original, "trace": r.get("events", [])[-400:],
    }, indent=1))
    return p


def replay(path: str) -> int:
    """Repeat a failing run exactly."""
    d = json.loads(Path(path).read_text())
    mod = load(d["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    hang = d["sig"] == "hang"  # there is no recorded end of such a run: repeat it from its seed
    r = fork_run(mod, Choices(d["seed"]) if hang else Choices(replay=d["choices"]), d["tier"], d["index"], 300)
    if hang and r["status"] == "hang":
        r["status"] = "violation"
    for line in r.get("events", [])[-200:]:
        print("   ", line)
    if r["status"] == "violation":
        print(r["message"])
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print(f"{r['status']}: {r.get('message', 'the property held in this run')}")
    return 0 if r["status"] == "ok" else 2


def load(prop: str):  # noqa: ANN201
    """Module of a property."""
    return importlib.import_module(f"props.{prop.lower()}")


def known_findings(prop: str) -> dict[str, str]:
    """Signatures of recorded, unrepaired defects."""
    p = VERIF / "known_findings.json"
    if not p.exists():
        return {}
    return {k["sig"]: k["what"] for k in json.loads(p.read_text())["findings"] if k["property"] == prop}


def main(prop: str) -> int:
    """Check one property."""
    t0 = _mono()
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    n = int(os.environ.get("VERIF_RUNS", mod.RUNS[tier]))
    budget = float(os.environ.get("VERIF_BUDGET", mod.BUDGET[tier]))
    timeout = getattr(mod, "TIMEOUT", 60)
    known = known_findings(prop)
    total = run_all(mod, prop, base, tier, n, budget, set(known), timeout)
    status = 0
    violations = 0
    hangs = [b for b in total["bad"] if b[2]["status"] == "hang"]
    viols = [b for b in total["bad"] if b[2]["status"] == "violation"]
    harness = [b for b in total["bad"] if b[2]["status"] == "harness"]
    if viols:
        index, seed, r = viols[0]
        original = len(r["choices"])
        again = fork_run(mod, Choices(replay=r["choices"]), tier, index, timeout)
        if again["status"] == "violation" and again["sig"] == r["sig"]:
            r = minimise(mod, r, tier, index, timeout)
        path = write_replay(prop, base, tier, index, seed, r, original)
        violations = len(viols)
        status = 1
        print(f"property {prop}, run {index}, seed {seed}: {r['message']}")
        print(f"repeat with: {VERIF}/check --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
    elif hangs:
        index, seed, r = hangs[0]
        r = dict(r, sig="hang")
        path = write_replay(prop, base, tier, index, seed, dict(r, choices=[]), 0)
        print(f"property {prop}, run {index}, seed {seed}: no progress ({r['message']}, tried twice)")
        print(f"VIOLATION property={prop} replay={path}")
        violations = len(hangs)
        status = 1
    elif harness:
        print(f"HARNESS ERROR in run {harness[0][0]} (seed {harness[0][1]}):\n{harness[0][2]['message']}")
        status = 2
    for sig, what in known.items():
        if sig in total["known"]:
            print(f"KNOWN-FINDING: property={prop} {what}")
    wall = _mono() - t0
    if total["runs"] < min(n, mod.MIN_RUNS if hasattr(mod, "MIN_RUNS") else 20) and status == 0:
        print(f"only {total['runs']} runs finished in the time budget")
        status = 2
    ev = {
        "property": prop, "tier": tier, "seed": base, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(total["nontrivial"]),
            "rule": mod.RULE,
            "samples": total["samples"][:4] or [{"note": "no run finished"}],
            "distinct_histories": len(total["digests"]),
            "distinct_measure": "SHA-256 of the complete event log (operations, faults, scheduling relevant events) of a run",
            "runs_planned": n,
            "runs_per_hour": round(total["runs"] / max(wall, 1e-9) * 3600),
            "seeds_per_hour": round(total["runs"] / max(wall, 1e-9) * 3600),
            "simulated_seconds": round(total["sim_time"], 3),
            "scheduling_points": total["steps"],
            "context_switches": total["switches"],
            "logged_events": total["events"],
            "faults_injected": dict(sorted(total["faults"].items())),
            "counters": dict(sorted(total["stats"].items())),
            "determinism_rechecks": total["rechecked"],
            "determinism_mismatches": total["differ"],
            "components_real": mod.REAL,
            "components_stubbed": mod.STUBS,
            "known_findings_seen": sorted(total["known"]),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop} {tier}: {total['runs']} runs, {len(total['digests'])} distinct, {total['switches']} switches, "
          f"faults {sum(total['faults'].values())}, {wall:.1f} s, status {status}"
          + (f", NONDETERMINISTIC {total['differ']}/{total['rechecked']}" if total["differ"] else ""))
    return status
