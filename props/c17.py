"""C17: modules can be imported in any order, by any thread, again after a failure, and importing changes nothing else."""
from __future__ import annotations

import builtins
import importlib
import importlib._bootstrap as _boot
import importlib._bootstrap_external as _ext
import importlib.machinery
import os
import sys
import types
import warnings

import _thread

from props import opscheck as oc
from props import opskit, ssekit
from props.c11 import prefer, process_state, state_differs
from props.cachekit import attach
from sim.core import REPO_PKG, Sim, SimKilled, Violation, current_task

RUNS = {"quick": 7000, "thorough": 60000}
BUDGET = {"quick": 200, "thorough": 850}
LEVEL = "exploration"
RULE = ("one run = 1-8 imports of modules by one to three preempted threads in a process in which nothing of the package was imported before, with the optional native "
        "packages present, missing or broken, under default or unusual settings of the caller; imports fail because of an allocation failure or an interrupt at any line "
        "that runs, a read error at any module, or while a native package is loaded. Invariants: without a fault every import succeeds (or names the missing native package), the settings of the process are "
        "what they were, nothing is printed, no warning but for the missing package is issued, no module is left half imported; afterwards every failed import is repeated, "
        "all modules agree on their classes and functions, hold what they hold in a process which imported everything in order, and compute the same; "
        "non-trivial = a fault struck, two threads were importing, or a native package was missing")
REAL = ["all modules of surface_potential_analysis and their import statements", "the import system of Python, its locks and its deadlock detection"]
STUBS = ["the native packages (present: a stub; missing or broken: the import of it fails)", "blocking of module locks (the scheduler)", "standard output", "clocks"]
ASSUMPTIONS = ["libraries outside the package (numpy, scipy, matplotlib, qutip) were imported before",
               "a deadlock reported by Python's import system itself, for threads importing a package and its own submodule, counts as a failed import, to be repeated",
               "no import fails while another thread waits for it (Python itself hands the half imported module to that thread)",
               "files of the package do not change while it is imported"]

PACKAGE = "surface_potential_analysis"
NATIVE = {"sse_solver_py", "hamiltonian_generator"}
MODULES: list[str] = []
NEEDS: list[str] = []  # mention a native package (chosen more often)
LAZY: list[str] = []  # load something later (chosen more often)
NAMES: dict[str, list] = {}  # what other modules may import from a module
DEADLOCKS: list[str] = []  # which Python found while modules were imported
_code: dict = {}
_real_get_code = _ext.SourceFileLoader.get_code


def find_modules() -> list[str]:
    """All modules of the package."""
    out = []
    for d, dirs, files in os.walk(REPO_PKG):
        dirs.sort()
        rel = os.path.relpath(d, os.path.dirname(REPO_PKG.rstrip(os.sep)))
        name = rel.replace(os.sep, ".")
        for f in sorted(files):
            if f.endswith(".py") and f != "_variance_test.py":
                out.append(name if f == "__init__.py" else f"{name}.{f[:-3]}")
    return sorted(out)


def get_code(loader, fullname):  # noqa: ANN001, ANN201
    """The code of a module, compiled once for all runs; reading it can fail."""
    path = loader.get_filename(fullname)
    if not path.startswith(REPO_PKG):
        return _real_get_code(loader, fullname)
    s = getattr(current_task(), "strike", None)
    if s is not None:
        s.read(fullname)
    if path not in _code:
        with open(path, "rb") as f:
            _code[path] = compile(f.read(), path, "exec", dont_inherit=True)
    return _code[path]


class Wakeup:
    """What threads wait on which want a module another one is importing."""

    def __init__(self) -> None:
        self.real = _thread.allocate_lock()

    def acquire(self, blocking: bool = True) -> bool:  # noqa: FBT001, FBT002
        t = current_task()
        if t is None or not blocking:
            return self.real.acquire(blocking)
        while not self.real.acquire(False):  # noqa: FBT003
            t.sim.block(self.real.locked)
        return True

    def release(self) -> None:
        self.real.release()


class ModuleLock(_boot._ModuleLock):  # noqa: SLF001
    """Python's own lock, where waiting is up to the scheduler."""

    def __init__(self, name: str) -> None:
        super().__init__(name)
        self.wakeup = Wakeup()

    def has_deadlock(self) -> bool:
        found = super().has_deadlock()
        if found:
            DEADLOCKS.append(self.name)
        return found


class Natives:
    """Finds the native packages: present, missing or broken; loading one can fail."""

    def __init__(self) -> None:
        self.how: dict = dict.fromkeys(NATIVE, "present")
        self.mods: dict = {}

    def find_spec(self, name: str, path=None, target=None):  # noqa: ANN001, ANN201, ARG002
        if name not in NATIVE:
            return None
        if self.how[name] == "missing":
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if self.how[name] == "broken":
            raise ImportError(f"{name}: undefined symbol: PyInit", name=name)
        s = getattr(current_task(), "strike", None)
        if s is not None:
            s.native(name)
        return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):  # noqa: ANN001, ANN201
        return self.mods[spec.name]

    def exec_module(self, mod) -> None:  # noqa: ANN001
        pass

    def set(self, how: dict) -> None:
        """What is installed."""
        self.how = how
        if not self.mods:
            ssekit.stub_module()
            self.mods["sse_solver_py"] = sys.modules["sse_solver_py"]
            ssekit.SOLVER["handler"] = opskit.native
            m = types.ModuleType("hamiltonian_generator")
            for n in ("get_eigenstate", "calculate_off_diagonal_energies", "calculate_off_diagonal_energies2", "get_sho_wavefunction", "get_hamiltonian"):
                setattr(m, n, lambda *_: None)
            self.mods["hamiltonian_generator"] = m
            for n in NATIVE:
                sys.modules.pop(n, None)


NATIVES = Natives()

EFFECTS = {"subprocess.Popen", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.putenv", "os.unsetenv", "os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.chdir", "os.chmod",
           "os.kill", "os.truncate", "os.link", "os.symlink", "socket.connect", "socket.bind", "socket.getaddrinfo", "urllib.Request", "_thread.start_new_thread", "signal.pthread_kill",
           "tempfile.mkstemp", "tempfile.mkdtemp", "shutil.rmtree", "shutil.copyfile", "ctypes.dlopen", "webbrowser.open"}
_effects: list = []


def audit(event: str, args: tuple) -> None:
    """What is done to the world outside the process while a module is imported."""
    if getattr(getattr(current_task(), "strike", None), "watching", False):
        if event == "open":
            path, mode, flags = args
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                _effects.append(f"opens {path} for writing")
            elif not (isinstance(path, int) or str(path).endswith((".py", ".pyc", ".so", ".pyi"))):
                _effects.append(f"opens {path}")
        elif event in EFFECTS:
            _effects.append(f"{event} {args[:1]}")


def prepare() -> None:
    """Import the libraries, but nothing of the package."""
    assert not any(n.startswith(PACKAGE) for n in sys.modules)
    MODULES.extend(find_modules())
    r, w = oc._real_pipe()  # noqa: SLF001
    NATIVES.set(dict.fromkeys(NATIVE, "present"))
    sys.meta_path.insert(0, NATIVES)
    pid = oc._real_fork()  # noqa: SLF001
    if pid == 0:
        try:
            before = set(sys.modules)
            for n in MODULES:
                try:
                    importlib.import_module(n)
                except BaseException:  # noqa: BLE001
                    continue
            names = {n: [k for k, _ in contents(m)] for n, m in loaded().items()}
            oc.send(w, (sorted(n for n in set(sys.modules) - before if not n.startswith(PACKAGE) and n not in NATIVE), names))
        finally:
            oc._real_exit(0)  # noqa: SLF001
    libraries, names = oc.receive(r)
    NAMES.update(names)
    for n in libraries:
        try:
            importlib.import_module(n)
        except BaseException:  # noqa: BLE001
            continue
    oc._real_waitpid(pid, 0)  # noqa: SLF001
    for path in (p for n in MODULES for p in [os.path.join(os.path.dirname(REPO_PKG.rstrip(os.sep)), *n.split("."))]):
        path = os.path.join(path, "__init__.py") if os.path.isdir(path) else path + ".py"  # noqa: PLW2901
        with open(path, "rb") as f:
            text = f.read()
        _code[path] = compile(text, path, "exec", dont_inherit=True)
        for there in [NEEDS] * any(n.encode() in text for n in NATIVE) + [LAZY] * (b"__getattr__" in text or b"import_module" in text or path.endswith("__init__.py") and b"import" in text):
            there.append(os.path.relpath(path, os.path.dirname(REPO_PKG.rstrip(os.sep))).removesuffix(".py").removesuffix("/__init__").replace(os.sep, "."))
    _ext.SourceFileLoader.get_code = get_code
    _boot._ModuleLock = ModuleLock  # noqa: SLF001
    sys.addaudithook(audit)
    process_state()


class Strike:
    """Fails one import at a point of its own."""

    def __init__(self, line: int = -1, read: int = -1, native: bool = False, exc: type = KeyboardInterrupt) -> None:  # noqa: FBT001, FBT002
        self.at_line, self.at_read, self.at_native, self.exc = line, read, native, exc
        self.lines = self.reads = 0
        self.fired = ""
        self.watching = False

    def line(self, frame) -> None:  # noqa: ANN001
        """A line of the package runs."""
        self.lines += 1
        if self.lines - 1 == self.at_line:
            self.fired = f"{self.exc.__name__} in {os.path.relpath(frame.f_code.co_filename, REPO_PKG)}, line {frame.f_lineno}"
            raise self.exc("injected")

    def read(self, name: str) -> None:
        """The source of a module is read."""
        self.reads += 1
        if self.reads - 1 == self.at_read:
            self.fired = f"{self.exc.__name__} reading {name}"
            raise self.exc("injected")

    def native(self, name: str) -> None:
        """A native package is loaded."""
        if self.at_native and not self.fired:
            self.fired = f"{self.exc.__name__} loading {name}"
            raise self.exc("injected")


def loaded() -> dict:
    """Modules of the package."""
    return {n: m for n, m in sorted(sys.modules.items()) if (n == PACKAGE or n.startswith(PACKAGE + ".")) and m is not None}


def contents(mod, names=None) -> list:  # noqa: ANN001
    """What a module holds that others may use."""
    out = []
    for k in sorted(vars(mod)) if names is None else names:
        v = getattr(mod, k, "nothing")
        if k.startswith("_") or isinstance(v, types.ModuleType):
            continue
        if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType)):
            what = f"{type(v).__name__} {getattr(v, '__module__', '')}.{getattr(v, '__qualname__', '')}"
            if isinstance(v, type) and v.__module__.startswith(PACKAGE):
                what += f" of {[c.__qualname__ for c in v.__mro__]} with {sorted(x for x in vars(v) if not x.startswith('_'))}"
            if isinstance(v, types.FunctionType) and v.__module__.startswith(PACKAGE):
                what += f" {v.__code__.co_varnames[:v.__code__.co_argcount]} {len(v.__defaults__ or ())}"
        elif isinstance(v, (int, float, complex, str, bytes, bool, type(None))):
            what = repr(v)
        else:
            what = type(v).__name__
        out.append((k, what))
    return out


def disagreement() -> str | None:
    """Which class or function exists twice."""
    mods = loaded()
    for n, m in mods.items():
        for k, v in sorted(vars(m).items()):
            home = getattr(v, "__module__", None)
            if not isinstance(v, (type, types.FunctionType)) or home not in mods or "<locals>" in v.__qualname__ or (k.startswith("__") and k.endswith("__")):
                continue
            there = mods[home]
            for part in v.__qualname__.split("."):
                there = getattr(there, part, None)
            if there is not None and there is not v:
                return f"{n}.{k} is not {home}.{v.__qualname__}"
    return None


def process() -> dict:
    """Process-wide settings."""
    out = process_state()
    out["import system"] = [repr(x) for x in (*sys.meta_path, *sys.path_hooks)]
    out["builtins"] = sorted(vars(builtins))
    out["switch interval"] = sys.getswitchinterval()
    out["trace"] = sys.flags
    return out


def no_solver(solve) -> None:  # noqa: ANN001
    """Functions which need the missing package fail, and say so."""
    import numpy as np

    m = {n: importlib.import_module(f"{PACKAGE}.basis.{n}") for n in ("basis", "stacked_basis", "time_basis_like")}
    b = m["basis"].FundamentalBasis(2)
    two = m["stacked_basis"].TupleBasis(b, b)
    args = ({"basis": b, "data": np.array([1, 0j])}, m["time_basis_like"].EvenlySpacedTimeBasis(2, 1, 0, 1.0), {"basis": two, "data": np.eye(2).ravel() + 0j}, [])
    for f in ("solve_stochastic_schrodinger_equation_rust", "solve_stochastic_schrodinger_equation_rust_banded"):
        try:
            getattr(solve, f)(*args)
        except (NotImplementedError, ImportError) as e:
            if "sse_solver_py" in str(e):
                continue
            raise Violation(f"{f} without sse_solver_py fails without naming it: {e}", f"no-solver-{f}") from e
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{f} without sse_solver_py fails with {type(e).__name__}: {e}", f"no-solver-{f}") from e
        raise Violation(f"{f} does not fail without sse_solver_py", f"no-solver-{f}")


def acceptable(e: BaseException, how: dict) -> bool:
    """Is this the failure of a native package which is not there?"""
    return isinstance(e, ImportError) and e.name in NATIVE and how[e.name] != "present"


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001, C901, PLR0912, PLR0915
    """One run."""
    n_threads = ch.weighted([6, 3, 1]) + 1
    how = {n: ch.pick(["present", "missing", "broken"]) if ch.chance(0.5) else "present" for n in sorted(NATIVE)}
    if n_threads > 1:
        how = dict.fromkeys(sorted(NATIVE), "present")
    NATIVES.set(how)
    del DEADLOCKS[:]
    solver = how["sse_solver_py"]
    here = prefer(ch)
    names = [n for n in MODULES if n != PACKAGE]
    compute = ch.chance(0.15) and how["sse_solver_py"] == "present" and how["hamiltonian_generator"] == "missing"
    seed, picks = ch.bits(), [ch.choose(1000) for _ in range(4)]

    def work() -> list:
        m = opskit.load()
        ops = sorted(n for n in m.ops if not opskit.RANDOM.search(n.rsplit(".", 1)[-1]) and "animate" not in n and "plot" not in n)
        world = opskit.World(seed, 0)
        out = []
        for k in picks:
            op = ops[k * 7919 % len(ops)]
            try:
                kw = opskit.build(world, op, [k, 5])
            except opskit.NoArg:
                continue
            out.append((op, oc.call(op, kw, oc.Tree())[0]))
        return out

    def reference(what):  # noqa: ANN001, ANN202
        def alone():  # noqa: ANN202
            for n in MODULES:
                try:
                    importlib.import_module(n)
                except ImportError:
                    continue
            return {n: contents(m) for n, m in loaded().items()} if what == "contents" else work()

        return oc.in_sim(alone)

    ref = oc.Reference(reference)
    sim = Sim(ch, trace=True, preempt_mean=ch.pick([5, 30, 200]) if n_threads > 1 else 0)
    proc = sim.process()
    stats = {"imports": 0, "failed": 0, "repeated": 0, "native failures": 0, "python deadlocks": 0, "computed": 0, "installed later": 0, "without a solver": 0}
    seen: list = []
    busy = [0]
    real_show = warnings.showwarning
    filters = list(warnings.filters)

    def show(message, category, filename, lineno, file=None, line=None) -> None:  # noqa: ANN001, ARG001, PLR0913, PLR0917
        seen.append((category.__name__, str(message), str(filename)))

    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.showwarning = show
    if ch.chance(0.3):
        # the caller has the same warnings only once
        warnings.simplefilter("default")
    if ch.chance(0.3):
        warnings.filterwarnings("ignore", message="none like this")

    def on_line(frame) -> None:  # noqa: ANN001
        s = getattr(current_task(), "strike", None)
        if s is not None:
            s.line(frame)

    sim.on_line = on_line
    plans = []
    for _ in range(n_threads):
        steps = []
        for _ in range(1 + ch.choose(4 if n_threads == 1 else 3)):
            fault = ch.weighted([3, 5, 3, 1] if n_threads == 1 else [1])
            native = fault == 3 or ch.chance(0.12)
            exc = ch.pick([KeyboardInterrupt, MemoryError])
            at = ch.choose(ch.pick([400, 12, 60, 4000]))
            strike = Strike() if fault == 0 else Strike(line=at, exc=exc) if fault == 1 else Strike(read=at % 30, exc=OSError if exc is MemoryError else exc) if fault == 2 else Strike(native=True, exc=exc)  # noqa: PLR2004
            name = ch.pick(NEEDS or names) if native else ch.pick(LAZY or names) if ch.chance(0.1) else ch.pick(names)
            attribute = ch.pick(NAMES[name]) if NAMES.get(name) and ch.chance(0.5) else ""
            steps.append((name, attribute, strike))
            if fault and ch.chance(0.3):
                # and again
                steps.append((name, attribute, Strike(line=ch.choose(60), exc=exc)))
        plans.append(steps)
    failed: list = []

    def check(name: str, before: dict, what: str) -> None:
        if n_threads > 1:
            return
        d = state_differs(before, process())
        if d:
            raise Violation(f"importing {name} {what}: {d} is not what it was before", f"state-{d.split(' (')[0]}-{name}")
        for n, m in loaded().items():
            if getattr(getattr(m, "__spec__", None), "_initializing", False):
                raise Violation(f"importing {name} {what}: {n} is left half imported", f"half-{n}")

    def attempt(name: str, attribute: str, strike: Strike) -> None:
        me = current_task()
        me.strike = strike
        before = process() if n_threads == 1 else {}
        stats["imports"] += 1
        busy[0] += 1
        alone = busy[0] == 1
        error = None
        del _effects[:]
        try:
            strike.watching = True
            mod = importlib.import_module(name)
            if attribute:
                getattr(mod, attribute)
        except (SimKilled, Violation):
            raise
        except BaseException as e:  # noqa: BLE001
            error = e
        finally:
            strike.watching = False
            busy[0] -= 1
            me.strike = None
        if _effects:
            raise Violation(f"importing {name} {_effects[0]}", f"effect-{_effects[0].split(' ')[0]}-{name}")
        sys.settrace(sim._tracer)  # noqa: SLF001
        sim.log(f"import {name} {attribute}: {type(error).__name__ if error else 'ok'} {strike.fired}")
        if strike.fired:
            sim.fault(f"{strike.exc.__name__} {'while a module is read' if 'reading' in strike.fired else 'while a native package is loaded' if 'loading' in strike.fired else 'at a line'}")
            if error is None:
                raise Violation(f"importing {name}: {strike.fired} was ignored", f"swallowed-{name}")
            if not isinstance(error, strike.exc):
                raise Violation(f"importing {name}: {strike.fired} became {type(error).__name__}: {error}", f"replaced-{name}") from error
        elif error is not None:
            if acceptable(error, how):
                stats["native failures"] += 1
            elif DEADLOCKS and isinstance(error, (RuntimeError, ImportError, AttributeError, KeyError)):
                # Python hands out half imported modules, or fails, rather than wait for ever
                stats["python deadlocks"] += 1
            else:
                raise Violation(f"importing {name} {'first ' if alone and stats['imports'] == 1 else ''}failed: {type(error).__name__}: {error}", f"import-{name}-{type(error).__name__}") from error
        if error is not None:
            stats["failed"] += 1
            failed.append((name, attribute))
        elif sys.modules.get(name) is not mod:
            raise Violation(f"importing {name} gave another module than the next import will", f"other-{name}")
        check(name, before, "failed" if error else "succeeded")

    def client(steps: list):  # noqa: ANN202
        def body() -> None:
            here()
            for name, attribute, strike in steps:
                attempt(name, attribute, strike)

        return body

    def after() -> None:
        nonlocal n_threads
        n_threads = 1
        del DEADLOCKS[:]
        here()
        solve = sys.modules.get(PACKAGE + ".dynamics.stochastic_schrodinger.solve")
        healed = set(how.values()) != {"present"} and ch.chance(0.4)
        if healed:
            # what was missing is installed
            for n in how:
                how[n] = "present"
            NATIVES.set(how)
            stats["installed later"] += 1
            for n in how:
                try:
                    importlib.import_module(n)
                except ImportError as e:
                    raise Violation(f"{n} cannot be imported any more although it was installed in the meantime: {e}", f"later-{n}") from e
        for name, attribute in dict.fromkeys(failed):
            stats["repeated"] += 1
            attempt(name, attribute, Strike())
        if solve is not None and solver != "present":
            stats["without a solver"] += 1
            sim.stdout = getattr(sim, "stdout", None) or []
            printed = len(sim.stdout)
            no_solver(solve)
            del sim.stdout[printed:]
        d = disagreement()
        if d:
            raise Violation(f"after {stats['imports']} imports {d}", f"twice-{d.split(' ')[0]}")
        if not healed and ch.chance(0.5):
            want = ref.ask("contents")
            for n, m in loaded().items():
                got = contents(m, [k for k, _ in want.get(n, ())])
                if n in want and got != want[n]:
                    odd = sorted(set(got) ^ set(want[n]))
                    raise Violation(f"{n} does not hold what it holds in a process which imported everything in order: {odd[:3]}", f"contents-{n}-{odd[0][0]}")
        if compute and not healed:
            want = ref.ask("work")
            got = work()
            for (op, a), (_, b) in zip(want, got):
                stats["computed"] += 1
                d = oc.differ(a, b, 1e-5)
                if d:
                    raise Violation(f"{op} after these imports: {d}", f"result-{op}")

    before_all = process()
    state = {k: before_all[k] for k in before_all if k not in {"warning filters", "warning display"}}
    try:
        for k, steps in enumerate(plans):
            sim.spawn(client(steps), proc, f"thread {k}")
        sim.run()
        threads = n_threads
        sim.spawn(after, proc, "afterwards")
        sim.run()
        d = state_differs(state, process()) if not compute else None
        if d:
            raise Violation(f"after importing {sorted({s[0] for p in plans for s in p})}: {d} is not what it was before", f"state-{d.split(' (')[0]}")
        for category, message, filename in seen:
            if filename.startswith(REPO_PKG) and solver != "present" and "not installed" in message:
                continue
            if compute:
                continue
            raise Violation(f"importing the package issued a warning: {category}: {message}", f"warning-{category}")
        said = "".join(s for _, s in getattr(sim, "stdout", None) or [])
        if said and not compute:
            raise Violation(f"importing the package prints {said[:80]!r}", "prints")
    except Violation as e:
        attach(e, sim)
        raise
    finally:
        warnings.showwarning = real_show
        warnings.filters[:] = filters
        ref.close()
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches, "steps": sim.steps,
            "nontrivial": bool(sim.faults) or threads > 1 or stats["native failures"] > 0 or stats["without a solver"] > 0, "stats": stats,
            "sample": {"natives": {**how, "sse_solver_py": solver}, "threads": [[(n, a, s.fired) for n, a, s in p] for p in plans]}}
