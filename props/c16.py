"""C16: values keep their meaning when they are stored, copied, or sent to another process."""
from __future__ import annotations

import copy
import hashlib
import pickle

from props import opscheck as oc
from props import opskit, peer
from sim.core import HarnessError, Violation

RUNS = {"quick": 12000, "thorough": 150000}
BUDGET = {"quick": 200, "thorough": 850}
LEVEL = "exploration"
RULE = ("one run = the arguments of one to three operations, which may share values, (out of all public functions, basis members and helpers) travel through 1-5 steps: sent to another process "
        "(any pickle protocol, all at once or one by one), copied, deep-copied, used (so that lazily computed attributes are filled), in part made anew where they are, or lost in a crash and read "
        "again from the last stored bytes, while other work with other values is done around them; the processes differ in hash seed, address layout, environment and history. Wherever they are, the operation gives "
        "the result it gives in the process in which they were made, and the result can be sent home; non-trivial = the values left their process")
REAL = ["all public functions and classes of surface_potential_analysis whose arguments are data", "pickle, copy", "processes with different hash seeds"]
STUBS = ["clocks", "random entropy", "the native solver"]
ASSUMPTIONS = ["functions, generators and figures cannot be sent to another process",
               "results which change by more than 1e-7 when the inputs change by rounding errors are not compared",
               "results of functions which draw random numbers are not compared"]

NAMES: list = []
BASES: list = []


def prepare() -> None:
    """Import the code under test, and start the other processes."""
    peer.start()
    m = opskit.load()
    BASES.extend(sorted(n for n in m.ops if n.startswith(("Basis.", "TimeBasis.", "ExplicitBasis.", "BasisUtil."))))
    NAMES.extend(sorted(n for n in m.ops if not opskit.RANDOM.search(n.rsplit(".", 1)[-1])))


def dump(x, protocol: int, piecewise: bool):  # noqa: ANN001, ANN201, FBT001
    """To bytes: all at once (what is shared stays shared) or argument by argument."""
    if piecewise:
        return {k: pickle.dumps(v, protocol=protocol) for k, v in x.items()}
    return pickle.dumps(x, protocol=protocol)


def load(b):  # noqa: ANN001, ANN201
    """From bytes."""
    return {k: pickle.loads(v) for k, v in b.items()} if isinstance(b, dict) else pickle.loads(b)


def make(seed: int, plan: list, twin: int = 0) -> dict:
    """Arguments for some operations, which may share values (a twin has the same shapes and other numbers)."""
    world = opskit.World(seed, twin)
    return {(i, k): v for i, (op, choice) in enumerate(plan) for k, v in opskit.build(world, op, [choice, 5]).items()}


def of(values: dict, i: int) -> dict:
    """The arguments of one of the operations."""
    return {k: v for (j, k), v in values.items() if j == i}


class Place:
    """Where values are: this process or another one. All answers are plain data."""

    def __init__(self) -> None:
        self.v: dict | None = None
        self.others: list = []

    def put(self, blob) -> str | None:  # noqa: ANN001
        """Values arrive."""
        try:
            self.v = load(blob)
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"
        return None

    def get(self, protocol: int, piecewise: bool):  # noqa: ANN201, FBT001
        """Values leave."""
        try:
            return ("ok", dump(self.v, protocol, piecewise))
        except Exception as e:  # noqa: BLE001
            return ("raise", f"{type(e).__name__}: {e}")

    def duplicate(self, deep: bool) -> str | None:  # noqa: FBT001
        """Go on with a copy."""
        try:
            self.v = copy.deepcopy(self.v) if deep else {k: copy.copy(v) for k, v in self.v.items()}
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"
        return None

    def use(self, op: str, i: int, protocol: int):  # noqa: ANN201
        """The operation here: what happened, and the result as bytes."""
        outcome, result = oc.call(op, of(self.v, i), oc.Tree())
        blob = None
        if outcome[0] == "ok" and portable(outcome[1]) and not lazy(result):
            try:
                blob = ("ok", pickle.dumps([result], protocol=protocol))
            except Exception as e:  # noqa: BLE001
                blob = ("raise", f"{type(e).__name__}: {e}")
        return outcome, blob

    def remake(self, recipe, names) -> str | None:  # noqa: ANN001
        """Some of the values are made here, from the same numbers, instead of received."""
        try:
            made = make(*recipe)
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"
        for k in names:
            self.v[k] = made[k]
        return None

    def work(self, recipe) -> None:  # noqa: ANN001
        """Something else is done here, with other values (which stay alive)."""
        try:
            kw = make(*recipe)
        except opskit.NoArg:
            return
        self.others.append((kw, [oc.call(op, of(kw, i), oc.Tree()) for i, (op, _) in enumerate(recipe[1])]))

    def die(self) -> None:
        """Everything here is lost."""
        self.v = None


def lazy(x) -> bool:  # noqa: ANN001
    """Does this contain an iterator?"""
    return hasattr(x, "__next__") or (isinstance(x, (list, tuple)) and any(map(lazy, x)))


def portable(c) -> bool:  # noqa: ANN001
    """Does this consist of data only (in canonical form)?"""
    if isinstance(c, tuple) and c and isinstance(c[0], str):
        if c[0] in {"function", "generator", "iterator", "drawn", "figure", "axes"}:
            return False
        if c[0] == "array":
            return True
        return all(portable(x) for x in c[1:])
    if isinstance(c, (list, tuple)):
        return all(portable(x) for x in c)
    return isinstance(c, (str, int, float, complex, bool, bytes, type(None)))


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001, C901, PLR0912, PLR0915
    """One run."""
    blank = {"digest": "none", "faults": {}, "sim_time": 0.0, "n_events": 0, "switches": 0, "steps": 0, "nontrivial": False, "stats": {}, "sample": {}}
    seed, plan, values = ch.bits(), [], {}
    tries = 0
    wanted = ch.pick([1, 1, 2, 3])
    while len(plan) < wanted and tries < 30:  # noqa: PLR2004
        tries += 1
        if plan or index % 3 == 1:
            op = ch.pick(BASES) if ch.chance(0.6) else NAMES[ch.choose(len(NAMES))]
        else:
            op = NAMES[(index * 7 + tries - 1) % len(NAMES)]
        if "animate" in op or ("plot" in op and not ch.chance(0.3)):
            continue
        longer = [*plan, (op, ch.choose(1000))]
        try:
            kw = make(seed, longer)
        except opskit.NoArg:
            continue
        if portable(oc.canon(list(kw.values()))):
            plan, values = longer, kw
    if not plan:
        return blank

    def reference(req):  # noqa: ANN001, ANN202
        i, nudged = req
        kw = of(values, i)
        return oc.in_sim(lambda: oc.call(plan[i][0], oc.nudge(kw) if nudged else kw, oc.Tree())[0])

    ref = oc.Reference(reference)
    events: list[str] = []
    stats = {"moves": 0, "piecewise": 0, "copies": 0, "uses": 0, "crashes": 0, "other work": 0, "made elsewhere": 0, "results sent home": 0, "unstable": 0}
    home = Place()
    home.v = dict(values)
    places: dict = {-1: home}
    at = -1
    stored = None  # the last bytes: all that survives a crash
    travelled = ""
    away = False

    def place(i: int):  # noqa: ANN202
        if i not in places:
            places[i] = peer.Peer(i)
        return places[i]

    def here(method: str, *a):  # noqa: ANN002, ANN202
        return oc.in_sim(lambda: getattr(home, method)(*a)) if at == -1 else getattr(place(at), method)(*a)

    def judge(out, i: int) -> None:  # noqa: ANN001
        outcome, blob = out
        op = plan[i][0]
        want = ref.ask((i, False))
        d = oc.differ(want, outcome, opskit.tolerance(op))
        if d is not None:
            if oc.differ(want, ref.ask((i, True)), 1e-7):
                stats["unstable"] += 1
                return
            raise Violation(f"{op} with arguments which were {travelled or 'made here'}: {d}", f"result-{op}")
        if blob is not None:
            if blob[0] == "raise":
                raise Violation(f"the result of {op} cannot be sent to another process: {blob[1]}", f"result-not-portable-{op}")
            try:
                back = oc.canon(pickle.loads(blob[1]), memo=oc.Tree())
            except Exception as e:  # noqa: BLE001
                raise Violation(f"the result of {op} cannot be read in another process: {type(e).__name__}: {e}", f"result-not-readable-{op}") from None
            d = oc.differ(("ok", ("list", outcome[1][1][:1])), ("ok", back), 1e-12)
            if d is not None:
                raise Violation(f"the result of {op} is another one after it was sent to another process: {d}", f"result-changed-{op}")
            stats["results sent home"] += 1

    op = " and ".join(op for op, _ in plan)
    faults: dict = {}
    try:
        n = 1 + ch.choose(5)
        for k in range(n + 1):
            kind = 2 if k == n else ch.weighted([5, 2, 2, 1, 5, 2])
            if kind == 0:
                protocol, piecewise = ch.pick([pickle.DEFAULT_PROTOCOL, 2, 3, 5]), ch.chance(0.5)
                how, blob = here("get", protocol, piecewise)
                if how == "raise":
                    raise Violation(f"the arguments of {op} cannot be sent to another process ({travelled or 'made here'}): {blob}", f"not-portable-{op}")
                stored = blob
                others = [i for i in (0, 1, 2, -1) if i != at]
                at = others[ch.choose(len(others))]
                away = away or at != -1
                stats["moves"] += 1
                stats["piecewise"] += piecewise
                err = here("put", blob)
                travelled += f", sent {'one by one ' if piecewise else ''}to process {at} (protocol {protocol})"
                events.append(f"to {at} p{protocol} {'piecewise' if piecewise else 'whole'}")
                if err:
                    raise Violation(f"the arguments of {op} cannot be read in another process: {err}", f"not-readable-{op}")
            elif kind == 1:
                deep = ch.chance(0.5)
                err = here("duplicate", deep)
                stats["copies"] += 1
                travelled += ", deep-copied" if deep else ", copied"
                events.append("deepcopy" if deep else "copy")
                if err:
                    raise Violation(f"the arguments of {op} cannot be copied: {err}", f"not-copied-{op}")
            elif kind == 2:  # noqa: PLR2004
                stats["uses"] += 1
                i = ch.choose(len(plan))
                op = plan[i][0]
                out = here("use", op, i, ch.pick([pickle.DEFAULT_PROTOCOL, 2, 5]))
                events.append(f"{op} at {at}: {out[0][0]}")
                judge(out, i)
                travelled += ", used"
            elif kind == 4:  # noqa: PLR2004
                # the same operations with values of the same shapes or others, or anything else
                how = ch.choose(3)
                if how == 0:
                    twin = 1 + ch.choose(3)
                    other = (seed, [(o, choice + 1000 * twin) for o, choice in plan], twin)
                elif how == 1:
                    other = (ch.bits(), plan)
                else:
                    other = (ch.bits(), [(NAMES[ch.choose(len(NAMES))], ch.choose(1000))])
                if "animate" in other[1][0][0] or "plot" in other[1][0][0]:
                    continue
                here("work", other)
                stats["other work"] += 1
                events.append(f"{' and '.join(o for o, _ in other[1])} with other values at {at}")
            elif kind == 5 and values:  # noqa: PLR2004
                names = [k for k in values if ch.chance(0.5)]
                err = here("remake", (seed, plan), names)
                stats["made elsewhere"] += 1
                travelled += f", in part ({', '.join(n for _, n in names)}) made in process {at}"
                events.append(f"{names} made at {at}")
                if err:
                    raise Violation(f"the arguments of {op} cannot be made in another process: {err}", f"not-made-{op}")
            elif kind == 3 and stored is not None:  # noqa: PLR2004
                faults["process crash"] = faults.get("process crash", 0) + 1
                stats["crashes"] += 1
                if at != -1:
                    places.pop(at).die()
                others = (0, 1, 2, -1)
                at = others[ch.choose(len(others))]
                away = away or at != -1
                err = here("put", stored)
                travelled += f", lost in a crash and read again in process {at}"
                events.append(f"crash, again at {at}")
                if err:
                    raise Violation(f"the arguments of {op} cannot be read in another process: {err}", f"not-readable-{op}")
    except Violation as e:
        e.events = events
        raise
    except HarnessError:
        raise
    finally:
        ref.close()
        for i, p in places.items():
            if i != -1:
                p.die()
    return {**blank, "digest": hashlib.sha256(repr((plan, events)).encode()).hexdigest()[:16], "faults": faults, "n_events": len(events), "steps": len(events),
            "switches": stats["moves"], "nontrivial": away, "stats": stats, "sample": {"operations": [op for op, _ in plan], "events": events}}
