"""C05: see props/w90kit.py."""
from props import w90kit
from props.w90kit import ASSUMPTIONS, REAL, STUBS, prepare  # noqa: F401

RUNS = {"quick": 3000, "thorough": 100000}
BUDGET = {"quick": 100, "thorough": 800}
LEVEL = "exploration"
RULE = ("one run = 1-3 tasks in 1-3 processes, each delegating 1-2 random localization problems to the simulated external program, with a swarm of "
        "program, operator and I/O faults and kills; non-trivial = a fault fired or a context switch happened")


def run(ch, tier, index):
    return w90kit.run(ch, "C05", index)
