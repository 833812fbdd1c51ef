"""C01: the pickle result cache survives crashes and I/O errors."""
from props import cachekit

RUNS = {"quick": 6000, "thorough": 200000}
BUDGET = {"quick": 100, "thorough": 800}
LEVEL = "exploration"
RULE = ("one run = 1-3 rounds of 1-3 processes x 1-2 threads calling a pickle-cached function in random modes on 1-2 entries, "
        "with preemption at line/file-operation granularity and a swarm of I/O faults, kills and power losses, then recovery; "
        "non-trivial = at least one fault fired or at least one context switch happened")
REAL = ["surface_potential_analysis.util.decorators (freshly loaded per simulated process)", "pickle, numpy.save/load, pathlib, tempfile, uuid"]
STUBS = ["file system (sim/fs.py: page cache, metadata journal)", "threads scheduled by the simulator", "os.urandom, getpid, clocks"]
ASSUMPTIONS = ["rename is atomic and metadata reaches the disk in order (journalling file system)", "bit rot of complete entries is out of scope"]


def run(ch, tier, index):
    return cachekit.run_faulty(ch, "pickle", index)
