"""Command line: a property id, or --replay FILE."""
from __future__ import annotations

import sys


def main() -> int:
    """Prepare the process (libraries, then seams, then the code under test) and dispatch."""
    import warnings

    import numpy  # noqa: F401
    import scipy.linalg  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.sparse  # noqa: F401

    warnings.filterwarnings("ignore")
    from . import runner, seams

    prop = None
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        import json

        prop = json.load(open(sys.argv[2]))["property"]
    elif len(sys.argv) > 1:
        prop = sys.argv[1]
    if prop is None:
        print(__doc__)
        return 2
    preimport = {"heavy": ["matplotlib", "matplotlib.pyplot", "matplotlib.animation", "qutip"]}
    if prop not in {"C01", "C02", "C03", "C12"}:
        import importlib

        for m in preimport["heavy"]:
            importlib.import_module(m)
    sys.unraisablehook = lambda _: None  # finalizers of killed tasks
    seams.install()
    if sys.argv[1] == "--replay":
        return runner.replay(sys.argv[2])
    return runner.main(prop)


def peer() -> None:
    """Another process of C16."""
    import importlib
    import warnings

    for m in ("numpy", "scipy.linalg", "scipy.optimize", "scipy.sparse", "matplotlib", "matplotlib.pyplot", "matplotlib.animation", "qutip"):
        importlib.import_module(m)
    warnings.filterwarnings("ignore")
    from . import seams

    sys.unraisablehook = lambda _: None
    seams.install()
    from props import peer as p

    p.serve(sys.argv[2])


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    import os

    os._exit(code)
