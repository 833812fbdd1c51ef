"""Shared parts of C08 and C15: problems, and a stand-in for the native solver package."""
from __future__ import annotations

import sys
import types

import numpy as np

hbar = 1.054571817e-34
SOLVER = {"handler": None}


class SimulationConfig:
    """What sse_solver_py.SimulationConfig takes."""

    def __init__(self, *, n: int, step: int, dt: float, n_trajectories: int, n_realizations: int, method: str) -> None:  # noqa: PLR0913
        self.n, self.step, self.dt = n, step, dt
        self.n_trajectories, self.n_realizations, self.method = n_trajectories, n_realizations, method


def stub_module() -> None:
    """Install sse_solver_py (not available here): every call goes to SOLVER['handler']."""
    m = types.ModuleType("sse_solver_py")
    m.SimulationConfig = SimulationConfig
    for name in ("solve_sse", "solve_sse_banded", "solve_sse_euler_bra_ket"):

        def call(*a, _name=name, **kw):  # noqa: ANN002, ANN003, ANN202
            return SOLVER["handler"](_name, a, kw)

        setattr(m, name, call)
    sys.modules["sse_solver_py"] = m


def rng_for(ch) -> np.random.Generator:  # noqa: ANN001
    """A data generator which depends on nothing but the choices."""
    return np.random.Generator(np.random.PCG64(np.random.SeedSequence(ch.bits() + 1)))


def crandn(rng, *shape) -> np.ndarray:  # noqa: ANN001, ANN002
    """Complex normal numbers."""
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def hermitian(rng, n: int) -> np.ndarray:  # noqa: ANN001
    """A random hermitian matrix."""
    a = crandn(rng, n, n)
    return (a + a.conj().T) / 2
