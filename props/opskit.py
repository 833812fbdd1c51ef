"""A catalogue of the public operations of the library, and arguments for them.

Arguments are built from plain numpy and basis constructors only, from a seed, so that building them runs
no operation under test, and so that the same call can be built again.
"""
from __future__ import annotations

import importlib
import inspect
import itertools
import pkgutil
import re
import types

import numpy as np

PACKAGE = "surface_potential_analysis"

# functions which draw random numbers: their results are not compared
RANDOM = re.compile(r"^(sample_|plot_.*single_sample|solve_stochastic_schrodinger_equation$|get_initial_pure)")
# functions whose effects are on files or other programs (C01-C07), which need a compiled solver (C15), or which are typing exercises
EXCLUDED = re.compile(r"_variance_test|diagonalized_stochastic|localized_effective_mass|^(timed|npy_cached|cached|load_|solve_stochastic.*localized|get_localization_operator_wannier90|localize_wavepacket_wannier90)")

M = None


def tolerance(op: str) -> float:
    """How far two runs of the same call may be apart (an adaptive solver keeps a state of its own between runs)."""
    return 1e-5 if "schrodinger" in op else 1e-9


def load() -> types.SimpleNamespace:
    """Import everything and list the operations."""
    global M
    if M is not None:
        return M
    import matplotlib

    matplotlib.use("Agg")
    from props import ssekit

    ssekit.stub_module()
    ssekit.SOLVER["handler"] = native
    pkg = importlib.import_module(PACKAGE)
    ops: dict = {}
    mods: dict = {}
    for info in sorted(pkgutil.walk_packages(pkg.__path__, PACKAGE + "."), key=lambda i: i.name):
        if "_variance_test" in info.name:
            continue
        try:
            mod = importlib.import_module(info.name)
        except ModuleNotFoundError as e:
            if e.name != "hamiltonian_generator":
                raise
            continue
        mods[info.name.removeprefix(PACKAGE + ".")] = mod
        for name, f in sorted(vars(mod).items()):
            if name.startswith("_") or not inspect.isfunction(f) or f.__module__ != info.name or EXCLUDED.search(name) or EXCLUDED.search(info.name):
                continue
            ops[f"{info.name.removeprefix(PACKAGE + '.')}.{name}"] = f
    m = lambda n: mods[n]  # noqa: E731
    b = m("basis.basis")
    M = types.SimpleNamespace(
        ops=ops, mods=mods, b=b, TB=m("basis.stacked_basis").TupleBasis, es=m("basis.evenly_spaced_basis"), ex=m("basis.explicit_basis"),
        bf=m("basis.block_fraction_basis"), tb=m("basis.time_basis_like"), mb=m("basis.momentum_basis_like"), util=m("basis.util").BasisUtil,
        tun=m("dynamics.tunnelling_basis").TunnellingSimulationBandsBasis, isf=m("dynamics.isf"), inc_isf=m("dynamics.incoherent_propagation.isf"),
    )
    ops.update(members())
    M.sigs = {k: inspect.signature(f) for k, f in ops.items()}
    solve = mods.get("dynamics.stochastic_schrodinger.solve")
    if hasattr(solve, "rng"):
        solve.rng = np.random.default_rng(1)
    return M


def native(name: str, a: tuple, kw: dict) -> list:  # noqa: ARG001
    """The native solver: numbers of the right shape, which depend on everything it is handed."""
    config = a[-1]
    total = 0.0

    def visit(x) -> None:  # noqa: ANN001
        nonlocal total
        if isinstance(x, (list, tuple, np.ndarray)):
            for i, y in enumerate(x):
                total = (total * 0.7 + i) % 100
                visit(y)
        else:
            total += abs(complex(x) - 0.3) / (1 + abs(complex(x)))

    visit(list(a[:-1]) + [config.n, config.step, config.n_trajectories, config.n_realizations, len(config.method)])
    total += float(np.tanh(config.dt))
    return [complex(total, k) for k in range(config.n_trajectories * config.n * len(a[0]))]


def members() -> dict:
    """Properties and methods of bases and of their helper, as operations."""
    out: dict = {}

    def prop(name: str):  # noqa: ANN202
        return lambda util: getattr(util, name)

    for name in dir(M.util):
        if name.startswith("_"):
            continue
        member = inspect.getattr_static(M.util, name)
        if not inspect.isfunction(member):
            out[f"BasisUtil.{name}"] = prop(name)
    out["BasisUtil.get_flat_index"] = lambda util, stacked, mode: util.get_flat_index(stacked, mode=mode)
    out["BasisUtil.get_stacked_index"] = lambda util, flat: util.get_stacked_index(flat)
    out["BasisUtil.get_k_points_at_index"] = lambda util, either: util.get_k_points_at_index(either)
    out["BasisUtil.get_x_points_at_index"] = lambda util, either: util.get_x_points_at_index(either)
    for how in ("__into_fundamental__", "__from_fundamental__", "__into_transformed__", "__from_transformed__"):
        # bases do not all have all four
        out[f"Basis.{how}"] = (lambda how: lambda any_basis, numbers, along: getattr(any_basis, how)(numbers, along))(how)
    out["Basis.__convert_vector_into__"] = lambda any_basis, numbers, other_basis, along: any_basis.__convert_vector_into__(numbers, other_basis, along)
    for name in ("times", "fundamental_times", "delta_t", "dt", "fundamental_dt", "nt_points", "n", "fundamental_n", "__hash__"):
        out[f"TimeBasis.{name}"] = (lambda name: lambda time_basis: getattr(time_basis, name) if name != "__hash__" else hash(time_basis) * 0)(name)
    for name in ("vectors", "_raw_vectors", "fundamental_raw_vectors", "n", "fundamental_n", "delta_x_stacked", "shape"):
        out[f"ExplicitBasis.{name}"] = (lambda name: lambda explicit_basis: getattr(explicit_basis, name))(name)
    return out


class NoArg(Exception):
    """There is no suitable argument."""


KB_T = 1.380649e-23 * 150


class World:
    """Values which belong together: the same space, described in many ways."""

    def __init__(self, seed: int, twin: int = 0, ndim: int | None = None) -> None:
        """With the same seed and another twin: the same shapes, other numbers."""
        m = load()
        r = np.random.default_rng(seed)
        self.ndim = ndim or int(r.choice([1, 2, 2, 2, 3, 3, 3]))
        big = {1: 6, 2: 4, 3: 3}[self.ndim]
        self.shape = tuple(int(x) for x in r.integers(1 if r.random() < 0.2 else 2, big + 1, size=self.ndim))
        if self.ndim < 3 and r.random() < 0.3:
            self.shape = tuple(2 * x + 1 for x in self.shape) if self.ndim == 1 else self.shape
        self.mesh = tuple(int(x) for x in r.integers(1, 4, size=self.ndim))
        self.n_bands = int(r.integers(1, 4))
        self.n_list = int(r.integers(1, 4))
        self.n_times = int(r.integers(2, 6))
        self.scale = float(r.choice([1.0, 1.0, KB_T]))
        self.tun_shape = (int(r.integers(2, 4)), int(r.integers(2, 4)))
        self.rng = r = np.random.default_rng([seed, twin])
        self.dx = r.normal(size=(self.ndim, self.ndim)) * 0.3 + np.eye(self.ndim) * (1 + r.random())
        if self.scale != 1.0:
            self.dx *= 1e-10
        self.pool: dict = {}
        self.fixed: dict = {}

    # numbers -------------------------------------------------------------
    def lay(self, x: np.ndarray) -> np.ndarray:
        """The same numbers in another memory layout."""
        k = self.rng.random()
        if x.ndim == 0 or k < 0.75:
            return x
        if k < 0.9:
            wide = np.zeros((*x.shape[:-1], 2 * x.shape[-1]), dtype=x.dtype)
            wide[..., ::2] = x
            return wide[..., ::2]
        return np.asfortranarray(x)

    def cplx(self, *shape: int) -> np.ndarray:
        x = self.rng.normal(size=shape)
        if self.rng.random() < 0.9:
            x = x + 1j * self.rng.normal(size=shape)
        return self.lay(x.astype(np.complex128) if self.rng.random() < 0.95 else x)

    def real(self, *shape: int) -> np.ndarray:
        x = self.rng.normal(size=shape)
        return self.lay(x if self.rng.random() < 0.6 else x.astype(np.complex128))

    def positive(self, *shape: int) -> np.ndarray:
        return self.lay(np.abs(self.rng.normal(size=shape)) + 0.05)

    def hermitian(self, n: int) -> np.ndarray:
        a = self.rng.normal(size=(n, n)) + 1j * self.rng.normal(size=(n, n))
        if self.rng.random() < 0.3:
            a = a.real.astype(complex)
        return (a + a.conj().T) / 2 * self.scale

    def orthonormal(self, k: int, n: int) -> np.ndarray:
        a = self.rng.normal(size=(n, n)) + 1j * self.rng.normal(size=(n, n))
        q, _ = np.linalg.qr(a)
        return q.T[:k] if k <= n else np.concatenate([q.T, q.T, q.T, q.T])[:k]

    def pick(self, *options):  # noqa: ANN002, ANN201
        return options[int(self.rng.integers(len(options)))]

    # bases ---------------------------------------------------------------
    def once(self, key, make):  # noqa: ANN001, ANN201
        if key not in self.fixed:
            self.fixed[key] = make()
        return self.fixed[key]

    def axis(self, i: int, kind: str):  # noqa: ANN201
        b, n, dx = M.b, self.shape[i], self.dx[i].copy()
        if kind == "x":
            return b.FundamentalPositionBasis(dx, n)
        if kind == "k":
            return b.FundamentalTransformedPositionBasis(dx, n)
        if kind == "tk":
            return b.TransformedPositionBasis(dx, max(1, n - int(self.rng.integers(2))), n)
        if kind == "tx":
            return b.TruncatedPositionBasis(dx, max(1, n - int(self.rng.integers(2))), n)
        raise NoArg

    def stacked(self, kind: str | None = None):  # noqa: ANN201
        """A basis of the space with a volume."""
        kind = kind or self.pick("x", "x", "x", "k", "k", "tk", "mixed", "ex")
        if kind == "ex":
            return self.once(("ex", int(self.rng.integers(2))), self._explicit)
        if kind == "mixed":
            return M.TB(*(self.axis(i, self.pick("x", "k")) for i in range(self.ndim)))
        if kind == "tk":
            return self.once(("tk", int(self.rng.integers(2))), lambda: M.TB(*(self.axis(i, "tk") for i in range(self.ndim))))
        return self.once(kind, lambda: M.TB(*(self.axis(i, kind) for i in range(self.ndim))))

    def tuple_basis(self):  # noqa: ANN201
        return self.stacked(self.pick("x", "x", "x", "k", "k", "tk", "mixed"))

    def _explicit(self):  # noqa: ANN202
        p = self.stacked(self.pick("x", "k"))
        k = max(1, p.n - int(self.rng.integers(3)))
        v = {"basis": M.TB(M.b.FundamentalBasis(k), p), "data": self.orthonormal(k, p.n).ravel()}
        return M.ex.ExplicitStackedBasisWithLength(v)

    def plain(self):  # noqa: ANN201
        """A basis of the whole space without a length."""
        return self.pick(M.b.FundamentalBasis, M.b.FundamentalTransformedBasis)(int(np.prod(self.shape)))

    def times(self):  # noqa: ANN201
        n = self.n_times
        return self.pick(M.tb.FundamentalTimeBasis(n, 0.5 + n), M.tb.EvenlySpacedTimeBasis(n, 2, 1, 1.5), M.tb.ExplicitTimeBasis(np.linspace(0, 2, n)))

    def fund(self, n: int | None = None):  # noqa: ANN201
        return M.b.FundamentalBasis(n or self.n_list)

    def list_basis(self):  # noqa: ANN201
        return self.pick(self.fund(), self.fund(), M.TB(self.fund(), self.fund(2)))

    def mesh_basis(self):  # noqa: ANN201
        return self.once("mesh", lambda: M.TB(*(M.b.FundamentalTransformedBasis(s) for s in self.mesh)))

    def bands(self):  # noqa: ANN201
        return self.once("n_bands", lambda: M.b.FundamentalBasis(min(self.n_bands, int(np.prod(self.shape)))))

    def unfurled(self):  # noqa: ANN201
        """The space of the states of a wavepacket."""
        return self.once("unfurled", lambda: M.TB(*(M.b.FundamentalPositionBasis(x * m, n * m) for x, m, n in zip(self.dx, self.mesh, self.shape))))

    def small(self):  # noqa: ANN201
        """A small basis."""
        return self.once("small", lambda: M.TB(*(M.b.FundamentalPositionBasis(x, n) for x, n in zip(self.dx, (2, *(1,) * self.ndim)))))

    def fourier_operators(self):  # noqa: ANN201
        """Noise operators of an isotropic kernel."""
        b = self.stacked("x")
        n = b.n
        grids = np.stack(np.meshgrid(*(np.arange(s) for s in b.shape), indexing="ij"), -1).reshape(n, -1)
        f = np.exp(2j * np.pi * (grids / np.array(b.shape)) @ grids.T) / np.sqrt(n)
        return {"basis": M.TB(M.b.FundamentalBasis(n), M.TB(b, b)), "data": f.ravel(), "eigenvalue": np.ones(n) + 0j + self.positive(1)[0]}

    def line(self):  # noqa: ANN201
        """A space with one dimension and a true length."""
        return self.once("line", lambda: M.TB(M.b.FundamentalPositionBasis(np.array([2.0 + self.dx[0, 0]]), int(np.prod(self.shape)))))

    # values --------------------------------------------------------------
    def state(self, basis=None, eigenvalue: bool = False):  # noqa: ANN001, ANN201, FBT001, FBT002
        basis = basis or self.stacked()
        out = {"basis": basis, "data": self.cplx(basis.n)}
        if eigenvalue:
            out["eigenvalue"] = complex(self.rng.normal())
        return out

    def states(self, lst=None, basis=None, eig: bool = False):  # noqa: ANN001, ANN201, FBT001, FBT002
        lst, basis = lst or self.list_basis(), basis or self.stacked()
        out = {"basis": M.TB(lst, basis), "data": self.cplx(lst.n * basis.n)}
        if eig:
            out["eigenvalue"] = np.sort(self.rng.normal(size=lst.n) * self.scale).astype(np.complex128)
        return out

    def operator(self, basis=None, hermitian: bool | None = None, dual=None):  # noqa: ANN001, ANN201, FBT001
        basis = basis or self.stacked()
        dual = dual or basis
        herm = self.rng.random() < 0.5 if hermitian is None else hermitian
        data = self.lay(self.hermitian(basis.n).ravel()) if herm and dual.n == basis.n else self.cplx(basis.n * dual.n)
        return {"basis": M.TB(basis, dual), "data": data}

    def diagonal(self, basis=None, real: bool = False):  # noqa: ANN001, ANN201, FBT001, FBT002
        basis = basis or self.stacked()
        return {"basis": M.TB(basis, basis), "data": (self.real if real else self.cplx)(basis.n)}

    def operator_list(self, lst=None, basis=None, diagonal: bool = False, eig: bool = False):  # noqa: ANN001, ANN201, FBT001, FBT002
        lst, basis = lst or self.fund(), basis or self.stacked()
        n = basis.n if diagonal else basis.n ** 2
        out = {"basis": M.TB(lst, M.TB(basis, basis)), "data": self.cplx(lst.n * n)}
        if eig:
            out["eigenvalue"] = self.positive(lst.n).astype(np.complex128)
        return out

    def isotropic(self, basis=None):  # noqa: ANN001, ANN201
        """A kernel which depends on the distance between two points only."""
        basis = basis or self.stacked("x")
        shape = getattr(basis, "shape", (basis.n,))
        x = np.zeros(shape)
        for axes in itertools.product(*(range(s) for s in shape)):
            d = sum((1 + i) * np.sin(np.pi * a / s) ** 2 for i, (a, s) in enumerate(zip(axes, shape)))
            x[axes] = np.exp(-d * 1.3) * self.scale_of("isotropic")
        return {"basis": basis, "data": self.lay(x.ravel().astype(np.complex128))}

    def scale_of(self, key: str) -> float:
        return self.once(("scale", key), lambda: float(1 + self.rng.random()))

    def diagonal_kernel(self, basis=None):  # noqa: ANN001, ANN201
        basis = basis or self.stacked("x")
        a = self.orthonormal(basis.n, basis.n)
        d = (a.conj().T * np.arange(1, basis.n + 1)) @ a
        return {"basis": M.TB(M.TB(basis, basis), M.TB(basis, basis)), "data": self.lay(d.ravel())}

    def kernel(self, basis=None):  # noqa: ANN001, ANN201
        basis = basis or self.stacked("x")
        if basis.n > 9:
            basis = M.TB(*(M.b.FundamentalPositionBasis(self.dx[i].copy(), 2) for i in range(self.ndim)))
        n = basis.n
        a = self.rng.normal(size=(n, n, n)) + 1j * self.rng.normal(size=(n, n, n))
        d = np.einsum("a,aji,akl->ijkl", np.arange(1, n + 1), a.conj(), a)
        return {"basis": M.TB(M.TB(basis, basis), M.TB(basis, basis)), "data": self.lay(d.ravel())}

    def wavepacket(self, eig: bool = True, basis=None, mesh=None):  # noqa: ANN001, ANN201, FBT001, FBT002
        mesh, basis = mesh or self.mesh_basis(), basis or self.stacked()
        out = {"basis": M.TB(mesh, basis), "data": self.lay(np.concatenate([self.orthonormal(1, basis.n).ravel() for _ in range(mesh.n)]))}
        if eig:
            out["eigenvalue"] = self.lay((self.rng.normal(size=mesh.n) * self.scale).astype(np.complex128))
        return out

    def wavepackets(self, eig: bool = True, basis=None, mesh=None, bands: int | None = None):  # noqa: ANN001, ANN201, FBT001, FBT002
        mesh, basis = mesh or self.mesh_basis(), basis or self.stacked()
        band_basis = self.bands() if bands is None and basis.n >= self.bands().n else M.b.FundamentalBasis(min(bands or self.n_bands, basis.n))
        bands = band_basis.n
        lst = M.TB(band_basis, mesh)
        data = np.stack([self.orthonormal(bands, basis.n) for _ in range(mesh.n)], axis=1)
        out = {"basis": M.TB(lst, basis), "data": self.lay(data.ravel())}
        if eig:
            out["eigenvalue"] = self.lay(np.sort(self.rng.normal(size=(bands, mesh.n)) * self.scale, axis=0).ravel().astype(np.complex128))
        return out

    def bands_basis(self):  # noqa: ANN201
        return self.once("bands", lambda: M.tun(self.rng.random((2, self.n_bands)), tuple(np.array([[1.0, 0.2], [0.1, 1.3]]))))

    def tunnelling_basis(self):  # noqa: ANN201
        return self.once("tun", lambda: M.TB(M.b.FundamentalBasis(3), M.b.FundamentalBasis(3), self.bands_basis()))

    def a_matrix(self):  # noqa: ANN201
        b = self.tunnelling_basis()
        a = np.zeros((*b.shape, *b.shape))
        hop = self.rng.random((3, 3, self.n_bands, self.n_bands)) + 0.1
        for i, j, k, m in itertools.product(range(3), repeat=4):
            a[i, j, :, k, m, :] = hop[(k - i) % 3, (m - j) % 3]
        return {"basis": M.TB(b, b), "data": self.lay(a.reshape(-1).astype(np.complex128))}

    def m_matrix(self):  # noqa: ANN201
        out = self.a_matrix()
        b = out["basis"][0]
        a = out["data"].reshape(b.n, b.n)
        a = (a + a.T) / 2
        np.fill_diagonal(a, 0)
        np.fill_diagonal(a, -a.sum(axis=0))
        return {"basis": M.TB(b, b), "data": self.lay(a.ravel())}

    def density(self):  # noqa: ANN201
        b = self.tunnelling_basis()
        p = np.abs(self.rng.normal(size=b.n))
        return {"basis": M.TB(b, b), "data": (p / p.sum()).astype(np.complex128)}

    def probability(self, basis=None, lst=None):  # noqa: ANN001, ANN201
        basis = basis or self.stacked("x")
        if lst is None:
            return {"basis": basis, "data": self.positive(basis.n)}
        return {"basis": M.TB(lst, basis), "data": self.positive(lst.n * basis.n)}

    def values(self, *lists):  # noqa: ANN002, ANN201
        b = M.TB(*lists) if len(lists) > 1 else lists[0]
        out = {"basis": b, "data": self.real(b.n)}
        if self.rng.random() < 0.3:
            out["standard_deviation"] = self.positive(b.n)
        return out

    def potential(self, basis=None):  # noqa: ANN001, ANN201
        basis = basis or self.stacked(self.pick("x", "x", "k"))
        return {"basis": basis, "data": self.lay((self.rng.normal(size=basis.n) * self.scale).astype(np.complex128))}

    def uneven(self):  # noqa: ANN201
        if self.ndim != 3:
            raise NoArg
        x = self.stacked("x")
        z = np.sort(self.rng.random(self.shape[2])) * 2
        zb = types.SimpleNamespace(z_points=z, n=z.size, fundamental_n=z.size)
        plane = M.TB(*(M.b.FundamentalPositionBasis(np.array(self.dx[i, :2]), self.shape[i]) for i in range(2)))
        b = M.TB(plane[0], plane[1], zb)
        return {"basis": b, "data": self.lay(self.rng.normal(size=x.n).astype(np.complex128))}

    def overlap(self, single: bool):  # noqa: ANN201, FBT001
        b = self.stacked(self.pick("x", "k"))
        lst = M.TB(self.fund(1), self.fund(1)) if single else M.TB(self.fund(2), self.fund(2))
        return {"basis": M.TB(b, lst), "data": self.cplx(b.n * lst.n)}

    def path(self):  # noqa: ANN201
        n = int(self.rng.integers(1, 5))
        return np.array([self.rng.integers(-s, 2 * s, size=n) if self.rng.random() < 0.2 else self.rng.integers(0, s, size=n) for s in self.shape]).reshape(self.ndim, n)

    def index(self, shape=None):  # noqa: ANN001, ANN201
        return tuple(int(self.rng.integers(s)) for s in (shape or self.shape))

    def generator(self):  # noqa: ANN201
        basis = self.stacked("x")
        a = [self.hermitian(basis.n) for _ in range(2 * self.ndim + 1)]

        def hamiltonian(k):  # noqa: ANN001, ANN202
            h = a[0].copy()
            for i, x in enumerate(np.real(k)):
                h = h + np.cos(2 * np.pi * x) * a[2 * i + 1] + np.sin(2 * np.pi * x) * a[2 * i + 2]
            return {"basis": M.TB(basis, basis), "data": h.ravel()}

        return hamiltonian


# ---------------------------------------------------------------------------
# providers: (operation, parameter, annotation) patterns -> value; the first that matches is used
P: list = []


def give(param: str, ann: str = "", op: str = "", *, local: bool = False):  # noqa: ANN201
    """Register a provider."""

    def reg(f):  # noqa: ANN001, ANN202
        f.local = local
        P.append((re.compile(op), re.compile(f"^({param})$"), re.compile(ann), f))
        return f

    return reg


def provider(op: str, param: str, ann: str):  # noqa: ANN201
    """Find the provider."""
    for o, p, a, f in P:
        if p.match(param) and a.search(ann) and o.search(op):
            return f
    return None


def build(world: World, op: str, seed: list[int]):  # noqa: ANN201
    """Arguments for an operation; values may be shared with other calls."""
    r = np.random.default_rng(seed)
    kwargs = {}
    world.rng = r  # numbers of this call
    local: dict = {"op": op, "rng": r}
    for name, p in M.sigs[op].parameters.items():
        if p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL):
            continue
        f = provider(op, name, str(p.annotation))
        optional = p.default is not p.empty
        if f is None:
            if optional:
                continue
            raise NoArg(f"{op}({name}: {p.annotation})")
        if optional and r.random() < 0.5:
            continue
        share = r.random() < 0.5
        key = (f, int(r.integers(2)))
        if share and key in world.pool and not f.local:
            kwargs[name] = world.pool[key]
        else:
            kwargs[name] = world.pool[key] = f(world, local)
        local[name] = kwargs[name]
    return kwargs


def register() -> None:  # noqa: PLR0915
    """All providers, the most specific first."""
    def g(param, f, ann="", op="", *, local=False):  # noqa: ANN001, ANN202
        give(param, ann, op, local=local)(f)

    def space(loc):  # noqa: ANN001, ANN202
        """The basis of the space of the values given so far."""
        for v in loc.values():
            if isinstance(v, dict) and "basis" in v:
                return v["basis"]
        return loc.get("basis")

    # ---- members of bases
    g("util", lambda w, loc: w.once(("util", int(w.rng.integers(3))), lambda: M.util(w.pick(w.stacked("x"), w.stacked("k"), w.stacked("tk"), w.stacked("ex"), w.axis(0, "x"), w.axis(0, "tk"), w.stacked("mixed")))))
    g("stacked", lambda w, loc: tuple(w.rng.integers(-3, 4, size=5) for _ in range(w.ndim)) if w.rng.random() < 0.5 else w.index())
    g("flat", lambda w, loc: w.rng.integers(0, int(np.prod(w.shape)), size=4) if w.rng.random() < 0.5 else 0)
    g("either", lambda w, loc: w.pick(tuple(w.rng.integers(-3, 4, size=5) for _ in range(w.ndim)), w.index(), w.rng.integers(0, int(np.prod(w.shape)), size=4)))
    g("mode", lambda w, loc: "wrap", local=True)
    g("any_basis", lambda w, loc: w.pick(w.stacked("x"), w.stacked("k"), w.stacked("tk"), w.stacked("ex"), w.axis(0, "x"), w.axis(0, "k"), w.axis(0, "tk"), w.axis(0, "tx"), M.es.EvenlySpacedBasis(int(np.prod(w.shape)), 2, 1)))
    g("other_basis", lambda w, loc: loc["any_basis"] if w.rng.random() < 0.1 else w.pick(w.stacked("x"), w.stacked("k"), w.stacked("tk"), w.axis(0, "x"), w.axis(0, "k"), w.axis(0, "tk"), w.axis(0, "tx")))
    g("numbers", lambda w, loc: _numbers(w, loc["any_basis"].fundamental_n if "from" in loc["op"] else loc["any_basis"].n), local=True)
    g("along", lambda w, loc: int(w.rng.integers(-1, 1)), local=True)
    g("time_basis", lambda w, loc: w.once(("times", int(w.rng.integers(2))), w.times))
    g("explicit_basis", lambda w, loc: w.stacked("ex"))
    # ---- exceptions to the rules below
    g("basis", lambda w, loc: w.pick(M.TB(w.stacked("k"), w.stacked("k")), M.TB(w.stacked("x"), w.stacked("x")), M.TB(w.stacked("x"), w.stacked("k")), M.TB(w.stacked("tk"), w.stacked("ex"))), "", r"operator.conversion|conversion.convert_.*noise_operator")
    g("kernel", lambda w, loc: w.kernel(w.small()), "^(?!.*Diagonal)", "convert_kernel|kernel_truncation_error|truncate_noise_kernel|operators_eigenvalue|kernel_sparsity")
    g("basis", lambda w, loc: M.TB(*(2 * (M.TB(*(2 * (w.small(),))),))), "", "convert_kernel")
    g("basis", lambda w, loc: M.TB(*(2 * (M.TB(w.stacked("k"), w.stacked("k")),))), "", "convert_diagonal_kernel")
    g("states", lambda w, loc: w.states(w.pick(w.times(), M.TB(w.fund(2), w.times()), w.fund()), w.line()), "", "state_vector.plot.(get_coh|plot_.*spread|plot_.*distr|plot_average_(disp|drift|isf)|plot_(periodic_)?averaged)")
    g("kernel", lambda w, loc: w.isotropic(w.line()), "Isotropic", "1d_x")
    g("true_kernel|fitted_kernel", lambda w, loc: w.isotropic(w.line()), "Isotropic")
    g("kernel", lambda w, loc: w.isotropic(w.line()[0]), "Isotropic", "real_isotropic_(fft|taylor)")
    g("operators", lambda w, loc: w.fourier_operators(), "", "isotropic_kernel_from")
    g("path", lambda w, loc: np.array([w.rng.integers(0, n, size=3) for n in w.shape[:-1]]).reshape(w.ndim - 1, 3), "", "minimum")
    g("axis", lambda w, loc: -1, "", "minimum", local=True)
    g("idx", lambda w, loc: (0, 0), "", "plot_uneven_potential_z$", local=True)
    g("basis", lambda w, loc: w.wavepacket()["basis"], "", "most_localized_free|single_point_state_vectors|evenly_spaced_points")
    g("wavepacket", lambda w, loc: w.wavepacket(basis=w.stacked("k"), mesh=w.mesh_basis()), "", "get_all_eigenstates|localize_position")
    g("list_basis", lambda w, loc: M.bf.ExplicitBlockFractionBasis(w.rng.random((w.ndim, 3))), "", "generate_uneven")
    g("axes", lambda w, loc: w.pick((0,), (1,), (0, 1)), "", "probability_along_axis|get_state_along_axis", local=True)
    g("idx", lambda w, loc: (0,) * (2 - len(loc.get("axes", (0,)))), "", "probability_along_axis|get_state_along_axis", local=True)
    g("axis", lambda w, loc: w.pick(None, (0,), (0, 1)), "", "average_prob|average_state|sum_probab", local=True)
    g("idx", lambda w, loc: w.index(), "", "single_point_state_vector_ex", local=True)
    g("hamiltonian", lambda w, loc: w.diagonal(M.TB(w.bands(), w.mesh_basis())), "", "localized_hamiltonian")
    g("times", lambda w, loc: np.linspace(0.0, 2, w.n_times), "ndarray", "incoherent")
    g("times", lambda w, loc: np.linspace(0.0, 6, 24), "ndarray|_AX|Any", "dynamics.isf")
    g("eigenstates", lambda w, loc: w.states(M.b.FundamentalBasis(w.stacked("x").n), w.stacked("x")), "", "schrodinger")
    g("initial_state", lambda w, loc: w.state(w.stacked("x")), "", "")
    g("hamiltonian", lambda w, loc: w.operator(w.stacked("x"), True), "", "schrodinger")
    g("times", lambda w, loc: M.tb.FundamentalTimeBasis(w.n_times, 0.5), "", "schrodinger.solve.solve_stoch|sochastic")
    g("times", lambda w, loc: M.tb.EvenlySpacedTimeBasis(w.n_times, 1000, 0, 0.01 / w.scale * 1e-34 if w.scale != 1 else 1e-34), "", "schrodinger.solve.solve_schrodinger_equation$")
    g("rates", lambda w, loc: [M.inc_isf.RateDecomposition(-np.abs(w.rng.normal(size=60)) + 0j, w.cplx(60)) for _ in range(3)])
    g("probability", lambda w, loc: w.probability(w.tunnelling_basis(), M.TB(w.fund(2), w.times())), "", "average_probability_per_band")
    g("eigenvalues", lambda w, loc: w.values(w.fund(2), w.times()), "", "plot_average_isf")
    g("basis", lambda w, loc: w.line(), "", "gaussian_parameters|lorentzian_parameter|lorentzian_isotropic|lorentzian_operators")
    g("basis", lambda w, loc: w.line()[0], "", "get_displacements_x$|displacements_matrix_x$|build_isotropic_kernel_from_function$")
    g("eigenvalues", lambda w, loc: w.operator_list(M.TB(w.fund(2), w.fund(3)), M.TB(w.fund(2), w.fund(3)), diagonal=True), "", "average_eigenvalues_list")
    g("overlap", lambda w, loc: {"basis": M.TB(w.stacked("x"), M.TB(w.fund(1), w.fund(1))), "data": w.cplx(w.stacked("x").n)}, "", "along_k|k_diagonal|along_path_k")
    g("shape", lambda w, loc: (12, 12), "", "comparison_points")
    g("potential", lambda w, loc: w.potential(w.stacked("x")), "", "minimum_path|minimum_along")
    g("states", lambda w, loc: w.states(M.b.FundamentalBasis(w.stacked("x").n), w.stacked("x"), eig=True), "", "operator_from_eigenstates")
    g("eigenvalues", lambda w, loc: w.values(w.times()), "", "state_vector.eigenvalue_list_plot.plot_eigenvalue_against_time")
    g("states", lambda w, loc: w.states(M.TB(w.fund(2), w.times()), w.stacked("x")), "_BT0", "")
    g("states", lambda w, loc: w.states(w.pick(w.fund(), M.TB(w.fund(2), w.times())), w.stacked("x")), "", "state_vector.plot.get_coherent|plot_spread|distribution_1d")
    g("state_0|state_1", lambda w, loc: w.states(w.fund(), w.tuple_basis(), eig=True), "Eigenstate", "inner_products_eig")
    g("basis", lambda w, loc: w.stacked("x"), "", "state_vector.util|evenly_spaced_points")
    g("n", lambda w, loc: int(w.rng.integers(1, 4)), "", "build_animation", local=True)
    g("data", lambda w, loc: w.real(6, 5), "", "interpolate_points_along_axis_spline")
    g("old_coords", lambda w, loc: np.sort(w.rng.random(5)), "", "interpolate_points_along_axis_spline")
    g("axis", lambda w, loc: -1, "", "interpolate_points_along_axis_spline", local=True)
    g("wavepackets", lambda w, loc: [w.wavepacket() for _ in range(2)], "^list|Iterable|Iterator", "")
    g("projections", lambda w, loc: w.states(w.bands(), w.unfurled()))
    g("projection", lambda w, loc: w.state(w.unfurled()))
    g("operator", lambda w, loc: w.diagonal(M.TB(w.mesh_basis(), w.bands())), "DiagonalLocalization", "")
    g("wavepacket", lambda w, loc: w.wavepackets(basis=w.tuple_basis(), mesh=M.bf.ExplicitBlockFractionBasis(w.rng.random((w.ndim, 3)))), "", "uneven_wavepacket")
    # ---- arrays with shapes of their own
    g("points", lambda w, loc: w.cplx(*w.shape), "Unpack|complex128", "util.interpolation")
    g("points|array", lambda w, loc: w.cplx(*w.shape), "", "util.interpolation")
    g("s", lambda w, loc: tuple(int(x) for x in w.rng.integers(1, 8, size=len(loc["axes"]) if "axes" in loc else w.ndim)), "", "util.interpolation", local=True)
    g("s", lambda w, loc: tuple(int(x) for x in w.rng.integers(1, 8, size=w.ndim)), "", "", local=True)
    g("n", lambda w, loc: int(w.rng.integers(1, 9)), "", "util.interpolation", local=True)
    g("axes", lambda w, loc: tuple(range(w.ndim)), "", "pad_ft_points|interpolate_points_fftn", local=True)
    g("axis", lambda w, loc: int(w.rng.integers(-1, w.ndim)), "", "util.interpolation", local=True)
    g("data", lambda w, loc: w.real(*w.shape), "", "interpolate_points_along_axis_spline")
    g("old_coords", lambda w, loc: np.sort(w.rng.random(loc["data"].shape[-1])), "", "", local=True)
    g("vector|co_vector", lambda w, loc: w.cplx(w.n_list, int(np.prod(w.shape))), "ndarray")
    g("matrix", lambda w, loc: w.cplx(int(np.prod(w.shape)), int(np.prod(w.shape))), "ndarray")
    g("axis", lambda w, loc: w.pick(-1, 1), "", "convert_(dual_)?vector", local=True)
    g("axes", lambda w, loc: w.pick((0, 1), (-2, -1)), "", "basis_like.convert_matrix", local=True)
    g("initial_basis|final_basis|initial_dual_basis|final_dual_basis", lambda w, loc: w.pick(w.stacked("x"), w.stacked("k"), w.stacked("x")))
    g("vectors", lambda w, loc: w.cplx(w.n_list, int(np.prod(w.shape))))
    # ---- interpolation, plots of plain data
    g("data", lambda w, loc: w.cplx(7), "", "util.plot.plot_data_1d$")
    g("coordinates", lambda w, loc: np.linspace(0, 1, 7), "", "util.plot.plot_data_1d$")
    g("y_errors", lambda w, loc: w.positive(7), "", "util.plot.plot_data_1d$")
    g("data", lambda w, loc: w.cplx(4, 5), "", "util.plot.plot_data_2d$")
    g("coordinates", lambda w, loc: np.array(np.meshgrid(np.arange(4), np.arange(5), indexing="ij")).reshape(2, -1), "", "util.plot.plot_data_2d$")
    g("basis", lambda w, loc: w.stacked("x"), "", "util.plot")
    g("data", lambda w, loc: w.cplx(w.n_list, *w.shape).reshape(-1) if w.rng.random() < 0.5 else w.cplx(w.n_list, int(np.prod(w.shape))), "", "util.plot.animate_data_through_list")
    g("basis", lambda w, loc: w.stacked("x"), "", "animate_data_through_list")
    g("data", lambda w, loc: w.cplx(int(np.prod(w.shape))), "", "util.plot")
    g("data", lambda w, loc: w.cplx(*w.shape), "", "get_data_in_axes|get_max_idx", local=True)
    g("data", lambda w, loc: w.cplx(*w.shape), "ndarray", "util.util")
    g("axes", lambda w, loc: tuple(int(x) for x in w.rng.permutation(w.ndim)[: int(w.rng.integers(1, w.ndim + 1))]), "", "util.util|get_max_idx", local=True)
    g("idx", lambda w, loc: tuple(int(w.rng.integers(w.shape[a])) for a in range(w.ndim) if a not in loc["axes"]), "", "get_data_in_axes", local=True)
    g("slice_at_axis", lambda w, loc: w.pick(slice(1, 3), 0, slice(None), None))
    g("old_slice", lambda w, loc: [w.pick(slice(1, 3), 0, slice(None)) for _ in range(w.ndim)])
    g("path", lambda w, loc: w.path(), "ndarray|Inv")
    g("coordinates", lambda w, loc: w.rng.normal(size=(w.ndim, *w.shape)), "", "cumulative_distances")
    g("coordinates|points", lambda w, loc: w.rng.normal(size=(w.ndim, 5)))
    g("build_frame", lambda w, loc: (lambda i, ax: ax.pcolormesh(np.arange(6).reshape(2, 3) * (i + 1.0))))
    g("axis", lambda w, loc: _NEW_AXES(), "", "get_axis_colorbar", local=True)
    # ---- plot options
    g("ax", lambda w, loc: _AX if w.rng.random() < 0.25 else None, "", "", local=True)
    g("scale", lambda w, loc: w.pick("linear", "linear", "symlog", "log", "squared"), "", "", local=True)
    g("measure", lambda w, loc: w.pick("abs", "real", "imag", "angle"), "", "", local=True)
    g("clim", lambda w, loc: w.pick((None, None), (0, 1), (None, 2.0)), "", "", local=True)
    g("periodic|wrap_distances|hermitian", lambda w, loc: bool(w.rng.integers(2)), "", "", local=True)
    g("assert_isotropic|assert_periodic", lambda w, loc: False, "", "", local=True)
    g("y_errors|distribution|truncations|bands", lambda w, loc: None, "", "", local=True)
    # ---- tunnelling
    g("matrix", lambda w, loc: w.m_matrix(), "MMatrix")
    g("matrix", lambda w, loc: {"basis": M.TB(w.bands_basis(), M.TB(w.bands_basis(), M.b.FundamentalBasis(9))), "data": w.positive(9 * w.n_bands ** 2)}, "JumpMatrix")
    g("matrix", lambda w, loc: w.a_matrix(), "AMatrix|Any")
    g("matrix", lambda w, loc: w.operator(w.tunnelling_basis(), True), "Operator|DensityMatrix")
    g("initial|density_matrix", lambda w, loc: w.density(), "DiagonalOperator|Any")
    g("shape", lambda w, loc: w.tun_shape, "", "tunnelling|collapse_operators|tunnelling_basis|build_hop", local=True)
    g("n_bands", lambda w, loc: int(w.rng.integers(1, w.n_bands + 1)), "", "dynamics", local=True)
    g("bands_basis", lambda w, loc: w.bands_basis())
    g("jump_function", lambda w, loc: (lambda i, j, hop: 1.0 + i + 2 * j + hop))
    g("a_function", lambda w, loc: (lambda i, j, a, b: 1.0 + i + 2 * j + a[0] + 3 * b[1]))
    g("hop", lambda w, loc: int(w.rng.integers(9)), "", "", local=True)
    g("ndim", lambda w, loc: 2, "", "", local=True)
    g("factor", lambda w, loc: w.pick(2.0, 0.5 + 1j), "", "scale_op", local=True)
    g("factor", lambda w, loc: 0.5, "", "", local=True)
    g("dk", lambda w, loc: np.array([0.3, 0.7]))
    g("eigenstates", lambda w, loc: _tunnelling_eigenstates(w), "", "incoherent")
    g("initial_occupation", lambda w, loc: w.probability(w.tunnelling_basis()))
    g("final_occupation", lambda w, loc: w.probability(w.tunnelling_basis(), w.times()))
    g("idx", lambda w, loc: (0, 0, 0), "", "get_initial_pure", local=True)
    g("basis", lambda w, loc: w.tunnelling_basis(), "", "get_initial_pure|tunnelling_matrix")
    g("rates", lambda w, loc: [M.inc_isf.RateDecomposition(-np.abs(w.rng.normal(size=4)) + 0j, w.cplx(4)) for _ in range(3)])
    g("temperatures", lambda w, loc: np.array([100.0, 120, 150]))
    g("times", lambda w, loc: w.times(), "_AX|_BT|Basis")
    # ---- ISF fits
    g("fit", lambda w, loc: M.isf.ISF4VariableFit(2.0, 0.4, 0.3, 0.5, 0.1), "ISF4VariableFit")
    g("fit", lambda w, loc: M.isf.ISFFey4VariableFit(2.0, 2.0, 0.4, 0.3, 0.5, 0.1), "Fey4")
    g("fit", lambda w, loc: M.isf.ISFFeyModelFit(2.0, 0.3), "FeyModel")
    g("isf", lambda w, loc: _isf(w))
    g("times", lambda w, loc: M.tb.FundamentalTimeBasis(24, 6.0) if w.rng.random() < 0.5 else M.tb.ExplicitTimeBasis(np.linspace(0.0, 6, 24)), "", "isf_plot|dynamics.isf")
    g("t", lambda w, loc: np.linspace(0, 3, 5))
    g("fast_rate|slow_rate|fast_amplitude|slow_amplitude|a_dk|lam", lambda w, loc: float(w.rng.random() + 0.2), "", "", local=True)
    g("offset", lambda w, loc: 0.1, "float|Float", "isf", local=True)
    g("start_t|end_t", lambda w, loc: None, "None", "", local=True)
    g("start_t", lambda w, loc: 0.1, "", "", local=True)
    g("eigenvalues", lambda w, loc: w.diagonal(w.times()), "", "isf_plot.plot_isf")
    g("eigenvalues", lambda w, loc: w.diagonal(M.TB(w.fund(3), w.times())), "", "isf_plot")
    g("k", lambda w, loc: np.linspace(0.1, 2, 5), "", "gamma")
    g("omega|k_f|boltzmann_energy", lambda w, loc: float(w.rng.random() + 0.5), "", "", local=True)
    g("overlap", lambda w, loc: (lambda q: np.exp(-q * q) + 0j), "Callable")
    # ---- basis arguments of unusual kinds
    g("basis", lambda w, loc: w._explicit(), "", "plot_explicit_basis")  # noqa: SLF001
    g("idx", lambda w, loc: 0, "", "plot_explicit_basis", local=True)
    g("axis", lambda w, loc: w.axis(int(w.rng.integers(w.ndim)), w.pick("x", "k", "tk", "tx")), "Basis")
    g("delta_x", lambda w, loc: np.array([2.0]), "", "basis.conversion")
    g("n", lambda w, loc: 5, "", "basis.conversion", local=True)
    g("basis", lambda w, loc: _basis_3d(w), "", "brillouin_zone|bragg|brillouin")
    g("parent", lambda w, loc: _basis_3d(w), "_BL0|TupleBasis", "stacked_basis.build")
    g("parent", lambda w, loc: _axis_3d(w), "", "sho_basis")
    g("x_points", lambda w, loc: np.linspace(-1, 1, 5), "", "sho")
    g("sho_omega", lambda w, loc: 1e12, "", "", local=True)
    g("x_origin", lambda w, loc: np.array([0.0, 0, -1e-10]))
    g("n", lambda w, loc: 3, "", "sho|potential_basis", local=True)
    g("config", lambda w, loc: {"sho_omega": 1e13, "mass": 1e-27, "x_origin": np.array([0.0, 0, 0])}, "SHO")
    g("config", lambda w, loc: _potential_config(w), "Potential")
    g("resolution", lambda w, loc: (2, 2, 3), "", "", local=True)
    g("delta_x", lambda w, loc: np.eye(3)[: 3] * 2.0, r"Literal\[3\], Literal\[3\]")
    g("delta_x", lambda w, loc: (np.array([2.0, 0, 0]), np.array([0, 1.0, 0]), np.array([0, 0, 3.0])), r"tuple\[np")
    g("delta_x", lambda w, loc: w.dx.copy())
    g("shape", lambda w, loc: (2, 3, 2), "_L0, _L1, _L2", "", local=True)
    g("shape", lambda w, loc: w.shape, "", "stacked_basis.build", local=True)
    g("shape", lambda w, loc: tuple(int(x) for x in w.rng.integers(1, 6, size=w.ndim)), "", "stacked_basis.conv|interpolate_state", local=True)
    g("bragg_point", lambda w, loc: tuple(int(x) for x in w.rng.integers(-2, 3, size=3)), "Stacked", "", local=True)
    g("bragg_point", lambda w, loc: w.rng.normal(size=3))
    g("coordinate", lambda w, loc: tuple(w.rng.integers(-4, 5, size=5) for _ in range(3)) if w.rng.random() < 0.5 else tuple(int(x) for x in w.rng.integers(-4, 5, size=3)))
    g("point", lambda w, loc: w.rng.normal(size=3))
    g("n_bands", lambda w, loc: int(w.rng.integers(1, 3)), "", "brillouin", local=True)
    g("n_bands", lambda w, loc: w.n_bands, "", "", local=True)
    g("points", lambda w, loc: w.rng.normal(size=(w.ndim, 5)))
    g("axes", lambda w, loc: (0, 1), "", "brillouin|projected_2d", local=True)
    g("origin", lambda w, loc: w.rng.normal(size=w.ndim) if w.rng.random() < 0.5 else tuple(float(x) for x in w.rng.normal(size=w.ndim)), "float, ", "wrap_x|displacements", local=True)
    g("origin", lambda w, loc: float(w.rng.normal()), "float", "", local=True)
    g("origin", lambda w, loc: w.index(), "", "", local=True)
    g("axes", lambda w, loc: tuple(range(w.ndim)), "", "wrap_index", local=True)
    g("idx", lambda w, loc: tuple(w.rng.integers(-9, 9, size=4) for _ in range(w.ndim)) if w.rng.random() < 0.5 else w.index(), "", "wrap_index|mirrored", local=True)
    g("idx", lambda w, loc: (), "", "coordinates_in_axes", local=True)
    g("axes", lambda w, loc: tuple(range(w.ndim)), "", "coordinates_in_axes", local=True)
    # ---- Hamiltonians
    g("bloch_fraction", lambda w, loc: w.rng.random(3), r"Literal\[3\]")
    g("bloch_fraction", lambda w, loc: float(w.rng.random()), r"float \|", "", local=True)
    g("bloch_fraction", lambda w, loc: w.rng.random(w.ndim))
    g("mass", lambda w, loc: 5e-27, "", "", local=True)
    g("hamiltonian_generator", lambda w, loc: w.generator())
    g("list_basis", lambda w, loc: w.mesh_basis() if w.rng.random() < 0.5 else M.bf.ExplicitBlockFractionBasis(w.rng.random((w.ndim, 3))), "", "generate_uneven")
    g("list_basis", lambda w, loc: w.mesh_basis(), "", "generate_wavepacket|sample_fractions")
    g("band_basis", lambda w, loc: M.b.FundamentalBasis(min(w.n_bands, int(np.prod(w.shape)))))
    # ---- kernels
    g("basis", lambda w, loc: w.axis(0, "x"), "", "kernel.*(explicit_taylor|periodic_operators_for_real|lorentzian|_taylor|effective_gaussian_param|effective_lorentzian_param)(?!.*stacked)")
    g("fn", lambda w, loc: (lambda x: np.exp(-np.abs(x) ** 2) + 0j))
    g("a|lambda_|eta", lambda w, loc: float(w.rng.random() + 0.5), "float", "", local=True)
    g("lambda_factor", lambda w, loc: 2.0, "", "", local=True)
    g("temperature", lambda w, loc: float(w.rng.random() * 50 + 100), "", "", local=True)
    g("truncation", lambda w, loc: w.pick(None, [0], range(2)), "None", "", local=True)
    g("truncation", lambda w, loc: w.pick([0], range(1), [0, 0]), "", "", local=True)
    g("n_terms|fundamental_n|n", lambda w, loc: w.pick(None, 1, 2), "None", "kernel", local=True)
    g("shape|fundamental_shape", lambda w, loc: w.pick(None, tuple(1 for _ in w.shape)), "None", "kernel", local=True)
    g("polynomial_coefficients", lambda w, loc: w.rng.random(2) + 0.1)
    g("n_samples|n_trajectories|n_realizations", lambda w, loc: int(w.rng.integers(1, 3)), "", "", local=True)
    g("kernels", lambda w, loc: w.once("axis_kernels", lambda: tuple(w.isotropic(w.axis(i, "x")) for i in range(w.ndim))), "Axis")
    g("kernels", lambda w, loc: w.isotropic(), "Isotropic")
    g("kernel|true_kernel|fitted_kernel", lambda w, loc: w.isotropic(w.axis(0, "x")) if w.ndim > 1 and w.rng.random() < 0.5 else w.isotropic(), "Isotropic")
    g("kernel|diagonal", lambda w, loc: w.diagonal_kernel(), "Diagonal")
    g("kernel", lambda w, loc: w.kernel(), "Kernel")
    g("operators_list", lambda w, loc: tuple(w.operator_list(None, w.axis(i, "x"), diagonal=True, eig=True) for i in range(w.ndim)))
    g("operators|operator", lambda w, loc: w.operator_list(None, w.stacked("x"), diagonal=True, eig=True), "DiagonalNoise")
    g("operators|operator", lambda w, loc: w.operator_list(None, w.stacked("x"), eig=True), "Noise")
    g("split", lambda w, loc: w.operator_list(M.TB(w.fund(2), w.fund(2)), w.stacked("x"), diagonal=True))
    g("basis", lambda w, loc: w.pick(w.stacked("k"), w.stacked("x")), "", "kernel.conversion.convert_isotropic")
    g("basis", lambda w, loc: w.stacked("x"), "", "kernel")
    # ---- operators
    g("matrix|hamiltonian", lambda w, loc: w.operator(w.tuple_basis(), True), "", "state_vector.plot|animate_all")
    g("hamiltonian", lambda w, loc: w.wavepackets_operator(), "", "localized_hamiltonian")
    g("hamiltonian", lambda w, loc: w.operator(M.TB(w.fund(2), w.stacked("x")), True), "", "average_band_energy")
    g("hamiltonian", lambda w, loc: w.operator(w.tuple_basis(), True))
    g("collapse_operators", lambda w, loc: [w.operator(w.tuple_basis(), False)])
    g("initial_state", lambda w, loc: w.state(w.tuple_basis()))
    g("operator", lambda w, loc: w.localization(), "LocalizationOperator")
    g("operator", lambda w, loc: w.localization(), "", "wannier|localized_wavepackets")
    g("operator", lambda w, loc: w.operator_list(w.fund(), w.tuple_basis(), diagonal=True), "DiagonalOperatorList|DiagonalOpList")
    g("operator|operators|operator_list|diagonal_list", lambda w, loc: w.operator_list(w.fund(), w.tuple_basis(), diagonal=True), "Diagonal.*List")
    g("operator|operators|operator_list", lambda w, loc: w.operator_list(w.fund(), w.tuple_basis()), "List")
    g("operator", lambda w, loc: w.diagonal(M.TB(w.fund(2), w.fund(3))), "", "over_axes")
    g("operator|eigenvalues|eigenvalue_list", lambda w, loc: w.diagonal(w.tuple_basis()), "Diagonal")
    g("lhs|rhs", lambda w, loc: w.operator_list(w.fund(), w.tuple_basis(), diagonal=True), "Diagonal.*List")
    g("lhs|rhs", lambda w, loc: w.operator_list(w.fund(), w.tuple_basis()), "List")
    g("iters", lambda w, loc: [w.operator(w.stacked("x")) for _ in range(2)])
    g("operator|lhs|rhs|a|b|hamiltonian", lambda w, loc: w.operator(w.tuple_basis(), True if "hermitian" in loc["op"] else None), "Operator|OpLike|Any")
    g("idx", lambda w, loc: 0, "Flat|int", "operator", local=True)
    g("axes", lambda w, loc: (0,), "", "over_axes", local=True)
    g("axis", lambda w, loc: w.pick(None, (0,)), "", "average_eigenvalues", local=True)
    g("eigenvalues", lambda w, loc: w.operator_list(w.fund(), M.TB(w.fund(2), w.fund(3)), diagonal=True), "List")
    g("eigenvalues", lambda w, loc: w.diagonal(M.TB(w.fund(2), w.fund(3))))
    # ---- overlaps
    g("overlap", lambda w, loc: w.overlap(single=True), "Single")
    g("overlap", lambda w, loc: w.overlap(single=False))
    g("interpolator", lambda w, loc: (lambda q: np.exp(-np.sum(np.asarray(q) ** 2, axis=0)) + 0j))
    g("abs_q", lambda w, loc: np.linspace(0, 2, 4))
    g("theta_samples|n_points", lambda w, loc: 5, "", "", local=True)
    g("idx", lambda w, loc: (0, 1), "", "overlap.overlap", local=True)
    g("i|j|k1_ind|k2_ind", lambda w, loc: 0, "", "", local=True)
    g("offset_i|offset_j|offset", lambda w, loc: (0, 1), "tuple", "", local=True)
    g("shift", lambda w, loc: 0, "", "", local=True)
    # ---- potentials
    g("data", lambda w, loc: w.potential(w.stacked("x")), "Potential")
    g("data", lambda w, loc: w.uneven(), "Uneven")
    g("uneven", lambda w, loc: w.uneven())
    g("potential", lambda w, loc: w.uneven(), "Uneven")
    g("potential", lambda w, loc: {"x_points": w.rng.integers(0, 2, 9) * 1.0, "y_points": w.rng.integers(0, 2, 9) * 1.0, "z_points": w.rng.random(9), "points": w.rng.random(9)}, "Point")
    g("potential", lambda w, loc: {"basis": _basis_3d(w), "data": w.rng.normal(size=_basis_3d(w).n) + 0j}, "", "hamiltonian_builder.(sho|explicit)|minimum_potential_3d")
    g("potential", lambda w, loc: w.potential(w.stacked("x")), "", "1d_comparison|momentum_basis|minimum|continuous|derivative|truncate")
    g("potential|potential0|potential1", lambda w, loc: w.potential())
    g("comparison_points", lambda w, loc: {"a": ((0, 0), 0), "b": ((0, 0), 1)}, r"int\], int")
    g("comparison_points", lambda w, loc: {"a": (0, 0)})
    g("cutoff", lambda w, loc: 0.5, "", "", local=True)
    g("n", lambda w, loc: 1, "", "truncate", local=True)
    g("offset", lambda w, loc: 0.3, "", "truncate", local=True)
    g("shape", lambda w, loc: tuple(int(x) for x in w.rng.integers(2, 5, size=3)), "", "uneven", local=True)
    g("shape", lambda w, loc: (12, 12, 12), "", "comparison_points", local=True)
    g("axis", lambda w, loc: 0, "int", "minimum|derivative", local=True)
    # ---- probability vectors
    g("probability|probabilities", lambda w, loc: w.probability(w.tunnelling_basis(), w.times()), "", "dynamics.plot")
    g("probability", lambda w, loc: w.probability(w.stacked("x"), w.times()), "List")
    g("probabilities", lambda w, loc: w.probability(w.stacked("x"), M.TB(w.fund(2), w.fund(3))), "List")
    g("probability_vector", lambda w, loc: w.probability(w.tuple_basis(), w.fund()), "List")
    g("probability_vector|probability|state", lambda w, loc: w.probability(w.tuple_basis()), "Probability")
    g("weights", lambda w, loc: w.positive(6) if loc.get("axis") is None else w.positive(2), "ndarray", "probability_vector|operator|state_vector_list.average", local=True)
    # ---- values
    g("positions|k_values", lambda w, loc: w.values(w.fund(3), w.times()))
    g("scattered_k", lambda w, loc: 0.7, "", "", local=True)
    g("values", lambda w, loc: w.values(M.mb.MomentumBasis(np.linspace(0, 2, 4))), "", "momentum")
    g("values", lambda w, loc: w.values(w.fund(3), w.times()), "", "split|all_value|average_value|distribution")
    g("values", lambda w, loc: w.values(w.times()), "", "time|frequency")
    g("values", lambda w, loc: w.values(w.fund(3)))
    g("eigenvalues", lambda w, loc: w.values(w.times()), "", "")
    # ---- states
    g("state_vector|vector|dual_vector|state|state_0|state_1", lambda w, loc: w.state(w.tuple_basis()), r"State(Dual)?Vector\[|Eigenstate\[")
    g("vector|state", lambda w, loc: w.state())
    g("eigenstates|states", lambda w, loc: w.states(w.fund(), w.stacked(), eig=True), "Eigenstate")
    g("states", lambda w, loc: w.states(w.times(), w.stacked("x")), "_BT0|Time")
    g("states", lambda w, loc: w.states(w.pick(w.times(), M.TB(w.fund(2), w.times())), w.stacked("x")), "", "state_vector.plot|state_vector_list_plot|coherent")
    g("states", lambda w, loc: iter([w.state(w.stacked("x")) for _ in range(2)]) if w.rng.random() < 0 else [w.state(w.stacked("x")) for _ in range(2)], "", "as_state_vector_list")
    g("states", lambda w, loc: w.states(M.TB(w.fund(2), w.fund(3)), w.stacked("x")), "", "along_axis")
    g("probabilities", lambda w, loc: w.states(M.TB(w.fund(2), w.fund(3)), w.stacked("x")), "", "average_state_vector")
    g("states|state_list|state_vector|state_0|state_1|lists", lambda w, loc: w.states(w.fund(), w.tuple_basis()), "List|Any")
    g("weights", lambda w, loc: w.state(w.fund()), "StateVector")
    g("idx", lambda w, loc: 0, "", "state_vector_list.get_state", local=True)
    g("direction", lambda w, loc: tuple(int(x) for x in w.rng.integers(0, 2, size=w.ndim)), "", "", local=True)
    g("subset_by_index", lambda w, loc: (0, min(1, int(np.prod(w.shape)) - 1)), "", "", local=True)
    g("axis", lambda w, loc: w.pick(None, 0, (0,)), "None", "", local=True)
    g("axis", lambda w, loc: 0, "", "", local=True)
    g("fractions", lambda w, loc: tuple(w.rng.random(2) for _ in range(w.ndim)))
    g("shape", lambda w, loc: tuple(int(x) for x in w.rng.integers(1, 3, size=w.ndim)), "", "", local=True)
    # ---- wavepackets
    g("basis", lambda w, loc: w.wavepacket()["basis"], "", "wavepacket.wavepacket.(get_fund|get_wavepacket)")
    g("basis", lambda w, loc: M.TB(w.fund(2), w.mesh_basis()), "", "identity_operator")
    g("offsets", lambda w, loc: tuple(int(x) for x in w.rng.integers(0, 2, size=w.ndim)), "", "", local=True)
    g("wavepacket", lambda w, loc: w.wavepacket(basis=w.stacked(w.pick("x", "k"))), "", "localize_|_tight_binding|_projection")
    g("wavepackets|wavefunctions|wavepacket", lambda w, loc: w.wavepackets(basis=w.tuple_basis()), "ListList|EigenvaluesList")
    g("wavepacket|wavepacket_0|wavepacket_1", lambda w, loc: w.wavepacket(basis=w.tuple_basis()))
    g("wavepackets|wavefunctions", lambda w, loc: w.wavepackets(basis=w.tuple_basis()))
    g("projections", lambda w, loc: w.states(w.fund(w.n_bands), w.stacked("x")))
    g("projection", lambda w, loc: w.state(w.stacked("x")))
    g("list_basis", lambda w, loc: w.mesh_basis())
    g("free_mass|true_mass", lambda w, loc: 5e-27, "", "", local=True)
    g("angle", lambda w, loc: 0.3, "", "", local=True)
    g("axes", lambda w, loc: (0,), r"tuple\[int\]|tuple\[int,\]", "", local=True)
    g("axes", lambda w, loc: (0, 1), r"tuple\[int, int\]", "", local=True)
    g("axes", lambda w, loc: tuple(range(w.ndim))[: int(w.rng.integers(1, w.ndim + 1))], "", "", local=True)
    g("idx", lambda w, loc: tuple(0 for _ in range(w.ndim - len(loc.get("axes", (0,) if "1d" in loc["op"] else (0, 1))))), "", "plot|animate", local=True)
    g("idx", lambda w, loc: w.pick(0, 0, w.index()), "", "single_point|localize|tight_binding", local=True)
    g("idx", lambda w, loc: 0, "", "", local=True)
    g("basis", lambda w, loc: w.tuple_basis())


_AX = "new axes"


def _numbers(w: World, n: int) -> np.ndarray:
    """Vectors which fit a basis along both of their axes, shared by several calls."""

    def make() -> np.ndarray:
        x = w.rng.normal(size=(n, n))
        return w.lay(x if w.rng.random() < 0.3 else x + 1j * w.rng.normal(size=(n, n)))

    return w.once(("numbers", n, int(w.rng.integers(2))), make)


def _NEW_AXES():  # noqa: ANN202, N802
    import matplotlib.pyplot as plt

    _, ax = plt.subplots()
    return ax


def _basis_3d(w: World):  # noqa: ANN202
    return w.once("3d", lambda: M.TB(*(M.b.FundamentalPositionBasis(x, n) for x, n in zip(np.eye(3) * 2e-10 + w.rng.normal(size=(3, 3)) * 1e-11, (3, 3, 6)))))


def _axis_3d(w: World):  # noqa: ANN202
    return M.b.FundamentalPositionBasis(np.array([0, 0, 4e-10]), 9)


def _potential_config(w: World) -> dict:
    b = M.TB(M.b.FundamentalPositionBasis(np.array([4e-10]), 9))
    return {"potential": {"basis": b, "data": (w.rng.normal(size=9) * KB_T).astype(np.complex128)}, "mass": 5e-27, "n": 2}


def _isf(w: World) -> dict:
    b = M.tb.FundamentalTimeBasis(24, 6.0) if w.rng.random() < 0.5 else M.tb.ExplicitTimeBasis(np.linspace(0, 6, 24))
    x = 0.4 * np.exp(-2.0 * b.times) + 0.5 * np.exp(-0.3 * b.times) + 0.1 + w.rng.normal(size=24) * 1e-3
    return {"basis": M.TB(b, b), "data": x.astype(np.complex128)}


def _tunnelling_eigenstates(w: World) -> dict:
    m = w.m_matrix()
    b = m["basis"][0]
    v, u = np.linalg.eigh(m["data"].reshape(b.n, b.n).real)
    return {"basis": M.TB(M.b.FundamentalBasis(b.n), b), "data": u.T.astype(np.complex128).ravel(), "eigenvalue": v.astype(np.complex128)}


def _localization(self: World):  # noqa: ANN202
    mesh = self.mesh_basis()
    n = min(self.n_bands, int(np.prod(self.shape)))
    bands = self.bands()
    d = np.concatenate([self.orthonormal(n, n).ravel() for _ in range(mesh.n)])
    return {"basis": M.TB(mesh, M.TB(bands, bands)), "data": d}


World.localization = _localization
World.wavepackets_operator = lambda self: {
    "basis": M.TB(*(2 * (M.TB(M.b.FundamentalBasis(min(self.n_bands, int(np.prod(self.shape)))), self.mesh_basis()),))),
    "data": self.cplx(min(self.n_bands, int(np.prod(self.shape))) * int(np.prod(self.mesh)))}
register()
