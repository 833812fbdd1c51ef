"""C14: animations show frame i at time i and nothing else."""
from __future__ import annotations

import contextlib
import sys
import types
import warnings

import numpy as np

from props.cachekit import attach
from props.ssekit import rng_for
from sim.core import Sim, SimKilled, Violation, current_task

RUNS = {"quick": 1600, "thorough": 60000}
BUDGET = {"quick": 150, "thorough": 840}
LEVEL = "exploration"
RULE = ("one run = 1-2 clients (threads preempted between any two lines of the code under test), each with a figure of its own which may already hold content; they build "
        "1-2 animations of random data (every public animation, random shapes, skewed cells, bases, axes, slices, scales and measures) and a simulated display then drives "
        "matplotlib's timers: ticks in time, late, dropped, repeated, in bursts, draws, pauses, and a movie writer; builds fail at a chosen line or frame. After every tick "
        "the visible artists are compared with the still plot of that position and with independently transformed data; non-trivial = a fault fired, ticks were "
        "irregular, or the axes already held content")
REAL = ["surface_potential_analysis.util.plot, state_vector.plot, operator.plot, potential.plot, wavepacket.plot (animations and the corresponding still plots)",
        "matplotlib (figures, artists, ArtistAnimation)", "conversions between bases"]
STUBS = ["display timers (simulated time)", "rasterisation in most runs", "the movie writer", "threads scheduled by the simulator"]
ASSUMPTIONS = ["the timer tick at which matplotlib starts a new cycle shows no frame", "text that a still plot adds may be missing from an animation",
               "the frames of an animated mesh may share one colour scale, which then covers all frames and is the one the colour bar shows"]

M = None


def prepare() -> None:
    """Import the code under test, take over the display."""
    global M
    import matplotlib as mpl

    mpl.use("Agg")
    from matplotlib import animation, backend_bases, collections, lines, pyplot, text
    from matplotlib.backends import backend_agg

    from surface_potential_analysis.basis import basis, evenly_spaced_basis, stacked_basis
    from surface_potential_analysis.operator import plot as oplot
    from surface_potential_analysis.potential import plot as pplot
    from surface_potential_analysis.state_vector import plot as splot
    from surface_potential_analysis.util import plot
    from surface_potential_analysis.wavepacket import plot as wplot

    class Timer(backend_bases.TimerBase):
        """A timer in simulated time."""

        running = False

        def _timer_start(self) -> None:
            self.running = True

        def _timer_stop(self) -> None:
            self.running = False

    backend_agg.FigureCanvasAgg._timer_cls = Timer
    real_draw = backend_agg.FigureCanvasAgg.draw

    def draw(self) -> None:  # noqa: ANN001
        if getattr(self, "raster", False):
            real_draw(self)
        else:
            backend_bases.DrawEvent("draw_event", self, None)._process()

    def draw_idle(self) -> None:  # noqa: ANN001
        """Drawn when the display is idle, as a display does it."""
        self.pending = True

    backend_agg.FigureCanvasAgg.draw = draw
    backend_agg.FigureCanvasAgg.draw_idle = draw_idle

    class Writer(animation.AbstractMovieWriter):
        """A movie writer which looks at the figure."""

        def __init__(self, look) -> None:  # noqa: ANN001
            super().__init__(fps=5)
            self.look = look

        def setup(self, fig, outfile, dpi=None) -> None:  # noqa: ANN001
            self.fig, self.outfile, self.dpi = fig, outfile, dpi

        def grab_frame(self, **_kw) -> None:  # noqa: ANN003
            self.look()

        def finish(self) -> None:
            pass

    M = types.SimpleNamespace(plt=pyplot, b=basis, TB=stacked_basis.TupleBasis, ES=evenly_spaced_basis, plot=plot, s=splot, o=oplot, p=pplot, w=wplot, Line=lines.Line2D,
                              Coll=collections.Collection, Text=text.Text, Writer=Writer, Draw=backend_bases.DrawEvent, Timer=Timer, norm=mpl.colors)
    warnings.simplefilter("ignore")


MEASURE = {"real": np.real, "imag": np.imag, "abs": np.abs, "angle": lambda x: np.unwrap(np.angle(x))}


def parts(artists):  # noqa: ANN001, ANN201
    """The data shown by artists, and their text."""
    data, words = [], []
    for a in artists:
        if isinstance(a, M.Line):
            data.append(("line", np.asarray(a.get_xdata(orig=False), float), np.asarray(a.get_ydata(orig=False), float), a))
        elif isinstance(a, M.Coll):
            v = np.ma.filled(np.ma.asarray(a.get_array()).astype(float), np.nan)
            c = getattr(a, "_coordinates", None)
            data.append(("mesh", c if c is None else np.asarray(c), v, a))
        elif isinstance(a, M.Text):
            words.append(a.get_text())
        elif hasattr(a, "get_array"):
            data.append(("image", None, np.asarray(a.get_array(), float), a))
        else:
            data.append((type(a).__name__, None, np.zeros(0), a))
    return data, words


def close(a, b, top: float = 0.0) -> bool:  # noqa: ANN001
    """Are these the same numbers?"""
    if a is None or b is None:
        return (a is None) == (b is None)
    if a.shape != b.shape:
        return False
    top = max([top, *(np.abs(x[np.isfinite(x)]).max() for x in (a, b) if np.isfinite(x).any())])
    return bool(np.allclose(a, b, rtol=1e-7, atol=1e-9 * top, equal_nan=True))


def differs(got, want):  # noqa: ANN001, ANN201
    """Compare what is shown; None if it is the same."""
    (g, gt), (w, wt) = got, want
    if len(g) != len(w):
        return f"{len(g)} artists are shown instead of {len(w)}", "artists"
    left = list(w)
    for x in g:
        for y in left:
            if x[0] == y[0] and close(x[2], y[2]) and close(x[1], y[1]):
                left.remove(y)
                break
        else:
            y = left[0]
            if x[0] != y[0]:
                return f"a {x[0]} is shown instead of a {y[0]}", "artists"
            k = 2 if not close(x[2], y[2]) else 1
            return f"the {'data' if k == 2 else 'coordinates'} of the {x[0]} are {np.ravel(x[k])[:6]} instead of {np.ravel(y[k])[:6]}", "data" if k == 2 else "coordinates"  # noqa: PLR2004
    for t in gt:
        if t not in wt:
            return f"the text {t!r} is shown instead of {wt}", "text"
    if len(gt) > len(wt):
        return f"the texts {gt} are shown instead of {wt}", "text"
    return None


class Case:
    """An animation, the still plots of its positions and the data they should show."""

    def __init__(self, ch, rng) -> None:  # noqa: ANN001, PLR0915
        self.ch, self.rng = ch, rng
        self.kind = ch.pick(["list", "list", "list", "state_list", "state_list", "surface", "state3", "potential3", "difference3", "wavepacket3", "diagonal", "occupation", "build"])
        self.scale = ch.pick(["linear", "linear", "symlog", "squared"])
        self.measure = ch.pick(["abs", "real", "imag", "angle"])
        self.kw = {"scale": self.scale}
        self.top = 0.0  # the largest number involved
        self.values = None  # the values of each frame, calculated independently
        self.mesh = True
        self.y = None
        getattr(self, f"_{self.kind}")()

    def cell(self, ndim: int, size: int = 4):  # noqa: ANN201
        ch = self.ch
        shape = tuple(1 + ch.choose(size) for _ in range(ndim)) if ch.chance(0.8) else (2,) * ndim
        dx = np.diag(self.rng.random(ndim) + 0.5)
        if ch.chance(0.6):
            dx = dx + np.tril(self.rng.normal(size=(ndim, ndim)), -1) * 0.4
        dx *= 10.0 ** ch.pick([-10, 0])
        return shape, dx

    def basis(self, shape, dx, kind: int):  # noqa: ANN001, ANN201
        cls = [M.b.FundamentalPositionBasis, M.b.FundamentalTransformedPositionBasis][kind]
        return M.TB(*(cls(d, n) for d, n in zip(dx, shape, strict=True)))

    def numbers(self, *shape):  # noqa: ANN002, ANN201
        """Random numbers: complex, real, or not contiguous."""
        k = self.ch.weighted([4, 2, 1, 1])
        x = self.rng.normal(size=shape) * 10.0 ** self.ch.pick([0, -21, 3])
        if k in {0, 3}:
            x = x + 1j * self.rng.normal(size=shape) * np.abs(x).max()
        if k == 2:  # noqa: PLR2004
            x = x.astype(complex)
        if self.ch.chance(0.2):
            # some positions show the same data, or nothing at all
            for _ in range(1 + self.ch.choose(2)):
                x[self.ch.choose(len(x))] = x[self.ch.choose(len(x))] * self.ch.pick([1, 1, 0])
        return x

    def lay(self, x):  # noqa: ANN001, ANN201
        """The same numbers laid out differently in memory."""
        if self.ch.chance(0.2):
            big = np.zeros((*x.shape, 2), x.dtype)
            big[..., 0] = x
            return big[..., 0]
        x = x.copy()
        if self.ch.chance(0.3):
            x.setflags(write=False)
        return x

    def _list(self) -> None:
        ch = self.ch
        self.dim = 1 + ch.choose(2)
        self.how = ch.pick(["x", "k", "n"]) if self.dim == 1 else ch.pick(["x", "k"])
        ndim = self.dim + ch.choose(2)
        shape, dx = self.cell(ndim)
        if self.how == "n" or self.dim == 1:
            shape = tuple(max(2, s) for s in shape)
        shape = tuple(max(2, s) for s in shape) if self.dim == 1 else shape
        self.n = 1 + ch.choose(5)
        kind = ch.choose(2)
        basis = M.TB(*(M.b.FundamentalBasis(s) for s in shape)) if self.how == "n" else self.basis(shape, dx, kind)
        x = self.numbers(self.n, *shape)  # in the position basis
        given = x if self.how == "n" or not kind else np.fft.fftn(x, axes=tuple(range(1, ndim + 1)), norm="ortho")
        self.data = self.lay(given.reshape(self.n, -1))
        axes = tuple(int(a) for a in self.rng.permutation(ndim)[:self.dim])
        self.idx = None if ch.chance(0.3) else tuple(ch.choose(s) for i, s in enumerate(shape) if i not in axes)
        self.kw["measure"] = self.measure
        if self.how == "n" and ch.chance(0.4):
            self.kw["periodic"] = True
        anim = getattr(M.plot, f"animate_data_through_list_{self.dim}d_{self.how}")
        still = getattr(M.plot, f"plot_data_{self.dim}d_{self.how}")
        self.anim = lambda ax: anim(basis, self.data, axes, self.idx, ax=ax, **self.kw)
        self.still = lambda i, ax: still(basis, np.array(self.data[i]), axes, self.idx, ax=ax, **self.kw)
        self.expect(x, shape, axes)
        self.what = f"animate_data_through_list_{self.dim}d_{self.how}, shape {shape}, {'transformed ' * kind}basis, axes {axes}, idx {self.idx}, {self.n} frames"

    def expect(self, x, shape, axes) -> None:  # noqa: ANN001
        """The values of each frame, from the definition."""
        self.mesh = self.dim == 2  # noqa: PLR2004
        periodic = self.dim == 1 and (self.how != "n" or self.kw.get("periodic", False))
        self.values = []
        self.top = 0.0 if self.measure == "angle" else float(np.abs(x).max())
        for f in x:
            v = np.fft.fftn(f, norm="ortho") if self.how == "k" else f
            idx = self.idx
            if idx is None:
                mag = np.abs(v)
                if (mag > mag.max() * (1 - 1e-6)).sum() > 1:
                    self.values.append(None)
                    continue
                at = np.unravel_index(np.argmax(mag), shape)
                idx = tuple(at[i] for i in range(len(shape)) if i not in axes)
            it = iter(idx)
            v = v[tuple(slice(None) if i in axes else next(it) for i in range(len(shape)))]
            if self.dim == 2 and axes[0] > axes[1]:  # noqa: PLR2004
                v = v.T
            if self.how == "k":
                v = np.fft.fftshift(v)
            if self.measure == "angle" and (np.abs(v) <= 1e-6 * np.abs(v).max()).any():
                self.values.append(None)
                continue
            v = MEASURE[self.measure](v)
            if periodic:
                v = np.append(v, v[0])
            self.values.append(v.astype(float))

    def _state_list(self) -> None:
        ch = self.ch
        self.dim, self.how = 1 + ch.choose(2), ch.pick(["x", "k"])
        ndim = self.dim + ch.choose(2)
        shape, dx = self.cell(ndim)
        shape = tuple(max(2, s) for s in shape) if self.dim == 1 else shape
        self.n = 1 + ch.choose(5)
        kind = ch.choose(3)
        x = self.numbers(self.n, *shape)
        ft = np.fft.fftn(x, axes=tuple(range(1, ndim + 1)), norm="ortho")
        if kind == 2:  # noqa: PLR2004
            # only the lowest frequencies are kept
            keep = tuple(max(1, s - ch.choose(2)) for s in shape)
            basis = M.TB(*(M.b.TransformedPositionBasis(d, k, s) for d, k, s in zip(dx, keep, shape, strict=True)))
            given = self.rng.normal(size=(self.n, *keep)) + 1j * self.rng.normal(size=(self.n, *keep))
            full = np.zeros((self.n, *shape), complex)
            pick = np.ix_(range(self.n), *(np.fft.fftfreq(k, 1 / k).astype(int) % s for k, s in zip(keep, shape, strict=True)))
            full[pick] = given
            x = np.fft.ifftn(full, axes=tuple(range(1, ndim + 1)), norm="ortho")
        else:
            basis = self.basis(shape, dx, kind)
            given = ft if kind else x
        self.data = self.lay(given.reshape(self.n, -1))
        axes = tuple(int(a) for a in self.rng.permutation(ndim)[:self.dim])
        self.idx = None if ch.chance(0.3) else tuple(ch.choose(s) for i, s in enumerate(shape) if i not in axes)
        self.kw["measure"] = self.measure
        lb = M.b.FundamentalBasis(self.n)
        states = {"basis": M.TB(lb, basis), "data": self.data.reshape(-1)}
        anim = getattr(M.s, f"animate_state_over_list_{self.dim}d_{self.how}")
        still = getattr(M.s, f"plot_state_{self.dim}d_{self.how}")
        self.anim = lambda ax: anim(states, axes, self.idx, ax=ax, **self.kw)
        self.still = lambda i, ax: still({"basis": basis, "data": np.array(self.data[i])}, axes, self.idx, ax=ax, **self.kw)
        self.expect(x, shape, axes)
        self.what = f"animate_state_over_list_{self.dim}d_{self.how}, shape {shape}, basis kind {kind}, axes {axes}, idx {self.idx}, {self.n} frames"

    def space(self):  # noqa: ANN201
        """Three or four dimensions, and how to cut them."""
        ch = self.ch
        ndim = 3 + (ch.choose(4) == 3)  # noqa: PLR2004
        shape, dx = self.cell(ndim)
        axes = tuple(int(a) for a in self.rng.permutation(ndim)[:3])
        if ch.chance(0.3):
            axes = (0, 1, 2)
        self.n = shape[axes[2]]
        self.idx = None if ndim == 3 and ch.chance(0.5) else tuple(ch.choose(s) for i, s in enumerate(shape) if i not in axes)  # noqa: PLR2004
        idx = self.idx or ()

        def at(i: int):  # noqa: ANN202
            it = iter(idx)
            return tuple(i if j == axes[2] else next(it) for j in range(ndim) if j not in axes[:2])

        def values(x, measure):  # noqa: ANN001, ANN202
            out = []
            self.top = 0.0 if measure == "angle" else float(np.abs(x).max())
            for i in range(self.n):
                it = iter(at(i))
                v = x[tuple(slice(None) if j in axes[:2] else next(it) for j in range(ndim))]
                v = v if axes[0] < axes[1] else v.T
                bad = measure == "angle" and (np.abs(v) <= 1e-6 * np.abs(v).max()).any()
                out.append(None if bad else MEASURE[measure](v).astype(float))
            return out

        self.what = f"shape {shape}, axes {axes}, idx {self.idx}, {self.n} frames"
        return shape, dx, axes, at, values

    def limits(self) -> None:
        """Perhaps the caller sets the limits of the colours."""
        if self.ch.chance(0.3):
            self.kw["clim"] = self.ch.pick([(None, 3.5), (-2.5, None), (-2.5, 3.5), (0.0, None), (None, 0.0), (0, 1)])

    def _surface(self) -> None:
        shape, dx, axes, at, values = self.space()
        basis = self.basis(shape, dx, 0)
        x = self.numbers(*shape)
        # the data may be given as a list of points, or on the grid
        data = self.lay(x.reshape(-1) if self.ch.chance(0.5) else x)
        self.kw["measure"] = self.measure
        self.limits()
        self.anim = lambda ax: M.plot.animate_data_through_surface_x(basis, data, axes, self.idx, ax=ax, **self.kw)
        self.still = lambda i, ax: M.plot.plot_data_2d_x(basis, x.reshape(-1), axes[:2], at(i), ax=ax, scale=self.scale, measure=self.measure)
        self.values = values(x, self.measure)
        self.what = "animate_data_through_surface_x, " + self.what

    def _state3(self) -> None:
        shape, dx, axes, at, values = self.space()
        kind = self.ch.choose(2)
        basis = self.basis(shape, dx, kind)
        x = self.numbers(*shape)
        state = {"basis": basis, "data": self.lay((np.fft.fftn(x, norm="ortho") if kind else x).reshape(-1))}
        self.kw["measure"] = self.measure
        self.limits()
        self.anim = lambda ax: M.s.animate_state_3d_x(state, axes, self.idx, ax=ax, **self.kw)
        self.still = lambda i, ax: M.s.plot_state_2d_x(state, axes[:2], at(i), ax=ax, scale=self.scale, measure=self.measure)
        self.values = values(x, self.measure)
        self.what = f"animate_state_3d_x, {'transformed ' * kind}basis, " + self.what

    def _potential3(self) -> None:
        shape, dx, axes, at, values = self.space()
        kind = self.ch.choose(2)
        basis = self.basis(shape, dx, kind)
        x = self.numbers(*shape).real.copy()
        pot = {"basis": basis, "data": self.lay((np.fft.fftn(x, norm="ortho") if kind else x).reshape(-1))}
        self.measure = "real"
        self.limits()
        self.anim = lambda ax: M.p.animate_potential_3d_x(pot, axes, self.idx, ax=ax, **self.kw)
        self.still = lambda i, ax: M.p.plot_potential_2d_x(pot, axes[:2], at(i), ax=ax, scale=self.scale)
        self.values = values(x, self.measure)
        self.what = f"animate_potential_3d_x, {'transformed ' * kind}basis, " + self.what

    def _difference3(self) -> None:
        shape, dx, axes, at, values = self.space()
        kind = self.ch.choose(2)
        x, y = self.rng.normal(size=shape), self.rng.normal(size=shape)
        p0 = {"basis": self.basis(shape, dx, 0), "data": self.lay(x.reshape(-1))}
        p1 = {"basis": self.basis(shape, dx, kind), "data": self.lay((np.fft.fftn(y, norm="ortho") if kind else y).reshape(-1))}
        d = np.abs((x - y) / x)
        self.measure = "real"
        self.limits()
        self.anim = lambda ax: M.p.animate_potential_difference_3d_x(p0, p1, axes, self.idx, ax=ax, **self.kw)
        self.still = lambda i, ax: M.p.plot_potential_2d_x({"basis": p0["basis"], "data": d.reshape(-1)}, axes[:2], at(i), ax=ax, scale=self.scale)
        self.values = values(d, self.measure)
        self.what = "animate_potential_difference_3d_x, " + self.what

    def _wavepacket3(self) -> None:
        ch = self.ch
        shape, dx, mesh = (2, 1 + ch.choose(2), 1 + ch.choose(3)), self.cell(3)[1], (1 + ch.choose(2), 1 + ch.choose(2), 1)
        axes = tuple(int(a) for a in self.rng.permutation(3)) if ch.chance(0.7) else (0, 1, 2)
        lb = M.TB(*(M.b.FundamentalTransformedBasis(m) for m in mesh))
        basis = self.basis(shape, dx, ch.choose(2))
        data = self.numbers(int(np.prod(mesh)) * int(np.prod(shape))).astype(complex)
        wp = {"basis": M.TB(lb, basis), "data": data}
        self.n = mesh[axes[2]] * shape[axes[2]]
        self.kw["measure"] = self.measure
        self.anim = lambda ax: M.w.animate_wavepacket_3d_x(wp, axes, ax=ax, **self.kw)
        self.still = lambda i, ax: M.w.plot_wavepacket_2d_x(wp, axes[:2], (i,), ax=ax, scale=self.scale, measure=self.measure)
        self.what = f"animate_wavepacket_3d_x, {mesh} samples, shape {shape}, axes {axes}, {self.n} frames"

    def _diagonal(self) -> None:
        n, self.n = 2 + self.ch.choose(5), 1 + self.ch.choose(5)
        b = M.b.FundamentalBasis(n)
        data = self.lay(self.numbers(self.n, n))
        op = {"basis": M.TB(M.b.FundamentalBasis(self.n), M.TB(b, b)), "data": data.reshape(-1)}
        self.kw["measure"] = self.measure
        if self.ch.chance(0.3):
            self.kw["periodic"] = True
        self.mesh = False
        self.anim = lambda ax: M.o.animate_diagonal_operator_list_along_diagonal(op, ax=ax, **self.kw)
        if self.kw.get("periodic"):
            self.still = lambda i, ax: M.plot.plot_data_1d_n(M.TB(b), np.array(data[i]), ax=ax, **self.kw)
        else:
            self.still = lambda i, ax: M.o.plot_diagonal_operator_along_diagonal({"basis": M.TB(b, b), "data": np.array(data[i])}, ax=ax, **self.kw)
        self.values = [MEASURE[self.measure](d).astype(float) for d in data]
        if self.kw.get("periodic"):
            self.values = [np.append(v, v[0]) for v in self.values]
        self.what = f"animate_diagonal_operator_list_along_diagonal, {n} states, {self.n} frames"

    def _occupation(self) -> None:
        n, self.n = 1 + self.ch.choose(5), 1 + self.ch.choose(5)
        self.mesh = False
        self.scale = self.kw["scale"] = self.ch.pick(["linear", "symlog", "log"])
        b = M.TB(M.b.FundamentalPositionBasis(np.array([1.0]), n))
        h = self.rng.normal(size=(n, n)) + 1j * self.rng.normal(size=(n, n))
        h = (h + h.conj().T) * 10.0 ** self.ch.pick([0, -21])
        if self.ch.chance(0.3):
            h = h.real.copy()
        data = self.numbers(self.n, n)
        ham = {"basis": M.TB(b, b), "data": h.reshape(-1)}
        states = {"basis": M.TB(M.b.FundamentalBasis(self.n), b), "data": self.lay(data).reshape(-1)}
        self.anim = lambda ax: M.s.animate_all_eigenstate_occupations(ham, states, ax=ax, scale=self.scale)
        self.still = lambda i, ax: M.s.plot_eigenstate_occupation(ham, {"basis": b, "data": data[i]}, ax=ax, scale=self.scale)
        vec = np.linalg.eigh(h / np.abs(h).max())[1]
        self.values = [np.abs(vec.T @ d.conj()) ** 2 for d in data]
        if n > 1 and np.diff(np.linalg.eigvalsh(h / np.abs(h).max())).min() < 1e-3:  # noqa: PLR2004
            self.values = None
        self.what = f"animate_all_eigenstate_occupations, {n} states, {self.n} frames"

    def _build(self) -> None:
        self.n = 1 + self.ch.choose(5)
        data = self.numbers(self.n, 3, 4).real
        image = self.ch.chance(0.3)
        self.broken = None
        self.fail_at = self.ch.choose(self.n) if self.ch.chance(0.25) else -1
        self.limits()
        self.kw["measure"] = self.measure

        def frame(i: int, ax):  # noqa: ANN001, ANN202
            if i == self.fail_at:
                self.broken = self.ch.pick([ValueError, MemoryError, KeyboardInterrupt, ZeroDivisionError, StopIteration])("frame")
                self.fail_at = -1
                current_task().sim.fault("frame fails")
                raise self.broken
            return ax.imshow(data[i]) if image else ax.pcolormesh(data[i])

        self.anim = lambda ax: M.plot.build_animation(frame, self.n, ax=ax, **self.kw)
        self.still = lambda i, ax: (None, ax, ax.imshow(data[i]) if image else ax.pcolormesh(data[i]))
        self.values = list(data)
        self.what = f"build_animation, {self.n} frames"


def run(ch, tier, index):  # noqa: ANN001, ANN201, ARG001, PLR0915
    """One run."""
    n_clients = 1 + (ch.choose(2) if index % 3 == 1 else 0)
    faulty = index % 4 == 2 or ch.chance(0.1)
    sim = Sim(ch, trace=n_clients > 1 or faulty, preempt_mean=ch.pick([0, 5, 20, 80]) if n_clients > 1 else 0)
    proc = sim.process()
    rng = rng_for(ch)
    stats = {"animations": 0, "ticks": 0, "frames_checked": 0, "failed_builds": 0, "movies": 0, "pixels": 0, "existing": 0}
    odd = [0]
    plt = M.plt

    def on_point(kind: str) -> None:
        me = current_task()
        if kind != "line" or getattr(me, "strike", -1) < 0:
            return
        me.strike -= 1
        if me.strike == -1:
            me.fail = ch.pick([MemoryError, KeyboardInterrupt])("injected")
            sim.fault(type(me.fail).__name__)
            raise me.fail

    sim.on_point = on_point

    def decorate(ax) -> dict:  # noqa: ANN001
        """The caller's own content. Returns what it shows."""
        k = ch.weighted([5, 2, 1, 1, 1])
        if k:
            stats["existing"] += 1
            odd[0] += 1
        if k in {1, 4}:
            ax.plot([0, 1, 2], [0.5, -1.0, 3.0], label="mine")
        if k == 2:  # noqa: PLR2004
            m = ax.pcolormesh(np.arange(6.0).reshape(2, 3))
            if ch.chance(0.5):
                ax.get_figure().colorbar(m, ax=ax)
        if k in {3, 4}:
            ax.scatter([0, 1], [1, 0], c=[3.0, 4.0])
            ax.text(0.1, 0.1, "mine")
        return {a: snapshot(a) for a in ax.get_children()}

    def snapshot(a):  # noqa: ANN001, ANN202
        if isinstance(a, M.Line | M.Coll):
            d = parts([a])[0][0]
            extra = (a.get_clim(), a.norm) if isinstance(a, M.Coll) else a.get_color()
            return a.get_visible(), d[1], d[2], extra
        return a.get_visible(), None, None, a.get_text() if isinstance(a, M.Text) and a.get_text() == "mine" else None

    def same(a, was) -> bool:  # noqa: ANN001
        now = snapshot(a)
        return now[0] == was[0] and close(now[1], was[1]) and close(now[2], was[2]) and now[3] == was[3]

    def check_mine(ax, mine, what: str) -> None:  # noqa: ANN001
        here = set(ax.get_children())
        for a, was in mine.items():
            if a not in here or a.axes is not ax:
                if isinstance(a, M.Line | M.Coll | M.Text):
                    raise Violation(f"{what}: {type(a).__name__} of the caller was removed from the axes", "caller-content-removed")
            elif not same(a, was):
                raise Violation(f"{what}: {type(a).__name__} of the caller was changed: {was} is now {snapshot(a)}", "caller-content-changed")

    def still_of(case: Case, i: int):  # noqa: ANN202
        fig, ax = plt.subplots()
        try:
            before = set(ax.get_children())
            case.still(i, ax)
            out = parts([a for a in ax.get_children() if a not in before and a.get_visible() and a is not ax.patch])
            case.axis_scales = ax.get_xscale(), ax.get_yscale()
            if not out[0]:
                raise Violation(f"the still plot of {case.what} shows nothing on the axes it was given", "still-shows-nothing")
        finally:
            plt.close(fig)
        return out

    def client() -> None:  # noqa: PLR0912, PLR0915
        me = current_task()
        me.strike = -1
        given = ch.chance(0.75)
        raster = ch.chance(0.04)
        other = plt.figure() if ch.chance(0.5) else None
        fig, ax = plt.subplots() if given else (None, None)
        if other is not None and ch.chance(0.5):
            plt.figure(other.number)
        mine = decorate(ax) if given else {}
        anims = []
        for _ in range(1 + ch.weighted([4, 1])):
            case = Case(ch, rng)
            what = case.what + f", {case.scale}, {case.measure}"
            sim.log(what)
            stats["animations"] += 1
            for _attempt in range(4):
                me.fail = None
                me.strike = 1 + ch.geometric(40, 2000) if faulty and _attempt < 2 and ch.chance(0.7) else -1  # noqa: PLR2004
                before_axes = set(fig.axes) if fig is not None else set()
                before = set(ax.get_children()) if ax is not None else set()
                try:
                    out, err = case.anim(ax), None
                except (SimKilled, Violation):
                    raise
                except BaseException as e:  # noqa: BLE001
                    out, err = None, e
                finally:
                    if sim.trace_files:
                        sys.settrace(sim._tracer)
                me.strike = -1
                expected = me.fail or getattr(case, "broken", None)
                if expected is not None:
                    case.broken = None
                    stats["failed_builds"] += 1
                    if err is None:
                        raise Violation(f"{what}: {expected!r} was not reported", "failure-not-reported")
                    if err is not expected and not isinstance(expected, StopIteration) and err.__cause__ is not expected and err.__context__ is not expected:
                        raise Violation(f"{what}: {expected!r} was reported as {err!r}", "failure-changed")
                    if given:
                        check_mine(ax, mine, f"{what} failed")
                        if ax not in fig.axes:
                            raise Violation(f"{what} failed: the axes of the caller are gone", "caller-axes-removed")
                        for c, f, b, _x in anims:
                            assert c is not None and f is not None and b is not None
                        if ch.chance(0.1):
                            fig.canvas.raster = True
                            with contextlib.suppress(np.linalg.LinAlgError):  # axes of no size
                                fig.draw_without_rendering()
                            fig.canvas.raster = False
                    continue
                break
            if err is not None:
                raise Violation(f"{what}: raised {type(err).__name__}: {err}", f"spurious-{type(err).__name__}") from err
            if given and (out[0] is not fig or out[1] is not ax):
                raise Violation(f"{what}: was not drawn on the axes it was given", "wrong-axes")
            fig, ax, ani = out
            new = set(ax.get_children()) - before
            if not given:
                new = {a for a in new if isinstance(a, M.Line | M.Coll | M.Text) or hasattr(a, "get_array")} - {ax.title, ax._left_title, ax._right_title}
            bars = [c._colorbar for c in fig.axes if c not in before_axes and hasattr(c, "_colorbar")]
            anims.append((case, ani, new, {"bars": bars, "pos": -1, "what": what, "single": False}))
            check_mine(ax, mine, what)
            given = True
        given_plain = not any(isinstance(a, M.Line | M.Coll) for a in mine)
        if len(anims) == 1 and given_plain and not stats["failed_builds"]:
            anims[0][3]["single"] = True
        for case, ani, new, st in anims:
            st["stills"] = [still_of(case, i) for i in range(case.n)]
            got = list(ani._framedata)
            if len(got) != case.n:
                raise Violation(f"{st['what']}: one cycle shows {len(got)} frames instead of {case.n}", "cycle-length")
            for i, v in enumerate(case.values or []):
                if v is None:
                    continue
                s = st["stills"][i][0]
                if len(s) != 1 or not close(np.ravel(s[0][2]), np.ravel(v), case.top):
                    raise Violation(f"{st['what']}: the still plot at {i} shows {np.ravel(s[0][2])[:6]} instead of {np.ravel(v)[:6]}", "still-data")
            assert new is not None
        fig.canvas.raster = False
        # --- the display
        total = sum(c.n + 1 for c, *_ in anims)
        ticks = ch.pick([1, 1.5, 2.5]) * total

        def shown(new):  # noqa: ANN001, ANN202
            here = set(ax.get_children())
            return [a for a in new if a in here and a.get_visible()]

        def look(case, new, st, i: int, when: str) -> None:  # noqa: ANN001
            stats["frames_checked"] += 1
            got = parts(shown(new))
            bad = differs(got, st["stills"][i])
            if bad is not None:
                raise Violation(f"{st['what']}: {when}, frame {i} of {case.n}: {bad[0]}", f"frame-{bad[1]}")
            if st["single"] and (ax.get_xscale(), ax.get_yscale()) != case.axis_scales:
                raise Violation(f"{st['what']}: {when}, frame {i}: the scales of the axes are {ax.get_xscale(), ax.get_yscale()} instead of {case.axis_scales}", "axis-scale")
            for d in got[0]:
                if d[0] == "line":
                    if st["single"] and case.scale in {"linear", "symlog"}:
                        lo, hi = sorted(ax.get_ylim())
                        y = d[2][np.isfinite(d[2])]
                        pad = 1e-6 * (hi - lo)
                        if y.size and (y.min() < lo - pad or y.max() > hi + pad):
                            raise Violation(f"{st['what']}: {when}, frame {i}: values {y.min()} to {y.max()} are outside the axes, {lo} to {hi}", "outside-axes")
                else:
                    check_colours(case, st, d, i, when)
            check_mine(ax, mine, f"{st['what']}: {when}")

        def check_colours(case, st, d, i: int, when: str) -> None:  # noqa: ANN001
            own = next((x for x in st["stills"][i][0] if x[0] == d[0]), None)
            if own is None:
                return
            lim = d[3].get_clim()
            allv = np.concatenate([np.ravel(x[2]) for s in st["stills"] for x in s[0]])
            lo = 0.0 if case.measure == "abs" else np.nanmin(allv)
            want = (lo, np.nanmax(allv))
            user = case.kw.get("clim", (None, None))
            # the limits of the caller, limits common to all frames, or (without a colour bar) those of the frame itself
            want = tuple(w if u is None else u for w, u in zip(want, user, strict=True))
            tol = 1e-9 * max(*np.abs(want), *np.abs(lim)) + 1e-300
            ok = max(abs(lim[0] - want[0]), abs(lim[1] - want[1])) <= tol
            if not ok and user == (None, None) and case.kind != "build":
                mine_ = own[3].get_clim()
                ok = max(abs(lim[0] - mine_[0]), abs(lim[1] - mine_[1])) <= tol
            ok = ok or want[0] >= want[1]  # the caller's limits leave nothing
            if not ok and any(np.ptp(x[2]) == 0 for s in st["stills"] for x in s[0]):
                # matplotlib widens the range of a constant
                ok = lim[0] <= want[0] + tol and lim[1] >= want[1] - tol
            if not ok:
                raise Violation(f"{st['what']}: {when}, frame {i}: the colours cover {lim} instead of {want}", "colour-limits")
            if case.kind != "build" and type(d[3].norm) is not type(own[3].norm):
                raise Violation(f"{st['what']}: {when}, frame {i}: the colours use {type(d[3].norm).__name__} instead of {type(own[3].norm).__name__}", "colour-scale")
            for b in st["bars"]:
                if abs(b.vmin - lim[0]) > tol or abs(b.vmax - lim[1]) > tol or type(b.norm) is not type(d[3].norm):
                    raise Violation(f"{st['what']}: {when}, frame {i}: the colour bar covers {b.vmin} to {b.vmax}, the colours {lim}", "colour-bar")

        def tick(a) -> None:  # noqa: ANN001
            case, ani, new, st = a
            src = ani.event_source
            src._on_timer()
            stats["ticks"] += 1
            now = shown(new)
            if not now and st["pos"] == case.n - 1:
                st["pos"] = -1
                sim.log("wrap")
                return
            st["pos"] = (st["pos"] + 1) % case.n
            sim.log(f"tick {st['pos']}")
            look(case, new, st, st["pos"], f"tick {stats['ticks']}")
            if raster and len(anims) == 1 and ch.chance(0.3):
                pixels(case, st, st["pos"])

        def pixels(case, st, i: int) -> None:  # noqa: ANN001
            """Does it look the same? The still plot is drawn with the limits of the animation."""
            if case.scale != "linear" or (mine and not st["single"]):
                return
            if any(d[0] != "line" for d in st["stills"][i][0]):
                return
            f2, a2 = plt.subplots()
            case.still(i, a2)
            for a_ in (ax, a2):
                a_.set_title("")
                a_.set_xlabel("")
                a_.set_ylabel("")
                a_.set_axis_off()
            a2.set_xlim(ax.get_xlim())
            a2.set_ylim(ax.get_ylim())
            images = []
            for f in (fig, f2):
                f.canvas.raster = True
                f.canvas.draw()
                images.append(np.array(f.canvas.buffer_rgba()).astype(int))
                f.canvas.raster = False
            plt.close(f2)
            stats["pixels"] += 1
            if images[0].shape != images[1].shape or np.abs(images[0] - images[1]).max() > 40:  # noqa: PLR2004
                raise Violation(f"{st['what']}: frame {i} does not look like the still plot", "pixels")

        fig.canvas.draw()  # starts the timers
        for case, ani, _new, st in anims:
            if ani.event_source is None or not ani.event_source.running:
                raise Violation(f"{st['what']}: the timer does not run", "timer")
        while ticks > 0:
            event = ch.weighted([8, 2, 1, 1, 1, 1])
            a = ch.pick(anims)
            sim.sleep(a[1].event_source.interval / 1000 + 1e-3)
            if event:
                odd[0] += 1
            if getattr(fig.canvas, "pending", False) and not ch.chance(0.2):
                fig.canvas.pending = False
                fig.canvas.draw()
            if event == 1:  # the machine is busy, ticks are dropped
                sim.sleep(ch.pick([1.0, 60.0, 86400.0]))
            elif event == 2:  # noqa: PLR2004
                # several ticks at once
                for _ in range(ch.choose(4)):
                    tick(a)
                    ticks -= 1
            elif event == 3:  # noqa: PLR2004
                fig.canvas.draw()
            elif event == 4 and not any(x[3]["pos"] >= 0 for x in anims) and len(anims) == 1:  # noqa: PLR2004
                case, ani, new, st = a
                count = [0]

                def grab(case=case, new=new, st=st, count=count) -> None:  # noqa: ANN001
                    if count[0] >= case.n:
                        raise Violation(f"{st['what']}: a movie has more than {case.n} frames", "cycle-length")
                    look(case, new, st, count[0], f"movie frame {count[0]}")
                    count[0] += 1

                ani.save("/sim/movie.mp4", writer=M.Writer(grab))
                stats["movies"] += 1
                if count[0] != case.n:
                    raise Violation(f"{st['what']}: a movie has {count[0]} frames instead of {case.n}", "cycle-length")
                ani._init_draw()
            elif event == 5:  # noqa: PLR2004
                a[1].pause()
                sim.sleep(5.0)
                a[1].resume()
            tick(a)
            ticks -= 1
        if other is not None and (other.axes or other.get_children()[1:]):
            raise Violation("another figure of the caller was drawn on", "other-figure")

    for i in range(n_clients):
        sim.spawn(client, proc, f"client{i}")
    try:
        sim.run()
    except Violation as e:
        raise attach(e, sim) from None
    finally:
        plt.close("all")
    return {"digest": sim.digest(), "faults": sim.faults, "sim_time": sim.now, "n_events": sim.n_events, "switches": sim.switches,
            "steps": sim.steps, "nontrivial": bool(sim.faults) or odd[0] > 0, "stats": stats,
            "sample": {"clients": n_clients, "events": sim.events[:40]}}
