From 74450b516400a49b3d63e2c95e0f15b45b5811da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 01/28] fix: write the pickle cache atomically, so an
 interrupted write cannot leave a truncated entry

---
 surface_potential_analysis/util/decorators.py | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 23342c8..8f525c1 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -1,21 +1,40 @@
 from __future__ import annotations
 
 import datetime
+import os
 import pickle  # noqa: S403
+import uuid
 from collections.abc import Callable, Mapping
 from functools import update_wrapper, wraps
-from typing import TYPE_CHECKING, Any, Generic, Literal, ParamSpec, TypeVar, overload
+from pathlib import Path
+from typing import IO, Any, Generic, Literal, ParamSpec, TypeVar, overload
 
 import numpy as np
 
-if TYPE_CHECKING:
-    from pathlib import Path
-
 _P = ParamSpec("_P")
 _R = TypeVar("_R")
 _RD = TypeVar("_RD", bound=Mapping[Any, Any])
 
 
+def _write_atomic(path: Path, write: Callable[[IO[bytes]], None]) -> None:
+    """
+    Write a file such that path only ever contains the complete previous, or complete new data.
+
+    The data is written to a temporary file in the same directory, which only replaces path once
+    it has been written in full. An interrupted write therefore cannot leave a truncated file.
+    """
+    temp_path = path.with_name(f".{path.name}.{uuid.uuid4().hex}.tmp")
+    try:
+        with temp_path.open("xb") as f:
+            write(f)
+            f.flush()
+            os.fsync(f.fileno())
+        temp_path.replace(path)
+    except BaseException:
+        temp_path.unlink(missing_ok=True)
+        raise
+
+
 def timed(f: Callable[_P, _R]) -> Callable[_P, _R]:
     """
     Log the time taken for f to run.
@@ -147,8 +166,9 @@ class CachedFunction(Generic[_P, _RD]):
         obj = self.call_uncached(*args, **kw)
         cache_path = self._get_cache_path(*args, **kw)
         if cache_path is not None:
-            with cache_path.open("wb") as f:
-                pickle.dump(obj, f, pickle.HIGHEST_PROTOCOL)
+            _write_atomic(
+                cache_path, lambda f: pickle.dump(obj, f, pickle.HIGHEST_PROTOCOL)
+            )
         return obj
 
     def _load_cache(self, *args: _P.args, **kw: _P.kwargs) -> _RD | None:
-- 
2.43.0


From 221c8145fce3d95d7fbb7e24d01a683b2a58721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 02/28] fix: write the npy cache atomically and at the path it
 is loaded from

---
 surface_potential_analysis/util/decorators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 8f525c1..276731a 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -119,7 +119,12 @@ def npy_cached(
             except FileNotFoundError:
                 arr = f(*args, **kw)
                 # Saving pickeld
-                np.save(cache_path, np.asanyarray(arr), allow_pickle=save_pickle)
+                # Note: given a path (and not a file) np.save appends .npy to the name, which
+                # would never be found by the load above
+                _write_atomic(
+                    Path(cache_path),
+                    lambda f: np.save(f, np.asanyarray(arr), allow_pickle=save_pickle),
+                )
 
             return arr
 
-- 
2.43.0


From e595ce9ef5507df9ddf5afcf05b4b1c8dff107d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 03/28] fix: do not zero the diagonal of the caller's
 tunnelling matrix

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 5ae5e51..d0b9983 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -329,7 +329,7 @@ def get_tunnelling_m_matrix(
     TunnellingMMatrix
     """
     matrix = matrix if n_bands is None else get_a_matrix_reduced_bands(matrix, n_bands)
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
     return {"basis": matrix["basis"], "data": array}
diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 764070e..9e3d38b 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -118,7 +118,7 @@ def get_collapse_operators_from_a_matrix(
     -------
     list[SingleBasisOperator[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[_L2Inv]]]]
     """
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     return [
         {
-- 
2.43.0


From 3469cfdd8bbcb29bf1b3116dc727c662c27b8a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 04/28] fix: allow the banded stochastic solver to run with no
 collapse operators

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 9e3d38b..72c45dd 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -518,7 +518,7 @@ def solve_stochastic_schrodinger_equation_rust_banded(  # type: ignore bad overl
 
     # We get the best numerical performace if we set the norm of the largest collapse operators
     # to be one. This prevents us from accumulating large errors when multiplying state * dt * operator * conj_operator
-    max_norm = np.max(operators_norm)
+    max_norm = np.max(operators_norm) if operators_norm else np.float64(1)
     dt = (times.fundamental_dt * max_norm**2 / hbar).item()
 
     banded_collapse = _get_banded_operators(
-- 
2.43.0


From 4c3ea92f181721fc2d11963aea82065a7f924032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 05/28] fix: do not change the process wide warning filters
 when calculating sample fractions

---
 surface_potential_analysis/wavepacket/wavepacket.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/wavepacket.py b/surface_potential_analysis/wavepacket/wavepacket.py
index 3d16ab6..3eed5ca 100644
--- a/surface_potential_analysis/wavepacket/wavepacket.py
+++ b/surface_potential_analysis/wavepacket/wavepacket.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import warnings
 from typing import TYPE_CHECKING, Any, TypeVar
 
 import numpy as np
@@ -207,12 +206,11 @@ def get_wavepacket_sample_fractions(
         / np.array(util.fundamental_shape, dtype=np.int_)[:, np.newaxis]
     )
     fundamental_basis = stacked_basis_as_fundamental_transformed_basis(list_basis)
-    with warnings.catch_warnings(
-        category=np.exceptions.ComplexWarning, action="ignore"
-    ):
-        return convert_vector(
-            fundamental_fractions, fundamental_basis, list_basis
-        ).astype(np.float64)
+    # Note: taking the real part avoids the ComplexWarning raised when casting to
+    # float, without having to change the (process wide) warning filters
+    return np.real(
+        convert_vector(fundamental_fractions, fundamental_basis, list_basis)
+    ).astype(np.float64)
 
 
 def get_wavepacket_fundamental_sample_frequencies(
-- 
2.43.0


From 97b5477511f97edac7d4a9492b6f1bef23928869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 06/28] fix: raise if the wannier90 u_mat file does not contain
 every k point

---
 .../wavepacket/localization/_wannier90.py           | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_wannier90.py b/surface_potential_analysis/wavepacket/localization/_wannier90.py
index 6aa7f68..2b9016d 100644
--- a/surface_potential_analysis/wavepacket/localization/_wannier90.py
+++ b/surface_potential_analysis/wavepacket/localization/_wannier90.py
@@ -451,12 +451,13 @@ def _get_localization_operator_from_u_mat_file(
             for m in range(n_bands)
         ]
     )
-    return {
-        "basis": TupleBasis(
-            wavepackets_basis[1], TupleBasis(projection_basis, wavepackets_basis[0])
-        ),
-        "data": np.moveaxis(a, -1, 0).reshape(-1),
-    }
+    basis = TupleBasis(
+        wavepackets_basis[1], TupleBasis(projection_basis, wavepackets_basis[0])
+    )
+    if a.size != basis.n:
+        msg = f"u_mat file is incomplete, found {a.size} coefficients, expected {basis.n}"
+        raise ValueError(msg)
+    return {"basis": basis, "data": np.moveaxis(a, -1, 0).reshape(-1)}
 
 
 def _write_setup_files_wannier90(
-- 
2.43.0


From 146cb20c70afa24225a891761168af69c4b69dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 07/28] fix: check each dimension of the wannier90 u_mat file,
 and not only the number of coefficients

---
 .../wavepacket/localization/_wannier90.py                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_wannier90.py b/surface_potential_analysis/wavepacket/localization/_wannier90.py
index 2b9016d..208635f 100644
--- a/surface_potential_analysis/wavepacket/localization/_wannier90.py
+++ b/surface_potential_analysis/wavepacket/localization/_wannier90.py
@@ -454,8 +454,9 @@ def _get_localization_operator_from_u_mat_file(
     basis = TupleBasis(
         wavepackets_basis[1], TupleBasis(projection_basis, wavepackets_basis[0])
     )
-    if a.size != basis.n:
-        msg = f"u_mat file is incomplete, found {a.size} coefficients, expected {basis.n}"
+    expected = (projection_basis.n, wavepackets_basis[0].n, wavepackets_basis[1].n)
+    if a.shape != expected:
+        msg = f"u_mat file has coefficients of shape {a.shape}, expected {expected}"
         raise ValueError(msg)
     return {"basis": basis, "data": np.moveaxis(a, -1, 0).reshape(-1)}
 
-- 
2.43.0


From f875232c8fde06a52e2a5baa5f0b0ae91231b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 08/28] fix: raise if the parallel solver lost a trajectory

qutip ignores a worker that was interrupted, and errors which occur while a
result is being collected, so the returned data had fewer trajectories than
its basis.
---
 .../dynamics/stochastic_schrodinger/solve.py                   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 72c45dd..c4eede5 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -318,6 +318,9 @@ def solve_stochastic_schrodinger_equation(  # type: ignore bad overload
         },
         ntraj=n_trajectories,  # cspell:disable-line
     )
+    if len(result.states) != n_trajectories:
+        msg = f"Only {len(result.states)} of {n_trajectories} trajectories completed"
+        raise RuntimeError(msg)
     return {
         "basis": TupleBasis(
             TupleBasis(FundamentalBasis(n_trajectories), times),
-- 
2.43.0


From a922b9432716b780b24fca44f21d599b5c71c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 09/28] fix: pass the size of a single step to the native
 solver

times.dt is the interval between stored times, which is made of times.step
steps (the banded and bra-ket solvers already pass fundamental_dt).
---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index c4eede5..2ad3a53 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -400,7 +400,7 @@ def solve_stochastic_schrodinger_equation_rust(  # type: ignore bad overload
         SimulationConfig(
             n=times.n,
             step=times.step,
-            dt=times.dt,
+            dt=times.fundamental_dt,
             n_trajectories=n_trajectories,
             n_realizations=n_realizations,
             method="Euler",
-- 
2.43.0


From d805057fa869e76554c55042f568b43721873e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 10/28] fix: allow the banded solver to run when every collapse
 operator is zero

The operators were divided by a norm of zero, so the solver was handed nan.
---
 .../dynamics/stochastic_schrodinger/solve.py                     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 2ad3a53..5454add 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -522,6 +522,7 @@ def solve_stochastic_schrodinger_equation_rust_banded(  # type: ignore bad overl
     # We get the best numerical performace if we set the norm of the largest collapse operators
     # to be one. This prevents us from accumulating large errors when multiplying state * dt * operator * conj_operator
     max_norm = np.max(operators_norm) if operators_norm else np.float64(1)
+    max_norm = max_norm if max_norm > 0 else np.float64(1)
     dt = (times.fundamental_dt * max_norm**2 / hbar).item()
 
     banded_collapse = _get_banded_operators(
-- 
2.43.0


From 5c571ebaad482eae00975a97f8830db02ca1ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 11/28] fix: make the localized solver start at the initial
 state and use the full time step

The state stored for each time was the one half an interval later than the
previous one, and the first was not the initial state.
---
 .../dynamics/stochastic_schrodinger/solve.py                 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 5454add..82868a2 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -658,10 +658,11 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
 
     for trajectory in range(n_trajectories):
         state = initial_state
-        for t in range(times.n):
+        data[trajectory, 0] = state["data"]
+        for t in range(1, times.n):
             result = solve_stochastic_schrodinger_equation(
                 state,
-                EvenlySpacedTimeBasis(2, times.step, 0, times.dt),
+                EvenlySpacedTimeBasis(2, times.step, 0, 2 * times.dt),
                 hamiltonian,
                 collapse_operators,
                 n_trajectories=n_realizations,
-- 
2.43.0


From 5c8e089064495109cfcbd54938309221c8490f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 12/28] fix: pass the bra states of the collapse operators as
 bra

They were appended to the list of kets, which left the bra list empty.
---
 .../dynamics/diagonalized_stochastic_schrodinger/solve.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/diagonalized_stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/diagonalized_stochastic_schrodinger/solve.py
index 55e563b..ccdb9b0 100644
--- a/surface_potential_analysis/dynamics/diagonalized_stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/diagonalized_stochastic_schrodinger/solve.py
@@ -85,7 +85,7 @@ def solve_stochastic_schrodinger_equation(  # type: ignore bad overload
         states_bra = get_basis_states(operator["basis"][0])
         assert states_bra["basis"][0].n == 1
         state_bra = get_state_dual_vector(states_bra, 0)
-        ket.extend(state_bra["data"])
+        bra.extend(state_bra["data"])
 
         states_ket = get_basis_states(operator["basis"][0])
         assert states_ket["basis"][0].n == 1
-- 
2.43.0


From 253592426a2fe981bf84edda27d7328fb8626bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 13/28] fix: sample the noise of the truncated operators

The plot of a single sample used the first operators of the list rather than
those which the truncation selected.
---
 surface_potential_analysis/kernel/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5118cd8..5a69a0d 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -306,12 +306,12 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
     measured_potential = np.zeros(truncated["basis"][1][0].n, dtype=np.complex128)
     for i, factor in enumerate(factors):
         operator = select_diagonal_operator(
-            operators,
+            truncated,
             idx=i,
         )
         measured_potential += (
             factor
-            * np.lib.scimath.sqrt(operators["eigenvalue"][i] * hbar)
+            * np.lib.scimath.sqrt(truncated["eigenvalue"][i] * hbar)
             * operator["data"]
         )
 
-- 
2.43.0


From e493ee2ad07868a1083070f5b1f25c242eba4ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:05 +0000
Subject: [PATCH 14/28] fix: localize the realizations at the end of each step

The states of one realization at the start and the end of the step were
combined, rather than those of all realizations at the end of it.
---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 82868a2..12adbcf 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -669,7 +669,7 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
             )
             # Re-localize our state
             state = _select_random_localized_state(
-                get_state_along_axis(result, axes=(1,), idx=(1,))
+                get_state_along_axis(result, axes=(0,), idx=(1,))
             )
 
             data[trajectory, t] = state["data"]
-- 
2.43.0


From 32fcbbe253e035e7d7349fb0c761188dab547c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:05 +0000
Subject: [PATCH 15/28] fix: allow a single sample of the noise to be plotted
 without an axis

---
 surface_potential_analysis/kernel/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5a69a0d..7dcb408 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -317,6 +317,7 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
 
     measured_potential -= measured_potential[0]
 
+    _, ax = get_figure(ax)
     ax.set_ylabel("Energy /J")  # type: ignore library type
 
     return plot_data_1d_x(
-- 
2.43.0


From 20565de8d9ab906985ef6c3950202a3030d3faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 16/28] fix: select a localized state when the realizations are
 linearly dependent

Their overlap matrix has eigenvalues of zero, which may be rounded to a
negative probability.
---
 .../dynamics/stochastic_schrodinger/solve.py                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 12adbcf..484c471 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -605,7 +605,8 @@ def _select_random_localized_state(
     # Vectors representing the combination of states that diagonalizes rho
     eigenstates = calculate_eigenvectors_hermitian(op)
 
-    probabilities = eigenstates["eigenvalue"]
+    # The eigenvalues are non-negative, up to rounding
+    probabilities = np.maximum(eigenstates["eigenvalue"], 0)
     probabilities /= np.sum(probabilities)
 
     idx = rng.choice(probabilities.size, p=probabilities)
-- 
2.43.0


From 99053d2283ba08635759c51dff3b17381bbc541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 17/28] fix: accept diagonal kernels with entries that vanish

---
 surface_potential_analysis/kernel/solve/_eigenvalue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_eigenvalue.py b/surface_potential_analysis/kernel/solve/_eigenvalue.py
index 8eb2509..c506a75 100644
--- a/surface_potential_analysis/kernel/solve/_eigenvalue.py
+++ b/surface_potential_analysis/kernel/solve/_eigenvalue.py
@@ -113,8 +113,10 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
     # for our finite temperature correction.
     # For isotropic noise, it is always possible to force this to be true
     # As long as we have evenly spaced k (we have to take symmetric and antisymmetric combinations)
+    # Entries can vanish up to rounding, so compare with the size of the kernel
+    atol = 1e-10 * np.max(np.abs(data), initial=0)
     np.testing.assert_allclose(
-        data, np.conj(np.transpose(data)), err_msg="kernel non hermitian"
+        data, np.conj(np.transpose(data)), atol=atol, err_msg="kernel non hermitian"
     )
     res = np.linalg.eigh(data)
 
@@ -127,6 +129,7 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
             np.conj(np.transpose(res.eigenvectors)),
         ),
         rtol=1e-4,
+        atol=atol,
     )
     # The original kernel has the noise operators as \ket{i}\bra{j}
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
-- 
2.43.0


From 9e7a0e6788e56173734940ff5a4838fe710eebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 18/28] fix: convert real vectors by value when the basis does
 not change

---
 surface_potential_analysis/basis/basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/basis_like.py b/surface_potential_analysis/basis/basis_like.py
index 0204947..34a7050 100644
--- a/surface_potential_analysis/basis/basis_like.py
+++ b/surface_potential_analysis/basis/basis_like.py
@@ -308,7 +308,7 @@ class BasisLike(
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
         assert basis.fundamental_n == self.fundamental_n
         if self == basis:
-            return vector.view(np.complex128)
+            return vector.astype(np.complex128, copy=False)
         # Small speedup here, and prevents imprecision of fft followed by ifft
         # And two pad_ft_points
         if isinstance(self, AsTransformedBasis) and isinstance(
-- 
2.43.0


From 8591f4c7b9b061eb79f399a068f9f930626919bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 19/28] fix: plot the diagonal operator on the axes it is given

---
 surface_potential_analysis/operator/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 2d087fe..7b6d25a 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -249,7 +249,11 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]), operator["data"], measure=measure, scale=scale
+        TupleBasis(operator["basis"][0]),
+        operator["data"],
+        ax=ax,
+        measure=measure,
+        scale=scale,
     )
 
     line.set_label(f"{measure} operator")
-- 
2.43.0


From 753f6e01d0f27e71caf75cc208da495d3a0feeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 20/28] fix: animate the potential in the position basis

---
 surface_potential_analysis/potential/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 66a0f37..754e520 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -316,9 +316,9 @@ def animate_potential_3d_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     converted = convert_potential_to_position_basis(potential)
-    points = potential["data"].reshape(converted["basis"].shape)
+    points = converted["data"].reshape(converted["basis"].shape)
     fig, ax, ani = animate_data_through_surface_x(  # type: ignore[misc]
-        potential["basis"],
+        converted["basis"],
         points,
         axes,
         idx,
-- 
2.43.0


From 0a3559e4ed477c465a57b296832e0c5852c9c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 21/28] fix: choose the slice of a momentum plot from the data
 in momentum space

---
 surface_potential_analysis/util/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 46bdf18..60c3250 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -269,7 +269,7 @@ def plot_data_1d_k(
     basis_k = stacked_basis_as_fundamental_momentum_basis(basis)
     converted_data = convert_vector(data, basis, basis_k)
 
-    idx = get_max_idx(basis_k, data, axes) if idx is None else idx
+    idx = get_max_idx(basis_k, converted_data, axes) if idx is None else idx
 
     coordinates = get_k_coordinates_in_axes(basis_k, axes, idx)
     data_in_axis = get_data_in_axes(converted_data.reshape(basis_k.shape), axes, idx)
-- 
2.43.0


From 77e3c294e1f5976b03a8a4c5f10aa05b827b014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 22/28] fix: do not show the first frame behind every other
 frame of an animation

---
 surface_potential_analysis/util/plot.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 60c3250..449d397 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -571,7 +571,6 @@ def build_animation(
     """
     fig, ax = get_figure(ax)
 
-    mesh0 = build_frame(0, ax)
     frames = [[build_frame(d, ax)] for d in range(n)]
 
     clim = _get_lim(clim, measure, np.array([i[0].get_clim() for i in frames]))
@@ -579,8 +578,6 @@ def build_animation(
     for (mesh,) in frames:
         mesh.set_norm(norm)
         mesh.set_clim(*clim)
-    mesh0.set_norm(norm)
-    mesh0.set_clim(*clim)
 
     return (fig, ax, ArtistAnimation(fig, frames))
 
-- 
2.43.0


From 18ed5b3c8cb4d1a8dc70460d6371df602ab380c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 23/28] fix: animate data through every position of the
 requested axis

---
 surface_potential_analysis/util/plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 449d397..cb36e39 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -628,21 +628,22 @@ def animate_data_through_surface_x(
 
     coordinates = get_x_coordinates_in_axes(basis, axes, idx)
     data_in_axis = get_data_in_axes(data.reshape(basis.shape), axes, idx)
-    measured_data = get_measured_data(data_in_axis, measure)
 
     fig, ax, ani = build_animation(
         lambda i, ax: ax.pcolormesh(  # type: ignore lib
             *coordinates[:2, :, :, i],
-            measured_data[:, :, i],
+            get_measured_data(data_in_axis[:, :, i], measure),
             shading="nearest",
         ),
-        data.shape[2],
+        data_in_axis.shape[2],
         ax=ax,
         scale=scale,
+        measure=measure,
         clim=clim,
     )
     ax.set_aspect("equal", adjustable="box")
-    fig.colorbar(ax.collections[0], ax=ax, format="%4.1e")  # type: ignore Type of "collections" is unknown
+    # The frames are the last collections added to the axis
+    fig.colorbar(ax.collections[-1], ax=ax, format="%4.1e")  # type: ignore Type of "collections" is unknown
 
     ax.set_xlabel(f"x{axes[0]} axis")  # type: ignore lib
     ax.set_ylabel(f"x{axes[1]} axis")  # type: ignore lib
-- 
2.43.0


From 33ade0e262b16b99d0c080c001f844c57ef28284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:33 +0000
Subject: [PATCH 24/28] fix: show the text and the colours of each frame of an
 animation of a list

---
 surface_potential_analysis/util/plot.py | 28 +++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index cb36e39..1e555e2 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -540,6 +540,20 @@ def plot_data_2d_x(
     return fig, ax, mesh
 
 
+def _set_common_norm(
+    meshes: list[QuadMesh],
+    scale: Scale,
+    measure: Measure,
+    clim: tuple[float | None, float | None] = (None, None),
+) -> None:
+    """Use the same norm for all frames, such that the colorbar is valid for each of them."""
+    lim = _get_lim(clim, measure, np.array([mesh.get_clim() for mesh in meshes]))
+    norm = _get_norm_with_lim(scale, lim)
+    for mesh in meshes:
+        mesh.set_norm(norm)
+        mesh.set_clim(*lim)
+
+
 def build_animation(
     build_frame: Callable[[int, Axes], QuadMesh | AxesImage],
     n: int,
@@ -835,8 +849,9 @@ def animate_data_through_list_2d_k(
     """
     fig, ax = get_figure(ax)
 
-    frames: list[list[QuadMesh]] = []
+    frames: list[list[Any]] = []
     for data_i in data:
+        n_texts = len(ax.texts)
         _, _, mesh = plot_data_2d_k(
             basis,
             data_i,
@@ -846,8 +861,10 @@ def animate_data_through_list_2d_k(
             scale=scale,
             measure=measure,
         )
-        frames.append([mesh])
+        # The text which describes the slice is only valid for this frame
+        frames.append([mesh, *ax.texts[n_texts:]])
 
+    _set_common_norm([frame[0] for frame in frames], scale, measure)
     ani = ArtistAnimation(fig, frames)
     return fig, ax, ani
 
@@ -886,9 +903,10 @@ def animate_data_through_list_2d_x(
     """
     fig, ax = get_figure(ax)
 
-    frames: list[list[QuadMesh]] = []
+    frames: list[list[Any]] = []
 
     for data_i in data:
+        n_texts = len(ax.texts)
         _, _, mesh = plot_data_2d_x(
             basis,
             data_i,
@@ -898,7 +916,9 @@ def animate_data_through_list_2d_x(
             scale=scale,
             measure=measure,
         )
-        frames.append([mesh])
+        # The text which describes the slice is only valid for this frame
+        frames.append([mesh, *ax.texts[n_texts:]])
 
+    _set_common_norm([frame[0] for frame in frames], scale, measure)
     ani = ArtistAnimation(fig, frames)
     return fig, ax, ani
-- 
2.43.0


From d609bf17261538fef27d45ebf11f66239f9f422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 25/28] fix: do not normalise the caller's states when
 calculating their spread

---
 surface_potential_analysis/state_vector/plot.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e0aba67..d456ac5 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1122,6 +1122,14 @@ def plot_averaged_occupation_1d_x(
     return fig, ax
 
 
+def _get_normalized_states(
+    states: StateVectorList[_B0Inv, _SBV0],
+) -> StateVectorList[_B0Inv, _SBV0]:
+    data = states["data"].reshape(states["basis"].shape)
+    data = data / np.linalg.norm(data, axis=1)[:, np.newaxis]
+    return {"basis": states["basis"], "data": data.ravel()}
+
+
 def _get_x_spread(
     states: StateVectorList[
         _B0Inv,
@@ -1151,11 +1159,7 @@ def _get_x_spread(
     """
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
-    data = states["data"].reshape(states["basis"].shape)
-    data /= np.linalg.norm(data, axis=1)[:, np.newaxis]
-
-    states["data"] = data.ravel()
-    periodic_x = _get_periodic_x(states, direction)
+    periodic_x = _get_periodic_x(_get_normalized_states(states), direction)
     norm = np.abs(periodic_x["data"])
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
@@ -1181,6 +1185,7 @@ def get_coherent_coordinates(
     -------
     ValueList[TupleBasisLike[FundamentalBasis[Literal[3]], _B0Inv]]
     """
+    states = _get_normalized_states(states)
     sigma_0 = _get_x_spread(states, axis)
     x0 = _get_average_x_periodic(states, axis)
     k0 = _get_average_k(states, axis)
@@ -1366,6 +1371,7 @@ def plot_spread_against_k(
     """
     fig, ax = get_figure(ax)
 
+    states = _get_normalized_states(states)
     spread_x = _get_x_spread(states, axes[0])
     k = _get_average_k(states, axes[0])
 
-- 
2.43.0


From ed80315c4fa5ca7cdc5e2971f1b90243670e81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 26/28] fix: do not shift the caller's energies when plotting
 occupations

---
 .../state_vector/eigenvalue_list_plot.py                       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
index 86204d0..ef551dc 100644
--- a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
+++ b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
@@ -99,8 +99,7 @@ def plot_eigenstate_occupations(
     """
     fig, ax = get_figure(ax)
 
-    energies = eigenstates["eigenvalue"]
-    energies -= np.min(energies)
+    energies = eigenstates["eigenvalue"] - np.min(eigenstates["eigenvalue"])
     occupation = np.exp(-np.abs(energies) / (temperature * Boltzmann))
     occupation /= np.sum(occupation)
 
-- 
2.43.0


From e2fdab34e560663f9bc4d19c9a1b9e88d679a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 27/28] fix: localization operators could not be applied to
 wavepackets whose bases were copied or loaded separately

---
 .../wavepacket/localization_operator.py       | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index 7da10f1..5e3a070 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -50,6 +50,30 @@ states by a unit cell.
 DiagonalLocalizationOperator = SingleBasisDiagonalOperator[TupleBasis[_B0, _B1]]
 
 
+def _is_equivalent(lhs: Any, rhs: Any) -> bool:
+    """
+    Check if two bases describe the same states.
+
+    Bases compare by identity, but the basis of an operator which was copied or
+    loaded from a file is never the same object as that of the wavepackets.
+    """
+    if lhs is rhs:
+        return True
+    if isinstance(lhs, np.ndarray) or isinstance(rhs, np.ndarray):
+        return np.array_equal(lhs, rhs)
+    if isinstance(lhs, tuple | list) and isinstance(rhs, tuple | list):
+        return len(lhs) == len(rhs) and all(map(_is_equivalent, lhs, rhs))
+    if isinstance(lhs, dict) and isinstance(rhs, dict):
+        return lhs.keys() == rhs.keys() and all(
+            _is_equivalent(lhs[k], rhs[k]) for k in lhs
+        )
+    if type(lhs) is type(rhs) and hasattr(lhs, "__dict__"):
+        # Ignores cached properties, which might only exist for one of the two
+        shared = vars(lhs).keys() & vars(rhs).keys()
+        return all(_is_equivalent(vars(lhs)[k], vars(rhs)[k]) for k in shared)
+    return lhs == rhs
+
+
 def localization_operator_as_diagonal(
     operator: LocalizationOperator[_B0, _B1, _B2],
 ) -> DiagonalLocalizationOperator[_B0, _B1]:
@@ -100,8 +124,8 @@ def get_localized_wavepackets(
     WavepacketList[_B1, _SB1, _SB0]
         The localized wavepackets
     """
-    assert wavepackets["basis"][0][0] == operator["basis"][1][1]
-    assert wavepackets["basis"][0][1] == operator["basis"][0]
+    assert _is_equivalent(wavepackets["basis"][0][0], operator["basis"][1][1])
+    assert _is_equivalent(wavepackets["basis"][0][1], operator["basis"][0])
 
     stacked_operator = operator["data"].reshape(
         operator["basis"][0].n, *operator["basis"][1].shape
@@ -172,8 +196,8 @@ def get_diagonal_localized_wavepackets(
     WavepacketList[_B1, _SB1, _SB0]
         The localized wavepackets
     """
-    assert wavepackets["basis"][0][0] == operator["basis"][0][1]
-    assert wavepackets["basis"][0][1] == operator["basis"][0][0]
+    assert _is_equivalent(wavepackets["basis"][0][0], operator["basis"][0][1])
+    assert _is_equivalent(wavepackets["basis"][0][1], operator["basis"][0][0])
 
     stacked_operator = operator["data"].reshape(operator["basis"][0].shape)
     vectors = wavepackets["data"].reshape(*wavepackets["basis"][0].shape, -1)
-- 
2.43.0


From 7d37dff18cbdb57941eb9a0d590b51c741afe78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 28/28] fix: without sse_solver_py the rust solvers failed with
 a NameError instead of naming the missing package

---
 .../dynamics/stochastic_schrodinger/solve.py                 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 484c471..b82d2eb 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -46,6 +46,11 @@ except ImportError:
     )
     # if sse_solver_py is not installed, create a dummy functions
 
+    class SimulationConfig:  # noqa: D101
+        def __init__(self, **_kwargs: Any) -> None:
+            msg = "sse_solver_py not installed, add sse_solver_py feature"
+            raise NotImplementedError(msg)
+
     def solve_sse(  # noqa: D103
         initial_state: list[complex],  # noqa: ARG001
         hamiltonian: list[list[complex]],  # noqa: ARG001
-- 
2.43.0

