From dbad0ccb45aed45c65dda56489f9f72ca829d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 01/13] fix: matrix_repr(coeff=...) of terms is not disturbed
 by other calls or failures

The new coefficient was stored before the matrix was built and read back
afterwards, so a concurrent call could return a matrix that carries the
coefficient of another caller, and a call that failed left the term with the
new coefficient.
---
 HamiltonianPy/quantumoperator/particlesystem.py | 16 ++++++++++++----
 HamiltonianPy/quantumoperator/spinsystem.py     | 14 +++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/HamiltonianPy/quantumoperator/particlesystem.py b/HamiltonianPy/quantumoperator/particlesystem.py
index 3bbcd98..6135256 100644
--- a/HamiltonianPy/quantumoperator/particlesystem.py
+++ b/HamiltonianPy/quantumoperator/particlesystem.py
@@ -1229,15 +1229,23 @@ class ParticleTerm:
             `cols` are the row and column indices of the none-zero elements.
         """
 
-        if coeff is not None:
-            self.coeff = coeff
+        # Use a local variable from here on, so that concurrent calls with
+        # different coefficients do not disturb each other, and update this
+        # term only after the matrix representation was obtained.
+        new_coeff = self._coeff if coeff is None else coeff
+        assert isinstance(new_coeff, NUMERIC_TYPES_GENERAL), (
+            "Invalid coefficient"
+        )
 
         term = [
             (aoc.getStateIndex(state_indices_table), aoc.otype)
             for aoc in self._aocs
         ]
-        return matrix_function(
+        res = matrix_function(
             term, right_bases,
-            left_bases=left_bases, coeff=self._coeff,
+            left_bases=left_bases, coeff=new_coeff,
             to_csr=to_csr, special_tag=self._classification
         )
+        if coeff is not None:
+            self._coeff = coeff
+        return res
diff --git a/HamiltonianPy/quantumoperator/spinsystem.py b/HamiltonianPy/quantumoperator/spinsystem.py
index bb4cd61..6fa70ee 100644
--- a/HamiltonianPy/quantumoperator/spinsystem.py
+++ b/HamiltonianPy/quantumoperator/spinsystem.py
@@ -744,12 +744,20 @@ class SpinInteraction:
             The matrix representation of this spin interaction term.
         """
 
-        if coeff is not None:
-            self.coeff = coeff
+        # Use a local variable from here on, so that concurrent calls with
+        # different coefficients do not disturb each other, and update this
+        # term only after the matrix representation was obtained.
+        new_coeff = self._coeff if coeff is None else coeff
+        assert isinstance(new_coeff, NUMERIC_TYPES_GENERAL), (
+            "Invalid coefficient"
+        )
 
         total_spin = len(site_indices_table)
         operators = [
             (operator.getSiteIndex(site_indices_table), operator.otype)
             for operator in self._operators
         ]
-        return self.matrix_function(operators, total_spin, self.coeff)
+        res = self.matrix_function(operators, total_spin, new_coeff)
+        if coeff is not None:
+            self._coeff = coeff
+        return res
-- 
2.43.0


From 30bcb3c82e8a0cede9e862492de6119a89fe726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 02/13] fix: search all translations that can be in range for
 oblique lattices

The shell-by-shell search in Lattice._guess_scope stopped as soon as one shell
was out of range, but for translation vectors such as (1, 0) and (5, 1) a later
shell comes back into range, so bonds were missed and sites of the lattice were
reported as not belonging to it.
---
 HamiltonianPy/lattice/lattice.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a25b7d8..6557c19 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -265,24 +265,19 @@ class Lattice:
 
         return np.array(self._points[index], copy=True)
 
+    def _projection_spread(self):
+        # The spread of the cluster along every reciprocal base vector
+        projections = np.matmul(self._points, self._bs.T)
+        return np.max(projections, axis=0) - np.min(projections, axis=0)
+
     def _guess_scope(self, ref_distance):
-        repeat = self._trans_dim
-        scope = -1
-        while True:
-            inner_mesh = product(range(-scope, scope+1), repeat=repeat)
-            outer_mesh = product(range(-scope-1, scope+2), repeat=repeat)
-            edge_dRs = np.matmul(
-                list(set(outer_mesh).difference(set(inner_mesh))), self._vectors
-            )
-            edge_points = np.reshape(
-                edge_dRs[:, np.newaxis, :] + self._points,
-                newshape=(-1, self._space_dim)
-            )
-            if np.min(cdist(edge_points, self._points)) > ref_distance:
-                break
-            else:
-                scope += 1
-        return scope
+        # If the distance between p0 and p1 + n_0 * a_0 + n_1 * a_1 + ... is
+        # not larger than d, where p0 and p1 are points of the cluster, then
+        # 2 * np.pi * |n_i| <= |b_i| * d + |np.dot(b_i, p0 - p1)|.
+        bounds = np.linalg.norm(self._bs, axis=-1) * (
+            ref_distance + _VIEW_AS_ZERO
+        ) + self._projection_spread()
+        return int(np.max(bounds / (2 * np.pi), initial=0))
 
     def _searching(self, database, displaces):
         matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]
-- 
2.43.0


From 3e464efa6380adc36e1bf4003b4c65b36ffde01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 03/13] fix: Lattice.neighbor_distance only returns distances
 proven complete

The result depended on earlier calls: the distances within the cluster, or
within the finite patch of an earlier query, were taken for the complete list,
so e.g. the 2nd neighbor distance of a 1x3 square cluster was 2.0 instead of
1.4142 until a larger index had been queried.
---
 HamiltonianPy/lattice/lattice.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 6557c19..48a9437 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -124,11 +124,10 @@ class Lattice:
             raise ValueError(
                 "There are duplicate points in the given `points`!"
             )
-        else:
-            dists = np.insert(np.unique(np.rint(tmp * _ZOOM)) / _ZOOM, 0, 0.0)
 
-        # Cache dists as `_all_distances attribute` for later use
-        self._all_distances = dists
+        # Cache of the known neighbor distances in ascending order, it never
+        # has gaps. See also the `neighbor_distance` method.
+        self._all_distances = np.array([0.0])
 
         self.name = name
         self._point_num = point_num
@@ -432,14 +431,25 @@ class Lattice:
 
         assert isinstance(nth, int) and nth >= 0
 
-        try:
-            return self._all_distances[nth]
-        except IndexError:
-            sites = self._sites_factory(scope=nth, no_inversion=False)
-            self._all_distances = np.insert(
-                np.unique(np.rint(pdist(sites) * _ZOOM)) / _ZOOM, 0, 0.0
+        dists = self._all_distances
+        scope = 0
+        while nth >= len(dists):
+            scope += 1
+            sites = self._sites_factory(scope=scope, no_inversion=False)
+            tmp = np.rint(cdist(self._points, sites) * _ZOOM) / _ZOOM
+            dists = np.unique(np.insert(tmp, 0, 0.0))
+            if self._trans_dim == 0:
+                break
+            # Sites outside of the current patch can be as near as `limit`,
+            # so distances that are not less than it might be incomplete.
+            limit = np.min(
+                (2 * np.pi * (scope + 1) - self._projection_spread()) /
+                np.linalg.norm(self._bs, axis=-1)
             )
-            return self._all_distances[nth]
+            dists = dists[dists < limit - _VIEW_AS_ZERO]
+
+        self._all_distances = dists
+        return dists[nth]
 
     def bonds(self, nth, *, only=True, fold=False):
         """
-- 
2.43.0


From ab5d75f1bc4e189a4c74e768f17a558898c2563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 04/13] fix: number and Coulomb terms respect the given
 left_bases

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 6f7d194..b533570 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -222,10 +222,12 @@ def matrix_function(
     if special_tag == "hopping":
         core_func = _core_hopping
         args = (term, right_bases, left_bases)
-    elif special_tag == "number":
+    # The following two specialized functions are only valid when the bases
+    # before and after the operation are the same
+    elif special_tag == "number" and left_bases is right_bases:
         core_func = _core_particle_number
         args = (term, right_bases)
-    elif special_tag == "Coulomb":
+    elif special_tag == "Coulomb" and left_bases is right_bases:
         core_func = _core_coulomb
         args = (term, right_bases)
     else:
-- 
2.43.0


From c3382269690c88e123fcff86c546872139afd80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 05/13] fix: RunTimeEnv restores the process on failure and
 never overwrites a log

---
 HamiltonianPy/tools/runtimeenv.py | 113 ++++++++++++++++++++++--------
 1 file changed, 82 insertions(+), 31 deletions(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 52dbef8..c66bac9 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -57,52 +57,103 @@ class RunTimeEnv:
         path.mkdir(parents=True, exist_ok=True)
         self._rd = rd
         self._path = path
+        # What to restore, one item for every time this instance was entered
+        self._saved = []
+
+    def _open_log(self):
+        # Never reuse an existing log: the clock may be set back and several
+        # environments may be entered within the same second.
+        stem = "Log {0}".format(strftime("%Y-%m-%d %H-%M-%S"))
+        file_name = stem + ".txt"
+        count = 0
+        while True:
+            try:
+                return open(self._path / file_name, 'x', buffering=1)
+            except FileExistsError:
+                count += 1
+                file_name = "{0} ({1}).txt".format(stem, count)
 
     def __enter__(self):
         """
         Construct the run time environment
         """
 
-        mkl.set_num_threads(self._threads_num)
-
+        fp = None
+        stdout = sys.stdout
+        threads_num = mkl.get_max_threads()
         if self._rd:
-            file_name = "Log {0}.txt".format(strftime("%Y-%m-%d %H-%M-%S"))
-            fp = open(self._path / file_name, 'w', buffering=1)
-            self._stdout = sys.stdout
-            sys.stdout = self._fp = fp
-
-            print(
-                "Entering run time environment at {0}".format(
-                    strftime(TIME_FORMAT)
+            fp = self._open_log()
+            try:
+                print(
+                    "Entering run time environment at {0}".format(
+                        strftime(TIME_FORMAT)
+                    ), file=fp
                 )
-            )
-            print("=" * 80, flush=True)
+                print("=" * 80, file=fp, flush=True)
+            except BaseException:
+                self._close_quietly(fp)
+                raise
+
+        mkl.set_num_threads(self._threads_num)
+        self._saved.append((threads_num, stdout, fp))
+        if fp is not None:
+            sys.stdout = fp
         return self
 
+    @staticmethod
+    def _close_quietly(fp):
+        try:
+            fp.close()
+        except OSError:
+            pass
+
+    @staticmethod
+    def _write_summary(fp, exc_type, exc_value, traceback):
+        print("=" * 80, file=fp)
+        if exc_type is None:
+            print("Non exception has occurred!", file=fp)
+        else:
+            print("Exc_type: {0}".format(exc_type), file=fp)
+            print("Exc_value: {0}".format(exc_value), file=fp)
+            print("Traceback:", file=fp)
+            print_tb(traceback, file=fp)
+        print("=" * 80, file=fp)
+        print(
+            "Exit run time environment at: {0}".format(
+                strftime(TIME_FORMAT)
+            ), file=fp, flush=True
+        )
+
     def __exit__(self, exc_type, exc_value, traceback):
         """
         Close the opened file and restore sys.stdout before exit
-        """
 
-        mkl.set_num_threads(mkl.get_max_threads())
+        If the log can not be written, the error is raised, except when an
+        exception is already on its way to the caller. In that case, the
+        error is only reported to `sys.stderr`.
+        """
 
-        if self._rd:
-            print("=" * 80)
-            if exc_type is None:
-                print("Non exception has occurred!")
-            else:
-                print("Exc_type: {0}".format(exc_type))
-                print("Exc_value: {0}".format(exc_value))
-                print("Traceback:")
-                print_tb(traceback, file=self._fp)
-            print("=" * 80)
-            print(
-                "Exit run time environment at: {0}".format(
-                    strftime(TIME_FORMAT)
-                ), flush=True
-            )
-            sys.stdout = self._stdout
-            self._fp.close()
+        threads_num, stdout, fp = self._saved.pop()
+        if fp is not None:
+            sys.stdout = stdout
+        mkl.set_num_threads(threads_num)
+
+        if fp is not None:
+            try:
+                try:
+                    self._write_summary(fp, exc_type, exc_value, traceback)
+                except BaseException:
+                    self._close_quietly(fp)
+                    raise
+                fp.close()
+            except Exception as error:
+                if exc_type is None:
+                    raise
+                print(
+                    "Failed to complete the log {0}: {1!r}".format(
+                        fp.name, error
+                    ), file=sys.stderr
+                )
         return False
 
 
-- 
2.43.0


From 976677db563d51f83ad4eab8b4eeed152e02000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 06/13] fix: Lattice.show(savefig=True) works and never leaves
 its figure behind

---
 HamiltonianPy/lattice/lattice.py | 51 +++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 48a9437..94eed83 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -12,6 +12,7 @@ __all__ = [
 
 
 from itertools import product
+from pathlib import Path
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -366,29 +367,37 @@ class Lattice:
         ]
 
         fig, ax = plt.subplots()
-        ax.set_axis_off()
-        ax.set_aspect("equal")
-        if self._space_dim == 1:
-            ys = np.zeros(shape=self._points.shape)
-            for cluster in clusters:
-                ax.plot(cluster, ys, marker="o", ls="None")
-        else:
-            for cluster in clusters:
-                ax.plot(cluster[:, 0], cluster[:, 1], marker="o", ls="None")
-
-        left, right = ax.get_xlim()
-        bottom, top = ax.get_ylim()
-        half = max(right - left, top - bottom) / 2
-        x_center = (right + left) / 2
-        y_center = (top + bottom) / 2
-        ax.set_xlim(left=x_center-half, right=x_center+half)
-        ax.set_ylim(bottom=y_center-half, top=y_center+half)
-        ax.set_title("{0},scope={1}".format(self.name, scope))
+        try:
+            ax.set_axis_off()
+            ax.set_aspect("equal")
+            if self._space_dim == 1:
+                ys = np.zeros(shape=self._points.shape)
+                for cluster in clusters:
+                    ax.plot(cluster, ys, marker="o", ls="None")
+            else:
+                for cluster in clusters:
+                    ax.plot(
+                        cluster[:, 0], cluster[:, 1], marker="o", ls="None"
+                    )
+
+            left, right = ax.get_xlim()
+            bottom, top = ax.get_ylim()
+            half = max(right - left, top - bottom) / 2
+            x_center = (right + left) / 2
+            y_center = (top + bottom) / 2
+            ax.set_xlim(left=x_center-half, right=x_center+half)
+            ax.set_ylim(bottom=y_center-half, top=y_center+half)
+            ax.set_title("{0},scope={1}".format(self.name, scope))
+
+            if savefig:
+                name = Path(".") / "{0},scope={1}.png".format(self.name, scope)
+                fig.savefig(name)
+        except BaseException:
+            plt.close(fig)
+            raise
 
         if savefig:
-            name = Path(".") / "{0},scope={1}.png".format(self.name, scope)
-            fig.savefig(name)
-            plt.close()
+            plt.close(fig)
             print("The figure has been saved to:\n{0}".format(name.resolve()))
         else:
             plt.show()
-- 
2.43.0


From b7ad797683a6ecff9f00287f6e63ab8375d92b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 07/13] fix: Line2D views do not close the figures of the
 caller

---
 HamiltonianPy/line2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/line2d.py b/HamiltonianPy/line2d.py
index 4b8f74c..1c45314 100644
--- a/HamiltonianPy/line2d.py
+++ b/HamiltonianPy/line2d.py
@@ -187,7 +187,7 @@ class Line2D:
         # ax.set_aspect("equal")
         # ax.set_axis_off()
         plt.show()
-        plt.close("all")
+        plt.close(fig)
 
     def LocationRelation(self, point, *, tol=1E-10):
         """
@@ -259,7 +259,7 @@ class Line2D:
         # ax.set_aspect("equal")
         # ax.set_axis_off()
         plt.show()
-        plt.close("all")
+        plt.close(fig)
 
     def Coordinate(self, known, which="x"):
         """
-- 
2.43.0


From 05e576f2c952743f7733cd499b28e002b7ea293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 08/13] fix: refuse colours of a form that the colour scheme
 does not have

---
 HamiltonianPy/tools/colorprint.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/colorprint.py b/HamiltonianPy/tools/colorprint.py
index 52f7ccb..eac2c77 100644
--- a/HamiltonianPy/tools/colorprint.py
+++ b/HamiltonianPy/tools/colorprint.py
@@ -5,6 +5,8 @@ See also https://en.wikipedia.org/wiki/ANSI_escape_code
 """
 
 
+from string import hexdigits
+
 __all__ = [
     "coloring",
     "color_print",
@@ -75,8 +77,12 @@ def _color_ctrl_seq_4bits(color=None, fg=True):
     elif isinstance(color, str):
         name2code = NAME2CODE_4BITS_FG if fg else NAME2CODE_4BITS_BG
         color_code = name2code[_color_name(color)]
-    else:
+    elif color is None:
         return ""
+    else:
+        raise ValueError(
+            "The given `color` is not supported by 4-bits color scheme."
+        )
     return CSI + "{}m".format(color_code)
 
 
@@ -90,8 +96,12 @@ def _color_ctrl_seq_8bits(color=None, fg=True):
             )
     elif isinstance(color, str):
         color_code = NAME2CODE_8BITS[_color_name(color)]
-    else:
+    elif color is None:
         return ""
+    else:
+        raise ValueError(
+            "The given `color` is not supported by 8-bits color scheme."
+        )
     fmt = CSI + "{0};5;{1}m"
     return fmt.format(38, color_code) if fg else fmt.format(48, color_code)
 
@@ -109,13 +119,19 @@ def _color_ctrl_seq_24bits(color=None, fg=True):
             )
     elif isinstance(color, str):
         if color.startswith('#') and len(color) == 7:
+            if not all(digit in hexdigits for digit in color[1:]):
+                raise ValueError("Unrecognized color name.")
             r = int(color[1:3], base=16)
             g = int(color[3:5], base=16)
             b = int(color[5:7], base=16)
         else:
             r, g, b = NAME2CODE_24BITS[_color_name(color)]
-    else:
+    elif color is None:
         return ""
+    else:
+        raise ValueError(
+            "The given `color` is not supported by 24-bits color scheme."
+        )
     fmt = CSI + "{0};2;{r};{g};{b}m"
     return fmt.format(38,r=r,g=g,b=b) if fg else fmt.format(48,r=r,g=g,b=b)
 
-- 
2.43.0


From 65c82e36f1336e6164058734482296295e30903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 09/13] fix: Draw2DLattice closes only its own figure and saves
 below the given path

---
 HamiltonianPy/tools/Draw2DLattice.py | 75 +++++++++++++++-------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/HamiltonianPy/tools/Draw2DLattice.py b/HamiltonianPy/tools/Draw2DLattice.py
index 69f1c03..4921dee 100644
--- a/HamiltonianPy/tools/Draw2DLattice.py
+++ b/HamiltonianPy/tools/Draw2DLattice.py
@@ -141,43 +141,46 @@ def show(
     sites = _sites_factory(which=which, num0=num0, num1=num1)
 
     fig, ax = plt.subplots()
-    ax.set_axis_off()
-    ax.set_aspect("equal")
-
-    if link:
-        bonds = _bonds_generator(sites=sites)
-        ax.plot(bonds[:, :, 0].T, bonds[:, :, 1].T, color=lc, lw=lw, ls=ls)
-    ax.plot(
-        sites[:, 0], sites[:, 1], marker="o", color=mc, ms=ms, ls="None"
-    )
-
-    if trim:
-        left, right = ax.get_xlim()
-        bottom, top = ax.get_ylim()
-        ax.set_xlim(left/2, right/2)
-        ax.set_ylim(bottom/2, top/2)
-
     try:
-        plt.get_current_fig_manager().window.showMaximized()
-    except Exception:
-        pass
-    plt.show()
-
-    if save:
-        Path(path).mkdir(parents=True, exist_ok=True)
-        if name is None:
-            if which in ("s", "square"):
-                name = "square.pdf"
-            elif which in ("t", "triangle"):
-                name = "triangle.pdf"
-            elif which in ("h", "honeycomb"):
-                name = "honeycomb.pdf"
-            elif which in ("k", "kagome"):
-                name = "kagome.pdf"
-            else:
-                name = which + ".pdf"
-        fig.savefig(path + name, dpi=200)
-    plt.close("all")
+        ax.set_axis_off()
+        ax.set_aspect("equal")
+
+        if link:
+            bonds = _bonds_generator(sites=sites)
+            ax.plot(bonds[:, :, 0].T, bonds[:, :, 1].T, color=lc, lw=lw, ls=ls)
+        ax.plot(
+            sites[:, 0], sites[:, 1], marker="o", color=mc, ms=ms, ls="None"
+        )
+
+        if trim:
+            left, right = ax.get_xlim()
+            bottom, top = ax.get_ylim()
+            ax.set_xlim(left/2, right/2)
+            ax.set_ylim(bottom/2, top/2)
+
+        try:
+            plt.get_current_fig_manager().window.showMaximized()
+        except Exception:
+            pass
+        plt.show()
+
+        if save:
+            Path(path).mkdir(parents=True, exist_ok=True)
+            if name is None:
+                if which in ("s", "square"):
+                    name = "square.pdf"
+                elif which in ("t", "triangle"):
+                    name = "triangle.pdf"
+                elif which in ("h", "honeycomb"):
+                    name = "honeycomb.pdf"
+                elif which in ("k", "kagome"):
+                    name = "kagome.pdf"
+                else:
+                    name = which + ".pdf"
+            fig.savefig(Path(path) / name, dpi=200)
+    finally:
+        # Only close the figure opened here, not the figures of the caller
+        plt.close(fig)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b04481e80da5b3f63a861aff0461c23d09acbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 10/13] fix: opposite bonds and conjugate spins stay so when
 the precision changes

---
 HamiltonianPy/bond.py                       | 5 ++++-
 HamiltonianPy/quantumoperator/spinsystem.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/bond.py b/HamiltonianPy/bond.py
index 7d38784..31b25f1 100644
--- a/HamiltonianPy/bond.py
+++ b/HamiltonianPy/bond.py
@@ -340,7 +340,10 @@ class Bond:
 
         if self._directional:
             if isinstance(other, self.__class__):
-                return self.flip().__eq__(other)
+                # A flipped bond that is made now would get its identity from
+                # the present precision, not from the one of this bond.
+                p0, p1, directional = self._tuple_form
+                return (p1, p0, directional) == other._tuple_form
             else:
                 raise TypeError(
                     "The right operand is not instance of this class."
diff --git a/HamiltonianPy/quantumoperator/spinsystem.py b/HamiltonianPy/quantumoperator/spinsystem.py
index 6fa70ee..ee7a70d 100644
--- a/HamiltonianPy/quantumoperator/spinsystem.py
+++ b/HamiltonianPy/quantumoperator/spinsystem.py
@@ -339,7 +339,10 @@ class SpinOperator:
         """
 
         if isinstance(other, self.__class__):
-            return self.dagger() == other
+            # Compare the existing identities, `self.dagger()` would be made
+            # with the present precision of the coordinates.
+            otype = {"p": "m", "m": "p"}.get(self._otype, self._otype)
+            return (otype, self._site_id._tuple_form) == other._tuple_form
         else:
             raise TypeError(
                 "The `other` parameter is not instance of this class!"
-- 
2.43.0


From fe1351d4560855103b022a1806aef9c3431d84bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 11/13] fix: the Schwinger terms of an interaction share one
 coefficient

---
 HamiltonianPy/quantumoperator/spinsystem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/quantumoperator/spinsystem.py b/HamiltonianPy/quantumoperator/spinsystem.py
index ee7a70d..e5a633f 100644
--- a/HamiltonianPy/quantumoperator/spinsystem.py
+++ b/HamiltonianPy/quantumoperator/spinsystem.py
@@ -660,9 +660,12 @@ class SpinInteraction:
         """
 
         fermion_reprs = [operator.Schwinger() for operator in self._operators]
+        # All terms carry the same coefficient, also when it is changed
+        # meanwhile.
+        coeff = self._coeff
         terms = []
         for term in product(*fermion_reprs):
-            res_term = self._coeff
+            res_term = coeff
             for sub_term in term:
                 res_term = res_term * sub_term
             terms.append(res_term)
-- 
2.43.0


From a269dcbb64fb6858271e6ef71bece600644a35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 12/13] fix: write colour codes as integers

A component such as 1.0 is equal to a supported one and was written to the
control sequence as it is, which is none.
---
 HamiltonianPy/tools/colorprint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/colorprint.py b/HamiltonianPy/tools/colorprint.py
index eac2c77..a23e55b 100644
--- a/HamiltonianPy/tools/colorprint.py
+++ b/HamiltonianPy/tools/colorprint.py
@@ -83,7 +83,7 @@ def _color_ctrl_seq_4bits(color=None, fg=True):
         raise ValueError(
             "The given `color` is not supported by 4-bits color scheme."
         )
-    return CSI + "{}m".format(color_code)
+    return CSI + "{:d}m".format(color_code)
 
 
 def _color_ctrl_seq_8bits(color=None, fg=True):
@@ -102,7 +102,7 @@ def _color_ctrl_seq_8bits(color=None, fg=True):
         raise ValueError(
             "The given `color` is not supported by 8-bits color scheme."
         )
-    fmt = CSI + "{0};5;{1}m"
+    fmt = CSI + "{0};5;{1:d}m"
     return fmt.format(38, color_code) if fg else fmt.format(48, color_code)
 
 
@@ -132,7 +132,7 @@ def _color_ctrl_seq_24bits(color=None, fg=True):
         raise ValueError(
             "The given `color` is not supported by 24-bits color scheme."
         )
-    fmt = CSI + "{0};2;{r};{g};{b}m"
+    fmt = CSI + "{0};2;{r:d};{g:d};{b:d}m"
     return fmt.format(38,r=r,g=g,b=b) if fg else fmt.format(48,r=r,g=g,b=b)
 
 
-- 
2.43.0


From 5834e122ae60c9d216c3d649d783017c04b82091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:47 +0000
Subject: [PATCH 13/13] fix: do not write to the arrays that an operator
 returns

---
 HamiltonianPy/lanczos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/lanczos.py b/HamiltonianPy/lanczos.py
index 37e81c0..c7a1e80 100644
--- a/HamiltonianPy/lanczos.py
+++ b/HamiltonianPy/lanczos.py
@@ -120,7 +120,8 @@ def KrylovRepresentation(M, vectors, v0, krylov_space_dim=200):
             projected_vectors[key].append(np.vdot(ket, vectors[key]))
 
         # Update
-        M_dot_ket -= A * ket
+        # The array returned by `M.dot` belongs to `M`, do not write to it
+        M_dot_ket = M_dot_ket - A * ket
         M_dot_ket -= B * ket_old
         norm = np.linalg.norm(M_dot_ket)
         if norm > _VIEW_AS_ZERO:
-- 
2.43.0

