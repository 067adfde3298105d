From 99724685291562b588e643cb8fcee2d66abbc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 001/100] fix: Resampling: never fail or copy zero-weight
 particles

Rounding of the cumulative weights could select an index beyond the last
particle (IndexError) or a particle with zero weight, and residual resampling
computed the remaining weights without the number of particles.
---
 src/glimpse/track/tracker.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 616e0e4..98096a6 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -165,15 +165,22 @@ class Tracker:
                   (:func:`numpy.random.choice` with `replace=True`).
         """
 
+        def search(weights: np.ndarray, positions: np.ndarray) -> np.ndarray:
+            """Select the weights whose cumulative interval contains each position."""
+            cumulative_weight = np.cumsum(weights)
+            # NOTE: Rounding must not select beyond the last nonzero weight
+            indexes = np.searchsorted(
+                cumulative_weight, positions * cumulative_weight[-1], side="right"
+            )
+            return np.minimum(indexes, np.nonzero(weights)[0][-1])
+
         def systematic(n: int, weights: np.ndarray) -> np.ndarray:
             """Systematic resampling."""
             # Vectorized version of FilterPy
             # https://github.com/rlabbe/filterpy/blob/master/filterpy/monte_carlo/resampling.py
             weights = weights / weights.sum()
             positions = (np.arange(n) + np.random.random()) * (1 / n)
-            cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
-            return np.searchsorted(cumulative_weight, positions)
+            return search(weights, positions)
 
         def stratified(n: int, weights: np.ndarray) -> np.ndarray:
             """Stratified resampling."""
@@ -181,9 +188,7 @@ class Tracker:
             # https://github.com/rlabbe/filterpy/blob/master/filterpy/monte_carlo/resampling.py
             weights = weights / weights.sum()
             positions = (np.arange(n) + np.random.random(n)) * (1 / n)
-            cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
-            return np.searchsorted(cumulative_weight, positions)
+            return search(weights, positions)
 
         def residual(n: int, weights: np.ndarray) -> np.ndarray:
             """Residual resampling."""
@@ -193,13 +198,11 @@ class Tracker:
             # NOTE: Assumes weights sum to 1
             repetitions = (n * weights).astype(int)
             initial_indexes = np.repeat(np.arange(n), repetitions)
-            residuals = weights - repetitions
-            residuals *= 1 / residuals.sum()
-            cumulative_sum = np.cumsum(residuals)
-            cumulative_sum[-1] = 1.0
-            additional_indexes = np.searchsorted(
-                cumulative_sum, np.random.random(n - len(initial_indexes))
-            )
+            n_additional = n - len(initial_indexes)
+            if n_additional == 0:
+                return initial_indexes
+            residuals = n * weights - repetitions
+            additional_indexes = search(residuals, np.random.random(n_additional))
             return np.hstack((initial_indexes, additional_indexes))
 
         def choice(n: int, weights: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 1893932942236977db8aad6014959336a55e1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 002/100] fix: Raster.read: cache the full raster when read
 with a box

Reading a box with cache=True from a raster not yet read cached only the box
and then subset it again. A failed band read now raises.
---
 src/glimpse/raster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 65b00ae..af283a3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -806,7 +806,7 @@ class Raster(Grid):
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None:
+            if box is not None and not cache:
                 # Convert box coordinates to source coordinates
                 scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
                     (kwargs["buf_xsize"], kwargs["buf_ysize"])
@@ -821,6 +821,8 @@ class Raster(Grid):
                     buf_ysize=int(box[1][1] - box[0][1]),
                 )
             array = band.ReadAsArray(**kwargs)
+            if array is None:
+                raise OSError(f"Could not read raster: {self.path}")
             if self._nan is not None:
                 if not np.issubdtype(array.dtype, np.floating):
                     array = array.astype(float)
-- 
2.43.0


From cf0efadd1366ed5c052c9e3e0d93874c7be7c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 003/100] fix: Tracker.track: do not share particle state
 between parallel threads

With the thread backend (sharedmem.MapReduceByThread), concurrent tracks
overwrote each other's particles, weights and templates.
---
 src/glimpse/track/tracker.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 98096a6..6f7768a 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -1,4 +1,5 @@
 """Track particle trajectories through time."""
+import copy
 import datetime
 import sys
 import traceback
@@ -306,6 +307,8 @@ class Tracker:
         dts = np.diff(datetimes)
 
         def process(motion_model: Motion, observer_mask: np.ndarray) -> list:
+            # NOTE: Tracks processed in parallel (e.g. threads) cannot share their state
+            tracker = copy.copy(self) if parallel else self
             means = np.full((ntimes, 6), np.nan)
             if return_covariances:
                 sigmas = np.full((ntimes, 6, 6), np.nan)
@@ -328,17 +331,17 @@ class Tracker:
                     last = len(observed) - 1 - np.argmax(observed[::-1])
                     for i in range(first, last + 1):
                         if i == first:
-                            self.particles = motion_model.initialize_particles()
-                            self.test_particles()
-                            self.initialize_weights()
+                            tracker.particles = motion_model.initialize_particles()
+                            tracker.test_particles()
+                            tracker.initialize_weights()
                         else:
                             dt = dts[i - 1]
-                            motion_model.evolve_particles(self.particles, dt=dt)
-                            self.test_particles()
+                            motion_model.evolve_particles(tracker.particles, dt=dt)
+                            tracker.test_particles()
                         # Initialize templates for Observers starting at datetimes[i]
                         at_template = observer_mask & (template_indices == i)
                         for obs in np.nonzero(at_template)[0]:
-                            self.initialize_template(
+                            tracker.initialize_template(
                                 obs=obs,
                                 img=matching_images[i][obs],
                                 tile_size=tile_size,
@@ -348,16 +351,16 @@ class Tracker:
                                 img if m else None
                                 for img, m in zip(matching_images[i], observer_mask)
                             ]
-                            self.update_weights(imgs=imgs, motion_model=motion_model)
-                            self.resample_particles()
-                        means[i] = self.particle_mean
+                            tracker.update_weights(imgs=imgs, motion_model=motion_model)
+                            tracker.resample_particles()
+                        means[i] = tracker.particle_mean
                         if return_covariances:
-                            sigmas[i] = self.particle_covariance
+                            sigmas[i] = tracker.particle_covariance
                         else:
-                            sigmas[i] = self.compute_particle_sigma(mean=means[i])
+                            sigmas[i] = tracker.compute_particle_sigma(mean=means[i])
                         if return_particles:
-                            particles[i] = self.particles
-                            weights[i] = self.weights
+                            particles[i] = tracker.particles
+                            weights[i] = tracker.weights
                 if caught:
                     all_warnings = tuple(caught)
             except Exception as e:
-- 
2.43.0


From fd29493db46fed72ede85b99e47b82a8d8d76df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 004/100] fix: Tracks: one error and one warnings entry per
 track

numpy.asarray failed on, or changed the shape of, tracks with different numbers
of warnings.
---
 src/glimpse/track/tracks.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ce7fb73..561bbbd 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -84,8 +84,17 @@ class Tracks:
         self.tracker = tracker
         self.images = images if images is None else np.asarray(images)
         self.params = params
-        self.errors = errors if errors is None else np.asarray(errors)
-        self.warnings = warnings if warnings is None else np.asarray(warnings)
+        self.errors = errors if errors is None else self._as_objects(errors)
+        self.warnings = warnings if warnings is None else self._as_objects(warnings)
+
+    @staticmethod
+    def _as_objects(values: Iterable) -> np.ndarray:
+        """Build a one-dimensional array of objects, whatever their shape (n,)."""
+        values = list(values)
+        array = np.empty(len(values), dtype=object)
+        for i, value in enumerate(values):
+            array[i] = value
+        return array
 
     @property
     def xyz(self) -> np.ndarray:
-- 
2.43.0


From c0cffc694675b8f9f0b675adcc14315091bbfe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 005/100] fix: Tracker.track: record errors of any exception
 class

---
 src/glimpse/track/tracker.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 6f7768a..8a4fbed 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -1,6 +1,7 @@
 """Track particle trajectories through time."""
 import copy
 import datetime
+import pickle
 import sys
 import traceback
 import warnings
@@ -17,6 +18,22 @@ from .motion import Motion
 from .observer import Observer
 from .tracks import Tracks
 
+
+def _picklable_error(error: Exception, message: str) -> Exception:
+    """
+    Return an exception with a new message that can be returned by a process.
+
+    The exception class is kept, unless it cannot be created from a message
+    or cannot be pickled.
+    """
+    try:
+        copied = pickle.loads(pickle.dumps(error.__class__(message)))
+        if any(message in str(arg) for arg in copied.args):
+            return copied
+    except Exception:
+        pass
+    return RuntimeError(message)
+
 Number = Union[int, float]
 
 
@@ -369,8 +386,8 @@ class Tracker:
                 if errors:
                     raise e
                 else:
-                    error = e.__class__(
-                        "".join(traceback.format_exception(*sys.exc_info()))
+                    error = _picklable_error(
+                        e, "".join(traceback.format_exception(*sys.exc_info()))
                     )
             results = [means, sigmas, error, all_warnings]
             if reduce_particles:
-- 
2.43.0


From a2d98ae4e306fe15bf84692a1ba140f1ecc11453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 006/100] fix: Tracker.track: ignore observers without a
 matching image

---
 src/glimpse/track/tracker.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 8a4fbed..228e5f1 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -311,7 +311,8 @@ class Tracker:
             observer_mask = np.ones((ntracks, len(self.observers)), dtype=bool)
         # Compute matching images
         matching_images = self.match_datetimes(datetimes=datetimes, maxdt=maxdt)
-        template_indices = np.not_equal(matching_images, None).argmax(axis=0)
+        is_matched = np.not_equal(matching_images, None)
+        template_indices = is_matched.argmax(axis=0)
         # Cache matching images
         if ntracks > 1:
             for i, observer in enumerate(self.observers):
@@ -356,7 +357,9 @@ class Tracker:
                             motion_model.evolve_particles(tracker.particles, dt=dt)
                             tracker.test_particles()
                         # Initialize templates for Observers starting at datetimes[i]
-                        at_template = observer_mask & (template_indices == i)
+                        at_template = (
+                            observer_mask & is_matched[i] & (template_indices == i)
+                        )
                         for obs in np.nonzero(at_template)[0]:
                             tracker.initialize_template(
                                 obs=obs,
-- 
2.43.0


From f133498a273283ea50a346c3c7e26ad6a1858e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 007/100] fix: pairwise_distance_datetimes: do not depend on
 the local time zone

---
 src/glimpse/helpers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 756db74..f9fd9ba 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1572,10 +1572,13 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to POSIX timestamps (seconds since 1970-01-01 00:00:00 UTC)
-    x = [xi.timestamp() for xi in x]
-    y = [yi.timestamp() for yi in y]
-    return pairwise_distance(x, y, metric="minkowski", p=1)
+    # Convert datetimes to microseconds since a common origin
+    # NOTE: POSIX timestamps of naive datetimes depend on the local time zone
+    x, y = tuple(x), tuple(y)
+    origin, unit = (x + y)[0], datetime.timedelta(microseconds=1)
+    x = [(xi - origin) // unit for xi in x]
+    y = [(yi - origin) // unit for yi in y]
+    return pairwise_distance(x, y, metric="minkowski", p=1) / 1e6
 
 
 def datetime_range(
-- 
2.43.0


From 0857f6b04b562764b2eabbadf19a39d927649547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 008/100] fix: sorted_nearest: support a single value

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index f9fd9ba..a606cb7 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -174,7 +174,8 @@ def _sorted_neighbors(x: Iterable, y: Iterable) -> np.ndarray:
     index[(index > 0) & (index < len(x))] -= 1
     # index = len(x) snap to index - 2
     index[index == len(x)] -= 2
-    return np.column_stack((index, index + 1))
+    # len(x) = 1 snap to index 0
+    return np.column_stack((index, index + 1)).clip(0, len(x) - 1)
 
 
 def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
-- 
2.43.0


From fc88e48c9996a401614d8fa44d879fb64efb5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 009/100] fix: Observer.split: do not lose images to rounding

---
 src/glimpse/track/observer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 87fac3b..be30ab8 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -477,8 +477,10 @@ class Observer:
         if np.iterable(n):
             breaks = np.unique(np.hstack((n, self.datetimes[[0, -1]])))
         else:
+            # NOTE: Steps are rounded, so the last break must be set explicitly
             dt = (self.datetimes[-1] - self.datetimes[0]) / n
-            breaks = helpers.datetime_range(self.datetimes[0], self.datetimes[-1], dt)
+            breaks = [self.datetimes[0] + i * dt for i in range(n)]
+            breaks += [self.datetimes[-1]]
         observers = []
         start = breaks[0]
         for i in range(len(breaks) - 1):
-- 
2.43.0


From f938fc6633ff18acfc4d413b5c69b36e9bb36937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 010/100] fix: Camera.project_dem: support rescaled tiles

---
 src/glimpse/camera.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9234bf4..8b9b951 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1039,8 +1039,7 @@ class Camera:
                 # No cells selected
                 return None
             tile = dem[ij]
-            if has_values:
-                tile_values = values[ij]  # type: ignore
+            tile_values = values[ij] if has_values else None  # type: ignore
             # Scale tile based on distance from camera
             mean_xyz = (
                 tile.xlim.mean(),
@@ -1058,12 +1057,15 @@ class Camera:
                 tile_mask = scipy.ndimage.zoom(
                     tile_mask, zoom=float(tile_scale), order=0
                 )
-                tile_values = np.dstack(
-                    scipy.ndimage.zoom(
-                        tile_values[:, :, i], zoom=float(tile_scale), order=1
+                if has_values:
+                    tile_values = np.dstack(
+                        [
+                            scipy.ndimage.zoom(
+                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                            )
+                            for i in range(tile_values.shape[2])
+                        ]
                     )
-                    for i in range(tile_values.shape[2])
-                )
             # Project tile
             xyz = helpers.grid_to_points(
                 (tile.X[tile_mask], tile.Y[tile_mask], tile.array[tile_mask])
-- 
2.43.0


From 97caa33b46959779990758ace3ec7c6d74c7822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 011/100] fix: Camera.project_dem: write overlapping tiles in
 order

---
 src/glimpse/camera.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 8b9b951..85868af 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1098,14 +1098,19 @@ class Camera:
         def reduce(
             idx: Tuple[Iterable[int], Iterable[int]] = None,
             values: Iterable[Number] = None,
-        ) -> None:
+        ) -> Tuple[
+            Optional[Tuple[Iterable[int], Iterable[int]]], Optional[Iterable[Number]]
+        ]:
             bar.next()
-            if idx is not None:
-                array[idx] = values
+            return idx, values
 
         with config.backend(np=parallel) as pool:
-            pool.map(func=process, reduce=reduce, sequence=tile_indices)
+            results = pool.map(func=process, reduce=reduce, sequence=tile_indices)
         bar.finish()
+        # NOTE: Tiles may overlap, so they must be written in order
+        for idx, tile_values in results:
+            if idx is not None:
+                array[idx] = tile_values
         return array
 
     def set_plot_limits(self) -> None:
-- 
2.43.0


From ad7a3c46d1a2db102eea9382c7b94f569f62a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 012/100] fix: Grid.tile_indices: support overlaps larger than
 a tile

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index af283a3..ae82900 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -598,10 +598,11 @@ class Grid:
         xends = np.insert(np.searchsorted(xi, np.unique(xi), side="right"), 0, 0)
         yends = np.insert(np.searchsorted(yi, np.unique(yi), side="right"), 0, 0)
         # HACK: Achieves overlap by increasing tile size
+        # NOTE: Negative starts would count from the end of the grid
         xstarts = xends.copy()
-        xstarts[1:-1] -= overlap[0]
+        xstarts[1:-1] = np.maximum(xstarts[1:-1] - overlap[0], 0)
         ystarts = yends.copy()
-        ystarts[1:-1] -= overlap[1]
+        ystarts[1:-1] = np.maximum(ystarts[1:-1] - overlap[1], 0)
         return tuple(
             (slice(ystarts[i], yends[i + 1]), slice(xstarts[j], xends[j + 1]))
             for i in range(len(ystarts) - 1)
-- 
2.43.0


From 69cb0b7edb2904e5821ef04a384e8af90d461eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 013/100] fix: write pickle and JSON files completely or not at
 all

---
 src/glimpse/helpers.py | 63 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index a606cb7..6a724b6 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1,4 +1,5 @@
 """Helper functions."""
+import contextlib
 import datetime
 import gzip
 import json
@@ -6,7 +7,19 @@ import os
 import pathlib
 import pickle
 import re
-from typing import Any, Callable, Iterable, List, Match, Optional, Tuple, Union
+import shutil
+import uuid
+from typing import (
+    Any,
+    Callable,
+    Iterable,
+    Iterator,
+    List,
+    Match,
+    Optional,
+    Tuple,
+    Union,
+)
 
 import numpy as np
 import osgeo.gdal
@@ -202,6 +215,42 @@ def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
     return neighbors[range(len(y)), nearest]
 
 
+# ---- Files ---- #
+
+
+@contextlib.contextmanager
+def _replace_file(path: str) -> Iterator[str]:
+    """
+    Replace a file only once its new content is complete.
+
+    Arguments:
+        path: Path to file.
+
+    Yields:
+        Path to a temporary file in the same directory. On success, it replaces the
+        file. On failure, it is removed and the file is left unchanged.
+    """
+    path = os.path.realpath(path)
+    if os.path.exists(path) and not os.path.isfile(path):
+        # Not a regular file (e.g. a pipe), so cannot be replaced
+        yield path
+        return
+    directory, name = os.path.split(path)
+    temp = os.path.join(directory, f".{name[:64]}.{uuid.uuid4().hex}.tmp")
+    try:
+        yield temp
+        if os.path.exists(path):
+            shutil.copymode(path, temp)
+        # Content must be on disk before it replaces the file
+        with open(temp, mode="rb+") as fp:
+            os.fsync(fp.fileno())
+        os.replace(temp, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temp)
+        raise
+
+
 # ---- Pickles ---- #
 
 
@@ -220,12 +269,9 @@ def write_pickle(
     """
     pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)
     mode = "wb" if binary else "w"
-    if gz:
-        fp = gzip.open(path, mode=mode)
-    else:
-        fp = open(path, mode=mode)
-    pickle.dump(obj, file=fp, **kwargs)
-    fp.close()
+    with _replace_file(path) as temp:
+        with gzip.open(temp, mode=mode) if gz else open(temp, mode=mode) as fp:
+            pickle.dump(obj, file=fp, **kwargs)
 
 
 def read_pickle(path: str, gz: bool = False, binary: bool = True, **kwargs: Any) -> Any:
@@ -301,7 +347,8 @@ def write_json(
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-        path.write_text(txt)
+        with _replace_file(path) as temp:
+            pathlib.Path(temp).write_text(txt)
         return None
     return txt
 
-- 
2.43.0


From 274fe69c47643fb3f1361583bc2506942022a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 014/100] fix: write SVG files completely or not at all

---
 src/glimpse/svg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index a964de2..7610509 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -9,6 +9,8 @@ from typing import Any, Dict, Iterable, Iterator, List, Optional, TextIO, Tuple,
 
 from typing_extensions import TypedDict
 
+from . import helpers
+
 Number = Union[int, float]
 Numeric = Union[str, Number]
 Coordinates = List[Tuple[Number, Number]]
@@ -404,8 +406,9 @@ def write(
     txt = _etree_to_string(e, indent=indent)
     if not path:
         return txt
-    with open(path, "w") as fp:
-        fp.write(txt)
+    with helpers._replace_file(path) as temp:
+        with open(temp, "w") as fp:
+            fp.write(txt)
     return None
 
 
-- 
2.43.0


From 52645d5b853ce40da0fffbf4d502f816c7a8cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 015/100] fix: insert Exif tags completely or not at all

---
 src/glimpse/exif.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index fe5a890..68f0f11 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -5,6 +5,8 @@ from typing import Optional, Tuple, Union
 
 import piexif
 
+from . import helpers
+
 SENSOR_SIZES = {
     # https://www.dpreview.com/reviews/nikond2x/2
     "NIKON CORPORATION NIKON D2X": (23.7, 15.7),
@@ -246,4 +248,5 @@ class Exif:
             >>> Exif(path).iso
             100
         """
-        piexif.insert(self.dump(), path)
+        with helpers._replace_file(path) as temp:
+            piexif.insert(self.dump(), path, new_file=temp)
-- 
2.43.0


From b46831da106261f71d2f7cd786fda643ffd87a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 016/100] fix: overwrite keypoints that are only in memory or
 only in a file

---
 src/glimpse/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2badb7a..a9d067c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2398,10 +2398,10 @@ class KeypointMatcher:
             print(img.path)
             if path:
                 outpath = os.path.join(path, basenames[i] + ".pkl")
-                written = os.path.isfile(outpath)
+                written = os.path.isfile(outpath) and not overwrite
             else:
                 written = False
-            keypoints = self.keypoints[i]
+            keypoints = None if overwrite else self.keypoints[i]
             read = keypoints is not None
             if not read and written and not clear_keypoints:
                 # Read keypoints from file
@@ -2409,7 +2409,7 @@ class KeypointMatcher:
             elif read and not written and path:
                 # Write keypoints to file
                 helpers.write_pickle(keypoints, path=outpath)
-            elif (not read and not written) or overwrite:
+            elif not read and not written:
                 # Detect keypoints
                 array = self._prepare_image(img.read())
                 keypoints = detect_keypoints(array, mask=masks[i], **kwargs)
-- 
2.43.0


From 1642ac3adc20b3deca95251b87b101375b72ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 017/100] fix: ignore filter when matches are cleared, as
 documented

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a9d067c..1205ef7 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2514,7 +2514,7 @@ class KeypointMatcher:
                 matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
-            if filter:
+            if filter and not clear_matches:
                 for match in matches:
                     if match:
                         match.filter(**filter)
-- 
2.43.0


From aa77c64fc67bd84fac1ebfd19b8bb2cfcb93cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 018/100] fix: match image pairs whose first image is requested

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1205ef7..1616f94 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2511,7 +2511,8 @@ class KeypointMatcher:
         # Filter matched image pairs
         if imgs is not None:
             for i, m in enumerate(matching_images):
-                matching_images[i] = m[np.isin(m, imgs)]
+                if not np.isin(i, imgs):
+                    matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter and not clear_matches:
-- 
2.43.0


From 655f08fbbf21249f182e7c061c071f8e3725456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 019/100] fix: build match matrix with one row and column per
 image

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1616f94..df7b754 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2592,7 +2592,9 @@ class KeypointMatcher:
                 )
                 cols = np.concatenate(matching_images)
                 # HACK: Initialize with numeric data to avoid type errors
-                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)))
+                matches = scipy.sparse.coo_matrix(
+                    ([1] * len(data), (rows, cols)), shape=(n, n)
+                )
                 matches.data = data
         if clear_matches:
             self.matches = None
-- 
2.43.0


From 3a5dff73d98fc173484098429ae7e7c90d56c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 020/100] fix: do not hang in threads when an image pair fails
 to match

---
 src/glimpse/optimize.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index df7b754..bc95a0c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2567,16 +2567,22 @@ class KeypointMatcher:
                             if mtype is not None:
                                 match = match.to_type(mtype)
                             matches.append(match)
-                if clear_keypoints:
-                    if parallel:
-                        with pool.ordered:
-                            self.keypoints[i] = None
-                    else:
-                        self.keypoints[i] = None
                 return None if clear_matches else matches
 
+            def process_and_clear(i: int, js: np.ndarray) -> Optional[List[Matches]]:
+                try:
+                    return process(i, js)
+                finally:
+                    # Also on error, since later images wait for their turn to clear
+                    if clear_keypoints:
+                        if parallel:
+                            with pool.ordered:
+                                self.keypoints[i] = None
+                        else:
+                            self.keypoints[i] = None
+
             matches = pool.map(
-                func=process,
+                func=process_and_clear,
                 reduce=reduce,
                 star=True,
                 sequence=tuple(enumerate(matching_images)),
-- 
2.43.0


From eec78fffa729b37dc3f248b5c39be4e04a6c5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 021/100] fix: clear keypoints after matching in parallel
 processes

---
 src/glimpse/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index bc95a0c..0660b39 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2602,6 +2602,9 @@ class KeypointMatcher:
                     ([1] * len(data), (rows, cols)), shape=(n, n)
                 )
                 matches.data = data
+        if clear_keypoints:
+            # Parallel processes cleared only their own copy
+            self.keypoints = [None] * n
         if clear_matches:
             self.matches = None
         else:
-- 
2.43.0


From 0b7cb6bdedf286eb4521c53e85d7b99b9866788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 022/100] fix: match keypoints with no remaining matches or
 with equal descriptors

---
 src/glimpse/optimize.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 0660b39..172f976 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2273,12 +2273,16 @@ def match_keypoints(
             matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask)
             ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
+        if compute_ratios:
+            # Equal distances (including zero) have a ratio of 1
+            ratios = np.array(
+                [m.distance / n.distance if n.distance else 1.0 for m, n in matches]
+            )
         if max_ratio:
-            matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches])
-        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches])
-        if return_ratios:
-            ratios = np.array([m.distance / n.distance for m, n in matches])
+            matches = [m for m, ratio in zip(matches, ratios) if ratio < max_ratio]
+            ratios = ratios[ratios < max_ratio]
+        uva = np.array([ka[0][m[0].queryIdx].pt for m in matches]).reshape(-1, 2)
+        uvb = np.array([kb[0][m[0].trainIdx].pt for m in matches]).reshape(-1, 2)
         if max_distance:
             valid = np.linalg.norm(uva - uvb, axis=1) < max_distance
             uva, uvb = uva[valid], uvb[valid]
-- 
2.43.0


From 3b196f846c120947c3e62840646741bf9fe3b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 023/100] fix: drop the keypoints of dropped images

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 172f976..e0d853e 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2751,6 +2751,8 @@ class KeypointMatcher:
         self.matches._shape = (n, n)
         # Remove dropped images
         self.images = np.delete(self.images, drop)
+        if self.keypoints is not None:
+            self.keypoints = [self.keypoints[i] for i in keep]
 
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
-- 
2.43.0


From b89854fbaabffe748b6ca1d71d8b3ca563fe9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 024/100] fix: filter both image and camera coordinates of
 matches

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index e0d853e..941b2d1 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -730,10 +730,10 @@ class Matches:
                 axis=1,
             )
             selected[selected] &= distances <= max_distance
-        # HACK: Support for RotationMatches
         if self.uvs:
             self.uvs = [uv[selected] for uv in self.uvs]
-        else:
+        # HACK: Support for RotationMatches
+        if getattr(self, "xys", None):
             self.xys = [xy[selected] for xy in self.xys]
         if self.weights is not None:
             self.weights = self.weights[selected]
-- 
2.43.0


From 1b22a78ff388f5f334351ff2e52ce00aa1d1b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 025/100] fix: convert matches without image coordinates

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 941b2d1..fe270c0 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -540,8 +540,8 @@ class Matches:
     def _test_matches(self) -> None:
         if self.cams[0] is self.cams[1]:
             raise ValueError("Both cameras are the same object")
-        # HACK: Support subclasses with xyzs and optional uvs
-        uvs = self.uvs or self.xyzs
+        # HACK: Support subclasses with xys and optional uvs
+        uvs = self.uvs or self.xys
         if len(self.cams) != 2 or len(uvs) != 2:
             raise ValueError(
                 "Cameras and point coordinates do not have two elements each"
-- 
2.43.0


From 2d7020b6a05cbe26008fda40ec5f2770acf7b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 026/100] fix: leave cameras unchanged when matches cannot be
 resized

---
 src/glimpse/optimize.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index fe270c0..b35cf51 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -665,9 +665,16 @@ class Matches:
             force: Whether to use `size` even if it does not preserve
                 the original aspect ratio
         """
+        if size is not None:
+            vectors = [cam.to_array() for cam in self.cams]
+            try:
+                for cam in self.cams:
+                    cam.resize(size=size, force=force)
+            except Exception:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector[:] = vector
+                raise
         for i, cam in enumerate(self.cams):
-            if size is not None:
-                cam.resize(size=size, force=force)
             scale = cam.imgsz / self._imgszs[i]
             if np.any(scale != 1):
                 self.uvs[i] = self.uvs[i] * scale
@@ -824,6 +831,12 @@ class RotationMatches(Matches):
         dxyz = self.cams[co]._xy_to_xyz(self.xys[co][index])
         return self.cams[ci].xyz_to_uv(dxyz, directions=True)
 
+    def resize(
+        self, size: Union[float, Iterable[int]] = None, force: bool = False
+    ) -> None:
+        """Resizing is not available since internal camera parameters cannot change."""
+        raise NotImplementedError()
+
     def to_type(self, mtype: Type["Matches"]) -> "Matches":
         """Return as a matches object of a different type."""
         if mtype is type(self):
-- 
2.43.0


From 1ace13ce1cb11c8662f3c5e9bc4d6c5d43a882ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 027/100] fix: reject image pairs that would share a match file

---
 src/glimpse/optimize.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index b35cf51..68815b3 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2531,6 +2531,16 @@ class KeypointMatcher:
                 if not np.isin(i, imgs):
                     matching_images[i] = m[np.isin(m, imgs)]
 
+        if path:
+            # e.g. images 'a', 'a-b', 'b-c' and 'c': both 'a' + 'b-c' and 'a-b' + 'c'
+            pairs = [
+                basenames[i] + "-" + basenames[j]
+                for i, js in enumerate(matching_images)
+                for j in js
+            ]
+            if len(pairs) != len(set(pairs)):
+                raise ValueError("Image basename pairs are not unique")
+
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter and not clear_matches:
                 for match in matches:
-- 
2.43.0


From 125d3b9213633d1350d17806237571a5d79311b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 028/100] fix: keep strings intact when flattening JSON arrays

---
 src/glimpse/helpers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 6a724b6..7084dd7 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -335,7 +335,7 @@ def write_json(
         '{\n  "x": [0, 1]\n}'
     """
     txt = json.dumps(obj, **kwargs)
-    if flat_arrays and kwargs.get("indent") >= 0:
+    if flat_arrays and kwargs.get("indent") is not None:
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
         squished_sep = re.sub(r"\s", "", sep)
@@ -343,7 +343,16 @@ def write_json(
         def flatten(match: Match) -> str:
             return re.sub(squished_sep, sep, re.sub(r"\s", "", match.group(0)))
 
+        # Replace strings with their index, to not flatten their content
+        strings: List[str] = []
+
+        def hide(match: Match) -> str:
+            strings.append(match.group(0))
+            return f'"{len(strings) - 1}"'
+
+        txt = re.sub(r'"(?:[^"\\]|\\.)*"', hide, txt)
         txt = re.sub(r"(\[\s*)+[^\]\{]*(\s*\])+", flatten, txt)
+        txt = re.sub(r'"([0-9]+)"', lambda match: strings[int(match.group(1))], txt)
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From bc0d506a79d83d3e2eb67a089510d9c17a506a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 029/100] fix: write SVG files as UTF-8

---
 src/glimpse/svg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 7610509..97e6505 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -407,7 +407,8 @@ def write(
     if not path:
         return txt
     with helpers._replace_file(path) as temp:
-        with open(temp, "w") as fp:
+        # XML without an encoding declaration is UTF-8
+        with open(temp, "w", encoding="utf-8") as fp:
             fp.write(txt)
     return None
 
-- 
2.43.0


From c4f195c203001ac5b4e6001cbaea32450e02e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 030/100] fix: assign cameras to matches also when converting
 or filtering fails

---
 src/glimpse/optimize.py | 46 +++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 68815b3..ea5c353 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2678,15 +2678,20 @@ class KeypointMatcher:
         def reduce(i: int, m: Matches) -> None:
             self.matches.data[i] = m
 
-        with config.backend(np=parallel) as pool:
-            _ = pool.map(
-                func=process,
-                reduce=reduce,
-                star=True,
-                sequence=tuple(zip(range(self.matches.data.size), self.matches.data)),
-            )
-        if parallel:
-            self._assign_cameras()
+        try:
+            with config.backend(np=parallel) as pool:
+                _ = pool.map(
+                    func=process,
+                    reduce=reduce,
+                    star=True,
+                    sequence=tuple(
+                        zip(range(self.matches.data.size), self.matches.data)
+                    ),
+                )
+        finally:
+            # Also on error, since some matches may already have been replaced
+            if parallel:
+                self._assign_cameras()
 
     def filter_matches(
         self, clear_weights: bool = False, parallel: bool = False, **kwargs: Any
@@ -2714,15 +2719,20 @@ class KeypointMatcher:
         def reduce(i: int, m: Matches) -> None:
             self.matches.data[i] = m
 
-        with config.backend(np=parallel) as pool:
-            _ = pool.map(
-                func=process,
-                reduce=reduce,
-                star=True,
-                sequence=tuple(zip(range(self.matches.data.size), self.matches.data)),
-            )
-        if parallel:
-            self._assign_cameras()
+        try:
+            with config.backend(np=parallel) as pool:
+                _ = pool.map(
+                    func=process,
+                    reduce=reduce,
+                    star=True,
+                    sequence=tuple(
+                        zip(range(self.matches.data.size), self.matches.data)
+                    ),
+                )
+        finally:
+            # Also on error, since some matches may already have been replaced
+            if parallel:
+                self._assign_cameras()
 
     def _images_mask(self, imgs: Union[int, Iterable[int]]) -> np.ndarray:
         """Return boolean mask of matches for one or more image indices."""
-- 
2.43.0


From 45e696153e0875343132d7f521e2d63b8c6c5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 031/100] fix: read boxes from files correctly when the camera
 is resized

---
 src/glimpse/image.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 2b9546c..9bd2a69 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -143,7 +143,7 @@ class Image:
             cache: Whether to cache image values.
                 If `True`, the region is extracted from the cached image.
                 If `False`, the region is extracted directly from the file
-                (faster than reading the entire image).
+                (faster than reading the entire image, unless it needs to be resized).
 
         Example:
             The image is read and resized as needed to match the camera image size.
@@ -171,26 +171,23 @@ class Image:
             >>> np.all(tile == a[box[1] : box[3], box[0] : box[2]])
             True
         """
-        size = self._cache_imgsz or self._path_imgsz
         cam_size = tuple(self.cam.imgsz)
-        resize = cam_size != size
-        new_array = True
-        if self.array is not None and not resize:
+        crop = box is not None
+        if self._cache_imgsz == cam_size:
             array = self.array
-            new_array = False
         else:
             ds = osgeo.gdal.Open(self.path)
             args = {}
-            if resize:
+            if cam_size != (ds.RasterXSize, ds.RasterYSize):
+                # A box of the resized image does not align with pixels in the file,
+                # so must be cropped from the full resized image
                 args["buf_xsize"], args["buf_ysize"] = cam_size
-            if box is not None and not cache:
-                # Resize box to actual image size
-                xscale, yscale = size[0] / cam_size[0], size[1] / cam_size[1]
+            elif box is not None and not cache:
                 # Read image subset
-                args["xoff"] = int(round(box[0] * xscale))
-                args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
-                args["yoff"] = int(round(box[1] * yscale))
-                args["win_ysize"] = int(round((box[3] - box[1]) * yscale))
+                args["xoff"], args["yoff"] = int(box[0]), int(box[1])
+                args["win_xsize"] = int(box[2] - box[0])
+                args["win_ysize"] = int(box[3] - box[1])
+                crop = False
             array = np.dstack(
                 [
                     ds.GetRasterBand(i + 1).ReadAsArray(**args)
@@ -202,8 +199,7 @@ class Image:
             if cache:
                 array = sharedmem.copy(array)
                 self.array = array
-        if box is not None and (cache or not new_array):
-            # Caching and cropping: Subset cached array
+        if crop:
             array = array[box[1] : box[3], box[0] : box[2]]
         return array
 
-- 
2.43.0


From 6000b15436125df2076834176a009380c29a1121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 032/100] fix: raise an error when image bands cannot be read

---
 src/glimpse/image.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 9bd2a69..e1e39ff 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -188,12 +188,13 @@ class Image:
                 args["win_xsize"] = int(box[2] - box[0])
                 args["win_ysize"] = int(box[3] - box[1])
                 crop = False
-            array = np.dstack(
-                [
-                    ds.GetRasterBand(i + 1).ReadAsArray(**args)
-                    for i in range(ds.RasterCount)
-                ]
-            )
+            bands = [
+                ds.GetRasterBand(i + 1).ReadAsArray(**args)
+                for i in range(ds.RasterCount)
+            ]
+            if any(band is None for band in bands):
+                raise OSError(f"Failed to read image: {self.path}")
+            array = np.dstack(bands)
             if array.shape[2] == 1:
                 array = array.squeeze(axis=2)
             if cache:
-- 
2.43.0


From 1f24b8c5fdf466e7840369df7b037e1bdf51987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 033/100] fix: read the image cache once per read, since
 threads may clear it

---
 src/glimpse/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index e1e39ff..62b869f 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -173,9 +173,9 @@ class Image:
         """
         cam_size = tuple(self.cam.imgsz)
         crop = box is not None
-        if self._cache_imgsz == cam_size:
-            array = self.array
-        else:
+        # Another thread may clear or replace the cache at any time
+        array = self.array
+        if array is None or array.shape[1::-1] != cam_size:
             ds = osgeo.gdal.Open(self.path)
             args = {}
             if cam_size != (ds.RasterXSize, ds.RasterYSize):
-- 
2.43.0


From f523fee9132532656c9ae5b6c2fc782927b887e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 034/100] fix: shift a copy of the tile, not the cached image

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index be30ab8..9df9efe 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -167,7 +167,8 @@ class Observer:
         cu = np.arange(0.5, tile.shape[1])  # x|cols
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
-        tile = np.atleast_3d(tile)
+        # Copy since the tile may be a view of the cached image
+        tile = np.atleast_3d(tile).copy()
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
             tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-- 
2.43.0


From 07ee296cf3d536f5387b275e336361763a64cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 035/100] fix: sample grids without writing to the raster or
 losing valid values

---
 src/glimpse/raster.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ae82900..6d29da8 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1051,23 +1051,32 @@ class Raster(Grid):
         x, y = xy
         signs = np.sign(self.d).astype(int)
         # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
-        Zmin = np.nanmin(self.array)
-        is_nan = np.isnan(self.array)
-        self.array[is_nan] = helpers.numpy_dtype_minmax(self.array.dtype)[0]
-        fun = scipy.interpolate.RectBivariateSpline(
-            self.y[:: signs[1]],
-            self.x[:: signs[0]],
-            self.array[:: signs[1], :: signs[0]],
-            bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
-            kx=kx,
-            ky=ky,
-            s=s,
-        )
+        array = self.array
+        is_nan = np.isnan(array)
+        has_nan = is_nan.any()
+        if has_nan:
+            # Fill a copy, since the raster may be in use elsewhere
+            array = np.where(is_nan, 0 if is_nan.all() else np.nanmean(array), array)
         xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
-        samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
-        samples[samples < Zmin] = np.nan
-        self.array[is_nan] = np.nan
+
+        def sample(z: np.ndarray, kx: int, ky: int) -> np.ndarray:
+            fun = scipy.interpolate.RectBivariateSpline(
+                self.y[:: signs[1]],
+                self.x[:: signs[0]],
+                z[:: signs[1], :: signs[0]],
+                bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
+                kx=kx,
+                ky=ky,
+                s=s,
+            )
+            return fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
+
+        samples = sample(array, kx=kx, ky=ky)
+        if has_nan:
+            # Missing wherever a missing value carries weight
+            weights = sample(is_nan.astype(float), kx=1, ky=1)
+            samples[np.abs(weights) > 1e-9] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From 3b9985db90e560235d3eb02a9ea994674cfbbadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 036/100] fix: treat zero as a no-data value

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6d29da8..f9f7ad6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -741,7 +741,7 @@ class Raster(Grid):
         dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(raster_band.DataType)
         is_float = np.issubdtype(dtype, np.floating)
         default_nan = raster_band.GetNoDataValue()
-        if nan is None and (is_float and default_nan):
+        if nan is None and is_float and default_nan is not None:
             nan = default_nan
         crs = raster.GetProjection()
         obj = cls(None, x=xlim, y=ylim, datetime=datetime, crs=crs if crs else None)
-- 
2.43.0


From b1123da5b11ca91f06138433895b4c4f907ede8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 037/100] fix: sample a grid of any shape from a single row or
 column

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index f9f7ad6..85c302a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -989,7 +989,7 @@ class Raster(Grid):
                 z = self._sample_1d(xy[dim], dim=dim, kind=methods[order])
                 samples = np.tile(
                     z.reshape(-1 if dim else 1, 1 if dim else -1),
-                    reps=(1 if dim else len(z), len(z) if dim else 1),
+                    reps=(1 if dim else len(xy[1]), len(xy[0]) if dim else 1),
                 )
             else:
                 # 0D: Return constant
-- 
2.43.0


From 9a4de250773d7ef6dba6c3ee22651e173736377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 038/100] fix: read boxes from files correctly when the raster
 is resized

---
 src/glimpse/raster.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 85c302a..cd568f7 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -769,7 +769,7 @@ class Raster(Grid):
             cache: Whether to cache raster data.
                 If `True`, the region is extracted from the cached raster.
                 If `False`, the region is extracted directly from the file
-                (faster than reading the entire raster).
+                (faster than reading the entire raster, unless it is resized).
                 To clear the cache, set :attr:`array` to `None`.
 
         Raises:
@@ -799,11 +799,10 @@ class Raster(Grid):
                 raise ValueError("Box must be integers")
             if not np.all(self.inbounds(box)):
                 raise ValueError("Box is out of bounds")
-        new_array = False
+        crop = box is not None
         # HACK: Avoid infinite recursion
         array = self._array
         if array is None:
-            new_array = True
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
@@ -813,14 +812,17 @@ class Raster(Grid):
                     (kwargs["buf_xsize"], kwargs["buf_ysize"])
                 )
                 sbox = box * scale + np.array((kwargs["xoff"], kwargs["yoff"]))
-                kwargs = dict(
-                    xoff=int(sbox[0][0]),
-                    yoff=int(sbox[0][1]),
-                    win_xsize=int(sbox[1][0] - sbox[0][0]),
-                    win_ysize=int(sbox[1][1] - sbox[0][1]),
-                    buf_xsize=int(box[1][0] - box[0][0]),
-                    buf_ysize=int(box[1][1] - box[0][1]),
-                )
+                # A box which splits source cells must be cropped from the full raster
+                crop = not np.all(sbox == np.round(sbox))
+                if not crop:
+                    kwargs = dict(
+                        xoff=int(sbox[0][0]),
+                        yoff=int(sbox[0][1]),
+                        win_xsize=int(sbox[1][0] - sbox[0][0]),
+                        win_ysize=int(sbox[1][1] - sbox[0][1]),
+                        buf_xsize=int(box[1][0] - box[0][0]),
+                        buf_ysize=int(box[1][1] - box[0][1]),
+                    )
             array = band.ReadAsArray(**kwargs)
             if array is None:
                 raise OSError(f"Could not read raster: {self.path}")
@@ -832,8 +834,7 @@ class Raster(Grid):
             if cache:
                 array = sharedmem.copy(array)
                 self.array = array
-        if box is not None and (cache or not new_array):
-            # Caching and cropping: Subset cached array
+        if crop:
             array = array[box[0][1] : box[1][1], box[0][0] : box[1][0]]
         return array
 
-- 
2.43.0


From 864edeb37bc1edf3521884eeace8b47bcdbe6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 039/100] fix: sample a grid of any shape from a single cell

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index cd568f7..1a1714b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -994,7 +994,7 @@ class Raster(Grid):
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[0]), len(xy[1])), self.array.flat[0])
+                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
-- 
2.43.0


From 462fc47603915906ed11c798575f55d29f82dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 040/100] fix: fill samples out of bounds of a single integer
 cell

---
 src/glimpse/raster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 1a1714b..8566082 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -994,7 +994,9 @@ class Raster(Grid):
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
+                samples = np.full(
+                    (len(xy[1]), len(xy[0])), self.array.flat[0], dtype=float
+                )
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
-- 
2.43.0


From 875f4c87ed511b2d063cc111536529c690b078b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 041/100] fix: sample rasters from several threads while they
 are first read

---
 src/glimpse/raster.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 8566082..47bd6d3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -893,13 +893,18 @@ class Raster(Grid):
     @property
     def Zf(self) -> scipy.interpolate.RegularGridInterpolator:
         """Regular grid interpolator."""
-        if self._Zf is None:
+        # NOTE: The cache may be cleared by another thread reading the raster
+        Zf = self._Zf
+        if Zf is None:
             sign = np.sign(self.d).astype(int)
-            self._Zf = scipy.interpolate.RegularGridInterpolator(
+            Zf = scipy.interpolate.RegularGridInterpolator(
                 (self.x[:: sign[0]], self.y[:: sign[1]]),
                 self.array.T[:: sign[0], :: sign[1]],
+                bounds_error=False,
+                fill_value=None,
             )
-        return self._Zf
+            self._Zf = Zf
+        return Zf
 
     # ---- Methods (public) ----
 
@@ -1007,8 +1012,6 @@ class Raster(Grid):
                 samples = np.full(len(xy), fill_value)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
-                self.Zf.bounds_error = False
-                self.Zf.fill_value = None
                 if has_fill:
                     samples[xyin] = self.Zf(xy[xyin], method=methods[order])
                 else:
-- 
2.43.0


From 8096cc92d6a13442249f80d4336a7aa920830b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 042/100] fix: convert snapped positions to the nearest array
 indices

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 47bd6d3..08de2de 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -495,7 +495,8 @@ class Grid:
         origin = np.append(self.xlim[0], self.ylim[0])
         colrow = (xy - origin) / self.d - 0.5
         if snap:
-            colrow = colrow.astype(int)
+            # Snapped positions are whole numbers, give or take a rounding error
+            colrow = np.round(colrow).astype(int)
         return colrow[:, ::-1]
 
     def rowcol_to_idx(self, rowcol: np.ndarray) -> np.ndarray:
-- 
2.43.0


From cf50aa31b5b639099c00dafa9e88676f14569113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 043/100] fix: shift rasters and their interpolant by the given
 offsets only

---
 src/glimpse/raster.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 08de2de..bab8c3e 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -268,18 +268,19 @@ class Grid:
 
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
+        # NOTE: Arrays may be shared with other objects, so must not be changed in place
         if dx is not None:
-            self._xlim += dx
+            self._xlim = self._xlim + dx
             if self._x is not None:
-                self._x += dx
+                self._x = self._x + dx
             if self._X is not None:
-                self._X += dx
+                self._X = self._X + dx
         if dy is not None:
-            self._ylim += dy
+            self._ylim = self._ylim + dy
             if self._y is not None:
-                self._y += dy
+                self._y = self._y + dy
             if self._Y is not None:
-                self._Y += dy
+                self._Y = self._Y + dy
 
     # ---- Methods ---- #
 
@@ -1222,18 +1223,10 @@ class Raster(Grid):
             >>> raster.array
             array([[3]])
         """
-        self._shift_xy(dx=dx, dy=dy)
         if dz is not None:
-            # Prevent reset of cached interpolants
-            self._array += dz
-        if self._Zf is not None:
-            # Shift cached interpolants
-            if dx is not None:
-                self._Zf.grid[0][:] += dx
-            if dy is not None:
-                self._Zf.grid[1][:] += dy
-            if dy is not None:
-                self._Zf.values += dz
+            self.array = self.array + dz
+        self._shift_xy(dx=dx, dy=dy)
+        self._clear_cache(["Zf"])
 
     def fill_circle(
         self, center: Iterable[Number], radius: Number, value: Any = np.nan
-- 
2.43.0


From 95a5fa12a8f634a37ea957dd350d0c60fd4f676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 044/100] fix: rebuild the raster interpolant when limits
 change

---
 src/glimpse/raster.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index bab8c3e..2dc960e 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -863,6 +863,12 @@ class Raster(Grid):
                 self._clear_cache(["x", "X", "y", "Y"])
         self._array = value
 
+    def _clear_cache(
+        self, attributes: Iterable[str] = ["x", "X", "y", "Y", "Zf"]
+    ) -> None:
+        """Clear cached attributes, and the interpolant which depends on them."""
+        super()._clear_cache({*attributes, "Zf"})
+
     # ---- Properties (dependent) ----
 
     @property
-- 
2.43.0


From 651804df5e54bdb6c18758a82b53e576df4f8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 045/100] fix: rebuild grid coordinates when dimensions change

---
 src/glimpse/raster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2dc960e..63782d5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -83,6 +83,7 @@ class Grid:
         if (value <= 0).any():
             raise ValueError("Grid dimensions must be positive")
         self._size = value
+        self._clear_cache(["x", "X", "y", "Y"])
 
     @property
     def xlim(self) -> np.ndarray:
-- 
2.43.0


From 3369c337a8443cc0107b78d923772f7515c6bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 046/100] fix: fill circles in rasters with descending x

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 63782d5..b46726b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1248,7 +1248,7 @@ class Raster(Grid):
         """
         # Circle indices
         rowcol = self.xy_to_rowcol(np.atleast_2d(center[0:2]), snap=True)
-        r = np.round(radius / self.d[0])
+        r = np.round(radius / abs(self.d[0]))
         xyi = helpers.bresenham_circle(rowcol[0, ::-1], r).astype(int)
         # Filled circle indices
         ind = []
-- 
2.43.0


From e5ee3860fb88df92fb1014bf75a70c3487b92dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 047/100] fix: copy grids whose dimensions were given as a
 tuple

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b46726b..26f7080 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -287,7 +287,7 @@ class Grid:
 
     def copy(self) -> "Grid":
         """Copy grid."""
-        return Grid(self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy())
+        return Grid(np.array(self.size), x=self.xlim.copy(), y=self.ylim.copy())
 
     def resize(self, scale: Number) -> None:
         """
-- 
2.43.0


From a01a7664bd78c5ffa431190af25c5a5d3605ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 048/100] fix: keep the coordinate system of copied rasters and
 grids

---
 src/glimpse/raster.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 26f7080..50bacb0 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -287,7 +287,9 @@ class Grid:
 
     def copy(self) -> "Grid":
         """Copy grid."""
-        return Grid(np.array(self.size), x=self.xlim.copy(), y=self.ylim.copy())
+        return Grid(
+            np.array(self.size), x=self.xlim.copy(), y=self.ylim.copy(), crs=self.crs
+        )
 
     def resize(self, scale: Number) -> None:
         """
@@ -693,7 +695,9 @@ class Raster(Grid):
             x = x[[0, -1]] + (-0.5, 0.5) * d[0:1]
         if len(y) < 3:
             y = y[[0, -1]] + (-0.5, 0.5) * d[1:2]
-        return self.__class__(self.array[i, j], x=x, y=y, datetime=self.datetime)
+        return self.__class__(
+            self.array[i, j], x=x, y=y, datetime=self.datetime, crs=self.crs
+        )
 
     @classmethod
     def open(
@@ -924,6 +928,7 @@ class Raster(Grid):
             x=self.xlim.copy(),
             y=self.ylim.copy(),
             datetime=copy.copy(self.datetime),
+            crs=self.crs,
         )
 
     def sample(
-- 
2.43.0


From d4b188d71b1fb79c598c24f76f9865482296a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 049/100] fix: resize grids whose dimensions were given as a
 tuple

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 50bacb0..301c00a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -51,7 +51,7 @@ class Grid:
         y: Iterable[Union[Number, Iterable[Number]]] = None,
         crs: Union[int, str] = None,
     ) -> None:
-        self._size = size
+        self._size = np.array(size)
         self.xlim, self._x, self._X = self._parse_xy(x, dim=0)
         self.ylim, self._y, self._Y = self._parse_xy(y, dim=1)
         self.crs = crs
-- 
2.43.0


From 39fe525bb27ecbf5554601dcfef942155ec6cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 050/100] fix: rebuild the raster interpolant when a circle is
 filled

---
 src/glimpse/raster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 301c00a..ed9d383 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1267,6 +1267,7 @@ class Raster(Grid):
                 ind.extend(self.rowcol_to_idx(rowcols))
         # Apply
         self.array.flat[ind] = value
+        self._clear_cache(["Zf"])
 
     def hillshade(
         self, azimuth: Number = 315, altitude: Number = 45, **kwargs: Any
-- 
2.43.0


From f7dc7bf0234151375e0015125576037dd70feb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 051/100] fix: rebuild coordinates when values replace those of
 an unread raster

---
 src/glimpse/raster.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ed9d383..d60e339 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -840,7 +840,7 @@ class Raster(Grid):
                 array[array == self._nan] = np.nan
             if cache:
                 array = sharedmem.copy(array)
-                self.array = array
+                self._array = array
         if crop:
             array = array[box[0][1] : box[1][1], box[0][0] : box[1][0]]
         return array
@@ -860,10 +860,8 @@ class Raster(Grid):
             value = np.atleast_2d(value)
         if hasattr(self, "_array"):
             self._clear_cache(["Zf"])
-            if (
-                value is not None
-                and self._array is not None
-                and (value.shape != self._array.shape)
+            if value is not None and (
+                self._array is None or value.shape != self._array.shape
             ):
                 self._clear_cache(["x", "X", "y", "Y"])
         self._array = value
-- 
2.43.0


From 0946a0c522eace4c2f8b8f5d3d3732084fea5f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 052/100] fix: do not lose the last row or column of a grid to
 rounding

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d60e339..6cb6f4d 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -381,9 +381,10 @@ class Grid:
             nxy *= 2
         nxy = np.floor(nxy + 0.5)
         if not edges and inbounds:
-            # Points on right or bottom edges snap down to stay in bounds
+            # Points on right or bottom edges snap to the last cells to stay in bounds
             is_outer_edge = xy == np.append(self.xlim[1], self.ylim[1])
-            nxy[is_outer_edge] -= 1
+            last = np.broadcast_to(np.subtract(self.size, 1), nxy.shape)
+            nxy[is_outer_edge] = last[is_outer_edge]
         if centers and not edges:
             nxy += 0.5
         elif centers and edges:
-- 
2.43.0


From 30f405964e658c0b35271c76d707bee6bc1f5f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 053/100] fix: read the grid dimensions of cropped or resized
 grids

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6cb6f4d..6595496 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -217,7 +217,7 @@ class Grid:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
         grid.xlim, grid.ylim = xlim, ylim
-        grid.n = (buf_xsize, buf_ysize)
+        grid.size = (buf_xsize, buf_ysize)
         return grid
 
     # ---- Methods (private) ----
-- 
2.43.0


From a0b39b2832e746e6afcabbfb3519dc233a82c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 054/100] fix: Return the input raster when interpolating at
 its own coordinate

---
 src/glimpse/raster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6595496..3ca8262 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1704,7 +1704,9 @@ class RasterInterpolant:
         """Interpolate between two rasters."""
         dz = means[1].array - means[0].array
         dx = x[1] - x[0]
-        scale = (xi - x[0]) / dx
+        # NOTE: Bounds are the same raster if `xi` is equal to its coordinate
+        same = x[0] == x[1]
+        scale = 0 if same else (xi - x[0]) / dx
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
@@ -1716,7 +1718,8 @@ class RasterInterpolant:
             )
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
-            zi_var = ((1 / 3) * dz * (nearest_dx / dx)) ** 2
+            nearest_scale = 0 if same else nearest_dx / dx
+            zi_var = ((1 / 3) * dz * nearest_scale) ** 2
             sigma = raster.__class__(
                 np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
             )
-- 
2.43.0


From da7d9412a14c5835fbfd3fce54af4eb5044d7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 055/100] fix: Resize rasters to the requested cell size when
 interpolating

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3ca8262..025710c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1606,7 +1606,7 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = d / np.abs(obj.d).mean()
+                scale = np.abs(obj.d).mean() / d
                 obj.resize(scale)
             return obj
         if isinstance(obj, str):
-- 
2.43.0


From 028758b2fee0d62b5be0adcbee701d8080ee08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 056/100] fix: Propagate sigma rasters on the grid of the
 interpolated raster

---
 src/glimpse/raster.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 025710c..8bb884a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1788,10 +1788,14 @@ class RasterInterpolant:
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-            if sigmas[0].grid != sigmas[1].grid:
-                if sigmas[1] is self.sigmas[ij[1]]:
-                    sigmas[1] = sigmas[1].copy()
-                sigmas[1].resample(sigmas[0])
+            for n, k in enumerate(ij):
+                obj = 0 if self.sigmas is None else self.sigmas[k]
+                # NOTE: Numbers are infinite rasters and need no resampling
+                if isinstance(obj, numbers.Number) or sigmas[n].grid == means[0].grid:
+                    continue
+                if sigmas[n] is obj:
+                    sigmas[n] = sigmas[n].copy()
+                sigmas[n].resample(means[0])
         else:
             sigmas = None
         # Interpolate
-- 
2.43.0


From e3a41d66be41f79892bb9e7f95ce9f9d75c7d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 057/100] fix: Keep interpolated rasters from sharing limits
 with the inputs

---
 src/glimpse/raster.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 8bb884a..d8ac801 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1709,7 +1709,10 @@ class RasterInterpolant:
         scale = 0 if same else (xi - x[0]) / dx
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
-        raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
+        # NOTE: Copies limits, since they may belong to an input raster
+        raster = means[0].__class__(
+            z, x=means[0].xlim.copy(), y=means[0].ylim.copy(), datetime=t
+        )
         if sigmas is not None:
             # Bounds uncertainty: error propagation of z above
             # NOTE: 'a * (1 - scale) + b * scale' form underestimates uncertainty
@@ -1721,7 +1724,10 @@ class RasterInterpolant:
             nearest_scale = 0 if same else nearest_dx / dx
             zi_var = ((1 / 3) * dz * nearest_scale) ** 2
             sigma = raster.__class__(
-                np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
+                np.sqrt(z_var + zi_var),
+                x=raster.xlim.copy(),
+                y=raster.ylim.copy(),
+                datetime=t,
             )
             return raster, sigma
         return raster
-- 
2.43.0


From ebfda2b7ef9388c724af0d184a3b8c13b6c52f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 058/100] fix: Raise when a raster cannot be written completely

---
 src/glimpse/helpers.py | 68 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 7084dd7..271436e 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -602,6 +602,28 @@ def gdal_driver_from_path(
     return None
 
 
+@contextlib.contextmanager
+def _collect_gdal_errors() -> Iterator[List[str]]:
+    """Collect GDAL errors (and auxiliary files not saved) rather than print them."""
+    errors: List[str] = []
+    others: List[tuple] = []
+
+    def handler(error: int, number: int, message: str) -> None:
+        # NOTE: Auxiliary files (e.g. the transform of a PNG) only raise a warning
+        if error >= osgeo.gdal.CE_Failure or "Unable to save auxiliary" in message:
+            errors.append(message)
+        elif error == osgeo.gdal.CE_Warning:
+            others.append((error, number, message))
+
+    osgeo.gdal.PushErrorHandler(handler)
+    try:
+        yield errors
+    finally:
+        osgeo.gdal.PopErrorHandler()
+        for args in others:
+            osgeo.gdal.Error(*args)
+
+
 def write_raster(
     a: np.ndarray,
     path: str,
@@ -628,6 +650,7 @@ def write_raster(
         ValueError: Unrecognized GDAL driver.
         ValueError: Could not guess GDAL driver from path.
         ValueError: GDAL driver cannot write files.
+        OSError: Failed to write file.
     """
     a = np.atleast_3d(a)
     dtype = osgeo.gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype)
@@ -658,18 +681,39 @@ def write_raster(
         bands=a.shape[2],
         eType=dtype,
     )
-    if transform:
-        output.SetGeoTransform(transform)
-    if crs:
-        wkt = crs_to_wkt(crs)
-        output.SetProjection(wkt)
-    for i in range(output.RasterCount):
-        if nan is not None:
-            output.GetRasterBand(i + 1).SetNoDataValue(nan)
-        output.GetRasterBand(i + 1).WriteArray(a[:, :, i])
-    if not can_create:
-        output = driver.CreateCopy(path, output, 0)
-    output.FlushCache()
+    if output is None:
+        raise OSError(f"Failed to create {path}: {osgeo.gdal.GetLastErrorMsg()}")
+    with _collect_gdal_errors() as errors:
+        if transform:
+            output.SetGeoTransform(transform)
+        if crs:
+            wkt = crs_to_wkt(crs)
+            output.SetProjection(wkt)
+        for i in range(output.RasterCount):
+            if nan is not None:
+                output.GetRasterBand(i + 1).SetNoDataValue(nan)
+            # NOTE: Errors of buffered (non-contiguous) writes are ignored by some drivers
+            band = np.ascontiguousarray(a[:, :, i])
+            output.GetRasterBand(i + 1).WriteArray(band)
+        if not can_create:
+            with _collect_gdal_errors() as copy_errors:
+                output = driver.CreateCopy(path, output, 0)
+            if output is None:
+                # NOTE: Otherwise, errors are from inspecting a previous file
+                errors.extend(copy_errors)
+        if output is None:
+            errors.append("No dataset created")
+        else:
+            output.FlushCache()
+        # Close file, since some drivers only write (and fail) on closing
+        output = None
+        if not errors:
+            # Read back file, since some drivers ignore write errors
+            output = osgeo.gdal.Open(path)
+            if output is None or output.ReadAsArray() is None:
+                errors.append("File cannot be read")
+    if errors:
+        raise OSError(f"Failed to write {path}: {errors[0]}")
 
 
 # ---- Geometry ---- #
-- 
2.43.0


From c3dfced57cafb9fe76976a55561cff5e4dd6d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 059/100] fix: Write the values of signed byte arrays

---
 src/glimpse/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 271436e..640627b 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -653,6 +653,9 @@ def write_raster(
         OSError: Failed to write file.
     """
     a = np.atleast_3d(a)
+    if a.dtype == np.int8:
+        # Signed bytes would be written as unsigned bytes
+        a = a.astype(np.int16)
     dtype = osgeo.gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype)
     if not dtype:
         dtypes = ", ".join([x.__name__ for x in osgeo.gdal_array.codes.values()])
-- 
2.43.0


From 4b64bab991f3e02dca8e9ad7d6af489ed6225d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 060/100] fix: Raise when the values of an array do not fit the
 raster format

---
 src/glimpse/helpers.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 640627b..72a6878 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -650,6 +650,7 @@ def write_raster(
         ValueError: Unrecognized GDAL driver.
         ValueError: Could not guess GDAL driver from path.
         ValueError: GDAL driver cannot write files.
+        ValueError: GDAL driver cannot store array values.
         OSError: Failed to write file.
     """
     a = np.atleast_3d(a)
@@ -704,6 +705,21 @@ def write_raster(
             if output is None:
                 # NOTE: Otherwise, errors are from inspecting a previous file
                 errors.extend(copy_errors)
+            if output is not None and output.RasterCount:
+                band = output.GetRasterBand(1)
+                copy_dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(
+                    band.DataType
+                )
+                if np.issubdtype(copy_dtype, np.integer):
+                    info = np.iinfo(copy_dtype)
+                    nbits = band.GetMetadataItem("NBITS", "IMAGE_STRUCTURE")
+                    vmax = 2 ** int(nbits) - 1 if nbits else info.max
+                    if not np.all((a >= info.min) & (a <= vmax)):
+                        raise ValueError(
+                            f"GDAL driver {driver.ShortName} cannot store array values"
+                            f" (outside range {info.min} to {vmax})"
+                        )
+                band = None
         if output is None:
             errors.append("No dataset created")
         else:
-- 
2.43.0


From 25c59fb317356d5a99c3abb569a891844be12c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 061/100] fix: Raise on unrecognized coordinate systems

---
 src/glimpse/helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 72a6878..8ac835f 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -553,6 +553,7 @@ def crs_to_wkt(crs: Union[int, str]) -> str:
     Raises:
         ValueError: String CRS format not Proj4 or WKT.
         ValueError: Unsupported CRS format.
+        ValueError: Unrecognized CRS.
 
     Examples:
         >>> crs_to_wkt(4326)
@@ -562,16 +563,18 @@ def crs_to_wkt(crs: Union[int, str]) -> str:
     """
     obj = osgeo.osr.SpatialReference()
     if isinstance(crs, int):
-        obj.ImportFromEPSG(crs)
+        error = obj.ImportFromEPSG(crs)
     elif isinstance(crs, str):
         if re.findall(r"\[", crs):
-            obj.ImportFromWkt(crs)
+            error = obj.ImportFromWkt(crs)
         elif re.findall(r"\+", crs):
-            obj.ImportFromProj4(crs)
+            error = obj.ImportFromProj4(crs)
         else:
             raise ValueError(f"String CRS format not Proj4 or WKT: {crs}")
     else:
         raise ValueError(f"Unsupported CRS format: {crs}")
+    if error:
+        raise ValueError(f"Unrecognized CRS: {crs}")
     return obj.ExportToWkt()
 
 
-- 
2.43.0


From 19b33fa1a013b393a5548fde4a2f488dd92cf32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 062/100] fix: Start fitting view directions from a
 one-dimensional array

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index ea5c353..dc3f891 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2084,7 +2084,7 @@ class ObserverCameras:
             return objective, gradients.ravel()
 
         # Optimize camera view directions
-        viewdirs_0 = [img.cam.viewdir for img in self.observer.images]
+        viewdirs_0 = np.hstack([img.cam.viewdir for img in self.observer.images])
         result = scipy.optimize.minimize(
             fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
         )
-- 
2.43.0


From 9091a73dad0a87f2f3c1d59f293df68812f00709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 063/100] fix: Restore cameras if predicting, plotting, or
 fitting fails

---
 src/glimpse/optimize.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index dc3f891..9f4fffd 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1,9 +1,10 @@
 """Optimize camera models to fit observations taken from images and the world."""
 import copyreg
 import datetime
+import functools
 import os
 import sys
-from typing import Any, Dict, Iterable, List, Optional, Tuple, Type, Union
+from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple, Type, Union
 
 import cv2
 import lmfit
@@ -1142,6 +1143,23 @@ Params = Dict[str, Union[bool, int, Iterable[int]]]
 FitParams = Union[Iterable[float], lmfit.parameter.Parameters]
 
 
+def _restore_on_error(method: Callable) -> Callable:
+    """Restore the state of :class:`Cameras` if a method raises an error."""
+
+    @functools.wraps(method)
+    def wrapper(self: "Cameras", *args: Any, **kwargs: Any) -> Any:
+        vectors, params = [cam.to_array() for cam in self.cams], self.params
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            for cam, vector in zip(self.cams, vectors):
+                cam._vector = vector
+            self.params = params
+            raise
+
+    return wrapper
+
+
 class Cameras:
     """
     Multi-camera optimization.
@@ -1730,6 +1748,7 @@ class Cameras:
             return self.controls[0].observed(index=index)
         return np.vstack([control.observed() for control in self.controls])[index]
 
+    @_restore_on_error
     def predicted(
         self, params: FitParams = None, index: Index = slice(None)
     ) -> np.ndarray:
@@ -1790,6 +1809,7 @@ class Cameras:
         """
         return np.linalg.norm(self.residuals(params=params, index=index), axis=1)
 
+    @_restore_on_error
     def fit(
         self,
         index: Index = slice(None),
@@ -1889,6 +1909,7 @@ class Cameras:
         elif result.success:
             return np.array(list(result.params.valuesdict().values()))
 
+    @_restore_on_error
     def plot(
         self,
         params: FitParams = None,
@@ -2085,10 +2106,12 @@ class ObserverCameras:
 
         # Optimize camera view directions
         viewdirs_0 = np.hstack([img.cam.viewdir for img in self.observer.images])
-        result = scipy.optimize.minimize(
-            fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
-        )
-        self.reset_cameras()
+        try:
+            result = scipy.optimize.minimize(
+                fun=fun, x0=viewdirs_0.copy(), jac=True, method=method, **kwargs
+            )
+        finally:
+            self.reset_cameras()
         if not result.success:
             sys.stdout.write("\n")  # new line
             print(result.message)
-- 
2.43.0


From 2599e6fd6d944bed77888e8f50755e1be9ace883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 064/100] fix: Leave cameras as found when fitting in stages or
 fitting view directions

---
 src/glimpse/optimize.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 9f4fffd..53d5919 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1874,6 +1874,7 @@ class Cameras:
             len(cam_params) if cam_params else 0,
             len(group_params) if group_params else 0,
         )
+        vectors, initial_params = [cam.to_array() for cam in self.cams], self.params
         if iterations:
             for n in range(iterations):
                 iter_cam_params = cam_params[n] if cam_params else self.cam_params
@@ -1900,8 +1901,9 @@ class Cameras:
         )
         sys.stdout.write("\n")
         if iterations:
-            self.reset_cameras()
-            self.update_params()
+            for cam, vector in zip(self.cams, vectors):
+                cam._vector = vector
+            self.params = initial_params
         if not result.success:
             print(result.message)
         if full:
@@ -2111,7 +2113,7 @@ class ObserverCameras:
                 fun=fun, x0=viewdirs_0.copy(), jac=True, method=method, **kwargs
             )
         finally:
-            self.reset_cameras()
+            self.set_cameras(viewdirs=viewdirs_0.reshape(-1, 3))
         if not result.success:
             sys.stdout.write("\n")  # new line
             print(result.message)
-- 
2.43.0


From 2329ad66bd0f27b6ac608d874b7f30d22063eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 065/100] fix: Draw as many different RANSAC samples as exist

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 53d5919..22add49 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2211,7 +2211,7 @@ def _ransac_samples(n: int, size: int, iterations: int = 100) -> List[int]:
     )
     if log:
         # Compute max iterations if no float overflow
-        max_iterations = np.floor(np.exp(log))
+        max_iterations = np.rint(np.exp(log))
         iterations = min(iterations, max_iterations)
     samples = set()
     indices = np.arange(size)
-- 
2.43.0


From 8545c539c551d482e9fb3938009deb964b7f8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 066/100] fix: Point samples of a raster are not truncated by
 an integer fill value

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d8ac801..1ebf373 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1022,7 +1022,7 @@ class Raster(Grid):
         else:
             # Sample at points
             if has_fill:
-                samples = np.full(len(xy), fill_value)
+                samples = np.full(len(xy), fill_value, dtype=float)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
                 if has_fill:
-- 
2.43.0


From 66ffb030f07662a7adddab1458289f211578587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:38 +0000
Subject: [PATCH 067/100] fix: Motion models accept numbers and None as surface
 elevation and uncertainty

---
 src/glimpse/track/motion.py | 51 +++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20a7c96..6b23765 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,6 +10,13 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _parse_raster(value: Optional[Union[Number, Raster]]) -> Optional[Raster]:
+    """Parse value as a raster (infinite, if a number)."""
+    if value is None or isinstance(value, Raster):
+        return value
+    return Raster(value, x=(-np.inf, np.inf), y=(-np.inf, np.inf))
+
+
 class Motion:
     """
     Illustration of the motion model interface required by :class:`Tracker`.
@@ -133,12 +140,8 @@ class CartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_raster(dem)
+        self.dem_sigma = _parse_raster(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vxyz = vxyz
@@ -244,12 +247,8 @@ class CylindricalMotion(CartesianMotion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_raster(dem)
+        self.dem_sigma = _parse_raster(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vrthz = vrthz
@@ -362,12 +361,8 @@ class TangentCartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_raster(dem)
+        self.dem_sigma = _parse_raster(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vxy = vxy
@@ -385,8 +380,10 @@ class TangentCartesianMotion(Motion):
         """
         particles = np.zeros((self.n, 6), dtype=float)
         particles[:, 0:2] = self.xy + self.xy_sigma * np.random.randn(self.n, 2)
-        z_offsets = self.dem_sigma.sample(particles[:, 0:2]) * np.random.randn(self.n)
-        particles[:, 2] = self.dem.sample(particles[:, 0:2]) + z_offsets
+        particles[:, 2] = self.dem.sample(particles[:, 0:2])
+        if self.dem_sigma is not None:
+            z_sigma = self.dem_sigma.sample(particles[:, 0:2])
+            particles[:, 2] += z_sigma * np.random.randn(self.n)
         particles[:, 3:5] = self.vxy + self.vxy_sigma * np.random.randn(self.n, 2)
         return particles
 
@@ -453,12 +450,8 @@ class TangentCylindricalMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_raster(dem)
+        self.dem_sigma = _parse_raster(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vrth = vrth
@@ -476,8 +469,10 @@ class TangentCylindricalMotion(Motion):
         """
         particles = np.zeros((self.n, 6), dtype=float)
         particles[:, 0:2] = self.xy + self.xy_sigma * np.random.randn(self.n, 2)
-        z_offsets = self.dem_sigma.sample(particles[:, 0:2]) * np.random.randn(self.n)
-        particles[:, 2] = self.dem.sample(particles[:, 0:2]) + z_offsets
+        particles[:, 2] = self.dem.sample(particles[:, 0:2])
+        if self.dem_sigma is not None:
+            z_sigma = self.dem_sigma.sample(particles[:, 0:2])
+            particles[:, 2] += z_sigma * np.random.randn(self.n)
         vrth = self.vrth + self.vrth_sigma * np.random.randn(self.n, 2)
         particles[:, 3:5] = np.column_stack(
             (
-- 
2.43.0


From 62e662f7e407818dfd34e5790bedd95fb2e750ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 068/100] fix: Particles at rest are not lost by cylindrical
 motion models

---
 src/glimpse/track/motion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 6b23765..7148b89 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -294,6 +294,8 @@ class CylindricalMotion(CartesianMotion):
         vx = particles[:, 3]
         vy = particles[:, 4]
         vr = np.sqrt(vx ** 2 + vy ** 2)
+        # NOTE: Particles at rest have no direction in which to accelerate
+        vr[vr == 0] = np.inf
         arthz = self.arthz + self.arthz_sigma * np.random.randn(n, 3)
         axyz = np.column_stack(
             (
@@ -497,6 +499,8 @@ class TangentCylindricalMotion(Motion):
         vx = particles[:, 3]
         vy = particles[:, 4]
         vr = np.sqrt(vx ** 2 + vy ** 2)
+        # NOTE: Particles at rest have no direction in which to accelerate
+        vr[vr == 0] = np.inf
         arth = self.arth + self.arth_sigma * np.random.randn(n, 2)
         axy = np.column_stack(
             (
-- 
2.43.0


From 3ec3e2011275a3c064ff4d2cbe37e13640d5619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:35 +0000
Subject: [PATCH 069/100] fix: Fit camera stages with their own scale factors
 and sparsity

---
 src/glimpse/optimize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 22add49..937a6ec 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1846,6 +1846,8 @@ class Cameras:
                 then ordered by position in :meth:`Camera.to_array()`.
         """
         kwargs = {"nan_policy": "omit", **kwargs}
+        # Scale factors and sparsity depend on the parameters being fit
+        stage_kwargs = kwargs.copy()
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
                 kwargs["diag"] = self.scales
@@ -1886,8 +1888,10 @@ class Cameras:
                     controls=self.controls,
                     cam_params=iter_cam_params,
                     group_params=iter_group_params,
+                    scales=self.scales is not None,
+                    sparsity=self.sparsity is not None,
                 )
-                values = model.fit(index=index, method=method, **kwargs)
+                values = model.fit(index=index, method=method, **stage_kwargs)
                 if values is not None:
                     model.set_cameras(params=values)
             self.update_params()
-- 
2.43.0


From 1a32b5137d35a8fcb2b77a2aeca9e850b3378b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:47 +0000
Subject: [PATCH 070/100] fix: Fit camera stages with the groups and weights of
 the model

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 937a6ec..7fbf524 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1887,7 +1887,9 @@ class Cameras:
                     cams=self.cams,
                     controls=self.controls,
                     cam_params=iter_cam_params,
+                    group_indices=self.group_indices,
                     group_params=iter_group_params,
+                    weights=self.weights,
                     scales=self.scales is not None,
                     sparsity=self.sparsity is not None,
                 )
-- 
2.43.0


From 45d58185574fc887ff7465d7b4094d17d4eb9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:59 +0000
Subject: [PATCH 071/100] fix: Set the parameters of cameras which are not in a
 group

---
 src/glimpse/optimize.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7fbf524..e5abd95 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1719,9 +1719,11 @@ class Cameras:
                 self.cams[j]._vector[self.group_masks[i]] = params[
                     self.group_breaks[i] : self.group_breaks[i + 1]
                 ]
-                self.cams[j]._vector[self.cam_masks[j]] = params[
-                    self.cam_breaks[j] : self.cam_breaks[j + 1]
-                ]
+        # NOTE: Also for cameras not in a group
+        for j, cam in enumerate(self.cams):
+            cam._vector[self.cam_masks[j]] = params[
+                self.cam_breaks[j] : self.cam_breaks[j + 1]
+            ]
         if save:
             self.vectors = [cam.to_array() for cam in self.cams]
 
-- 
2.43.0


From 9754c8ad1dfed28722a5262d093a424d8273f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:54 +0000
Subject: [PATCH 072/100] fix: Remove the particles of previous frames from
 track animations

---
 src/glimpse/track/tracks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 561bbbd..8581c82 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -401,7 +401,8 @@ class Tracks:
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
             for ax in axes:
-                ax.collections = []
+                for collection in list(ax.collections):
+                    collection.remove()
             img = self.images[i, obs]
             if particles:
                 # Map: Particles
-- 
2.43.0


From 91fcc2a0fe4fac6f9763aa2f27dbefa17c688720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:05 +0000
Subject: [PATCH 073/100] fix: Scale the velocities of animated tracks by their
 own time step

---
 src/glimpse/track/tracks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 8581c82..e17bd65 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -397,6 +397,8 @@ class Tracks:
             scales = np.ones(len(frames) - 1)
         # Discard last frame
         frames = frames[:-1]
+        # Scales by datetime index
+        scales = dict(zip(frames, scales))
 
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
-- 
2.43.0


From b0d0d8ad18f356f1e6af273d9d0828944f556cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:16 +0000
Subject: [PATCH 074/100] fix: Animate tracks without images

---
 src/glimpse/track/tracks.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index e17bd65..3b98ba3 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -492,7 +492,6 @@ class Tracks:
                 )
             else:
                 basename = str(obs) + " : " + str(img)
-            basename = helpers.strip_path(self.tracker.observers[obs].images[img].path)
             map_txt.set_text(basename)
             if images:
                 return map_track, map_txt, image_track, image_tile, image_mean
-- 
2.43.0


From 1ab1ea03bdca4cfd36b04e65679b6e128312ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 075/100] fix: Read animated tiles with integer boxes

---
 src/glimpse/track/observer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 9df9efe..7c19ff2 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -343,9 +343,11 @@ class Observer:
                         (box, np.concatenate(([0, 0], self.images[i].size)))
                     )
                 grid = Grid(self.images[i].size)
-                box = grid.snap_xy(
-                    helpers.unravel_box(box), centers=False, edges=True
-                ).ravel()
+                box = (
+                    grid.snap_xy(helpers.unravel_box(box), centers=False, edges=True)
+                    .ravel()
+                    .astype(int)
+                )
                 tile = self.extract_tile(img=i, box=box)
             else:
                 # Use white tile
-- 
2.43.0


From 963fb89bf0986a09fb85e1fe546458e70b4ed8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:37 +0000
Subject: [PATCH 076/100] fix: Center animated tiles vertically

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 7c19ff2..595dfad 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -329,7 +329,7 @@ class Observer:
             transform=ax[0].transAxes,
         )
         ax[1].set_xlim(uv[0] - halfsize[0], uv[0] + halfsize[0])
-        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[0])
+        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[1])
 
         # Update plot
         def update_plot(i: int) -> list:
@@ -358,7 +358,7 @@ class Observer:
                 pt[j].set_xdata(puv[0])
                 pt[j].set_ydata(puv[1])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
-            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[0])
+            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
             basename = helpers.strip_path(self.images[i].path)
             txt.set_text(str(i) + " : " + basename)
             return im + pt + [txt]
-- 
2.43.0


From c9ffff9887a95b843bc620eea6ba3ee4fa3a5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:48 +0000
Subject: [PATCH 077/100] fix: Accept any sequence of frames when animating a
 moving point

---
 src/glimpse/track/observer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 595dfad..ed969da 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -397,6 +397,7 @@ class Observer:
         """
         if frames is None:
             frames = np.arange(len(xyz))
+        frames = np.asarray(frames)
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-- 
2.43.0


From 6cce14828d783e9d286d735d552680a5f5888352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 078/100] fix: Compute the first animated tile from the first
 frame

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index ed969da..27811c0 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -314,7 +314,7 @@ class Observer:
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes) for axes in ax]
         pt = [axis.plot(uv[0], uv[1], marker=".", color="red")[0] for axis in ax]
@@ -403,7 +403,7 @@ class Observer:
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
         track_uv: np.ndarray = self.images[frames[0]].xyz_to_uv(xyz[0:1])
         uv = track_uv[-1]
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes, zorder=1) for axes in ax]
         track = ax[1].plot(track_uv[:, 0], track_uv[:, 1], "y.-", alpha=0.5, zorder=2)[
-- 
2.43.0


From bf99a2b389ed2cfaceb41e6d1f8bd994cc5384bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:08 +0000
Subject: [PATCH 079/100] fix: Plot tiles which are not square in their own
 shape

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 27811c0..5a36516 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -233,7 +233,7 @@ class Observer:
             **kwargs: Optional arguments to :func:`matplotlib.pyplot.imshow`.
         """
         if box is None:
-            box = (0, 0, tile.shape[0], tile.shape[1])
+            box = (0, 0, tile.shape[1], tile.shape[0])
         extent = (box[0], box[2], box[3], box[1])
         if axes is None:
             axes = matplotlib.pyplot.gca()
-- 
2.43.0


From 01c15e4a376aa127c061b3357071ecb6265c85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:20 +0000
Subject: [PATCH 080/100] fix: Draw the particles and velocities of animated
 tracks

---
 src/glimpse/track/tracks.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 3b98ba3..660b9fb 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -400,7 +400,7 @@ class Tracks:
         # Scales by datetime index
         scales = dict(zip(frames, scales))
 
-        def update_plot(i: int) -> tuple:
+        def update_plot(i: int) -> list:
             # PathCollections cannot set x, y, so new objects have to be created
             for ax in axes:
                 for collection in list(ax.collections):
@@ -493,9 +493,18 @@ class Tracks:
             else:
                 basename = str(obs) + " : " + str(img)
             map_txt.set_text(basename)
+            # Include the new collections, which are otherwise not drawn (blit=True)
+            collections = [collection for ax in axes for collection in ax.collections]
             if images:
-                return map_track, map_txt, image_track, image_tile, image_mean
-            return map_track, map_txt
+                return [
+                    image_tile,
+                    map_track,
+                    map_txt,
+                    image_track,
+                    image_mean,
+                    *collections,
+                ]
+            return [map_track, map_txt, *collections]
 
         return matplotlib.animation.FuncAnimation(
             fig, update_plot, frames=frames, blit=True, **animation
-- 
2.43.0


From c788f631fb79ca1d04183e2a12ba4d1c5b749f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:30 +0000
Subject: [PATCH 081/100] fix: Center animated tiles on the first frame

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 5a36516..cfb7c1b 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -306,10 +306,10 @@ class Observer:
             animation: Additional arguments to
                 :class:'matplotlib.animation.FuncAnimation'.
         """
-        if uv is None:
-            uv = self.images[0].size / 2
         if frames is None:
             frames = np.arange(len(self.images))
+        if uv is None:
+            uv = self.images[frames[0]].size / 2
         xyz = self.images[frames[0]].uv_to_xyz(np.atleast_2d(uv))
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
-- 
2.43.0


From d674d3c29ce76f2a7e88ad0d09adcdc4c8eafdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 082/100] fix: Color the particles of tracks which end early

---
 src/glimpse/track/tracks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 660b9fb..a4e115e 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -386,10 +386,10 @@ class Tracks:
         if particles:
             # Compute quiver scales
             scales = np.diff(self.datetimes[frames]) / self.time_unit
-            # Compute weight limits for static colormap
+            # Compute weight limits for static colormap (ignoring missing datetimes)
             clim = (
-                self.weights[track, :].ravel().min(),
-                self.weights[track, :].ravel().max(),
+                np.nanmin(self.weights[track, :]),
+                np.nanmax(self.weights[track, :]),
             )
         elif self.tracker is not None:
             scales = np.diff(self.datetimes[frames]) / self.time_unit
-- 
2.43.0


From faf9540b43e0cfb09970d18bef33a9e089a1619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:58 +0000
Subject: [PATCH 083/100] fix: Animate tiles which barely overlap the image

---
 src/glimpse/track/observer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index cfb7c1b..12eca55 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -336,6 +336,7 @@ class Observer:
             puv = self.images[i].xyz_to_uv(xyz)[0]
             box = np.vstack([puv - halfsize, puv + halfsize]).ravel()
             inbounds = self.images[i].inbounds(helpers.box_to_polygon(box))
+            tile = None
             if np.any(inbounds):
                 if not np.all(inbounds):
                     # Intersect box with image bounds
@@ -348,8 +349,10 @@ class Observer:
                     .ravel()
                     .astype(int)
                 )
-                tile = self.extract_tile(img=i, box=box)
-            else:
+                # NOTE: Box may be empty if less than half a pixel is inside the image
+                if all(box[0:2] < box[2:4]):
+                    tile = self.extract_tile(img=i, box=box)
+            if tile is None:
                 # Use white tile
                 tile = np.zeros((size[1], size[0], 3), dtype=np.uint8) + 255
             for j in range(2):
-- 
2.43.0


From b77d56007d3cb791a00382336b8283d181dc02f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:41 +0000
Subject: [PATCH 084/100] fix: Undistort points on the center column of k1-only
 cameras

---
 src/glimpse/camera.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 85868af..9cc153a 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1230,8 +1230,7 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        # r' = y / cos(phi)
-        R = -xy[:, 0] / (2 * self.k[0] * np.cos(phi))
+        R = -np.hypot(xy[:, 0], xy[:, 1]) / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
-- 
2.43.0


From 29a7648859bc94863c10808f95f92ad5f94cd241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:49 +0000
Subject: [PATCH 085/100] fix: Accept depth vectors in Camera.uv_to_xyz

---
 src/glimpse/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9cc153a..b1170bc 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1474,7 +1474,7 @@ class Camera:
             xyz = np.dot(xy, self.R[0:2, :])
         # Simulate z = 1 by adding 3rd column of rotation matrix
         xyz += self.R.T[:, 2]
-        if depth != 1:
+        if np.iterable(depth) or depth != 1:
             xyz *= np.atleast_1d(depth).reshape(-1, 1)
         if not directions:
             xyz += self.xyz
-- 
2.43.0


From 52064b76ee22453d23354411776814fe261a4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:01 +0000
Subject: [PATCH 086/100] fix: Do not lengthen lists passed as camera
 parameters

---
 src/glimpse/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 8ac835f..b16620b 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -83,12 +83,12 @@ def format_list(
             x = x[0:length]
         elif nx < length:
             if default is not None:
-                x += [default] * (length - nx)
+                x = x + [default] * (length - nx)
             elif nx > 0:
                 # Repeat list
                 if length % nx != 0:
                     raise ValueError("Output length is not multiple of input length")
-                x *= length // nx
+                x = x * (length // nx)
     if dtype:
         x = [dtype(i) for i in x]
     return x
-- 
2.43.0


From 4d0c07b580022a7c843071389b1f0d9e1dc09a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 087/100] fix: Rasterize points on the right and bottom image
 edges

---
 src/glimpse/camera.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index b1170bc..75c2cd1 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -842,7 +842,8 @@ class Camera:
             values: Point values (n, ) or (n, d).
 
         Returns:
-            Image array (float) of mean values of the same dimensions as :attr:`imgsz`.
+            Image array (float) of mean values of the same dimensions as :attr:`imgsz`,
+            with one layer for each column of `values` if these are 2-dimensional.
             Pixels without points are `NaN`.
 
         Example:
@@ -854,10 +855,9 @@ class Camera:
                    [nan, nan,  3.]])
         """
         mask = self.inframe(uv)
-        a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
-        helpers.rasterize_points(
-            uv[mask, 1].astype(int), uv[mask, 0].astype(int), values[mask], a=a
-        )
+        a = np.full((self.imgsz[1], self.imgsz[0], *np.shape(values)[1:]), np.nan)
+        rc = self._uv_to_rowcol(uv[mask])
+        helpers.rasterize_points(rc[:, 0], rc[:, 1], values[mask], a=a)
         return a
 
     def spherical_to_xyz(self, angles: np.ndarray) -> np.ndarray:
@@ -1079,7 +1079,7 @@ class Camera:
             if not np.count_nonzero(is_in):
                 # No cells in image
                 return None
-            rc = uv[is_in, ::-1].astype(int)
+            rc = self._uv_to_rowcol(uv[is_in])
             # Compile values
             if has_values:
                 tile_values = tile_values[tile_mask][is_in]
@@ -1491,6 +1491,17 @@ class Camera:
         uv = xy * self.f + (self.imgsz / 2 + self.c)
         return uv
 
+    def _uv_to_rowcol(self, uv: np.ndarray) -> np.ndarray:
+        """
+        Convert image coordinates in frame to array indices.
+
+        Points on the right and bottom edges are in the last column and row.
+
+        Arguments:
+            uv: Image coordinates (n, 2)
+        """
+        return np.minimum(uv.astype(int), self.imgsz - 1)[:, ::-1]
+
     def _uv_to_xy(self, uv: np.ndarray) -> np.ndarray:
         """
         Project image to camera coordinates.
-- 
2.43.0


From 9daf30e62db7bda56ac964c8946067ea31b28251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:24 +0000
Subject: [PATCH 088/100] fix: Apply elevation corrections set after a camera
 is built

---
 src/glimpse/camera.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 75c2cd1..38218a3 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -112,10 +112,6 @@ class Camera:
         self.c = c
         self.k = k
         self.p = p
-        if correction is True:
-            correction = {}
-        if isinstance(correction, dict):
-            correction = {"radius": 6.3781e6, "refraction": 0.13, **correction}
         self.correction = correction
         self._original_vector = self._vector.copy()
 
@@ -205,6 +201,19 @@ class Camera:
             value = np.array(helpers.format_list(value, length=2), dtype=float)
         self._sensorsz = value
 
+    @property
+    def correction(self) -> Union[bool, dict]:
+        """Elevation corrections for surface curvature and atmospheric refraction."""
+        return self.__dict__["correction"]
+
+    @correction.setter
+    def correction(self, value: Union[bool, dict]) -> None:
+        if value is True:
+            value = {}
+        if isinstance(value, dict):
+            value = {"radius": 6.3781e6, "refraction": 0.13, **value}
+        self.__dict__["correction"] = value
+
     @property
     def fmm(self) -> Optional[np.ndarray]:
         """Focal length in millimeters (fx, fy)."""
-- 
2.43.0


From dbb0f11b0f853e73fd0138dba91e826aa8f66877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 089/100] fix: Load elevation corrections saved with a camera

---
 src/glimpse/camera.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 38218a3..21d1f11 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -353,6 +353,8 @@ class Camera:
         """
         json_args = helpers.read_json(path)
         for key in json_args:
+            if key == "correction":
+                continue
             # Conversion to float converts None to nan
             value = np.array(json_args[key], dtype=float)
             if np.isnan(value).all():
-- 
2.43.0


From 9c1378b94598d326e814cefd1f210e6232bf3177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:44 +0000
Subject: [PATCH 090/100] fix: Compute the scale of a target image size exactly

---
 src/glimpse/helpers.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index b16620b..04588f4 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1483,13 +1483,12 @@ def get_scale_from_size(old: Iterable[int], new: Iterable[int]) -> Optional[floa
     if all(initial[0] == initial):
         return initial[0]
 
-    def err(scale: float) -> float:
-        return np.sum(np.abs(np.round(scale * old) - new))
-
-    bounds = [(np.floor(initial.min()), np.ceil(initial.max()))]
-    fit = scipy.optimize.differential_evolution(func=err, bounds=bounds)
-    if fit["fun"] == 0:
-        return float(fit["x"])
+    # Each dimension is achieved by an interval of scale factors
+    low = ((new - 0.5) / old).max()
+    high = ((new + 0.5) / old).min()
+    scale = (low + high) / 2
+    if low < high and all(np.round(scale * old) == new):
+        return float(scale)
     return None
 
 
-- 
2.43.0


From 580cdfd3df5af77e15c0512058a86730d25f6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:56 +0000
Subject: [PATCH 091/100] fix: Optimize the first element of external camera
 parameters

---
 src/glimpse/convert/converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 90c3cb3..b1662a3 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -115,7 +115,11 @@ class Converter:
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
         # Drop empty params and normalize value as a numpy index
-        indices = {k: slice(None) if v is True else v for k, v in params.items() if v}
+        indices = {
+            k: slice(None) if v is True else np.atleast_1d(v)
+            for k, v in params.items()
+            if v is not None and v is not False and np.size(v)
+        }
         x0 = []
         for key, idx in indices.items():
             value = np.atleast_1d(getattr(self.xcam, key))
-- 
2.43.0


From 5eb64a0cf6c536ed734791201f1721fa1a97b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:06 +0000
Subject: [PATCH 092/100] fix: Restore cameras when their conversion fails

---
 src/glimpse/convert/converter.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index b1662a3..e10d554 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -103,7 +103,12 @@ class Converter:
             self.cam._vector[mask] = x
             return self.residuals().ravel()
 
-        fit = scipy.optimize.least_squares(fun=fun, x0=self.cam._vector[mask], **kwargs)
+        x0 = self.cam._vector[mask]
+        try:
+            fit = scipy.optimize.least_squares(fun=fun, x0=x0, **kwargs)
+        except BaseException:
+            self.cam._vector[mask] = x0
+            raise
         self.cam._vector[mask] = fit.x
 
     def optimize_xcam(self, params: Parameters, **kwargs: Any) -> None:
@@ -138,7 +143,13 @@ class Converter:
             apply(x)
             return self.residuals().ravel()
 
-        fit = scipy.optimize.least_squares(fun=fun, x0=x0, **kwargs)
+        original = {key: getattr(self.xcam, key) for key in indices}
+        try:
+            fit = scipy.optimize.least_squares(fun=fun, x0=x0, **kwargs)
+        except BaseException:
+            for key, value in original.items():
+                setattr(self.xcam, key, value)
+            raise
         apply(fit.x)
 
     def plot(self, **kwargs: Any) -> matplotlib.quiver.Quiver:
-- 
2.43.0


From db486f162ebae1a655ea95627925a824c4cbd85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:17 +0000
Subject: [PATCH 093/100] fix: Convert cameras with few points on elongated
 images

---
 src/glimpse/convert/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index e10d554..8ece031 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -56,9 +56,9 @@ class Converter:
         d = np.sqrt(area / n)
         # Place points such that spacing to edge is half of interpoint spacing
         # - | -- | -- | -- | -
-        dx = imgsz[0] / round(imgsz[0] / d)
+        dx = imgsz[0] / max(1, round(imgsz[0] / d))
         x = np.arange(0.5 * dx, imgsz[0], dx)
-        dy = imgsz[1] / round(imgsz[1] / d)
+        dy = imgsz[1] / max(1, round(imgsz[1] / d))
         y = np.arange(0.5 * dy, imgsz[1], dy)
         return np.reshape(np.meshgrid(x, y), (2, -1)).T
 
-- 
2.43.0


From ce331f04f4a56215987647488fc954f6762813ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:31 +0000
Subject: [PATCH 094/100] fix: Do not optimize camera parameters set to False

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index e5abd95..32b6faf 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1525,7 +1525,7 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if selection or selection == 0:
+                if selection is not False and (selection or selection == 0):
                     i = attributes.index(key)
                     if selection is True:
                         positions = range(indices[i], indices[i + 1])
-- 
2.43.0


From bfcf2d6b2fb2ca19436eb34a00232c818a26fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:54 +0000
Subject: [PATCH 095/100] fix: Let a camera given for an image override its
 metadata

---
 src/glimpse/image.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 62b869f..47ad9e1 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -93,16 +93,20 @@ class Image:
         if not cam:
             cam = {}
         if isinstance(cam, dict):
-            if not (
-                "imgsz" in cam and "f" in cam or ("fmm" in cam and "sensorsz" in cam)
+            if (
+                "imgsz" not in cam
+                or ("f" not in cam and not ("fmm" in cam and "sensorsz" in cam))
+                or ("cmm" in cam and "sensorsz" not in cam)
             ):
                 exif = exif or Exif(path)
-                cam = {
+                defaults = {
                     "imgsz": exif.imgsz,
                     "fmm": exif.fmm,
                     "sensorsz": exif.sensorsz,
-                    **cam,
                 }
+                if "f" in cam:
+                    defaults.pop("fmm")
+                cam = {**defaults, **cam}
             cam = Camera(**cam)
         self.cam = cam
         if not datetime:
-- 
2.43.0


From cec12995c305cbd9dd2a0ef708b38881400d803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:04 +0000
Subject: [PATCH 096/100] fix: Parse Exif fractions with zero denominators as
 missing

---
 src/glimpse/exif.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index 68f0f11..dfb265e 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -166,7 +166,7 @@ class Exif:
             group: Group name ('Exif', '0th', '1st', 'GPS', or 'Interop').
 
         Returns:
-            Parsed tag value.
+            Parsed tag value, or `None` if missing or a fraction with denominator zero.
         """
         try:
             value = self.tags[group][tag]
@@ -175,6 +175,9 @@ class Exif:
         if isinstance(value, bytes):
             return value.decode()
         if isinstance(value, tuple) and len(value) == 2:
+            if not value[1]:
+                # Unknown (or infinite)
+                return None
             return value[0] / value[1]
         return value
 
-- 
2.43.0


From bf769ae5158a4edce540b5e6584fe260f8763489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:13 +0000
Subject: [PATCH 097/100] fix: Round integers projected into another camera

---
 src/glimpse/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 47ad9e1..8604eb4 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -351,5 +351,8 @@ class Image:
             f = scipy.interpolate.RegularGridInterpolator(
                 (pv, pu), array[:, :, i], method=method, bounds_error=False
             )
-            projected[:, :, i] = f(pvu).reshape(projected.shape[0:2])
+            values = f(pvu)
+            if np.issubdtype(projected.dtype, np.integer):
+                values = np.round(values)
+            projected[:, :, i] = values.reshape(projected.shape[0:2])
         return projected
-- 
2.43.0


From 6d7a31aadddf46666c9d89f2d8d06c772100b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:21 +0000
Subject: [PATCH 098/100] fix: Require the size of a camera's image

---
 src/glimpse/camera.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 21d1f11..ef5cea7 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -148,6 +148,8 @@ class Camera:
 
     @imgsz.setter
     def imgsz(self, value: Vector) -> None:
+        if value is None:
+            raise ValueError("Image size is missing")
         as_int = helpers.format_list(value, length=2, dtype=int)
         as_float = helpers.format_list(value, length=2)
         if np.any(as_int != as_float):
-- 
2.43.0


From cd9ad845fa0de33b00613886c86c5366e117cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:30 +0000
Subject: [PATCH 099/100] fix: Round and clip the pixels of shifted tiles

---
 src/glimpse/track/observer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 12eca55..4ed0d64 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -171,7 +171,11 @@ class Observer:
         tile = np.atleast_3d(tile).copy()
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
-            tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
+            values = f(cv + duv[1], cu + duv[0], grid=True)
+            if np.issubdtype(tile.dtype, np.integer):
+                # NOTE: Splines may exceed the range of the pixels
+                values = np.clip(np.round(values), *helpers.numpy_dtype_minmax(tile.dtype))
+            tile[:, :, i] = values
         if tile.shape[2] == 1:
             return tile.squeeze(axis=2)
         return tile
-- 
2.43.0


From c0b655d4b9c07c778676fdb56f265414587408e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:40 +0000
Subject: [PATCH 100/100] fix: Sample tiles on grids and with cells of any size

---
 src/glimpse/track/observer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 4ed0d64..49023d4 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -203,14 +203,16 @@ class Observer:
         Raises:
             ValueError: Some sampling points are outside box.
         """
-        if not np.all(helpers.in_box(uv, box)):
+        # Extremes of grid coordinate arrays
+        points = [(f(uv[0]), f(uv[1])) for f in (np.min, np.max)] if grid else uv
+        if not np.all(helpers.in_box(points, box)):
             raise ValueError("Some sampling points are outside box")
         # Cell sizes
         du = (box[2] - box[0]) / tile.shape[1]
         dv = (box[3] - box[1]) / tile.shape[0]
         # Cell center coordinates
-        cu = np.arange(box[0] + du * 0.5, box[2])  # x|cols
-        cv = np.arange(box[1] + dv * 0.5, box[3])  # y|rows
+        cu = box[0] + du * np.arange(0.5, tile.shape[1])  # x|cols
+        cv = box[1] + dv * np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at arbitrary coordinates
         f = scipy.interpolate.RectBivariateSpline(cv, cu, tile, **kwargs)
         if grid:
-- 
2.43.0

