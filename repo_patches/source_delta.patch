From 254afa688b4d9b014b498c9e9ddc2058ed4c038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 01/30] fix: native filling skips the last interior row and
 column in every sweep

The sweeps stop one row and one column short, so the outer loop can stop
before the fixpoint is reached and leave cells above the depressionless
surface. Rasters with a single interior row or column were refused and
rasters without interior cells failed.
---
 malstroem/algorithms/fill.py            |  8 ++++++++
 malstroem/algorithms/speedups/_fill.pyx | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/malstroem/algorithms/fill.py b/malstroem/algorithms/fill.py
index 2002ce4..013f350 100644
--- a/malstroem/algorithms/fill.py
+++ b/malstroem/algorithms/fill.py
@@ -133,6 +133,10 @@ def fill_terrain(dtm):
     """
     filled = _initialize_filled(dtm, DTYPE_FILL)
 
+    # Without interior cells there is nothing to fill
+    if min(dtm.shape) < 3:
+        return filled
+
     keep_going = True
     iteration = 1
 
@@ -194,6 +198,10 @@ def fill_terrain_no_flats(dtm, short=0, diag=0):
     """
     filled = _initialize_filled(dtm, DTYPE_FILLNOFLAT)
 
+    # Without interior cells there is nothing to fill
+    if min(dtm.shape) < 3:
+        return filled
+
     keep_going = True
     iteration = 1
 
diff --git a/malstroem/algorithms/speedups/_fill.pyx b/malstroem/algorithms/speedups/_fill.pyx
index 293699a..420d048 100644
--- a/malstroem/algorithms/speedups/_fill.pyx
+++ b/malstroem/algorithms/speedups/_fill.pyx
@@ -28,21 +28,22 @@ cimport cython
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILL, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are inclusive
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
 
     cdef DTYPE_t_FILL filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if(filled_value > dtm_value):
@@ -72,21 +73,22 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILLNOFLAT, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol, DTYPE_t_FILLNOFLAT short, DTYPE_t_FILLNOFLAT diag):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are inclusive
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
 
     cdef DTYPE_t_FILLNOFLAT filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if filled_value > dtm_value:
-- 
2.43.0


From ba6a2dc281dc0b6d1f943998ba0a451f98001550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 02/30] fix: flow accumulation never ends or fails at cells
 without flow direction

The native trace continued with an uninitialised cell offset, the pure
Python trace raised a TypeError.
---
 malstroem/algorithms/flow.py            | 3 +++
 malstroem/algorithms/speedups/_flow.pyx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 180788a..9904210 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -338,6 +338,9 @@ def trace_accumulated_flow(flowdir, accum, cell):
         accum[cell[0], cell[1]] = s + 1
         # Go to downstream cell
         direction = flowdir[cell[0], cell[1]]
+        if direction == FLOWDIR_NODIR:
+            # Cell does not flow anywhere. Stop here.
+            break
         cell = cell_in_direction(cell, direction)
 
 
diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 8281447..cf23c27 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -244,6 +244,9 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         accum[cell.r, cell.c] = s + 1
         # Go to downstream cell
         downstream_direction = flowdir[cell.r, cell.c]
+        if downstream_direction > 7:
+            # Cell doesnt flow anywhere. Stop here.
+            return
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-- 
2.43.0


From b9558a632f0c09ce4e891811ac1f20ead0a202c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 03/30] fix: DEMs not stored as 32-bit floats fail in filled,
 flowdir, pourpts and complete

The native code only takes 32-bit float terrain. Cast where the terrain
enters the fill algorithms, and subtract the cast terrain in depths so a
64-bit DEM does not get spurious depths.
---
 malstroem/algorithms/fill.py | 6 ++++--
 malstroem/scripts/dem.py     | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/malstroem/algorithms/fill.py b/malstroem/algorithms/fill.py
index 013f350..754ee82 100644
--- a/malstroem/algorithms/fill.py
+++ b/malstroem/algorithms/fill.py
@@ -14,7 +14,7 @@
 from __future__ import (absolute_import, division, print_function) #, unicode_literals)
 from builtins import *
 import numpy as np
-from .dtypes import DTYPE_FILL, DTYPE_FILLNOFLAT
+from .dtypes import DTYPE_DTM, DTYPE_FILL, DTYPE_FILLNOFLAT
 
 
 def _fill_terrain(dtm, filled, fromrow, torow, fromcol, tocol):
@@ -131,6 +131,7 @@ def fill_terrain(dtm):
         Depressionless DEM
 
     """
+    dtm = dtm.astype(DTYPE_DTM, casting='same_kind', copy=False)
     filled = _initialize_filled(dtm, DTYPE_FILL)
 
     # Without interior cells there is nothing to fill
@@ -196,6 +197,7 @@ def fill_terrain_no_flats(dtm, short=0, diag=0):
     -------
 
     """
+    dtm = dtm.astype(DTYPE_DTM, casting='same_kind', copy=False)
     filled = _initialize_filled(dtm, DTYPE_FILLNOFLAT)
 
     # Without interior cells there is nothing to fill
@@ -251,7 +253,7 @@ def minimum_safe_short_and_diag(dem):
     -------
 
     """
-    maxval = DTYPE_FILLNOFLAT(max(abs(np.amax(dem)), abs(np.amin(dem))))
+    maxval = max(abs(DTYPE_FILLNOFLAT(np.amax(dem))), abs(DTYPE_FILLNOFLAT(np.amin(dem))))
     nextval = np.nextafter(maxval, DTYPE_FILLNOFLAT(float('inf')))
     short = (nextval - maxval) * (1024 if DTYPE_FILLNOFLAT == np.float64 else 10)
     diag = short * (2**0.5)
diff --git a/malstroem/scripts/dem.py b/malstroem/scripts/dem.py
index c186b2e..114e96b 100644
--- a/malstroem/scripts/dem.py
+++ b/malstroem/scripts/dem.py
@@ -18,7 +18,7 @@ import click
 import click_log
 
 from malstroem import io
-from malstroem.algorithms import fill, flow
+from malstroem.algorithms import fill, flow, dtypes
 
 NODATASUBST = -999
 
@@ -49,7 +49,8 @@ def process_depths(dem, filled, out):
     filled_reader = io.RasterReader(filled, nodatasubst=NODATASUBST)
     depths_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    depths_data = filled_reader.read() - dem_reader.read()
+    dem_data = dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
+    depths_data = filled_reader.read() - dem_data
 
     depths_writer.write(depths_data)
 
-- 
2.43.0


From e3e4bd60f41ddbb8ba03793d3a18b7e65aec03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 04/30] fix: native label_data always skips label 0 instead of
 the background label

---
 malstroem/algorithms/speedups/_label.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 7936d49..1cf3dd4 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -193,12 +193,13 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(FloatArray() for i in range(max_label + 1))
     
+    background_lbl = background
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <FloatArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -215,12 +216,13 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
     
+    background_lbl = background
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -236,12 +238,13 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
     
+    background_lbl = background
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
-- 
2.43.0


From 2c1b5c464934a6e841790f4d4a3324df1ccf17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 05/30] fix: BluespotTool fails when no filter function is
 given

---
 malstroem/bluespots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index aa861be..d45455f 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -160,7 +160,8 @@ class BluespotTool(object):
         raw_bluespot_stats = label.label_stats(depths, raw_labeled)
         if not self.input_bluespot_filter_function:
             self.logger.info("Final number of bluespots (No filter specified): {}".format(raw_nlabels))
-            self.output_labeled_raster.write(raw_labeled)
+            labeled, nlabels, bluespot_stats = raw_labeled, raw_nlabels, raw_bluespot_stats
+            self.output_labeled_raster.write(labeled)
         else:
             self.logger.info("Number of bluespots found before filtering: {}".format(raw_nlabels))
             self.logger.info("Calculating filtered bluespots")
-- 
2.43.0


From 56d60882c506e64ff7aa3b3a0fbc9fdf5e3983e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 06/30] fix: capacity of bluespots removed by the filter is
 counted as capacity of ID 0

The documentation promises that bluespots not passing the filter are
ignored in all subsequent calculations.
---
 malstroem/bluespots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index d45455f..d53818e 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -73,11 +73,12 @@ def assemble_pourpoints(transform, pp_pix, bluespot_stats, watershed_stats):
     pour_points = []
     for ix, stats in enumerate(zip(pp_pix, bluespot_stats, watershed_stats)):
         p = dict(bspot_id=ix)
+        # ID 0 is not a bluespot. Depths there belong to bluespots removed by a filter and do not count as capacity.
         p['cell_row'] = int(stats[0]['row'])
         p['cell_col'] = int(stats[0]['col'])
-        p['bspot_dmax'] = float(stats[1]['max'])  # Bluespot max depth
+        p['bspot_dmax'] = float(stats[1]['max']) if ix else 0.0  # Bluespot max depth
         p['bspot_area'] = stats[1]['count'] * cell_area  # Bluespot area
-        p['bspot_vol'] = stats[1]['sum'] * cell_area  # Bluespot volume
+        p['bspot_vol'] = stats[1]['sum'] * cell_area if ix else 0.0  # Bluespot volume
         p['wshed_area'] = stats[2] * cell_area  # Local bluespot watershed area
         p['bspot_fumm'] = 1000 * p['bspot_vol'] / p['wshed_area']  # mm rain to fill bluespot with water from local wshed
 
-- 
2.43.0


From c04d48344b42d1e7bce6034d6c52a4c498e7297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 07/30] fix: nodata value 0 is not substituted and -999 wraps
 in unsigned rasters

---
 malstroem/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 91b193b..0fa77bf 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -75,8 +75,12 @@ class RasterReader(object):
         ndarray
         """
         data = self._bnd.ReadAsArray()
-        if self.nodata and self.nodatasubst is not None:
+        if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            subst_type = np.min_scalar_type(self.nodatasubst)
+            if not np.can_cast(subst_type, data.dtype):
+                # Substitute does not fit in the raster data type (eg. a negative number in an unsigned raster)
+                data = data.astype(np.promote_types(subst_type, data.dtype))
             data[mask] = self.nodatasubst
         return data
 
-- 
2.43.0


From 912f9bacb10152bc0c8342ba316f733d028e54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 08/30] fix: hypsometry histograms drop cells below zero or
 outside rounded bounds

---
 malstroem/hyps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 352b666..7188b83 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -88,10 +88,16 @@ def cumulative_volume(h : Histogram, cell_area : float):
 
 def histogram_bins(zmin, zmax, resolution):
     scale = 1 / resolution
-    min_scaled = int(zmin * scale)
-    max_scaled = int(zmax * scale)
+    # Round down. Also for negative elevations
+    min_scaled = int(np.floor(zmin * scale))
+    max_scaled = int(np.floor(zmax * scale))
+    # Bounds must enclose all values despite rounding errors
+    if min_scaled * resolution > zmin:
+        min_scaled -= 1
     num_bins = max_scaled - min_scaled + 1
     lower_bound = min_scaled * resolution
+    if lower_bound + num_bins * resolution < zmax:
+        num_bins += 1
     upper_bound = lower_bound + num_bins * resolution
     bins = HistogramBinsInfo(num_bins, lower_bound, upper_bound, resolution)
     return bins
-- 
2.43.0


From b7ebd713ecdb23c5a4ae57983db157ce45591d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 09/30] fix: water level of partially filled bluespots is
 interpolated towards the highest terrain

The full volume belongs to the full water level, which is above the
highest terrain cell of the bluespot. Bluespots with steep walls or a
flat bottom came out almost empty until they were full.
---
 malstroem/approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 98ff03b..4d17a9f 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -60,9 +60,9 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
             cum_vol = _cumulative_volume(h["hyps"].zhistogram, h["cell_area"])
             # Z value of centre of each histogram bin
             binsz = _bin_waterlevel_z(h["hyps"].zhistogram.bins)
-            # Replace bounds with acutal values. Zero volume at zmin and max_volume at zmax
+            # Replace bounds with acutal values. Zero volume at zmin and max_volume at the full water level
             volumes = np.concatenate(([0.0], cum_vol[1:-1], [max_vol]))
-            z = np.concatenate(([zmin], binsz[1:-1], [zmax])) 
+            z = np.concatenate(([zmin], binsz[1:-1], [zmin + h["max_depth"]]))
             # Now interpolate for final_vol
             water_level = np.interp([final_vol], volumes, z)[0]
         assert water_level is not None, "Water level calculation failed"
-- 
2.43.0


From ab28f53266091acbc5a19930fd06b7f98289ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 10/30] fix: stream network depends on the row order of the
 pour points layer

---
 malstroem/streams.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/malstroem/streams.py b/malstroem/streams.py
index 885c80c..6500cde 100644
--- a/malstroem/streams.py
+++ b/malstroem/streams.py
@@ -65,13 +65,11 @@ class StreamTool(object):
         labeled_bluespots = self.input_bluespots.read()
         pourpoints = self.input_pourpoints.read_geojson_features()
 
-        pourpoints_pix = [(pp['properties']['cell_row'], pp['properties']['cell_col']) for pp in pourpoints]
-
         self.logger.info("Processing stream network")
         if self.output_streams is not None:
-            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
         else:
-            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
 
         self.logger.info("Writing {} nodes".format(len(nodes)))
         pp_index = {pp['properties']['bspot_id']: pp for pp in pourpoints}
-- 
2.43.0


From 3bf0c43afd435c645bdb559a95c566cf8c4ed8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 11/30] fix: RecursionError in networks where many streams
 merge one after the other

---
 malstroem/algorithms/net.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/malstroem/algorithms/net.py b/malstroem/algorithms/net.py
index 4d688da..549635a 100644
--- a/malstroem/algorithms/net.py
+++ b/malstroem/algorithms/net.py
@@ -126,14 +126,18 @@ def _untangle(nodes, next_available_label):
     -------
 
     """
-    for group in _split_into_common_flow_groups(nodes, 2):
-        if len(group) > 1:
+    # Depth first. Not recursive as a stream may have any number of other streams merging into it
+    stack = [iter(_split_into_common_flow_groups(nodes, 2))]
+    while stack:
+        group = next(stack[-1], None)
+        if group is None:
+            stack.pop()
+        elif len(group) > 1:
             # Group of nodes with common flow
             untangled_nodes, new_node = _prune_common_flow(group, next_available_label)
             next_available_label = next_available_label + 1
             yield new_node, next_available_label
-            for n, next_available_label in _untangle(untangled_nodes, next_available_label):
-                yield n, next_available_label
+            stack.append(iter(_split_into_common_flow_groups(untangled_nodes, 2)))
         else:
             # This node doesnt have common flow with other nodes
             yield group[0], next_available_label
-- 
2.43.0


From f96c8e4b422b4244ee8160fcc0b9ef86f3e57ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 12/30] fix: complete reports success when it refuses a used
 output directory

---
 malstroem/scripts/complete.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/malstroem/scripts/complete.py b/malstroem/scripts/complete.py
index 4a2538a..4112dff 100644
--- a/malstroem/scripts/complete.py
+++ b/malstroem/scripts/complete.py
@@ -45,8 +45,7 @@ def process_all(dem, outdir, accum, filter, mm, zresolution, vector):
     """
     # Check that outdir exists and is empty
     if not os.path.isdir(outdir) or not os.path.exists(outdir) or os.listdir(outdir):
-        logger.error("outdir isn't an empty directory")
-        return 1
+        raise click.ClickException("outdir isn't an empty directory")
 
     outvector = os.path.join(outdir, 'malstroem.gpkg')
     ogr_drv = 'gpkg'
-- 
2.43.0


From c1f06ffa0ba63f0b9c2be673fd0ed24139143370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 13/30] fix: dsco and lco options cannot be given and are
 ignored by hyps

---
 malstroem/scripts/bluespot.py   | 8 ++++----
 malstroem/scripts/finalstate.py | 8 ++++----
 malstroem/scripts/hyps.py       | 6 +++---
 malstroem/scripts/initvolume.py | 4 ++--
 malstroem/scripts/stream.py     | 4 ++--
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 861feae..4668856 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -94,8 +94,8 @@ def process_wsheds(bluespots, flowdir, out):
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='pourpoints', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, layername, dsco, lco):
     """Determine pour points.
 
@@ -149,8 +149,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='polygonized', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_polys(raster, out, format, layername, dsco, lco):
     """Polygonize ID raster.
 
diff --git a/malstroem/scripts/finalstate.py b/malstroem/scripts/finalstate.py
index cfd639e..0fe21ab 100644
--- a/malstroem/scripts/finalstate.py
+++ b/malstroem/scripts/finalstate.py
@@ -33,8 +33,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_layer', default='finalvolumes', show_default=True, help='Layer name of output final state volumes layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, format, dsco, lco):
     """Bluespot fill and stream network volumes in the final state of an event.
@@ -69,8 +69,8 @@ def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, for
 @click.option('-out', required=True, help='Output OGR datasource (output is nongeometric)')
 @click.option('-out_layer', default='finallevels', show_default=True, help='Layer name of output final state bluespot water level info')
 @click.option('-format', type=str, default='geojson', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_finallevels(finalvols, finalvols_layer, hyps, hyps_layer, out, out_layer, format, dsco, lco):
     """Approximate water levels of bluespots in the final state.
diff --git a/malstroem/scripts/hyps.py b/malstroem/scripts/hyps.py
index 5050d2a..4b4946d 100644
--- a/malstroem/scripts/hyps.py
+++ b/malstroem/scripts/hyps.py
@@ -27,8 +27,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_hyps_layer', default='hyps', show_default=True, help='Layer name of output hypsometry layer')
 @click.option('-format', type=str, default='CSV', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution, out, out_hyps_layer, format, dsco, lco):
     """Statistical terrain elevation measures for each bluespot.
@@ -48,6 +48,6 @@ def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
 
     ogr_format = str(format)
-    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs)
+    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs, dsco, lco)
 
     hyps.bluespot_hypsometry_io(labeled_reader, dem_reader, pourpoints_reader, zresolution, hyps_writer)
\ No newline at end of file
diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index 99b2134..c47e2e5 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -42,8 +42,8 @@ logger = logging.getLogger(__name__)
 @click.option('-out_layer', default='initvolumes', show_default=True, help='Calculated model input volumes in [m3]')
 @click.option('-out_attribute', default='inputv', show_default=True, help='Name of output attribute')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_layer, out_attribute, format, dsco, lco):
     """Set up initial water volumes for each watershed.
diff --git a/malstroem/scripts/stream.py b/malstroem/scripts/stream.py
index ac5cc7c..a4ae8a5 100644
--- a/malstroem/scripts/stream.py
+++ b/malstroem/scripts/stream.py
@@ -35,8 +35,8 @@ from malstroem import io, streams
 @click.option('-out_nodes_layer', default='nodes', show_default=True, help='Layer name of output nodes layer')
 @click.option('-out_streams_layer', default='streams',show_default=True, help='Layer name of output streams layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_network(bluespots, flowdir, pourpoints, pourpoints_layer, out, out_nodes_layer, out_streams_layer, format, dsco, lco):
     """Calculate stream network between bluespots.
-- 
2.43.0


From 88f60c2c0e69af296846ed47949a6be99402e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 14/30] fix: initvolumes refuses a rain event of 0 mm

---
 malstroem/scripts/initvolume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index c47e2e5..fe7951c 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -58,9 +58,9 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     For documentation of OGR features (format, dsco and lco) see http://www.gdal.org/ogr_formats.html
     """
     # Validate one and only one
-    if mm and pr:
+    if mm is not None and pr:
         raise click.UsageError("-mm and -pr are mutually exclusive")
-    if not mm and not pr:
+    if mm is None and not pr:
         raise click.UsageError("One of -mm and -pr must be specified")
 
     nodes_layer = nodes_layer
@@ -71,7 +71,7 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     nodes_reader = io.VectorReader(nodes, nodes_layer)
     volumes_writer = io.VectorWriter(format, out, out_layer, None, ogr.wkbPoint, nodes_reader.crs, dsco, lco) 
 
-    if mm:
+    if mm is not None:
         logger.info(f"Processing initial volumes using evenly distributed rain event of {mm}mm")
         rain_tool = raintool.SimpleVolumeTool(nodes_reader, volumes_writer, out_attribute, mm)
         rain_tool.process()
-- 
2.43.0


From f75e5ad8652dbc75714d67bb839b29222a223afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 15/30] fix: nodata cells of the water raster are added as
 water in initvolumes

---
 malstroem/scripts/initvolume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index fe7951c..b8fa9e8 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -79,7 +79,7 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
         if not bluespots:
             raise click.UsageError("Mising -bluespots")
         logger.info(f"Processing initial volumes using [{pr_unit}] raster input from {pr}")
-        precip_reader = io.RasterReader(pr)
+        precip_reader = io.RasterReader(pr, nodatasubst=0)
         bspotlabels_reader = io.RasterReader(bluespots)
         tool = raintool.RasterVolumeTool(nodes_reader, bspotlabels_reader, precip_reader, pr_unit, volumes_writer, out_attribute)
         tool.process()
-- 
2.43.0


From f48d7d929c399bdb4afa8dc1c78bd7fd9a92d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 16/30] fix: rasters in non-native byte order lose precision
 when written

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 0fa77bf..f63a3e0 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -173,7 +173,7 @@ class RasterWriter(object):
                 elif min_val >= -2147483648 and max_val <= 2147483647:
                     return self.write(data.astype("int32"))
             else:
-                if min_val >= -3.4028235e+38 and max_val <= 3.4028235e+38:
+                if np.can_cast(data.dtype, np.float32):
                     return self.write(data.astype("float32"))
                 return self.write(data.astype("float64"))
         if not gdal_datatype:
-- 
2.43.0


From 03d5a921693d1cb8a0d94ad3b1d06d36d4d5df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 17/30] fix: writing an empty vector layer fails in formats
 with transactions

complete -vector crashed on terrain without bluespots.
---
 malstroem/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index f63a3e0..faecbae 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -347,7 +347,9 @@ class VectorWriter(object):
             raise Exception('Error while writing to layer {}'.format(self.layername))
 
     def close(self):
-        self._lyr.CommitTransaction()
+        # The transaction is started with the first feature
+        if self.fieldsinitialized:
+            self._lyr.CommitTransaction()
         self._lyr = None
         self._ds = None
 
-- 
2.43.0


From 7c860c926e930d3a77be9723d0e37b58c0bf1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 18/30] fix: errors when the last part of a vector output is
 written are ignored

---
 malstroem/io.py     | 3 +++
 malstroem/vector.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index faecbae..2735360 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -351,6 +351,9 @@ class VectorWriter(object):
         if self.fieldsinitialized:
             self._lyr.CommitTransaction()
         self._lyr = None
+        # Write now. Errors are ignored if they are first met when the datasource is garbage collected
+        if self._ds is not None and self._ds.SyncToDisk() != 0:
+            raise Exception('Error while writing to layer {}'.format(self.layername))
         self._ds = None
 
 
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 333abf6..a2d45c9 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -120,6 +120,11 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
         progress_callback = gdal.TermProgress_nocb
     result = gdal.Polygonize(src_band, src_band.GetMaskBand(), dst_layer, 0, options, callback=progress_callback)
 
+    # Write now. Errors are ignored if they are first met when the datasource is garbage collected
+    dst_layer = None
+    if result != 0 or dst_ds.SyncToDisk() != 0:
+        raise Exception('Error while writing to layer {}'.format(out_layer))
+
     src_band = None
     src_ds = None
     dst_ds = None
\ No newline at end of file
-- 
2.43.0


From 3a72ebf48fd37ccd9438679511b14c274c23b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 19/30] fix: pourpts uses the nodata cells of the DEM as
 elevations

---
 malstroem/scripts/bluespot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 4668856..6795f85 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -28,6 +28,8 @@ from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill
 from osgeo import ogr
 
+NODATASUBST = -999
+
 @click.command('bspots')
 @click.option('-depths', required=True, type=click.Path(exists=True), help='Depths file')
 @click.option('-out', required=True, type=click.Path(exists=False), help='Output file (bluespots)')
@@ -115,7 +117,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
-    data_reader = io.RasterReader(data)
+    # Accumulated flow has no nodata cells
+    data_reader = io.RasterReader(data, nodatasubst=None if accum else NODATASUBST)
 
     format = str(format)
     layername = str(layername)
-- 
2.43.0


From 9b1e792bd593b8fd6a6dd751afc3dfc84736ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 20/30] fix: terrain below -999 outside bluespots gets a water
 depth

---
 malstroem/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 4d17a9f..6b6a916 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -166,7 +166,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
 
 
 
-def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=-999.0):
+def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=float('-inf')):
     max_label = max([x for x in labelvaluedict.keys()])
     l = []
     for ix in range(max_label + 1):
-- 
2.43.0


From b86f16142c9007f9425377c3944b7b2b07db14d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 21/30] fix: filter check accepts words made of parts of
 allowed words

---
 malstroem/scripts/_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/scripts/_utils.py b/malstroem/scripts/_utils.py
index c4841d4..62d1753 100644
--- a/malstroem/scripts/_utils.py
+++ b/malstroem/scripts/_utils.py
@@ -17,10 +17,10 @@ def check_filter(filter):
     # TODO: Stupid check mechanism. Could be done better
     allowed_words = ['area', 'maxdepth', 'volume', 'and', 'or']
     allowedchars = '<>=!0123456789.()'
-    for w in allowed_words:
-        filter = filter.replace(w, '')
     for c in allowedchars:
-        filter = filter.replace(c, '')
+        filter = filter.replace(c, ' ')
+    # Whole words only. Otherwise words can be hidden in other words
+    filter = ' '.join([w for w in filter.split() if w not in allowed_words])
     filter = filter.strip()
     if filter:
         raise Exception('Unsupported filter statement. Illegal parts: {}'.format(filter))
-- 
2.43.0


From b0c13510d616f3b880e0146dc5648b99171e9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 22/30] fix: water level of an empty bluespot is above its
 lowest terrain

---
 malstroem/approx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 6b6a916..57ba98a 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -63,6 +63,8 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
             # Replace bounds with acutal values. Zero volume at zmin and max_volume at the full water level
             volumes = np.concatenate(([0.0], cum_vol[1:-1], [max_vol]))
             z = np.concatenate(([zmin], binsz[1:-1], [zmin + h["max_depth"]]))
+            # The lowest bins can be without volume. An empty bluespot is at zmin.
+            z[volumes <= 0] = zmin
             # Now interpolate for final_vol
             water_level = np.interp([final_vol], volumes, z)[0]
         assert water_level is not None, "Water level calculation failed"
-- 
2.43.0


From 92d826c52c1a218e7c8a41574f9f5923293f2cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 23/30] fix: polys deletes an existing data source in which OGR
 lists no layers

---
 malstroem/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/vector.py b/malstroem/vector.py
index a2d45c9..07d488a 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -100,7 +100,7 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     except:
         dst_ds = None
     
-    if not dst_ds:
+    if dst_ds is None:
         dst_drv = ogr.GetDriverByName(out_format)
         dst_ds = dst_drv.CreateDataSource(out_ds, options = out_dsco)
 
-- 
2.43.0


From 46e9872524a923863a4b509a30406c40880c6b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 24/30] fix: keep_labels changes the list of labels given by
 the caller

---
 malstroem/algorithms/label.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/label.py b/malstroem/algorithms/label.py
index 0496ad8..b92c649 100644
--- a/malstroem/algorithms/label.py
+++ b/malstroem/algorithms/label.py
@@ -91,10 +91,10 @@ def keep_labels(labelled, keep_label, background=0):
     new_components : ndarray
         A boolean array of same dimensions as labelled where True indicates a kept label
     """
-    # Make sure background label is NOT kept
-    keep_label[background] = False
-
     keep_array = np.array(keep_label).astype(bool)
+
+    # Make sure background label is NOT kept
+    keep_array[background] = False
     return keep_array[labelled]
 
 
-- 
2.43.0


From 0b962137a50d675fa63761ab854d8302f4cb47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 25/30] fix: rasters of which the end could not be written are
 reported as written

---
 malstroem/io.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index 2735360..9155468 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -195,8 +195,18 @@ class RasterWriter(object):
             outbnd.SetNoDataValue(self.nodata)
         outbnd.WriteArray(data, 0, 0)
         outds.FlushCache()
+        outbnd = None
         outds = None
 
+        # GDAL ignores errors (eg. disk full) met when it writes its last buffer. Make sure that the file holds the data
+        checkds = gdal.Open(self.filepath)
+        for row in range(0, data.shape[0], 256):
+            rows = data[row:row + 256]
+            written = checkds.ReadAsArray(0, row, data.shape[1], rows.shape[0])
+            if not np.array_equal(written, rows, equal_nan=True):
+                raise Exception('Error while writing raster {}'.format(self.filepath))
+        checkds = None
+
 
 class VectorWriter(object):
     """Writes vector data to OGR datasource
-- 
2.43.0


From ffcbaf4c02accede35b2eeb1bcbfafdd97b81c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 26/30] fix: filters with bit shifts, calls or attributes pass
 the check and fail half way

---
 malstroem/scripts/_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malstroem/scripts/_utils.py b/malstroem/scripts/_utils.py
index 62d1753..c743555 100644
--- a/malstroem/scripts/_utils.py
+++ b/malstroem/scripts/_utils.py
@@ -11,12 +11,14 @@
 # You should have received a copy of the GNU General Public License along with this program. If not,
 # see http://www.gnu.org/licenses/.
 # -------------------------------------------------------------------------------------------------
+import ast
 
 
 def check_filter(filter):
     # TODO: Stupid check mechanism. Could be done better
     allowed_words = ['area', 'maxdepth', 'volume', 'and', 'or']
     allowedchars = '<>=!0123456789.()'
+    statement = filter
     for c in allowedchars:
         filter = filter.replace(c, ' ')
     # Whole words only. Otherwise words can be hidden in other words
@@ -24,6 +26,11 @@ def check_filter(filter):
     filter = filter.strip()
     if filter:
         raise Exception('Unsupported filter statement. Illegal parts: {}'.format(filter))
+    # Legal words and characters can still form a bit shift, a call, an attribute, an empty tuple or an ellipsis
+    denied_nodes = (ast.BinOp, ast.Call, ast.Attribute, ast.Tuple)
+    nodes = ast.walk(ast.parse(statement.strip(), mode='eval'))
+    if '...' in statement or any(isinstance(n, denied_nodes) for n in nodes):
+        raise Exception('Unsupported filter statement: {}'.format(statement))
 
 
 def parse_filter(filter):
-- 
2.43.0


From 3d364babbeb67056bd2006c570861ca75d0ed630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 27/30] fix: cells of rotated rasters have the wrong area, or
 none at all

---
 malstroem/bluespots.py        | 9 +++++----
 malstroem/dem.py              | 5 ++++-
 malstroem/io.py               | 3 ++-
 malstroem/rain.py             | 5 +++--
 malstroem/scripts/bluespot.py | 5 +++--
 5 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index d53818e..4b939e1 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -18,6 +18,7 @@ from .vector import transform_cell_to_world, vectorize_labels_file
 from .algorithms import label, flow, fill, speedups
 import numpy as np
 import logging
+import math
 
 
 def filterbluespots(filterfunction, cell_area, raw_bluespot_stats):
@@ -66,8 +67,8 @@ def assemble_pourpoints(transform, pp_pix, bluespot_stats, watershed_stats):
     list
 
     """
-    cell_width = abs(transform[1])
-    cell_height = abs(transform[5])
+    cell_width = math.hypot(transform[1], transform[4])
+    cell_height = math.hypot(transform[2], transform[5])
     cell_area = cell_width * cell_height
 
     pour_points = []
@@ -145,8 +146,8 @@ class BluespotTool(object):
 
         """
         transform = self.input_depths.transform
-        cell_width = abs(transform[1])
-        cell_height = abs(transform[5])
+        cell_width = math.hypot(transform[1], transform[4])
+        cell_height = math.hypot(transform[2], transform[5])
         cell_area = cell_width * cell_height
 
         # Input cells must be square
diff --git a/malstroem/dem.py b/malstroem/dem.py
index 6b751c6..3f44e69 100644
--- a/malstroem/dem.py
+++ b/malstroem/dem.py
@@ -18,6 +18,7 @@ from builtins import *
 from malstroem.algorithms import fill
 from .algorithms import speedups, flow, dtypes
 import logging
+import math
 
 
 class DemTool(object):
@@ -57,7 +58,9 @@ class DemTool(object):
         transform = self.input_dem.transform
 
         # Input cells must be square
-        assert abs(abs(transform[1]) - abs(transform[5])) < 0.01 * abs(transform[1]), "Input cells must be square"
+        cell_width = math.hypot(transform[1], transform[4])
+        cell_height = math.hypot(transform[2], transform[5])
+        assert abs(cell_width - cell_height) < 0.01 * cell_width, "Input cells must be square"
 
         if not speedups.enabled:
             self.logger.warning('Warning: Speedups are not available. If you have more than toy data you want them to be!')
diff --git a/malstroem/io.py b/malstroem/io.py
index 9155468..6950793 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -18,6 +18,7 @@ from pathlib import Path
 from osgeo import gdal, ogr, osr
 import numpy as np
 import json
+import math
 
 gdal.UseExceptions()
 
@@ -65,7 +66,7 @@ class RasterReader(object):
         self.nodata = self._bnd.GetNoDataValue()
         self.nodatasubst = nodatasubst
         self.shape = self._ds.RasterYSize, self._ds.RasterXSize
-        self.resolution = (abs(self.transform[5]),abs(self.transform[1]))
+        self.resolution = (math.hypot(self.transform[2], self.transform[5]), math.hypot(self.transform[1], self.transform[4]))
 
     def read(self):
         """Read raster into 2D numpy array
diff --git a/malstroem/rain.py b/malstroem/rain.py
index 0be3904..d9f0ac2 100644
--- a/malstroem/rain.py
+++ b/malstroem/rain.py
@@ -18,6 +18,7 @@ from builtins import *
 from .network import Network
 from .algorithms import label
 import logging
+import math
 
 
 class SimpleVolumeTool(object):
@@ -131,8 +132,8 @@ class RasterVolumeTool(object):
         
         # Input rasters
         transform = self.bluespotids.transform
-        cell_width = abs(transform[1])
-        cell_height = abs(transform[5])
+        cell_width = math.hypot(transform[1], transform[4])
+        cell_height = math.hypot(transform[2], transform[5])
         cell_area = cell_width * cell_height
         bluespot_labels_raster = self.bluespotids.read()
         water_raster = self.precipraster.read()
diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 6795f85..c722b53 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -18,6 +18,7 @@ from builtins import (ascii, bytes, chr, dict, filter, hex, input,
 
 # unicode_literals and str left out as they do not play well with click.
 
+import math
 import click
 import click_log
 
@@ -48,8 +49,8 @@ def process_bspots(depths, out, filter):
     filter_function = parse_filter(filter)
 
     transform = depths_reader.transform
-    cell_width = abs(transform[1])
-    cell_height = abs(transform[5])
+    cell_width = math.hypot(transform[1], transform[4])
+    cell_height = math.hypot(transform[2], transform[5])
     cell_area = cell_width * cell_height
 
     depths_data = depths_reader.read()
-- 
2.43.0


From b772b126b0f77f3ba305ba6935d69c5840a5f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 28/30] fix: label statistics and watersheds refuse arrays of
 different shapes

The compiled versions read and wrote outside of the smaller array, which
crashed or gave arbitrary results.
---
 malstroem/algorithms/flow.py             |  3 +++
 malstroem/algorithms/label.py            |  9 +++++++++
 malstroem/algorithms/speedups/_label.pyx | 10 ++++++++++
 3 files changed, 22 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 9904210..3a8c7aa 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -411,5 +411,8 @@ def watersheds_from_labels(flowdir, labelled, unassigned):
     -------
 
     """
+    if flowdir.shape != labelled.shape:
+        raise ValueError("Flow directions and labels must have the same shape: {} vs {}".format(flowdir.shape, labelled.shape))
+
     for cell in edge_cell_indexes(flowdir.shape):
         assign_watersheds_upstream(flowdir, labelled, cell, unassigned)
diff --git a/malstroem/algorithms/label.py b/malstroem/algorithms/label.py
index b92c649..cff16b0 100644
--- a/malstroem/algorithms/label.py
+++ b/malstroem/algorithms/label.py
@@ -16,6 +16,11 @@ from builtins import *
 import numpy as np
 
 
+def _check_same_shape(data, labelled):
+    if data.shape != labelled.shape:
+        raise ValueError("Data and labels must have the same shape: {} vs {}".format(data.shape, labelled.shape))
+
+
 def connected_components(data):
     """Label connected components in data.
 
@@ -53,6 +58,7 @@ def label_stats(data, labelled, nlabels=None):
     -------
 
     """
+    _check_same_shape(data, labelled)
     if not nlabels:
         nlabels = np.max(labelled)
 
@@ -112,6 +118,7 @@ def label_min_index(data, labelled, nlabels=None):
 
     """
     # TODO: Use labeled_comprehension from scipy instead?
+    _check_same_shape(data, labelled)
     if not nlabels:
         nlabels = np.max(labelled)
 
@@ -146,6 +153,7 @@ def label_max_index(data, labelled, nlabels=None):
 
     """
     # TODO: Use labeled_comprehension from scipy instead?
+    _check_same_shape(data, labelled)
     if not nlabels:
         nlabels = np.max(labelled)
 
@@ -200,6 +208,7 @@ def label_data(data, labelled, nlabels=None, background=0):
         data_per_label: list of lists
             A list (length = nlabels) of lists which holds the data values. The data for label n are found at data_per_label[n]
     """
+    _check_same_shape(data, labelled)
     if not nlabels:
         nlabels = np.max(labelled)
     
diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 1cf3dd4..cbf8125 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -30,6 +30,9 @@ cdef packed struct index_record:
 
 
 def label_stats(data, labelled, nlabels=None):
+    # The compiled loops do not check bounds
+    if data.shape != labelled.shape:
+        raise ValueError("Data and labels must have the same shape: {} vs {}".format(data.shape, labelled.shape))
     if data.dtype == np.float32 and labelled.dtype == np.int32:
         return label_stats_float32_int32_cython(data, labelled, nlabels)
     return label_stats_fallback_cython(data, labelled, nlabels)
@@ -160,6 +163,9 @@ cdef label_min_index_fallback_cython(data, labelled, nlabels=None):
     return lmin
 
 def label_min_index(data, labelled, nlabels=None):
+    # The compiled loops do not check bounds
+    if data.shape != labelled.shape:
+        raise ValueError("Data and labels must have the same shape: {} vs {}".format(data.shape, labelled.shape))
     if data.dtype == np.float64 and labelled.dtype == np.int32:
         return label_min_index_float64_int32_cython(data, labelled, nlabels)
     return label_min_index_fallback_cython(data, labelled, nlabels)
@@ -169,6 +175,10 @@ def label_data(data, labelled, nlabels=None, background=0):
     if not np.can_cast(background, np.int32, "safe"):
         raise TypeError("background must be integer")
 
+    # The compiled loops do not check bounds
+    if data.shape != labelled.shape:
+        raise ValueError("Data and labels must have the same shape: {} vs {}".format(data.shape, labelled.shape))
+
     if nlabels is None:
         nlabels = np.max(labelled)
     elif not np.can_cast(nlabels, np.int32, "safe"):
-- 
2.43.0


From 2c0a96d2b3bb51889cb4a046b96fd9d30401dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 29/30] fix: depths, pourpts, network and finalbluespots refuse
 rasters of different dimensions

They silently combined rasters which do not belong together, as hyps and
initvolumes already refuse to.
---
 malstroem/approx.py           | 2 ++
 malstroem/scripts/bluespot.py | 4 +++-
 malstroem/scripts/dem.py      | 4 +++-
 malstroem/streams.py          | 1 +
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 57ba98a..177d6bd 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -103,6 +103,7 @@ def approx_bluespots_io(
 
     logger.info("Reading DEM")
     dem = dem_reader.read()
+    assert dem.shape == maxextent_waterlevel.shape, "Dimension mismatch between dem and bluespots rasters"
 
     logger.info("Calculating depths")
     # subtract dem to get depths (we get negative depths where bluespot water level is below ground)
@@ -152,6 +153,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
     # Make raster with bluespot labels replaced by their water level Z 
     # This raster may have cells where water level z is below terrain z
     maxextent_waterlevel = set_label_to_value(bluespot_labels, value_list)
+    assert dem.shape == maxextent_waterlevel.shape, "Dimension mismatch between dem and bluespots rasters"
 
     # subtract dem to get depths (we get negative depths where bluespot water level is below ground)
     depths = maxextent_waterlevel - dem
diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index c722b53..e824e0d 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -141,7 +141,9 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
         pp_pix = label.label_min_index(filled_no_flats, labeled_data)
         del dem_data
 
-    watershed_stats = label.label_count(wsheds_reader.read())
+    watersheds_data = wsheds_reader.read()
+    assert watersheds_data.shape == labeled_data.shape, "Dimension mismatch between bluespots and watersheds rasters"
+    watershed_stats = label.label_count(watersheds_data)
     pour_points = assemble_pourpoints(depths_reader.transform, pp_pix, bluespot_stats, watershed_stats)
 
     feature_collection = dict(type="FeatureCollection", features=pour_points)
diff --git a/malstroem/scripts/dem.py b/malstroem/scripts/dem.py
index 114e96b..8128dc6 100644
--- a/malstroem/scripts/dem.py
+++ b/malstroem/scripts/dem.py
@@ -50,7 +50,9 @@ def process_depths(dem, filled, out):
     depths_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
     dem_data = dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
-    depths_data = filled_reader.read() - dem_data
+    filled_data = filled_reader.read()
+    assert filled_data.shape == dem_data.shape, "Dimension mismatch between dem and filled rasters"
+    depths_data = filled_data - dem_data
 
     depths_writer.write(depths_data)
 
diff --git a/malstroem/streams.py b/malstroem/streams.py
index 6500cde..33004c6 100644
--- a/malstroem/streams.py
+++ b/malstroem/streams.py
@@ -63,6 +63,7 @@ class StreamTool(object):
         cell_area = cell_width * cell_height
         flowdir = self.input_flowdir.read()
         labeled_bluespots = self.input_bluespots.read()
+        assert labeled_bluespots.shape == flowdir.shape, "Dimension mismatch between bluespots and flow directions rasters"
         pourpoints = self.input_pourpoints.read_geojson_features()
 
         self.logger.info("Processing stream network")
-- 
2.43.0


From 53b9e4c86e78cdff054edac988419196e5f30343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:00 +0000
Subject: [PATCH 30/30] fix: an existing data source which cannot be opened for
 writing is not deleted

Any failure to open it for update, an interrupt included, made the driver
create it anew, which silently deleted the layers it held.
---
 malstroem/io.py     | 22 +++++++++++++++++++++-
 malstroem/vector.py |  5 ++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 6950793..e774fd3 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -19,9 +19,28 @@ from osgeo import gdal, ogr, osr
 import numpy as np
 import json
 import math
+import os
 
 gdal.UseExceptions()
 
+
+def check_can_create_datasource(datasource, layername):
+    """Check that nothing is lost when a data source is created
+
+    The drivers delete a file they are asked to create. A file which cannot be opened for update can only be replaced
+    if it holds nothing but the layer which is about to be written.
+
+    """
+    if not os.path.isfile(datasource) or os.path.getsize(datasource) == 0:
+        return
+    try:
+        ds = ogr.Open(datasource, update=0)
+    except Exception:
+        ds = None
+    if ds is None or any(ds.GetLayer(ix).GetName() != layername for ix in range(ds.GetLayerCount())):
+        raise Exception("Cannot open existing datasource for writing: {}".format(datasource))
+
+
 class RasterReader(object):
     """Read a GDAL supported raster into a 2D numpy array
 
@@ -282,10 +301,11 @@ class VectorWriter(object):
             gdal.PushErrorHandler('CPLQuietErrorHandler')
             self._ds = ogr.Open(self.datasource, update=1)
             gdal.PopErrorHandler()
-        except:
+        except Exception:
             self._ds = None
 
         if self._ds is None:
+            check_can_create_datasource(self.datasource, self.layername)
             self._ds = drv.CreateDataSource(self.datasource, options=self.dsco)
         if self._ds is None:
             raise Exception("Cannot open or create datasource: {} for writing of {}".format(self.datasource, self.layername))
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 07d488a..0e585dc 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -17,6 +17,8 @@ from builtins import *
 import json
 from osgeo import gdal, ogr
 
+from malstroem import io
+
 
 def transform_cell_to_world(cell, geotransform):
     """Transform cell coordinate to world coordinate.
@@ -97,10 +99,11 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
         gdal.PushErrorHandler('CPLQuietErrorHandler')
         dst_ds = ogr.Open(out_ds, update=1)
         gdal.PopErrorHandler()
-    except:
+    except Exception:
         dst_ds = None
     
     if dst_ds is None:
+        io.check_can_create_datasource(out_ds, out_layer)
         dst_drv = ogr.GetDriverByName(out_format)
         dst_ds = dst_drv.CreateDataSource(out_ds, options = out_dsco)
 
-- 
2.43.0

