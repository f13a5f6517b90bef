From 6d431b87ccc0580f3a09bcdbc7d9c4775d70e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 01/68] fix: Cell.get_texttypes failed on cells with references
 (misspelled call)

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad0b83a..658699a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -518,7 +518,7 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_textypes())
+            texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From bfeace875d6e793d743e3ba0a07d0642351b28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 02/68] fix: get_layers, get_datatypes and get_texttypes failed
 on unresolved references

---
 gdspy/library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 658699a..070bc96 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -486,7 +486,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             layers.update(element.layers)
         for reference in self.references:
-            layers.update(reference.ref_cell.get_layers())
+            if isinstance(reference.ref_cell, Cell):
+                layers.update(reference.ref_cell.get_layers())
         for label in self.labels:
             layers.add(label.layer)
         return layers
@@ -504,7 +505,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             datatypes.update(element.datatypes)
         for reference in self.references:
-            datatypes.update(reference.ref_cell.get_datatypes())
+            if isinstance(reference.ref_cell, Cell):
+                datatypes.update(reference.ref_cell.get_datatypes())
         return datatypes
 
     def get_texttypes(self):
@@ -518,7 +520,8 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_texttypes())
+            if isinstance(reference.ref_cell, Cell):
+                texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 75a04c70f81dffb531de74208b340165b0caacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 03/68] fix: get_labels(set_transform=True) reflected labels of
 references without reflection

---
 gdspy/library.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 070bc96..f91b7af 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1487,8 +1487,10 @@ class CellReference(object):
                         lbl.magnification *= self.magnification
                     else:
                         lbl.magnification = self.magnification
-                if self.x_reflection is not None:
+                if self.x_reflection:
                     lbl.x_reflection = not lbl.x_reflection
+                    if lbl.rotation is not None:
+                        lbl.rotation = -lbl.rotation
                 if self.rotation is not None:
                     if lbl.rotation is not None:
                         lbl.rotation += self.rotation
@@ -2120,8 +2122,10 @@ class CellArray(object):
                                 lbl.magnification *= self.magnification
                             else:
                                 lbl.magnification = self.magnification
-                        if self.x_reflection is not None:
+                        if self.x_reflection:
                             lbl.x_reflection = not lbl.x_reflection
+                            if lbl.rotation is not None:
+                                lbl.rotation = -lbl.rotation
                         if self.rotation is not None:
                             if lbl.rotation is not None:
                                 lbl.rotation += self.rotation
-- 
2.43.0


From abb01f300d164282722120ac2312122e35280e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 04/68] fix: Cell.copy with a transformation dropped the
 reflection of labels and references

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index f91b7af..462006a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -258,7 +258,7 @@ class Cell(object):
                 path.transform(translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
-                r0 = -1 if lbl.x_reflection is None else 1
+                r0 = -1 if lbl.x_reflection else 1
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
@@ -275,7 +275,7 @@ class Cell(object):
                 lbl.x_reflection = r * r0 < 0
 
             for ref in new_cell.references:
-                r0 = -1 if ref.x_reflection is None else 1
+                r0 = -1 if ref.x_reflection else 1
                 s0 = 1 if ref.magnification is None else ref.magnification
                 t0 = 0 if ref.rotation is None else (ref.rotation * numpy.pi / 180)
                 dx0, dy0 = ref.origin
-- 
2.43.0


From a055e926a4759bdeb40bfa6fd99e6929a1225deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 05/68] fix: Cell.copy with scale did not scale the spacing of
 cell arrays

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 462006a..5369170 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -290,6 +290,8 @@ class Cell(object):
                 if ref.magnification == 1:
                     ref.magnification = None
                 ref.x_reflection = r * r0 < 0
+                if isinstance(ref, CellArray):
+                    ref.spacing = (s * ref.spacing[0], s * ref.spacing[1])
 
         return new_cell
 
-- 
2.43.0


From adb927bb944caadc006a5587b8a95f8cf4159a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 06/68] fix: Cell.remove_polygons replaced the lists of polygon
 sets by tuples

Tuples broke later in-place operations (flatten, get_polygonsets, fillet, fracture).
---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 5369170..ca37c3b 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -377,9 +377,9 @@ class Cell(object):
                 pass  # we don't need no empty polygons!
             else:
                 polys, layers, dts = zip(*pld)
-                element.polygons = polys
-                element.layers = layers
-                element.datatypes = dts
+                element.polygons = list(polys)
+                element.layers = list(layers)
+                element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
         return self
-- 
2.43.0


From 9990b5c16b9ca5b68717c7c92fdbb28ac635f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 07/68] fix: remove_polygons and remove_paths kept a stale
 bounding box

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index ca37c3b..0cedf0a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -382,6 +382,7 @@ class Cell(object):
                 element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
+        self._bb_valid = False
         return self
 
     def remove_paths(self, test):
@@ -409,6 +410,7 @@ class Cell(object):
                 self.paths.pop(ii)
             else:
                 ii += 1
+        self._bb_valid = False
         return self
 
     def remove_labels(self, test):
-- 
2.43.0


From c25bd29a912ddcc062fec0e9caa56ada758a7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 08/68] fix: Cell.flatten set texttypes to None or ignored
 single_texttype

---
 gdspy/library.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 0cedf0a..4902da3 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -828,14 +828,10 @@ class Cell(object):
             This cell.
         """
         self.labels = self.get_labels()
-        if single_layer is not None and single_datatype is not None:
-            for lbl in self.labels:
-                lbl.layer = single_layer
-                lbl.texttype = single_texttype
-        elif single_layer is not None:
+        if single_layer is not None:
             for lbl in self.labels:
                 lbl.layer = single_layer
-        elif single_datatype is not None:
+        if single_texttype is not None:
             for lbl in self.labels:
                 lbl.texttype = single_texttype
         self.polygons = self.get_polygonsets()
-- 
2.43.0


From 8364042c4c1503dbf1bc0409a281382cfa8bf8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 09/68] fix: GdsLibrary.add missed the dependencies of cells
 given by an iterator

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 4902da3..f6bd1b3 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2370,7 +2370,7 @@ class GdsLibrary(object):
         else:
             cell_set = set(cell)
             if include_dependencies:
-                for c in cell:
+                for c in list(cell_set):
                     cell_set.update(c.get_dependencies(True))
         for c in cell_set:
             if (
-- 
2.43.0


From 85293912789041ced799bde12cf2968bf6b5c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 10/68] fix: get_polygons of an unresolved reference returned a
 dictionary for a tuple by_spec

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index f6bd1b3..227faa0 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1366,7 +1366,7 @@ class CellReference(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(polygons)
 
@@ -1978,7 +1978,7 @@ class CellArray(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         cell_polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(cell_polygons)
 
-- 
2.43.0


From 0398c9bc8f54d3186ebfb27002969b1a5b01c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 11/68] fix: properties of an unsupported element were given to
 the next one on import

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 227faa0..398b91e 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2611,10 +2611,10 @@ class GdsLibrary(object):
                     el = create_element(**kwargs)
                     if len(properties) > 0:
                         el.properties = properties
-                        properties = {}
                     cell.add(el)
                     create_element = None
                 kwargs = {}
+                properties = {}
             # BOUNDARY
             elif record[0] == 0x08:
                 create_element = self._create_polygon
-- 
2.43.0


From 08d66184e82e80691858c708918c78ca7aa16798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 12/68] fix: RobustPath.to_gds truncated path coordinates
 instead of rounding to the grid

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 20c02f7..90099b7 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2319,7 +2319,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = (numpy.array(points) * multiplier).astype(">i4")
+            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
-- 
2.43.0


From 6d1cf1f73f5927b66249fa72520dea8cf613e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 13/68] fix: get_bounding_box returned stale values when the
 cell hierarchy changed

A cell whose dependency was modified and had its own bounding box recalculated,
or whose references were replaced or removed, kept the old bounding box.
---
 gdspy/library.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 398b91e..eb24094 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -99,6 +99,8 @@ class Cell(object):
         "references",
         "_bb_valid",
         "_bounding_box",
+        "_bb_version",
+        "_bb_dependencies",
     )
 
     def __init__(self, name, exclude_from_current=False):
@@ -109,6 +111,8 @@ class Cell(object):
         self.references = []
         self._bb_valid = False
         self._bounding_box = None
+        self._bb_version = 0
+        self._bb_dependencies = {}
         if use_current_library and not exclude_from_current:
             import gdspy
 
@@ -565,8 +569,13 @@ class Cell(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
-        deps_still_valid = all(ref._bb_valid for ref in self.get_dependencies(True))
-        cached_bbox_still_valid = self._bb_valid and deps_still_valid
+        dependencies = self.get_dependencies(True)
+        # Dependencies might have been replaced or recalculated since the last time
+        cached_bbox_still_valid = (
+            self._bb_valid
+            and all(ref._bb_valid for ref in dependencies)
+            and self._bb_dependencies == {ref: ref._bb_version for ref in dependencies}
+        )
         if not cached_bbox_still_valid:
             bb = numpy.array(((1e300, 1e300), (-1e300, -1e300)))
             all_polygons = []
@@ -588,6 +597,8 @@ class Cell(object):
             else:
                 self._bounding_box = None
             self._bb_valid = True
+            self._bb_version += 1
+            self._bb_dependencies = {ref: ref._bb_version for ref in dependencies}
 
         if self._bounding_box is None:
             return None
-- 
2.43.0


From de79802c06663fe56901e7952d050795fea9e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 14/68] fix: FlexPath inside an iterable was not accepted by
 geometry operations

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index ff5d351..f8f38f2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -72,7 +72,7 @@ def _gather_polys(args):
             polys.extend(p.polygons)
         elif (
             isinstance(p, RobustPath)
-            or isinstance(args, FlexPath)
+            or isinstance(p, FlexPath)
             or isinstance(p, CellReference)
             or isinstance(p, CellArray)
         ):
-- 
2.43.0


From df878ccf65b6727c5435d7c5e66d3ca7d57f7a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 15/68] fix: boolean raised IndexError when both operands were
 empty

---
 gdspy/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index f8f38f2..8ae9738 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -251,9 +251,9 @@ def boolean(
     poly1 = _gather_polys(operand1)
     poly2 = _gather_polys(operand2)
     if len(poly2) == 0:
+        if len(poly1) == 0:
+            return None
         if operation in ["not", "xor"]:
-            if len(poly1) == 0:
-                return None
             return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
         poly2.append(poly1.pop())
     result = clipper.clip(poly1, poly2, operation, 1 / precision)
-- 
2.43.0


From 05ee1895295856526c55916542bc03683611c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 16/68] fix: fracturing never ended when the median cut was on
 the polygon boundary

---
 gdspy/path.py    | 24 ++++++++++++++++++++++++
 gdspy/polygon.py |  8 ++++++++
 2 files changed, 32 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 90099b7..609d576 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -555,6 +555,10 @@ class FlexPath(object):
                                         pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
                                         for i in range(1, ncuts + 1)
                                     ]
+                                    # A cut along the boundary would not divide the polygon
+                                    cuts = [c for c in cuts if pts0[0] < c < pts0[-1]] or [
+                                        0.5 * (pts0[0] + pts0[-1])
+                                    ]
                                     chopped = clipper._chop(
                                         polygons[ii], cuts, 0, 1 / self.precision
                                     )
@@ -564,6 +568,10 @@ class FlexPath(object):
                                         pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
                                         for i in range(1, ncuts + 1)
                                     ]
+                                    # A cut along the boundary would not divide the polygon
+                                    cuts = [c for c in cuts if pts1[0] < c < pts1[-1]] or [
+                                        0.5 * (pts1[0] + pts1[-1])
+                                    ]
                                     chopped = clipper._chop(
                                         polygons[ii], cuts, 1, 1 / self.precision
                                     )
@@ -886,6 +894,10 @@ class FlexPath(object):
                                         pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
                                         for i in range(1, ncuts + 1)
                                     ]
+                                    # A cut along the boundary would not divide the polygon
+                                    cuts = [c for c in cuts if pts0[0] < c < pts0[-1]] or [
+                                        0.5 * (pts0[0] + pts0[-1])
+                                    ]
                                     chopped = clipper._chop(
                                         polygons[ii], cuts, 0, 1 / self.precision
                                     )
@@ -895,6 +907,10 @@ class FlexPath(object):
                                         pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
                                         for i in range(1, ncuts + 1)
                                     ]
+                                    # A cut along the boundary would not divide the polygon
+                                    cuts = [c for c in cuts if pts1[0] < c < pts1[-1]] or [
+                                        0.5 * (pts1[0] + pts1[-1])
+                                    ]
                                     chopped = clipper._chop(
                                         polygons[ii], cuts, 1, 1 / self.precision
                                     )
@@ -2136,6 +2152,10 @@ class RobustPath(object):
                                     pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
                                     for i in range(1, ncuts + 1)
                                 ]
+                                # A cut along the boundary would not divide the polygon
+                                cuts = [c for c in cuts if pts0[0] < c < pts0[-1]] or [
+                                    0.5 * (pts0[0] + pts0[-1])
+                                ]
                                 chopped = clipper._chop(
                                     polygons[ii], cuts, 0, 1 / self.precision
                                 )
@@ -2145,6 +2165,10 @@ class RobustPath(object):
                                     pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
                                     for i in range(1, ncuts + 1)
                                 ]
+                                # A cut along the boundary would not divide the polygon
+                                cuts = [c for c in cuts if pts1[0] < c < pts1[-1]] or [
+                                    0.5 * (pts1[0] + pts1[-1])
+                                ]
                                 chopped = clipper._chop(
                                     polygons[ii], cuts, 1, 1 / self.precision
                                 )
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ab37ab3..e900918 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -355,6 +355,10 @@ class PolygonSet(object):
                             pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
                             for i in range(1, ncuts + 1)
                         ]
+                        # A cut along the boundary would not divide the polygon
+                        cuts = [c for c in cuts if pts0[0] < c < pts0[-1]] or [
+                            0.5 * (pts0[0] + pts0[-1])
+                        ]
                         chopped = clipper._chop(
                             self.polygons[ii], cuts, 0, 1 / precision
                         )
@@ -364,6 +368,10 @@ class PolygonSet(object):
                             pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
                             for i in range(1, ncuts + 1)
                         ]
+                        # A cut along the boundary would not divide the polygon
+                        cuts = [c for c in cuts if pts1[0] < c < pts1[-1]] or [
+                            0.5 * (pts1[0] + pts1[-1])
+                        ]
                         chopped = clipper._chop(
                             self.polygons[ii], cuts, 1, 1 / precision
                         )
-- 
2.43.0


From f666279fc747821030e00ac08c4c020316ded587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 17/68] fix: fillet raised TypeError instead of ValueError for
 a wrong radius list

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index e900918..ade6920 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -436,7 +436,7 @@ class PolygonSet(object):
                             raise ValueError(
                                 "[GDSPY] Wrong length in fillet radius list.  "
                                 "Found {} radii for polygon with {} vertices.".format(
-                                    len(r), len(p.shape[0])
+                                    len(r), p.shape[0]
                                 )
                             )
                         radii.append(r)
-- 
2.43.0


From 8618c67a3f8db312c2751c9264595ea149be58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 18/68] fix: malformed polygons corrupted reference counts in
 clipper

On errors the polygon was released twice, and an error converting coordinates was ignored.
---
 gdspy/clipper.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f5a599e..39ddc13 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4642,28 +4642,26 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
 {
   /* Parse a complete polygon */
   PyObject *py_point, *py_coord;
-  long num_points = PySequence_Length(py_polygon);
+  long num_points;
   cInt orientation = 0;
 
   if (!PySequence_Check(py_polygon))
   {
-    Py_DECREF(py_polygon);
     PyErr_SetString(PyExc_TypeError, "Polygon must be a sequence.");
     return -1;
   }
+  if ((num_points = PySequence_Length(py_polygon)) < 0) return -1;
 
   path.resize(num_points);
   for (long j = 0; j < num_points; ++j)
   {
     if ((py_point = PySequence_ITEM(py_polygon, j)) == NULL)
     {
-      Py_DECREF(py_polygon);
       return -1;
     }
     if ((py_coord = PySequence_GetItem(py_point, 0)) == NULL)
     {
       Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
       return -1;
     }
     double x = PyFloat_AsDouble(py_coord);
@@ -4672,12 +4670,12 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     if ((py_coord = PySequence_GetItem(py_point, 1)) == NULL)
     {
       Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
       return -1;
     }
     double y = PyFloat_AsDouble(py_coord);
     Py_DECREF(py_coord);
     Py_DECREF(py_point);
+    if (PyErr_Occurred() != NULL) return -1;
     path[j].X = Round(scaling * x);
     path[j].Y = Round(scaling * y);
 #ifdef DEBUG
-- 
2.43.0


From 190ce73b11ed49c9fe07a12061c332248e3896a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 19/68] fix: inside crashed for an empty polygon set or empty
 polygons

---
 gdspy/clipper.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 39ddc13..f78bd3f 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4880,6 +4880,13 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 
 cInt bounding_box(Path& points, cInt* bb)
 {
+  if (points.empty())
+  {
+    // Nothing is inside this box
+    bb[0] = bb[2] = 1;
+    bb[1] = bb[3] = 0;
+    return 0;
+  }
   bb[0] = points[0].X;
   bb[1] = points[0].X;
   bb[2] = points[0].Y;
@@ -5036,12 +5043,15 @@ static PyObject* inside(PyObject *self, PyObject *args)
   {
     // No short-circuit
     unsigned long numpoints = groups[0].size();
-    cInt all_bb[4];
+    cInt all_bb[4] = {1, 0, 1, 0};
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
+    if (numpolygons > 0)
+    {
+      all_bb[0] = polygons_bb[0][0];
+      all_bb[1] = polygons_bb[0][1];
+      all_bb[2] = polygons_bb[0][2];
+      all_bb[3] = polygons_bb[0][3];
+    }
     for (unsigned long p = 1; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
@@ -5090,12 +5100,15 @@ static PyObject* inside(PyObject *self, PyObject *args)
   else
   {
     // Short-circuit: ALL
-    cInt all_bb[4];
+    cInt all_bb[4] = {1, 0, 1, 0};
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
+    if (numpolygons > 0)
+    {
+      all_bb[0] = polygons_bb[0][0];
+      all_bb[1] = polygons_bb[0][1];
+      all_bb[2] = polygons_bb[0][2];
+      all_bb[3] = polygons_bb[0][3];
+    }
     for (unsigned long p = 1; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
-- 
2.43.0


From b2281312b890cdc3a0d75beeccc4cdd4236e4405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 20/68] fix: integer overflow placed holes and oriented
 polygons wrongly in clipper

Products of coordinates larger than about 3e9 times the precision overflowed.
---
 gdspy/clipper.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f78bd3f..dbf3d06 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4643,7 +4643,8 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
   /* Parse a complete polygon */
   PyObject *py_point, *py_coord;
   long num_points;
-  cInt orientation = 0;
+  // Products of coordinates can overflow cInt
+  long double orientation = 0;
 
   if (!PySequence_Check(py_polygon))
   {
@@ -4682,7 +4683,7 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     std::cout << path[j].X << "," << path[j].Y << std::endl;
 #endif //DEBUG
     if (check_orientation == true && j > 1)
-      orientation += (path[0].X - path[j].X) * (path[j-1].Y - path[0].Y) - (path[0].Y - path[j].Y) * (path[j-1].X - path[0].X);
+      orientation += (long double)(path[0].X - path[j].X) * (path[j-1].Y - path[0].Y) - (long double)(path[0].Y - path[j].Y) * (path[j-1].X - path[0].X);
   }
   if (check_orientation == true && orientation < 0)
   {
@@ -4775,7 +4776,7 @@ void link_holes(PolyNode *node, Paths &out)
     {
       if ((pnext->Y <= p->Y && p->Y < pprev->Y) || (pprev->Y < p->Y && p->Y <= pnext->Y))
       {
-        cInt x = pnext->X + ((pprev->X - pnext->X) * (p->Y - pnext->Y)) / (pprev->Y - pnext->Y);
+        cInt x = pnext->X + (cInt)((long double)(pprev->X - pnext->X) * (p->Y - pnext->Y) / (pprev->Y - pnext->Y));
         if ((x > xnew || p1 == result.end()) && x <= p->X)
         {
           xnew = x;
-- 
2.43.0


From 87fa930c2596656cbb1ae055ebb40e39809fb68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 21/68] fix: out of range coordinates gave arbitrary results in
 clipper

Coordinates and distances that do not fit the integer grid (or NaN) were silently
wrapped and exceptions from clipper terminated the process.
---
 gdspy/clipper.cpp | 89 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 19 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index dbf3d06..6c39710 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4638,6 +4638,21 @@ std::ostream& operator <<(std::ostream &s, const Paths &p)
  * GDSPY additions below this comment                                 *
  **********************************************************************/
 
+// False for infinities and NaN as well
+inline bool in_range(double x)
+{
+  return x <= (double)hiRange && x >= -(double)hiRange;
+}
+
+inline cInt clamped_round(double x)
+{
+  if (x > (double)hiRange) return hiRange;
+  if (x < -(double)hiRange) return -hiRange;
+  return Round(x);
+}
+
+//------------------------------------------------------------------------------
+
 short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check_orientation)
 {
   /* Parse a complete polygon */
@@ -4677,6 +4692,11 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     Py_DECREF(py_coord);
     Py_DECREF(py_point);
     if (PyErr_Occurred() != NULL) return -1;
+    if (!in_range(scaling * x) || !in_range(scaling * y))
+    {
+      PyErr_SetString(PyExc_OverflowError, "Polygon coordinates are out of range for the precision used.");
+      return -1;
+    }
     path[j].X = Round(scaling * x);
     path[j].Y = Round(scaling * y);
 #ifdef DEBUG
@@ -4938,9 +4958,17 @@ static PyObject* clip(PyObject *self, PyObject *args)
   if (parse_polygon_set(polyA, subj, scaling, true) != 0) return NULL;
   if (parse_polygon_set(polyB, clip, scaling, true) != 0) return NULL;
 
-  clpr.AddPaths(subj, ptSubject, true);
-  clpr.AddPaths(clip, ptClip, true);
-  clpr.Execute(oper, solution, pftNonZero, pftNonZero);
+  try
+  {
+    clpr.AddPaths(subj, ptSubject, true);
+    clpr.AddPaths(clip, ptClip, true);
+    clpr.Execute(oper, solution, pftNonZero, pftNonZero);
+  }
+  catch (std::exception &e)
+  {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return NULL;
+  }
 
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
@@ -4988,22 +5016,36 @@ static PyObject* offset(PyObject *self, PyObject *args)
 
   if (parse_polygon_set(polygons, subj, scaling, true) != 0) return NULL; 
 
-  if (joinFirst > 0)
+  if (!in_range(distance * scaling))
   {
-    Paths intermediate;
-    ClipperOffset clprof_join;
+    PyErr_SetString(PyExc_OverflowError, "Distance is out of range for the precision used.");
+    return NULL;
+  }
 
-    clprof_join.AddPaths(subj, jtSquare, etClosedPolygon);
-    clprof_join.Execute(intermediate, 0);
-    clprof.AddPaths(intermediate, jt, etClosedPolygon);
+  try
+  {
+    if (joinFirst > 0)
+    {
+      Paths intermediate;
+      ClipperOffset clprof_join;
+
+      clprof_join.AddPaths(subj, jtSquare, etClosedPolygon);
+      clprof_join.Execute(intermediate, 0);
+      clprof.AddPaths(intermediate, jt, etClosedPolygon);
+    }
+    else
+    {
+      clprof.AddPaths(subj, jt, etClosedPolygon);
+    }
+
+    clprof.Execute(solution, distance * scaling);
   }
-  else
+  catch (std::exception &e)
   {
-    clprof.AddPaths(subj, jt, etClosedPolygon);
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return NULL;
   }
 
-  clprof.Execute(solution, distance * scaling);
-
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
 }
@@ -5189,7 +5231,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
       if (i < num_cuts)
       {
         position = PySequence_ITEM(positions, i);
-        pos = Round(scaling * PyFloat_AsDouble(position));
+        pos = clamped_round(scaling * PyFloat_AsDouble(position));
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
         {
@@ -5210,7 +5252,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
       if (i < num_cuts)
       {
         position = PySequence_ITEM(positions, i);
-        pos = Round(scaling * PyFloat_AsDouble(position));
+        pos = clamped_round(scaling * PyFloat_AsDouble(position));
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
         {
@@ -5225,10 +5267,19 @@ static PyObject* chop(PyObject *self, PyObject *args)
       }
       clip[0][2].Y = clip[0][3].Y = pos;
     }
-    clpr.Clear();
-    clpr.AddPaths(subj, ptSubject, true);
-    clpr.AddPaths(clip, ptClip, true);
-    clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
+    try
+    {
+      clpr.Clear();
+      clpr.AddPaths(subj, ptSubject, true);
+      clpr.AddPaths(clip, ptClip, true);
+      clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
+    }
+    catch (std::exception &e)
+    {
+      PyErr_SetString(PyExc_RuntimeError, e.what());
+      Py_DECREF(returntuple);
+      return NULL;
+    }
     result.clear();
     tree2paths(solution, result);
     if ((resultitem = build_polygon_tuple(result, scaling)) == NULL)
-- 
2.43.0


From 489c27b329f12c266e03f6c25fa35127014b89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 22/68] fix: offset ignored the tolerance of round joins for
 negative distances

---
 gdspy/clipper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 6c39710..e1a0854 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -5000,7 +5000,7 @@ static PyObject* offset(PyObject *self, PyObject *args)
   else if (strcmp(join, "round") == 0)
   {
     jt = jtRound;
-    clprof.ArcTolerance = distance * scaling * (1.0 - cos(M_PI/tolerance));
+    clprof.ArcTolerance = std::fabs(distance) * scaling * (1.0 - cos(M_PI/tolerance));
   }
   else
   {
-- 
2.43.0


From e0f351c61fdc065074fa112552ec5c4349544d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 23/68] fix: intersection with an empty operand was not empty

---
 gdspy/operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index 8ae9738..3470930 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -253,6 +253,8 @@ def boolean(
     if len(poly2) == 0:
         if len(poly1) == 0:
             return None
+        if operation == "and" and operand2 is not None:
+            return None
         if operation in ["not", "xor"]:
             return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
         poly2.append(poly1.pop())
-- 
2.43.0


From 8e7887f851b4e84207007802b5a51dc73b3f77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 24/68] fix: changing the polygons returned by a path changed
 the path itself

---
 gdspy/path.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 609d576..4e01abd 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -929,7 +929,10 @@ class FlexPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return [
+                numpy.array(p)
+                for p in itertools.chain.from_iterable(self._polygon_dict.values())
+            ]
 
     def to_polygonset(self):
         """
@@ -2187,7 +2190,10 @@ class RobustPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return [
+                numpy.array(p)
+                for p in itertools.chain.from_iterable(self._polygon_dict.values())
+            ]
 
     def to_polygonset(self):
         """
-- 
2.43.0


From baa129acdf3b1519423fa94cb9546f2fe5ebe3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 25/68] fix: empty or single-point paths crashed bounding box,
 area and output

The documented None result of to_polygonset was not considered.
---
 gdspy/library.py |  4 +++-
 gdspy/path.py    | 20 +++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index eb24094..47a6281 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -582,7 +582,9 @@ class Cell(object):
             for polygon in self.polygons:
                 all_polygons.extend(polygon.polygons)
             for path in self.paths:
-                all_polygons.extend(path.to_polygonset().polygons)
+                polygonset = path.to_polygonset()
+                if polygonset is not None:
+                    all_polygons.extend(polygonset.polygons)
             for reference in self.references:
                 reference_bb = reference.get_bounding_box()
                 if reference_bb is not None:
diff --git a/gdspy/path.py b/gdspy/path.py
index 4e01abd..c17bfbe 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -404,6 +404,8 @@ class FlexPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if self.points.shape[0] < 2:
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             if self.points.shape[0] == 2:
@@ -597,6 +599,8 @@ class FlexPath(object):
                     self.points = self.points[nz, :]
                     self.widths = self.widths[nz, :]
                     self.offsets = self.offsets[nz, :]
+                    if self.points.shape[0] < 2:
+                        return {} if by_spec else []
                     un = self.points[1:] - self.points[:-1]
                     un2 = un[:, 0] ** 2 + un[:, 1] ** 2
                 un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
@@ -976,7 +980,7 @@ class FlexPath(object):
             A number that multiplies all dimensions written in the GDSII
             elements.
         """
-        if len(self.points) == 0:
+        if len(self.points) < 2:
             return
         if self.gdsii_path:
             sign = 1 if self.width_transform else -1
@@ -991,6 +995,8 @@ class FlexPath(object):
             self.points = self.points[nz, :]
             self.widths = self.widths[nz, :]
             self.offsets = self.offsets[nz, :]
+            if len(self.points) < 2:
+                return
             un = self.points[1:] - self.points[:-1]
             un2 = un[:, 0] ** 2 + un[:, 1] ** 2
         un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
@@ -1191,7 +1197,10 @@ class FlexPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
@@ -2000,6 +2009,8 @@ class RobustPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if len(self.paths[0]) == 0:
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             for path, end, layer, datatype in zip(
@@ -2437,7 +2448,10 @@ class RobustPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
-- 
2.43.0


From 97edb1d6a8536e6d3d6f46858787f6d9c9af2608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 26/68] fix: gdsii_hash and set_gdsii_timestamp raised
 NameError instead of warning

---
 gdspy/gdsiiformat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 3747391..b8d22c3 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -34,6 +34,7 @@ else:
     basestring = str
 
 import struct
+import warnings
 import numpy
 import hashlib
 
-- 
2.43.0


From 80973ecdfb5a67764f6262749a0d04a74842f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 27/68] fix: empty label texts and property values were
 imported as None

---
 gdspy/gdsiiformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index b8d22c3..68c5d99 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -99,6 +99,8 @@ def _record_reader(stream):
                         data = data.decode("ascii")
                 elif data[-1] == "\0":
                     data = data[:-1]
+        elif data_type == 0x06:
+            data = ""
         yield [rec_type, data]
 
 
-- 
2.43.0


From 71046b087e18e172fabd0378cffbaa6f8f1eedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 28/68] fix: get_binary_cells failed on files with padding
 after the last record

---
 gdspy/gdsiiformat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 68c5d99..f4a7a49 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -124,7 +124,8 @@ def _raw_record_reader(stream):
             return
         size, rec_type = struct.unpack(">HH", header)
         rec_type = rec_type // 256
-        yield (rec_type, header + stream.read(size - 4))
+        # Padding at the end of the file has size 0
+        yield (rec_type, header + stream.read(max(0, size - 4)))
 
 
 def _eight_byte_real(value):
-- 
2.43.0


From 72fd1ea1161e5aa2eab5ac00c07e7df6d35bc256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 29/68] fix: deep copies of a cell shared the properties of
 references

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 47a6281..7e9e99d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -239,6 +239,8 @@ class Cell(object):
         new_cell.paths = libcopy.deepcopy(self.paths)
         new_cell.labels = libcopy.deepcopy(self.labels)
         new_cell.references = [libcopy.copy(ref) for ref in self.references]
+        for ref in new_cell.references:
+            ref.properties = libcopy.copy(ref.properties)
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From 8c54c0c1858e189213a55548fbdf026b408bf61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 30/68] fix: FlexPath.transform did not scale extensions and
 bend radii

Paths from magnified references differed from their polygons.
---
 gdspy/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index c17bfbe..dcbbba4 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1272,11 +1272,15 @@ class FlexPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
         self.offsets = self.offsets * scale
+        self._scale_ends(scale)
+        return self
+
+    def _scale_ends(self, scale):
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
                 self.ends[i] = tuple([e * scale for e in end])
-        return self
+        self.bend_radius = [None if r is None else r * scale for r in self.bend_radius]
 
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
         """
@@ -1324,6 +1328,7 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            self._scale_ends(scale)
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
-- 
2.43.0


From 79ad203fc0e8c3ae177a6bff77ad23fbedc623f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 31/68] fix: RobustPath transformations of extensions,
 reflections and array offsets

Extensions were not scaled, caps of reflected paths were twisted, their widths
became negative (absolute in GDSII files), and paths in magnified or reflected
arrays were misplaced.
---
 gdspy/path.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index dcbbba4..ec21335 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -106,6 +106,12 @@ class _SubPath(object):
         return "SubPath ({} - {})".format(self(0, 1e-6, 0), self(1, 1e-6, 0))
 
     def __call__(self, u, arm, transform=True):
+        if (
+            self.transform[0, 0] * self.transform[1, 1]
+            < self.transform[0, 1] * self.transform[1, 0]
+        ):
+            # The sides are swapped by reflections
+            arm = -arm
         v = self.dx(u, self.h)[::-1] * _pmone
         v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
         x = self.x(u) + self.off(u) * v
@@ -2537,12 +2543,18 @@ class RobustPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
         self.offsets = [off * scale for off in self.offsets]
+        self._scale_ends(scale)
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
                 sub.translate(c0)
         return self
 
+    def _scale_ends(self, scale):
+        for i, end in enumerate(self.ends):
+            if isinstance(end, tuple):
+                self.ends[i] = tuple([e * scale for e in end])
+
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
         """
         Apply a transform to this path.
@@ -2572,6 +2584,15 @@ class RobustPath(object):
         False, the widths are not scaled.
         """
         self._polygon_dict = None
+        if scale is not None:
+            self.x = self.x * scale
+            if self.width_transform or not self.gdsii_path:
+                self.widths = [wid * scale for wid in self.widths]
+            self.offsets = [off * scale for off in self.offsets]
+            self._scale_ends(scale)
+            for path in self.paths:
+                for sub in path:
+                    sub.scale(scale)
         if array_trans is not None:
             self.x = self.x + array_trans
             for path in self.paths:
@@ -2579,19 +2600,10 @@ class RobustPath(object):
                     sub.translate(array_trans)
         if x_reflection:
             self.x = numpy.array((self.x[0], -self.x[1]))
-            self.widths = [wid * -1 for wid in self.widths]
             self.offsets = [off * -1 for off in self.offsets]
             for path in self.paths:
                 for sub in path:
                     sub.scale(1, -1)
-        if scale is not None:
-            self.x = self.x * scale
-            if self.width_transform or not self.gdsii_path:
-                self.widths = [wid * scale for wid in self.widths]
-            self.offsets = [off * scale for off in self.offsets]
-            for path in self.paths:
-                for sub in path:
-                    sub.scale(scale)
         if rotation is not None:
             ca = numpy.cos(rotation)
             sa = numpy.sin(rotation) * _mpone
-- 
2.43.0


From 8fe165e41934aef8f3fdd4aa71355f82769b00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 32/68] fix: RobustPath.turn started in the wrong direction

Transformations were ignored and angles around pi were averaged to 0.
---
 gdspy/path.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index ec21335..3d878eb 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2801,11 +2801,12 @@ class RobustPath(object):
                 "empty RobustPath."
             )
         angle = _angle_dict.get(angle, angle)
-        initial_angle = 0
+        angles = []
         for p in self.paths:
-            v = p[i].grad(1, 0, False)
-            initial_angle += numpy.arctan2(v[1], v[0])
-        initial_angle = initial_angle / len(self.paths) + (
+            v = p[i].grad(1, 0)
+            angles.append(numpy.arctan2(v[1], v[0]))
+        # Unwrap to not average over the branch cut of arctan2
+        initial_angle = numpy.mean(numpy.unwrap(angles)) + (
             _halfpi if angle < 0 else -_halfpi
         )
         self.arc(radius, initial_angle, initial_angle + angle, width, offset)
-- 
2.43.0


From c6cf614ef64f9f2c97fa365df99bde00fb8cceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 33/68] fix: RobustPath changed the width and offset lists of
 the caller

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 3d878eb..8f57a89 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1863,9 +1863,9 @@ class RobustPath(object):
         self._polygon_dict = None
         if isinstance(width, list):
             self.n = len(width)
-            self.widths = width
+            self.widths = list(width)
             if isinstance(offset, list):
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.offsets = [
                     (i - 0.5 * (self.n - 1)) * offset for i in range(self.n)
@@ -1873,7 +1873,7 @@ class RobustPath(object):
         else:
             if isinstance(offset, list):
                 self.n = len(offset)
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.n = 1
                 self.offsets = [offset]
-- 
2.43.0


From 90d2b650b497cf81ccb4862ff1ed147fef588b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 34/68] fix: reals immediately below a power of 16 lost their
 last bit in GDSII files

Their mantissa was not normalized either.
---
 gdspy/gdsiiformat.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index f4a7a49..8f75587 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -149,10 +149,8 @@ def _eight_byte_real(value):
         value = -value
     else:
         byte1 = 0x00
-    fexp = numpy.log2(value) / 4
-    exponent = int(numpy.ceil(fexp))
-    if fexp == exponent:
-        exponent += 1
+    # Exact: log2 rounds up for values immediately below a power of 16
+    exponent = -(-int(numpy.frexp(value)[1]) // 4)
     mantissa = int(value * 16.0 ** (14 - exponent))
     byte1 += exponent + 64
     byte2 = mantissa // 281474976710656
-- 
2.43.0


From c6d8c59390c6cff6ea53ad19a8dd6aab46bb8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 35/68] fix: reading a path without width record raised
 TypeError

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 7e9e99d..6686b99 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2765,6 +2765,8 @@ class GdsLibrary(object):
             kwargs["ends"] = (kwargs.pop("bgnextn", 0), kwargs.pop("endextn", 0))
         kwargs["points"] = xy.reshape((xy.size // 2, 2))
         kwargs["gdsii_path"] = True
+        # WIDTH is an optional record
+        kwargs.setdefault("width", 0)
         return FlexPath(**kwargs)
 
     def _create_label(self, xy, width=None, width_transform=None, ends=None, **kwargs):
-- 
2.43.0


From f7da0bbe64707028af84359679d48047cfce5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 36/68] fix: paths with custom ends but no extension records
 were imported as extended

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 6686b99..aa2e334 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2298,7 +2298,7 @@ class GdsLibrary(object):
     _import_anchors = [
         "nw", "n", "ne", "o", "w", "o", "e", "o", "sw", "s", "se", "o", "o", "o", "o", "o"
     ]
-    _pathtype_dict = {0: "flush", 1: "round", 2: "extended"}
+    _pathtype_dict = {0: "flush", 1: "round", 2: "extended", 4: (0, 0)}
 
     __slots__ = "name", "cells", "unit", "precision", "_references"
 
-- 
2.43.0


From 384ea2826a7520329a2242db5c3c7e3598143d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 37/68] fix: FlexPath created from a single point used wrong
 widths and offsets

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 8f57a89..de26725 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -336,8 +336,8 @@ class FlexPath(object):
         self.points = numpy.array(points)
         if self.points.shape == (2,):
             self.points.resize((1, 2))
-        self.widths = numpy.tile(self.widths, (len(points), 1))
-        self.offsets = numpy.tile(self.offsets, (len(points), 1))
+        self.widths = numpy.tile(self.widths, (len(self.points), 1))
+        self.offsets = numpy.tile(self.offsets, (len(self.points), 1))
         if isinstance(ends, list):
             self.ends = [ends[i % len(ends)] for i in range(self.n)]
         else:
-- 
2.43.0


From bb9159b86ba9774fe0a39e9f23cec2d5dac8a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 38/68] fix: Cell.flatten to a single layer left paths queried
 before on the old one

The polygons cached by the path are indexed by layer and datatype, so they
must be discarded when those change.
---
 gdspy/library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index aa2e334..506bc00 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -851,6 +851,9 @@ class Cell(object):
                 lbl.texttype = single_texttype
         self.polygons = self.get_polygonsets()
         self.paths = self.get_paths()
+        for path in self.paths:
+            # Cached polygons are stored by layer and datatype
+            path._polygon_dict = None
         if single_layer is not None and single_datatype is not None:
             for poly in self.polygons:
                 poly.layers = [single_layer] * len(poly.polygons)
-- 
2.43.0


From 43ccb82c9c968960b05188a9ee53a1b1ad700bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 39/68] fix: bounding boxes were stale after replacing or
 removing references

Changing the target of some of the references to a cell that remains among
the dependencies was not noticed by the bounding box cache.
---
 gdspy/library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 506bc00..65c64ba 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2435,6 +2435,7 @@ class GdsLibrary(object):
         removed = 0
         if remove_references:
             for c in self.cells.values():
+                c._bb_valid = False
                 removed += len(c.references)
                 c.references = [
                     ref
@@ -2911,9 +2912,11 @@ class GdsLibrary(object):
                 if isinstance(ref.ref_cell, Cell):
                     if ref.ref_cell.name == old_name:
                         ref.ref_cell = new_cell
+                        cell._bb_valid = False
                         replacements += 1
                 elif ref.ref_cell == old_name:
                     ref.ref_cell = new_cell
+                    cell._bb_valid = False
                     replacements += 1
         return replacements
 
-- 
2.43.0


From 88fe5f57e2dd971a0a6855c41d1c0fa12287a535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 40/68] fix: holes touching a horizontal edge of their outline
 were linked to garbage points

---
 gdspy/clipper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index e1a0854..7ecc0c9 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4801,11 +4801,11 @@ void link_holes(PolyNode *node, Paths &out)
         {
           xnew = x;
           p1 = pnext;
-        } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
-          xnew = p->X;
-          p1 = pnext;
-          break;
         }
+      } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
+        xnew = p->X;
+        p1 = pnext;
+        break;
       }
     }
 
-- 
2.43.0


From 1235230580a86bc9a3ce3ef217abab01fe10402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 41/68] fix: link_holes dereferenced the end of the outline for
 holes outside of it

---
 gdspy/clipper.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 7ecc0c9..22f613d 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4810,6 +4810,23 @@ void link_holes(PolyNode *node, Paths &out)
     }
 
     IntPoint pnew(xnew, p->Y);
+    if (p1 == result.end())
+    {
+      // the hole touches the outline and, due to rounding, there is nothing to its left:
+      // link it to the closest vertex
+      long double closest = -1;
+      for (pnext = result.begin(); pnext != result.end(); ++pnext)
+      {
+        long double dx = (long double)pnext->X - p->X;
+        long double dy = (long double)pnext->Y - p->Y;
+        if (closest < 0 || dx * dx + dy * dy < closest)
+        {
+          closest = dx * dx + dy * dy;
+          p1 = pnext;
+        }
+      }
+      pnew = *p1;
+    }
     if (pnew.X != p1->X || pnew.Y != p1->Y) result.insert(p1, pnew);
     result.insert(p1, h->begin(), p+1);
     result.insert(p1, p, h->end());
-- 
2.43.0


From 5961c642543559c64dc91c000c68ff7bb557fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 42/68] fix: boolean returned an empty set instead of None when
 fracturing removed all polygons

---
 gdspy/operation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index 3470930..2b5a061 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -256,12 +256,14 @@ def boolean(
         if operation == "and" and operand2 is not None:
             return None
         if operation in ["not", "xor"]:
-            return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
+            result = PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
+            return result if len(result.polygons) > 0 else None
         poly2.append(poly1.pop())
     result = clipper.clip(poly1, poly2, operation, 1 / precision)
     if len(result) == 0:
         return None
-    return PolygonSet(result, layer, datatype).fracture(max_points, precision)
+    result = PolygonSet(result, layer, datatype).fracture(max_points, precision)
+    return result if len(result.polygons) > 0 else None
 
 
 def inside(points, polygons, short_circuit="any", precision=0.001):
-- 
2.43.0


From a090e25bbb88403ac018952079206eb4354f6b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 43/68] fix: holes with the orientation of their outline were
 filled

---
 gdspy/clipper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 22f613d..08979e2 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4786,7 +4786,8 @@ void link_holes(PolyNode *node, Paths &out)
   // insert holes in order
   for (Paths::iterator h = holes.begin(); h != holes.end(); ++h)
   {
-    // holes are guaranteed to be oriented opposite to their parent
+    // holes must be oriented opposite to their parent
+    if (Orientation(*h) == Orientation(node->Contour)) ReversePath(*h);
     Path::iterator p = min_element(h->begin(), h->end(), point_compare);
     Path::iterator p1 = result.end();
     Path::iterator pprev = --result.end();
-- 
2.43.0


From 8f7e0407234dfd4e91134e554e52c329ae4f73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 44/68] fix: arcs with radius below half of the tolerance
 raised ValueError

---
 gdspy/curve.py   |  2 +-
 gdspy/path.py    | 16 ++++++++--------
 gdspy/polygon.py |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 4559be9..bd2db45 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -275,7 +275,7 @@ class Curve(object):
         number_of_points = max(
             3,
             1
-            + int(0.5 * full_angle / numpy.arccos(1 - self.tol ** 0.5 / radius) + 0.5),
+            + int(0.5 * full_angle / numpy.arccos(max(-1, 1 - self.tol ** 0.5 / radius)) + 0.5),
         )
         angles = numpy.linspace(
             initial_angle - rotation, final_angle - rotation, number_of_points
diff --git a/gdspy/path.py b/gdspy/path.py
index de26725..a461ed8 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -493,7 +493,7 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi / numpy.arccos(max(-1, 1 - self.tolerance / r)) + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -508,7 +508,7 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi / numpy.arccos(max(-1, 1 - self.tolerance / r)) + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -722,7 +722,7 @@ class FlexPath(object):
                                         2,
                                         1
                                         + int(
-                                            da / numpy.arccos(1 - self.tolerance / r)
+                                            da / numpy.arccos(max(-1, 1 - self.tolerance / r))
                                             + 0.5
                                         ),
                                     )
@@ -779,7 +779,7 @@ class FlexPath(object):
                                         + int(
                                             0.5
                                             * abs(a1 - a0)
-                                            / numpy.arccos(1 - self.tolerance / half_w)
+                                            / numpy.arccos(max(-1, 1 - self.tolerance / half_w))
                                             + 0.5
                                         ),
                                     )
@@ -862,7 +862,7 @@ class FlexPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi / numpy.arccos(max(-1, 1 - self.tolerance / r))
                                         + 0.5
                                     ),
                                 )
@@ -1100,7 +1100,7 @@ class FlexPath(object):
                             + int(
                                 da
                                 / numpy.arccos(
-                                    1 - self.tolerance / (r + 0.5 * self.widths[0, ii])
+                                    max(-1, 1 - self.tolerance / (r + 0.5 * self.widths[0, ii]))
                                 )
                                 + 0.5
                             ),
@@ -1449,7 +1449,7 @@ class FlexPath(object):
             + int(
                 0.5
                 * abs(final_angle - initial_angle)
-                / numpy.arccos(1 - self.tolerance / rmax)
+                / numpy.arccos(max(-1, 1 - self.tolerance / rmax))
                 + 0.5
             ),
         )
@@ -2067,7 +2067,7 @@ class RobustPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi / numpy.arccos(max(-1, 1 - self.tolerance / r))
                                         + 0.5
                                     ),
                                 )
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ade6920..5d5e2ff 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -774,7 +774,7 @@ class Round(PolygonSet):
             )
             number_of_points = max(
                 3,
-                1 + int(0.5 * full_angle / numpy.arccos(1 - tolerance / radius) + 0.5),
+                1 + int(0.5 * full_angle / numpy.arccos(max(-1, 1 - tolerance / radius)) + 0.5),
             )
             if inner_radius > 0:
                 number_of_points *= 2
@@ -1439,7 +1439,7 @@ class Path(PolygonSet):
                 * int(
                     0.5
                     * abs(final_angle - initial_angle)
-                    / numpy.arccos(1 - tolerance / r)
+                    / numpy.arccos(max(-1, 1 - tolerance / r))
                     + 0.5
                 ),
             )
-- 
2.43.0


From 1f372d35e5f9c81b8aeed66608801ccf1e85ddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 45/68] fix: elliptical sections ending at odd multiples of pi
 made an extra turn

---
 gdspy/polygon.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 5d5e2ff..a891aee 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -729,10 +729,8 @@ class Round(PolygonSet):
             radius = max(radius)
 
             def outer_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a))
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             orx = ory = radius
@@ -745,10 +743,8 @@ class Round(PolygonSet):
             inner_radius = max(inner_radius)
 
             def inner_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a))
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             irx = iry = inner_radius
-- 
2.43.0


From 0e8e6a40e769952d7debb0532b7a47fbff471a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 46/68] fix: parallel elements of Path switched sides in
 clockwise arcs and parametric sections

---
 gdspy/polygon.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index a891aee..31ad1a5 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1448,18 +1448,15 @@ class Path(PolygonSet):
         widths = numpy.linspace(old_w, self.w, pieces + 1)
         distances = numpy.linspace(old_distance, self.distance, pieces + 1)
         angles = numpy.linspace(initial_angle, final_angle, pieces + 1)
+        # Positive displacements are to the right of the path
+        side = 1 if final_angle > initial_angle else -1
         if (self.w != 0) or (old_w != 0):
             for jj in range(pieces):
                 for ii in range(self.n):
                     self.polygons.append(numpy.zeros((number_of_points, 2)))
-                    r0 = (
-                        radius
-                        + ii * distances[jj + 1]
-                        - (self.n - 1) * distances[jj + 1] * 0.5
-                    )
-                    old_r0 = (
-                        radius + ii * distances[jj] - (self.n - 1) * distances[jj] * 0.5
-                    )
+                    displacement = side * (ii - (self.n - 1) * 0.5)
+                    r0 = radius + displacement * distances[jj + 1]
+                    old_r0 = radius + displacement * distances[jj]
                     pts2 = number_of_points // 2
                     pts1 = number_of_points - pts2
                     ang = numpy.linspace(angles[jj], angles[jj + 1], pts1)
@@ -1778,13 +1775,14 @@ class Path(PolygonSet):
         while i0 < np - 1:
             i1 = min(i0 + max_points, np)
             for ii in range(self.n):
+                # Positive displacements are to the right of the path
                 p1 = x0[i0:i1] + dx[i0:i1] * (
-                    dist[i0:i1] * (ii - (self.n - 1) * 0.5) + width[i0:i1]
+                    dist[i0:i1] * ((self.n - 1) * 0.5 - ii) + width[i0:i1]
                 )
                 p2 = (
                     x0[i0:i1]
                     + dx[i0:i1]
-                    * (dist[i0:i1] * (ii - (self.n - 1) * 0.5) - width[i0:i1])
+                    * (dist[i0:i1] * ((self.n - 1) * 0.5 - ii) - width[i0:i1])
                 )[::-1]
                 if width[i1 - 1, 0] == 0:
                     p2 = p2[1:]
-- 
2.43.0


From 9cd41e9fefc77aae5ee6386ce94af8a20358fd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 47/68] fix: Path.scale did not scale the distance between
 elements and the length

---
 gdspy/polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 31ad1a5..3259899 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1189,7 +1189,7 @@ class Path(PolygonSet):
         Notes
         -----
         The direction of the path is not modified by this method and
-        its width is scaled only by `scalex`.
+        its width, distance and length are scaled only by `scalex`.
         """
         c0 = numpy.array(center)
         s = scalex if scaley is None else numpy.array((scalex, scaley))
@@ -1197,6 +1197,8 @@ class Path(PolygonSet):
         self.x = (self.x - c0[0]) * scalex + c0[0]
         self.y = (self.y - c0[1]) * (scalex if scaley is None else scaley) + c0[1]
         self.w *= scalex
+        self.distance *= scalex
+        self.length *= abs(scalex)
         return self
 
     def mirror(self, p1, p2=(0, 0)):
-- 
2.43.0


From b2a6802a95757644279fb4af268367b4e291128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 48/68] fix: L1Path ending towards -y reported the wrong end
 point, or failed without turns

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 3259899..d85445d 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2263,7 +2263,7 @@ class L1Path(PolygonSet):
                 d0 = (number_of_paths - 1) * distance * 0.5 - ii * distance
                 paths[ii][0].append((paths[ii][0][-1][0], self.y - length[-1]))
                 paths[ii][1].append((paths[ii][1][-1][0], self.y - length[-1]))
-            self.y -= length[jj]
+            self.y -= length[-1]
         self.direction = ["+x", "+y", "-x", "-y"][direction]
         self.polygons.extend(numpy.array(p[0] + p[1][::-1]) for p in paths)
         self.layers.extend(layer)
-- 
2.43.0


From 0f930689375812f489c2d9d5406552c55bf2da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 49/68] fix: collinear points of a PolyPath gave corners at
 arbitrary positions

---
 gdspy/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index d85445d..ad0fc9f 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2567,7 +2567,8 @@ class PolyPath(PolygonSet):
                     p0m = paths[ii][kk][-1] - p0[ii][kk]
                     p1p = pp[ii][kk] - p1[ii][kk]
                     vec = p0m[0] * p1p[1] - p1p[0] * p0m[1]
-                    if abs(vec) > 1e-30:
+                    norm = (p0m[0] ** 2 + p0m[1] ** 2) * (p1p[0] ** 2 + p1p[1] ** 2)
+                    if vec ** 2 > 1e-16 * norm:
                         p = (
                             _pmone
                             * (
-- 
2.43.0


From 9f74c1775787cfd85339ec8e8a816fb63e0f1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 50/68] fix: PolyPath corners were skipped after a corner that
 used up the previous section

---
 gdspy/polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ad0fc9f..5729189 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2538,6 +2538,7 @@ class PolyPath(PolygonSet):
             )
             for ii in range(number_of_paths)
         ]
+        pp = [(path[0][0], path[1][0]) for path in paths]
         for jj in range(1, points.shape[0] - 1):
             j0d = jj % len_d
             j0w = jj % len_w
@@ -2549,6 +2550,7 @@ class PolyPath(PolygonSet):
             d1 = 0.5 * (number_of_paths - 1) * distance[j1d]
             p0 = p1
             p1 = []
+            s0 = pp
             pp = []
             for ii in range(number_of_paths):
                 pp.append(
@@ -2564,7 +2566,7 @@ class PolyPath(PolygonSet):
                     )
                 )
                 for kk in (0, 1):
-                    p0m = paths[ii][kk][-1] - p0[ii][kk]
+                    p0m = s0[ii][kk] - p0[ii][kk]
                     p1p = pp[ii][kk] - p1[ii][kk]
                     vec = p0m[0] * p1p[1] - p1p[0] * p0m[1]
                     norm = (p0m[0] ** 2 + p0m[1] ** 2) * (p1p[0] ** 2 + p1p[1] ** 2)
-- 
2.43.0


From 9e2dae02471af44c72a038136c6214e2fd53ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 51/68] fix: custom and smooth ends failed on flexible paths of
 two distinct points given repeatedly

---
 gdspy/path.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index a461ed8..7cd875e 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -414,11 +414,19 @@ class FlexPath(object):
             return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
+            un = self.points[1:] - self.points[:-1]
+            un2 = un[:, 0] ** 2 + un[:, 1] ** 2
+            if not un2.all():
+                nz = [0]
+                nz.extend(un2.nonzero()[0] + 1)
+                self.points = self.points[nz, :]
+                self.widths = self.widths[nz, :]
+                self.offsets = self.offsets[nz, :]
+                if self.points.shape[0] < 2:
+                    return {} if by_spec else []
             if self.points.shape[0] == 2:
                 # Common case: single path with 2 points
                 un = self.points[1] - self.points[0]
-                if un[0] == 0 and un[1] == 0:
-                    return {} if by_spec else []
                 un = un[::-1] * _mpone / (un[0] ** 2 + un[1] ** 2) ** 0.5
                 for kk in range(self.n):
                     end = self.ends[kk]
@@ -599,16 +607,6 @@ class FlexPath(object):
                 # More than 1 path or more than 2 points
                 un = self.points[1:] - self.points[:-1]
                 un2 = un[:, 0] ** 2 + un[:, 1] ** 2
-                if not un2.all():
-                    nz = [0]
-                    nz.extend(un2.nonzero()[0] + 1)
-                    self.points = self.points[nz, :]
-                    self.widths = self.widths[nz, :]
-                    self.offsets = self.offsets[nz, :]
-                    if self.points.shape[0] < 2:
-                        return {} if by_spec else []
-                    un = self.points[1:] - self.points[:-1]
-                    un2 = un[:, 0] ** 2 + un[:, 1] ** 2
                 un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
                 for kk in range(self.n):
                     corner = self.corners[kk]
-- 
2.43.0


From 711d023156b92ba870cc107e8d0191c3f86143f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 52/68] fix: round corners of tapered flexible paths were drawn
 on the opposite side

---
 gdspy/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 7cd875e..47d6d01 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -754,7 +754,8 @@ class FlexPath(object):
                                     p = 0.5 * (p0 + v0 * u0 + p1 + v1 * u1)
                                 if corner == "miter":
                                     arms[ii].append(p)
-                                elif u0 <= 0 and u1 >= 0:
+                                elif (u0 <= 0 and u1 >= 0) or sign * den > 0:
+                                    # Inner side of the corner
                                     arms[ii].append(p)
                                 elif corner == "bevel":
                                     arms[ii].append(p0)
-- 
2.43.0


From 6ab6a456290d3068e1d4f30eb8cf197576b9f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 53/68] fix: circular bends with radius smaller than half of
 the width raised ValueError

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 47d6d01..2e40fa4 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -720,7 +720,7 @@ class FlexPath(object):
                                         2,
                                         1
                                         + int(
-                                            da / numpy.arccos(max(-1, 1 - self.tolerance / r))
+                                            da / numpy.arccos(max(-1, 1 - self.tolerance / abs(r)))
                                             + 0.5
                                         ),
                                     )
-- 
2.43.0


From f31e8be9243fde5bee5341e1a6418278ccab6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 54/68] fix: arcs of flexible paths ignored elements with
 negative offsets in the choice of the number of points

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 2e40fa4..5627ac9 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1440,7 +1440,7 @@ class FlexPath(object):
         else:
             off = self.offsets[-1] + offset
         rmax = radius + max(
-            (self.offsets[-1] + self.widths[-1]).max(), (off + wid).max()
+            (abs(self.offsets[-1]) + self.widths[-1]).max(), (abs(off) + wid).max()
         )
         np = max(
             3,
-- 
2.43.0


From 8403c8522d2e0d62725c8e4147de74788b468949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 55/68] fix: queries and writing removed repeated points from
 flexible paths

---
 gdspy/path.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 5627ac9..386a144 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -419,12 +419,14 @@ class FlexPath(object):
             if not un2.all():
                 nz = [0]
                 nz.extend(un2.nonzero()[0] + 1)
-                self.points = self.points[nz, :]
-                self.widths = self.widths[nz, :]
-                self.offsets = self.offsets[nz, :]
-                if self.points.shape[0] < 2:
-                    return {} if by_spec else []
-            if self.points.shape[0] == 2:
+                # Repeated points are ignored, but not removed from the path
+                path = libcopy.copy(self)
+                path.points = self.points[nz, :]
+                path.widths = self.widths[nz, :]
+                path.offsets = self.offsets[nz, :]
+                path._polygon_dict = None
+                self._polygon_dict = path.get_polygons(True)
+            elif self.points.shape[0] == 2:
                 # Common case: single path with 2 points
                 un = self.points[1] - self.points[0]
                 un = un[::-1] * _mpone / (un[0] ** 2 + un[1] ** 2) ** 0.5
@@ -997,13 +999,13 @@ class FlexPath(object):
         if not un2.all():
             nz = [0]
             nz.extend(un2.nonzero()[0] + 1)
-            self.points = self.points[nz, :]
-            self.widths = self.widths[nz, :]
-            self.offsets = self.offsets[nz, :]
-            if len(self.points) < 2:
-                return
-            un = self.points[1:] - self.points[:-1]
-            un2 = un[:, 0] ** 2 + un[:, 1] ** 2
+            # Repeated points are ignored, but not removed from the path
+            path = libcopy.copy(self)
+            path.points = self.points[nz, :]
+            path.widths = self.widths[nz, :]
+            path.offsets = self.offsets[nz, :]
+            path.to_gds(outfile, multiplier)
+            return
         un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
         for ii in range(self.n):
             pathtype = (
-- 
2.43.0


From 03a4e38f7b581571bf3a500f70a4f310012e1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 56/68] fix: smooth curves through a single new point without
 angles raised LinAlgError

---
 gdspy/hobby.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/hobby.py b/gdspy/hobby.py
index cb1923e..9dd99cf 100644
--- a/gdspy/hobby.py
+++ b/gdspy/hobby.py
@@ -210,7 +210,11 @@ def _hobby(points, angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle
                 coef[2 * nn - 1] = phi[j - 1]
                 m[2 * nn - 1, nn - 1] = 0
                 m[2 * nn - 1, 2 * nn - 1] = 1
-            if nn > 1 or angles[i] is None or angles[j] is None:
+            if nn == 1 and angles[i] is None and angles[j] is None:
+                # Straight segment
+                theta[i] = 0
+                phi[i] = 0
+            elif nn > 1 or angles[i] is None or angles[j] is None:
                 # print("range:", i, j)
                 # print("A =", m)
                 # print("b =", coef)
-- 
2.43.0


From 741bfda36309c0339023be6c1547906db2d1a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 57/68] fix: scaling robust paths with absolute width also
 scaled their width in polygons and evaluations

---
 gdspy/path.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 386a144..a00dbd1 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -65,6 +65,10 @@ def _func_offset(f, a):
     return lambda u: f(u) + a
 
 
+def _func_scale(f, a):
+    return lambda u: f(u) * a
+
+
 def _func_bezier(ctrl, nargs=1):
     if nargs == 1:
 
@@ -2548,6 +2552,8 @@ class RobustPath(object):
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
+                if self.gdsii_path and not self.width_transform:
+                    sub.wid = _func_scale(sub.wid, 1.0 / abs(scale))
                 sub.translate(c0)
         return self
 
@@ -2594,6 +2600,8 @@ class RobustPath(object):
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
+                    if self.gdsii_path and not self.width_transform:
+                        sub.wid = _func_scale(sub.wid, 1.0 / abs(scale))
         if array_trans is not None:
             self.x = self.x + array_trans
             for path in self.paths:
-- 
2.43.0


From 313c9e224e4ab8f936db504ee1261a9450ae0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 58/68] fix: robust paths slanted the section before a sudden
 change of width or offset between parallel sections

---
 gdspy/path.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index a00dbd1..62d7e72 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2142,6 +2142,9 @@ class RobustPath(object):
                         if u1 >= 0:
                             if u0 <= 1:
                                 path_arm.extend(sub0.points(start, u0, arm)[:-1])
+                                if den ** 2 < lim and dx ** 2 + dy ** 2 > tol:
+                                    # Parallel sections are joined by a step
+                                    path_arm.append(p0)
                             else:
                                 path_arm.extend(sub0.points(start, 1, arm))
                                 warnings.warn(
@@ -2351,6 +2354,9 @@ class RobustPath(object):
                 if u1 >= 0:
                     if u0 <= 1:
                         points.extend(sub0.points(start, u0, 0)[:-1])
+                        if den ** 2 < lim and dx ** 2 + dy ** 2 > tol:
+                            # Parallel sections are joined by a step
+                            points.append(p0)
                     else:
                         points.extend(sub0.points(start, 1, 0))
                         warnings.warn(
-- 
2.43.0


From 33d6650f1a77e814a9a7d6d34f7d164beb3a7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 59/68] fix: robust paths ran away at joints whose sections are
 parallel up to the precision of the numerical directions

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 62d7e72..9020106 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2101,7 +2101,7 @@ class RobustPath(object):
                         v1 = sub1.grad(0, arm)
                         den = v1[1] * v0[0] - v1[0] * v0[1]
                         lim = (
-                            1e-12
+                            1e-6
                             * (v0[0] ** 2 + v0[1] ** 2)
                             * (v1[0] ** 2 + v1[1] ** 2)
                         )
@@ -2316,7 +2316,7 @@ class RobustPath(object):
                 p1 = sub1(0, 0)
                 v1 = sub1.grad(0, 0)
                 den = v1[1] * v0[0] - v1[0] * v0[1]
-                lim = 1e-12 * (v0[0] ** 2 + v0[1] ** 2) * (v1[0] ** 2 + v1[1] ** 2)
+                lim = 1e-6 * (v0[0] ** 2 + v0[1] ** 2) * (v1[0] ** 2 + v1[1] ** 2)
                 dx = p1[0] - p0[0]
                 dy = p1[1] - p0[1]
                 if den ** 2 < lim or dx ** 2 + dy ** 2 <= tol:
-- 
2.43.0


From a7133b1693e05691dc7305e93b4118a50476ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 60/68] fix: keep rotations and magnifications exact in SVG
 output

The precision argument is the number of digits of coordinates; rounding
angles and scale factors with it moves whole cells by large distances.
---
 gdspy/label.py   |  8 ++------
 gdspy/library.py | 16 ++++------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/gdspy/label.py b/gdspy/label.py
index 3710c6a..6e6069a 100644
--- a/gdspy/label.py
+++ b/gdspy/label.py
@@ -290,17 +290,13 @@ class Label(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    -self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(-self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
         if self.magnification is not None:
             transform += " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         ta = ["start", "middle", "end"][self.anchor % 4]
         da = ["text-before-edge", "central", "text-after-edge"][self.anchor // 4]
diff --git a/gdspy/library.py b/gdspy/library.py
index 65c64ba..dbda293 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1254,17 +1254,13 @@ class CellReference(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
         if self.magnification is not None:
             transform += " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         outfile.write('<use transform="')
         outfile.write(transform)
@@ -1832,9 +1828,7 @@ class CellArray(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
@@ -1842,9 +1836,7 @@ class CellArray(object):
             ""
             if self.magnification is None
             else " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         )
         for ii in range(self.columns):
-- 
2.43.0


From 04dd00c170c99027dcff6260f73504eafa16fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 61/68] fix: escape cell names in SVG identifiers

Names with XML special characters made the document invalid and '#' was
turned into '_', which could join two different cells.
---
 gdspy/library.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index dbda293..a666fd6 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -63,6 +63,15 @@ Globally disable add newly-created cells to the current_library.
 """
 
 
+def _svg_id(name):
+    """
+    SVG identifier for a cell name, distinct for distinct names.
+    """
+    name = name.replace(".", ".2E").replace("#", ".23")
+    name = name.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
+    return name.replace('"', "&quot;")
+
+
 class Cell(object):
     """
     Collection of polygons, paths, labels and raferences to other cells.
@@ -890,7 +899,7 @@ class Cell(object):
             Additional attributes to set for the cell group.
         """
         outfile.write('<g id="')
-        outfile.write(self.name.replace("#", "_"))
+        outfile.write(_svg_id(self.name))
         outfile.write('" ')
         outfile.write(attributes)
         outfile.write(">\n")
@@ -1265,7 +1274,7 @@ class CellReference(object):
         outfile.write('<use transform="')
         outfile.write(transform)
         outfile.write('" xlink:href="#')
-        outfile.write(name.replace("#", "_"))
+        outfile.write(_svg_id(name))
         outfile.write('"/>\n')
 
     def area(self, by_spec=False):
@@ -1857,7 +1866,7 @@ class CellArray(object):
                 )
                 outfile.write(mag)
                 outfile.write('" xlink:href="#')
-                outfile.write(name.replace("#", "_"))
+                outfile.write(_svg_id(name))
                 outfile.write('"/>\n')
 
     def area(self, by_spec=False):
-- 
2.43.0


From c3876150600718f39db920ef06d4afbc9cbeb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 62/68] fix: references kept the origin and spacing arrays of
 the caller

Changing the array or list afterwards moved the references already created.
---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index a666fd6..4d7e240 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1132,7 +1132,7 @@ class CellReference(object):
         x_reflection=False,
         ignore_missing=False,
     ):
-        self.origin = origin
+        self.origin = libcopy.copy(origin)
         self.ref_cell = ref_cell
         self.rotation = rotation
         self.magnification = magnification
@@ -1654,8 +1654,8 @@ class CellArray(object):
     ):
         self.columns = columns
         self.rows = rows
-        self.spacing = spacing
-        self.origin = origin
+        self.spacing = libcopy.copy(spacing)
+        self.origin = libcopy.copy(origin)
         self.ref_cell = ref_cell
         self.rotation = rotation
         self.magnification = magnification
-- 
2.43.0


From 78b393f52319665677e359fd6409ee0d8b21d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 63/68] fix: references of deep copies of a cell shared their
 origin and spacing with the original

---
 gdspy/library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 4d7e240..20c0adc 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -250,6 +250,9 @@ class Cell(object):
         new_cell.references = [libcopy.copy(ref) for ref in self.references]
         for ref in new_cell.references:
             ref.properties = libcopy.copy(ref.properties)
+            ref.origin = libcopy.copy(ref.origin)
+            if isinstance(ref, CellArray):
+                ref.spacing = libcopy.copy(ref.spacing)
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From a3591802612e91feb3e07b299906061b887af0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 64/68] fix: clipper.inside read past the end of an empty list
 of groups

---
 gdspy/clipper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 08979e2..f396104 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -5103,7 +5103,7 @@ static PyObject* inside(PyObject *self, PyObject *args)
   if (short_circuit == 0)
   {
     // No short-circuit
-    unsigned long numpoints = groups[0].size();
+    unsigned long numpoints = numgroups > 0 ? groups[0].size() : 0;
     cInt all_bb[4] = {1, 0, 1, 0};
 
     if (numpolygons > 0)
-- 
2.43.0


From 3ac3dd0603b6ef6349c8e953cb450cc22f661809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 65/68] fix: sequences without length or with unreadable items
 crashed clipper

---
 gdspy/clipper.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f396104..78ba1af 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4722,6 +4722,7 @@ short parse_polygon_set(PyObject *polyset, Paths &paths, double scaling, bool ch
   PyObject *py_polygon;
   long num = PySequence_Length(polyset);
 
+  if (num < 0) return -1;
   paths.resize(num);
   for (long i = 0; i < num; ++i)
   {
@@ -5236,7 +5237,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
     PyErr_SetString(PyExc_TypeError, "Positions must be a sequence.");
     return NULL;
   }
-  num_cuts = PySequence_Length(positions);
+  if ((num_cuts = PySequence_Length(positions)) < 0) return NULL;
 
   if ((returntuple = PyTuple_New(num_cuts + 1)) == NULL) return NULL;
 
@@ -5248,7 +5249,11 @@ static PyObject* chop(PyObject *self, PyObject *args)
       clip[0][0].X = clip[0][3].X = pos;
       if (i < num_cuts)
       {
-        position = PySequence_ITEM(positions, i);
+        if ((position = PySequence_ITEM(positions, i)) == NULL)
+        {
+          Py_DECREF(returntuple);
+          return NULL;
+        }
         pos = clamped_round(scaling * PyFloat_AsDouble(position));
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
@@ -5269,7 +5274,11 @@ static PyObject* chop(PyObject *self, PyObject *args)
       clip[0][0].Y = clip[0][1].Y = pos;
       if (i < num_cuts)
       {
-        position = PySequence_ITEM(positions, i);
+        if ((position = PySequence_ITEM(positions, i)) == NULL)
+        {
+          Py_DECREF(returntuple);
+          return NULL;
+        }
         pos = clamped_round(scaling * PyFloat_AsDouble(position));
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
-- 
2.43.0


From 210c14eca4ce9e60297989d9e6624c780b727560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 66/68] fix: clipper went on reading points after an invalid
 coordinate

Python code ran with an exception pending (SystemError, or an assertion in
debug builds).
---
 gdspy/clipper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 78ba1af..b2cbb19 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4682,6 +4682,11 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     }
     double x = PyFloat_AsDouble(py_coord);
     Py_DECREF(py_coord);
+    if (PyErr_Occurred() != NULL)
+    {
+      Py_DECREF(py_point);
+      return -1;
+    }
 
     if ((py_coord = PySequence_GetItem(py_point, 1)) == NULL)
     {
-- 
2.43.0


From ff0d5f1e1998ec51fe4e545fd64b81838051a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 67/68] revert: 97edb1d repaired nothing (warnings was imported
 already)

---
 gdspy/gdsiiformat.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 8f75587..0d5b4fc 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -34,7 +34,6 @@ else:
     basestring = str
 
 import struct
-import warnings
 import numpy
 import hashlib
 
-- 
2.43.0


From 2d86280055e751a73095c1e106b8dfdaf132943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:28 +0000
Subject: [PATCH 68/68] fix: flexible paths gave invalid polygons or failed
 when a section had no length after the offset

---
 gdspy/path.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 9020106..0ff01f9 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -646,7 +646,16 @@ class FlexPath(object):
                         pts[-1] = sb[-1]
                     else:
                         pts = self.points
+                    widths = self.widths[:, kk]
                     vn = pts[1:] - pts[:-1]
+                    if not all(numpy.any(vn != 0, axis=1)):
+                        # Sections without length after the offset
+                        keep = numpy.hstack((True, numpy.any(vn != 0, axis=1)))
+                        if sum(keep) < 2:
+                            continue
+                        pts = pts[keep]
+                        widths = widths[keep]
+                        vn = pts[1:] - pts[:-1]
                     vn = (
                         vn[:, ::-1]
                         * _mpone
@@ -658,19 +667,17 @@ class FlexPath(object):
                     caps = [[], []]
                     for ii in (0, 1):
                         sign = -1 if ii == 0 else 1
-                        pa = pts[:-1] + vn * (
-                            sign * 0.5 * self.widths[:-1, kk : kk + 1]
-                        )
-                        pb = pts[1:] + vn * (sign * 0.5 * self.widths[1:, kk : kk + 1])
+                        pa = pts[:-1] + vn * (sign * 0.5 * widths[:-1, numpy.newaxis])
+                        pb = pts[1:] + vn * (sign * 0.5 * widths[1:, numpy.newaxis])
                         vec = pb - pa
                         caps[0].append(pa[0])
                         caps[1].append(pb[-1])
-                        for jj in range(1, self.points.shape[0] - 1):
+                        for jj in range(1, pts.shape[0] - 1):
                             p0 = pb[jj - 1]
                             v0 = vec[jj - 1]
                             p1 = pa[jj]
                             v1 = vec[jj]
-                            half_w = 0.5 * self.widths[jj, kk]
+                            half_w = 0.5 * widths[jj]
                             if corner == "natural":
                                 v0 = v0 * (half_w / (v0[0] ** 2 + v0[1] ** 2) ** 0.5)
                                 v1 = v1 * (half_w / (v1[0] ** 2 + v1[1] ** 2) ** 0.5)
@@ -740,7 +747,7 @@ class FlexPath(object):
                                     arms[ii].extend(points - points[0] + p0 - d * v0)
                             elif callable(corner):
                                 arms[ii].extend(
-                                    corner(p0, v0, p1, v1, pts[jj], self.widths[jj, kk])
+                                    corner(p0, v0, p1, v1, pts[jj], widths[jj])
                                 )
                             else:
                                 den = v1[1] * v0[0] - v1[0] * v0[1]
@@ -862,7 +869,7 @@ class FlexPath(object):
                                 caps[ii] = fu
                             elif end == "round":
                                 v = pts[0] - pts[1] if ii == 0 else pts[-1] - pts[-2]
-                                r = 0.5 * self.widths[-ii, kk]
+                                r = 0.5 * widths[-ii]
                                 np = max(
                                     5,
                                     1
@@ -883,7 +890,7 @@ class FlexPath(object):
                                 v = pts[0] - pts[1] if ii == 0 else pts[-1] - pts[-2]
                                 v = v / (v[0] ** 2 + v[1] ** 2) ** 0.5
                                 w = (2 * ii - 1) * v[::-1] * _pmone
-                                r = 0.5 * self.widths[-ii, kk]
+                                r = 0.5 * widths[-ii]
                                 d = r if end == "extended" else end[ii]
                                 caps[ii] = [
                                     pts[-ii] + r * w,
-- 
2.43.0

