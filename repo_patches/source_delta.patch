From f77f34c04ab062ff9e2cc26f9ed1be8be28193f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 01/44] fix: exact base-16 exponent in _eight_byte_real

numpy.log2 rounds up for values just below a power of 16, which gave a
denormalised mantissa and lost the last bits of the number.
---
 gdspy/gdsiiformat.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 3747391..6520690 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -145,10 +145,8 @@ def _eight_byte_real(value):
         value = -value
     else:
         byte1 = 0x00
-    fexp = numpy.log2(value) / 4
-    exponent = int(numpy.ceil(fexp))
-    if fexp == exponent:
-        exponent += 1
+    # frexp is exact, whereas log2 rounds up values just below a power of 16
+    exponent = (int(numpy.frexp(value)[1]) + 3) // 4
     mantissa = int(value * 16.0 ** (14 - exponent))
     byte1 += exponent + 64
     byte2 = mantissa // 281474976710656
-- 
2.43.0


From c31121c170cfb74dc1ee0eee581fc574e2dacae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 02/44] fix: FlexPath.transform scales custom end extensions

---
 gdspy/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 20c02f7..dcb1415 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1296,6 +1296,10 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            for i, end in enumerate(self.ends):
+                # CustomPlus created by bgnextn and endextn
+                if isinstance(end, tuple):
+                    self.ends[i] = tuple([e * scale for e in end])
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
-- 
2.43.0


From cfa5be40179de6677a1d4723db2fbff2069decc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 03/44] fix: Path.scale also scales the distance between lines
 and the length

---
 gdspy/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ab37ab3..08a7135 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1193,6 +1193,8 @@ class Path(PolygonSet):
         self.x = (self.x - c0[0]) * scalex + c0[0]
         self.y = (self.y - c0[1]) * (scalex if scaley is None else scaley) + c0[1]
         self.w *= scalex
+        self.distance *= scalex
+        self.length *= scalex
         return self
 
     def mirror(self, p1, p2=(0, 0)):
-- 
2.43.0


From 34eb515bbf0941125a6eaa5ea475f778b3ed24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 04/44] fix: RobustPath.to_gds rounds coordinates instead of
 truncating them

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index dcb1415..ee35d7d 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2323,7 +2323,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = (numpy.array(points) * multiplier).astype(">i4")
+            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
-- 
2.43.0


From 6b513e61dab1f1f51268f4384647c5819646e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 05/44] fix: RobustPath.turn starts in the current
 (transformed) direction

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index ee35d7d..4160fd6 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2746,7 +2746,7 @@ class RobustPath(object):
         angle = _angle_dict.get(angle, angle)
         initial_angle = 0
         for p in self.paths:
-            v = p[i].grad(1, 0, False)
+            v = p[i].grad(1, 0)
             initial_angle += numpy.arctan2(v[1], v[0])
         initial_angle = initial_angle / len(self.paths) + (
             _halfpi if angle < 0 else -_halfpi
-- 
2.43.0


From cf399e6f0ee7e36691cd564e53748f11e7398e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 06/44] fix: RobustPath.transform does not magnify the array
 displacement

---
 gdspy/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 4160fd6..d05df3c 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2528,6 +2528,8 @@ class RobustPath(object):
         """
         self._polygon_dict = None
         if array_trans is not None:
+            if scale is not None:
+                array_trans = array_trans / scale
             self.x = self.x + array_trans
             for path in self.paths:
                 for sub in path:
-- 
2.43.0


From f8e4373cb3364f8c857475a6fa969bf240d4da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 07/44] fix: RobustPath.scale and transform scale custom end
 extensions

---
 gdspy/path.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index d05df3c..fb12b17 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2492,6 +2492,9 @@ class RobustPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
         self.offsets = [off * scale for off in self.offsets]
+        for i, end in enumerate(self.ends):
+            if isinstance(end, tuple):
+                self.ends[i] = tuple([e * scale for e in end])
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
@@ -2546,6 +2549,9 @@ class RobustPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = [wid * scale for wid in self.widths]
             self.offsets = [off * scale for off in self.offsets]
+            for i, end in enumerate(self.ends):
+                if isinstance(end, tuple):
+                    self.ends[i] = tuple([e * scale for e in end])
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
-- 
2.43.0


From 5516768248351ffcf0f8b960d34683a4b8aa4d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 08/44] fix: RobustPath.transform keeps widths positive under
 reflection

---
 gdspy/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index fb12b17..baa2dcd 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -106,6 +106,11 @@ class _SubPath(object):
         return "SubPath ({} - {})".format(self(0, 1e-6, 0), self(1, 1e-6, 0))
 
     def __call__(self, u, arm, transform=True):
+        if transform:
+            t = self.transform
+            if t[0, 0] * t[1, 1] < t[0, 1] * t[1, 0]:
+                # reflection exchanges left and right
+                arm = -arm
         v = self.dx(u, self.h)[::-1] * _pmone
         v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
         x = self.x(u) + self.off(u) * v
@@ -2539,7 +2544,6 @@ class RobustPath(object):
                     sub.translate(array_trans)
         if x_reflection:
             self.x = numpy.array((self.x[0], -self.x[1]))
-            self.widths = [wid * -1 for wid in self.widths]
             self.offsets = [off * -1 for off in self.offsets]
             for path in self.paths:
                 for sub in path:
-- 
2.43.0


From be5cf026e82f6a09c337f01b0ee8cabd664133b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 09/44] fix: RobustPath does not modify the width and offset
 lists it is given

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index baa2dcd..251ead7 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1833,9 +1833,9 @@ class RobustPath(object):
         self._polygon_dict = None
         if isinstance(width, list):
             self.n = len(width)
-            self.widths = width
+            self.widths = list(width)
             if isinstance(offset, list):
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.offsets = [
                     (i - 0.5 * (self.n - 1)) * offset for i in range(self.n)
@@ -1843,7 +1843,7 @@ class RobustPath(object):
         else:
             if isinstance(offset, list):
                 self.n = len(offset)
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.n = 1
                 self.offsets = [offset]
-- 
2.43.0


From e21d5c8cb2c11beb9b4c1fd0d3fa42fc7c0b47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 10/44] fix: FlexPath and RobustPath.get_polygons return copies
 of the cached polygons

---
 gdspy/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 251ead7..a3ae3aa 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -918,7 +918,9 @@ class FlexPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return libcopy.deepcopy(
+                list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            )
 
     def to_polygonset(self):
         """
@@ -2172,7 +2174,9 @@ class RobustPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return libcopy.deepcopy(
+                list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            )
 
     def to_polygonset(self):
         """
-- 
2.43.0


From 326f7f86fe7ac43c79700bc82652448d6ac9396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 11/44] fix: empty flexible and robust paths have no polygons,
 area or bounding box

---
 gdspy/library.py |  4 +++-
 gdspy/path.py    | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad0b83a..7c10936 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -566,7 +566,9 @@ class Cell(object):
             for polygon in self.polygons:
                 all_polygons.extend(polygon.polygons)
             for path in self.paths:
-                all_polygons.extend(path.to_polygonset().polygons)
+                path_polygons = path.to_polygonset()
+                if path_polygons is not None:
+                    all_polygons.extend(path_polygons.polygons)
             for reference in self.references:
                 reference_bb = reference.get_bounding_box()
                 if reference_bb is not None:
diff --git a/gdspy/path.py b/gdspy/path.py
index a3ae3aa..3beb154 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -409,6 +409,8 @@ class FlexPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if self.points.shape[0] < 2:
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             if self.points.shape[0] == 2:
@@ -964,7 +966,7 @@ class FlexPath(object):
             A number that multiplies all dimensions written in the GDSII
             elements.
         """
-        if len(self.points) == 0:
+        if len(self.points) < 2:
             return
         if self.gdsii_path:
             sign = 1 if self.width_transform else -1
@@ -1179,7 +1181,10 @@ class FlexPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
@@ -1992,6 +1997,8 @@ class RobustPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if len(self.paths[0]) == 0:
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             for path, end, layer, datatype in zip(
@@ -2420,7 +2427,10 @@ class RobustPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygonset = self.to_polygonset()
+        if polygonset is None:
+            return {} if by_spec else 0
+        return polygonset.area(by_spec)
 
     def translate(self, dx, dy):
         """
-- 
2.43.0


From b57b2c5cf8e26c6e4e2ff1c99003228c2c39fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 12/44] fix: layer, datatype and texttype queries follow
 references and skip missing cells

---
 gdspy/library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 7c10936..e67e0a7 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -486,7 +486,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             layers.update(element.layers)
         for reference in self.references:
-            layers.update(reference.ref_cell.get_layers())
+            if isinstance(reference.ref_cell, Cell):
+                layers.update(reference.ref_cell.get_layers())
         for label in self.labels:
             layers.add(label.layer)
         return layers
@@ -504,7 +505,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             datatypes.update(element.datatypes)
         for reference in self.references:
-            datatypes.update(reference.ref_cell.get_datatypes())
+            if isinstance(reference.ref_cell, Cell):
+                datatypes.update(reference.ref_cell.get_datatypes())
         return datatypes
 
     def get_texttypes(self):
@@ -518,7 +520,8 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_textypes())
+            if isinstance(reference.ref_cell, Cell):
+                texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 99e50074cd1826068b8be1cf95c8bdd5d4e0edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 13/44] fix: remove_polygons keeps the polygon and tag lists of
 its elements as lists

---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index e67e0a7..0e61355 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -375,9 +375,9 @@ class Cell(object):
                 pass  # we don't need no empty polygons!
             else:
                 polys, layers, dts = zip(*pld)
-                element.polygons = polys
-                element.layers = layers
-                element.datatypes = dts
+                element.polygons = list(polys)
+                element.layers = list(layers)
+                element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
         return self
-- 
2.43.0


From 4e7ceec0c54980e006f7a33e4f154ca7a48f630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 14/44] fix: Cell.flatten changes the texttype of labels only
 when one is given

---
 gdspy/library.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 0e61355..6700a4c 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -826,14 +826,10 @@ class Cell(object):
             This cell.
         """
         self.labels = self.get_labels()
-        if single_layer is not None and single_datatype is not None:
-            for lbl in self.labels:
-                lbl.layer = single_layer
-                lbl.texttype = single_texttype
-        elif single_layer is not None:
+        if single_layer is not None:
             for lbl in self.labels:
                 lbl.layer = single_layer
-        elif single_datatype is not None:
+        if single_texttype is not None:
             for lbl in self.labels:
                 lbl.texttype = single_texttype
         self.polygons = self.get_polygonsets()
-- 
2.43.0


From 69b4d240bd43eee686ac91b62381401065c12d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 15/44] fix: Cell.flatten drops path polygons cached under the
 old layers

---
 gdspy/library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 6700a4c..ccb696e 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -851,6 +851,10 @@ class Cell(object):
                 poly.datatypes = [single_datatype] * len(poly.polygons)
             for path in self.paths:
                 path.datatypes = [single_datatype] * path.n
+        if single_layer is not None or single_datatype is not None:
+            for path in self.paths:
+                # polygons calculated earlier are grouped by the old specification
+                path._polygon_dict = None
         self.references = []
         return self
 
-- 
2.43.0


From 66c76d6d36c871dd4ddb1c80f37ea1ec1518db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 16/44] fix: polygons of a missing cell are an empty list when
 filtered by specification

---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ccb696e..aa81290 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1368,7 +1368,7 @@ class CellReference(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(polygons)
 
@@ -1915,7 +1915,7 @@ class CellArray(object):
                     for jj in range(self.rows):
                         spc = numpy.array([self.spacing[0] * ii, self.spacing[1] * jj])
                         for points in polygons[kk]:
-                            if self.magnification:
+                            if self.magnification is not None:
                                 out_polygons[kk].append(points * mag + spc)
                             else:
                                 out_polygons[kk].append(points + spc)
@@ -1978,7 +1978,7 @@ class CellArray(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         cell_polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(cell_polygons)
 
-- 
2.43.0


From 3c3212010539b784b2948da5a960f284275ce1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 17/44] fix: bounding box of a cell follows changes in its
 dependencies

---
 gdspy/library.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index aa81290..c6f86d2 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -561,9 +561,9 @@ class Cell(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
-        deps_still_valid = all(ref._bb_valid for ref in self.get_dependencies(True))
-        cached_bbox_still_valid = self._bb_valid and deps_still_valid
-        if not cached_bbox_still_valid:
+        # Only the box of the cell's own geometry is cached: referenced cells can
+        # change at any time.
+        if not self._bb_valid:
             bb = numpy.array(((1e300, 1e300), (-1e300, -1e300)))
             all_polygons = []
             for polygon in self.polygons:
@@ -572,10 +572,6 @@ class Cell(object):
                 path_polygons = path.to_polygonset()
                 if path_polygons is not None:
                     all_polygons.extend(path_polygons.polygons)
-            for reference in self.references:
-                reference_bb = reference.get_bounding_box()
-                if reference_bb is not None:
-                    all_polygons.append(reference_bb)
             if len(all_polygons) > 0:
                 all_points = numpy.concatenate(all_polygons).transpose()
                 bb[0, 0] = min(bb[0, 0], all_points[0].min())
@@ -587,11 +583,16 @@ class Cell(object):
                 self._bounding_box = None
             self._bb_valid = True
 
-        if self._bounding_box is None:
+        boxes = [] if self._bounding_box is None else [self._bounding_box]
+        for reference in self.references:
+            reference_bb = reference.get_bounding_box()
+            if reference_bb is not None:
+                boxes.append(reference_bb)
+        if len(boxes) == 0:
             return None
-        else:
-            # return a *copy* of the cached bounding box to ensure it doesn't get inadvertently modified
-            return numpy.array(self._bounding_box)
+        # never return the cached array itself
+        corners = numpy.concatenate(boxes)
+        return numpy.array((corners.min(axis=0), corners.max(axis=0)))
 
     def get_polygons(self, by_spec=False, depth=None):
         """
-- 
2.43.0


From c63a027a7899f9ca4a7e162de6091085724d6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 18/44] fix: removing polygons or paths and flattening
 invalidate the cached bounding box

---
 gdspy/library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index c6f86d2..1ee0d0a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -380,6 +380,7 @@ class Cell(object):
                 element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
+        self._bb_valid = False
         return self
 
     def remove_paths(self, test):
@@ -407,6 +408,7 @@ class Cell(object):
                 self.paths.pop(ii)
             else:
                 ii += 1
+        self._bb_valid = False
         return self
 
     def remove_labels(self, test):
@@ -857,6 +859,7 @@ class Cell(object):
                 # polygons calculated earlier are grouped by the old specification
                 path._polygon_dict = None
         self.references = []
+        self._bb_valid = False
         return self
 
     def to_svg(self, outfile, scaling, precision, attributes):
-- 
2.43.0


From 0c5d5c6b9ca2a8d39678214f05fd9af9b090aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 19/44] fix: GdsLibrary.add refuses name clashes before
 changing the library

---
 gdspy/library.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 1ee0d0a..b10e6b9 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2374,8 +2374,10 @@ class GdsLibrary(object):
             if include_dependencies:
                 for c in cell:
                     cell_set.update(c.get_dependencies(True))
+        # Check all names before changing the library
+        names = set()
         for c in cell_set:
-            if (
+            if c.name in names or (
                 not overwrite_duplicate
                 and c.name in self.cells
                 and self.cells[c.name] is not c
@@ -2383,6 +2385,8 @@ class GdsLibrary(object):
                 raise ValueError(
                     "[GDSPY] Cell named {0} already present in library.".format(c.name)
                 )
+            names.add(c.name)
+        for c in cell_set:
             if (
                 overwrite_duplicate
                 and update_references
-- 
2.43.0


From 4165ea693506f8dba1ecae191e4a9603e16e3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 20/44] fix: Cell.copy composes reflections and scales array
 spacings

---
 gdspy/library.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index b10e6b9..23ac8e6 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -258,7 +258,7 @@ class Cell(object):
                 path.transform(translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
-                r0 = -1 if lbl.x_reflection is None else 1
+                r0 = -1 if lbl.x_reflection else 1
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
@@ -275,7 +275,7 @@ class Cell(object):
                 lbl.x_reflection = r * r0 < 0
 
             for ref in new_cell.references:
-                r0 = -1 if ref.x_reflection is None else 1
+                r0 = -1 if ref.x_reflection else 1
                 s0 = 1 if ref.magnification is None else ref.magnification
                 t0 = 0 if ref.rotation is None else (ref.rotation * numpy.pi / 180)
                 dx0, dy0 = ref.origin
@@ -290,6 +290,8 @@ class Cell(object):
                 if ref.magnification == 1:
                     ref.magnification = None
                 ref.x_reflection = r * r0 < 0
+                if isinstance(ref, CellArray):
+                    ref.spacing = (s * ref.spacing[0], s * ref.spacing[1])
 
         return new_cell
 
-- 
2.43.0


From 9e4a59b3577853a2ad2f6181e0eb312ea1a5fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 21/44] fix: deep copies of cells do not share the properties
 of references

---
 gdspy/library.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 23ac8e6..50044b9 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -234,7 +234,11 @@ class Cell(object):
         new_cell.polygons = libcopy.deepcopy(self.polygons)
         new_cell.paths = libcopy.deepcopy(self.paths)
         new_cell.labels = libcopy.deepcopy(self.labels)
-        new_cell.references = [libcopy.copy(ref) for ref in self.references]
+        # everything but the referenced cells themselves
+        new_cell.references = [
+            libcopy.deepcopy(ref, {id(ref.ref_cell): ref.ref_cell})
+            for ref in self.references
+        ]
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From 7ae98ac60603cf9fde3a2588235d2850da67b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 22/44] fix: get_labels composes the reflection of a reference
 with the label's own transformation

---
 gdspy/library.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 50044b9..7756340 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1499,8 +1499,10 @@ class CellReference(object):
                         lbl.magnification *= self.magnification
                     else:
                         lbl.magnification = self.magnification
-                if self.x_reflection is not None:
+                if self.x_reflection:
                     lbl.x_reflection = not lbl.x_reflection
+                    if lbl.rotation is not None:
+                        lbl.rotation = -lbl.rotation
                 if self.rotation is not None:
                     if lbl.rotation is not None:
                         lbl.rotation += self.rotation
@@ -2132,8 +2134,10 @@ class CellArray(object):
                                 lbl.magnification *= self.magnification
                             else:
                                 lbl.magnification = self.magnification
-                        if self.x_reflection is not None:
+                        if self.x_reflection:
                             lbl.x_reflection = not lbl.x_reflection
+                            if lbl.rotation is not None:
+                                lbl.rotation = -lbl.rotation
                         if self.rotation is not None:
                             if lbl.rotation is not None:
                                 lbl.rotation += self.rotation
-- 
2.43.0


From 3156f4e3e42ee04633ff86f1e8385158d4b30e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 23/44] fix: accept flexible paths inside operand lists of
 operations

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index ff5d351..f8f38f2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -72,7 +72,7 @@ def _gather_polys(args):
             polys.extend(p.polygons)
         elif (
             isinstance(p, RobustPath)
-            or isinstance(args, FlexPath)
+            or isinstance(p, FlexPath)
             or isinstance(p, CellReference)
             or isinstance(p, CellArray)
         ):
-- 
2.43.0


From 9e3fd89a22d34f2162bc82e79bf313f40904ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 24/44] fix: boolean of two empty operands is empty

---
 gdspy/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index f8f38f2..8ae9738 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -251,9 +251,9 @@ def boolean(
     poly1 = _gather_polys(operand1)
     poly2 = _gather_polys(operand2)
     if len(poly2) == 0:
+        if len(poly1) == 0:
+            return None
         if operation in ["not", "xor"]:
-            if len(poly1) == 0:
-                return None
             return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
         poly2.append(poly1.pop())
     result = clipper.clip(poly1, poly2, operation, 1 / precision)
-- 
2.43.0


From 3d310351e0c9b2dabccb0c55cf790c500a3e9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 25/44] fix: read_gds does not attach properties of unsupported
 elements to the next element

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 7756340..c9e621d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2627,10 +2627,10 @@ class GdsLibrary(object):
                     el = create_element(**kwargs)
                     if len(properties) > 0:
                         el.properties = properties
-                        properties = {}
                     cell.add(el)
                     create_element = None
                 kwargs = {}
+                properties = {}
             # BOUNDARY
             elif record[0] == 0x08:
                 create_element = self._create_polygon
-- 
2.43.0


From 158cff868213fbc27bfd1a420460de40502a5aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 26/44] fix: empty strings in GDSII files are read as empty
 strings

---
 gdspy/gdsiiformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 6520690..80a285c 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -98,6 +98,8 @@ def _record_reader(stream):
                         data = data.decode("ascii")
                 elif data[-1] == "\0":
                     data = data[:-1]
+        elif data_type == 0x06:
+            data = ""
         yield [rec_type, data]
 
 
-- 
2.43.0


From 5897e008a0f5d050482a06f89015ed7f23667c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 27/44] fix: final position of an L1Path that ends downwards

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 08a7135..902273d 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2261,7 +2261,7 @@ class L1Path(PolygonSet):
                 d0 = (number_of_paths - 1) * distance * 0.5 - ii * distance
                 paths[ii][0].append((paths[ii][0][-1][0], self.y - length[-1]))
                 paths[ii][1].append((paths[ii][1][-1][0], self.y - length[-1]))
-            self.y -= length[jj]
+            self.y -= length[-1]
         self.direction = ["+x", "+y", "-x", "-y"][direction]
         self.polygons.extend(numpy.array(p[0] + p[1][::-1]) for p in paths)
         self.layers.extend(layer)
-- 
2.43.0


From 4fbca93226beecc75606f32e31b84f4410cdbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 28/44] fix: L1Path keeps its final position and direction when
 translated, scaled or mirrored

---
 gdspy/polygon.py | 78 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 78 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 902273d..0b11e88 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2278,6 +2278,27 @@ class L1Path(PolygonSet):
             list(set(self.datatypes)),
         )
 
+    def translate(self, dx, dy):
+        """
+        Translate this object.
+
+        Parameters
+        ----------
+        dx : number
+            Distance to move in the x-direction.
+        dy : number
+            Distance to move in the y-direction.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        super().translate(dx, dy)
+        self.x += dx
+        self.y += dy
+        return self
+
     def rotate(self, angle, center=(0, 0)):
         """
         Rotate this object.
@@ -2306,6 +2327,63 @@ class L1Path(PolygonSet):
         ]
         return self
 
+    def scale(self, scalex, scaley=None, center=(0, 0)):
+        """
+        Scale this object.
+
+        Parameters
+        ----------
+        scalex : number
+            Scaling factor along the first axis.
+        scaley : number or None
+            Scaling factor along the second axis.  If None, same as
+            `scalex`.
+        center : array-like[2]
+            Center point for the scaling operation.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+
+        Notes
+        -----
+        The direction of the path is not modified by this method.
+        """
+        super().scale(scalex, scaley, center)
+        self.x = (self.x - center[0]) * scalex + center[0]
+        self.y = (self.y - center[1]) * (
+            scalex if scaley is None else scaley
+        ) + center[1]
+        return self
+
+    def mirror(self, p1, p2=(0, 0)):
+        """
+        Mirror the polygons over a line through points 1 and 2
+
+        Parameters
+        ----------
+        p1 : array-like[2]
+            first point defining the reflection line
+        p2 : array-like[2]
+            second point defining the reflection line
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        super().mirror(p1, p2)
+        vec = numpy.array(p2) - numpy.array(p1)
+        vec_r = vec * (2 / numpy.inner(vec, vec))
+        dot = (self.x - p1[0]) * vec_r[0] + (self.y - p1[1]) * vec_r[1]
+        self.x = dot * vec[0] - self.x + 2 * p1[0]
+        self.y = dot * vec[1] - self.y + 2 * p1[1]
+        if isinstance(self.direction, basestring):
+            self.direction = _directions_dict[self.direction] * numpy.pi
+        self.direction = 2 * numpy.arctan2(vec[1], vec[0]) - self.direction
+        return self
+
 
 class PolyPath(PolygonSet):
     """
-- 
2.43.0


From adde8c2d9e26fde477061e1a0f7c05d41c2e8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 29/44] fix: FlexPath that starts at a single coordinate pair
 has one width and offset per point

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 3beb154..69caf80 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -335,8 +335,8 @@ class FlexPath(object):
         self.points = numpy.array(points)
         if self.points.shape == (2,):
             self.points.resize((1, 2))
-        self.widths = numpy.tile(self.widths, (len(points), 1))
-        self.offsets = numpy.tile(self.offsets, (len(points), 1))
+        self.widths = numpy.tile(self.widths, (self.points.shape[0], 1))
+        self.offsets = numpy.tile(self.offsets, (self.points.shape[0], 1))
         if isinstance(ends, list):
             self.ends = [ends[i % len(ends)] for i in range(self.n)]
         else:
-- 
2.43.0


From 82c3983513ae1073e60edda670b170561b7dbfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 30/44] fix: GdsLibrary.add updates references in all added
 cells

---
 gdspy/library.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index c9e621d..afb309f 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2396,15 +2396,15 @@ class GdsLibrary(object):
                     "[GDSPY] Cell named {0} already present in library.".format(c.name)
                 )
             names.add(c.name)
+        overwritten = []
         for c in cell_set:
-            if (
-                overwrite_duplicate
-                and update_references
-                and c.name in self.cells
-                and self.cells[c.name] is not c
-            ):
-                self.replace_references(c.name, c)
+            if c.name in self.cells and self.cells[c.name] is not c:
+                overwritten.append(c)
             self.cells[c.name] = c
+        # Update references only now, so that the added cells are included
+        if overwrite_duplicate and update_references:
+            for c in overwritten:
+                self.replace_references(c.name, c)
         return self
 
     def remove(self, cell, remove_references=True):
-- 
2.43.0


From b61b527fa3cc36cc4691254a0e3c4cac16172aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 31/44] fix: top_level follows references held by name

---
 gdspy/library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index afb309f..636ec94 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2824,6 +2824,10 @@ class GdsLibrary(object):
         top = set(self)
         for cell in self:
             top.difference_update(cell.get_dependencies())
+            for reference in cell.references:
+                if not isinstance(reference.ref_cell, Cell):
+                    # Reference held by name
+                    top.discard(self.cells.get(reference.ref_cell))
         return list(top)
 
     def rename_cell(self, cell, name, update_references=True):
-- 
2.43.0


From 8aa6baacf572d0bcd57cd674a4681a533fb453aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 32/44] fix: get_binary_cells and get_gds_units accept files
 padded with null bytes

---
 gdspy/gdsiiformat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 80a285c..3c11840 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -123,7 +123,8 @@ def _raw_record_reader(stream):
             return
         size, rec_type = struct.unpack(">HH", header)
         rec_type = rec_type // 256
-        yield (rec_type, header + stream.read(size - 4))
+        # null padding after the last record has size 0
+        yield (rec_type, header + stream.read(size - 4) if size > 4 else header)
 
 
 def _eight_byte_real(value):
-- 
2.43.0


From bf0ebd4e501f9d638ecabaa6256feabd7251c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 33/44] fix: inside test against no polygons or with empty
 groups

---
 gdspy/clipper.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f5a599e..5895198 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4882,6 +4882,12 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 
 cInt bounding_box(Path& points, cInt* bb)
 {
+  if (points.empty())
+  {
+    bb[0] = bb[2] = 0;
+    bb[1] = bb[3] = -1;
+    return 0;
+  }
   bb[0] = points[0].X;
   bb[1] = points[0].X;
   bb[2] = points[0].Y;
@@ -5040,10 +5046,15 @@ static PyObject* inside(PyObject *self, PyObject *args)
     unsigned long numpoints = groups[0].size();
     cInt all_bb[4];
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
+    all_bb[0] = all_bb[2] = 0;
+    all_bb[1] = all_bb[3] = -1;
+    if (numpolygons > 0)
+    {
+      all_bb[0] = polygons_bb[0][0];
+      all_bb[1] = polygons_bb[0][1];
+      all_bb[2] = polygons_bb[0][2];
+      all_bb[3] = polygons_bb[0][3];
+    }
     for (unsigned long p = 1; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
@@ -5094,10 +5105,15 @@ static PyObject* inside(PyObject *self, PyObject *args)
     // Short-circuit: ALL
     cInt all_bb[4];
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
+    all_bb[0] = all_bb[2] = 0;
+    all_bb[1] = all_bb[3] = -1;
+    if (numpolygons > 0)
+    {
+      all_bb[0] = polygons_bb[0][0];
+      all_bb[1] = polygons_bb[0][1];
+      all_bb[2] = polygons_bb[0][2];
+      all_bb[3] = polygons_bb[0][3];
+    }
     for (unsigned long p = 1; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
-- 
2.43.0


From 4e4a57672ff10abeb3606936ecb46d043651d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:46 +0000
Subject: [PATCH 34/44] fix: intersection with an empty operand is empty

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index 8ae9738..955f0b2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -251,7 +251,7 @@ def boolean(
     poly1 = _gather_polys(operand1)
     poly2 = _gather_polys(operand2)
     if len(poly2) == 0:
-        if len(poly1) == 0:
+        if len(poly1) == 0 or operation == "and":
             return None
         if operation in ["not", "xor"]:
             return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
-- 
2.43.0


From 96120b6aa9cb1abce5a8709507f059fe0eebcb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 35/44] fix: arcs of curves deviate by no more than the
 tolerance

---
 gdspy/curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 4559be9..719246f 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -275,7 +275,13 @@ class Curve(object):
         number_of_points = max(
             3,
             1
-            + int(0.5 * full_angle / numpy.arccos(1 - self.tol ** 0.5 / radius) + 0.5),
+            + int(
+                numpy.ceil(
+                    0.5
+                    * full_angle
+                    / numpy.arccos(max(-1, 1 - self.tol ** 0.5 / radius))
+                )
+            ),
         )
         angles = numpy.linspace(
             initial_angle - rotation, final_angle - rotation, number_of_points
-- 
2.43.0


From e9d0b3cd6c4c5f1ef458339049f427e9ec35b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 36/44] fix: parallel lines of a Path keep their order in
 clockwise arcs and parametric sections

---
 gdspy/polygon.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 0b11e88..5c33e04 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1403,8 +1403,10 @@ class Path(PolygonSet):
         self.y = cy + radius * numpy.sin(final_angle)
         if final_angle > initial_angle:
             self.direction = final_angle + numpy.pi * 0.5
+            side = 1
         else:
             self.direction = final_angle - numpy.pi * 0.5
+            side = -1
         old_w = self.w
         old_distance = self.distance
         if final_width is not None:
@@ -1450,14 +1452,9 @@ class Path(PolygonSet):
             for jj in range(pieces):
                 for ii in range(self.n):
                     self.polygons.append(numpy.zeros((number_of_points, 2)))
-                    r0 = (
-                        radius
-                        + ii * distances[jj + 1]
-                        - (self.n - 1) * distances[jj + 1] * 0.5
-                    )
-                    old_r0 = (
-                        radius + ii * distances[jj] - (self.n - 1) * distances[jj] * 0.5
-                    )
+                    position = side * (ii - (self.n - 1) * 0.5)
+                    r0 = radius + position * distances[jj + 1]
+                    old_r0 = radius + position * distances[jj]
                     pts2 = number_of_points // 2
                     pts1 = number_of_points - pts2
                     ang = numpy.linspace(angles[jj], angles[jj + 1], pts1)
@@ -1777,12 +1774,12 @@ class Path(PolygonSet):
             i1 = min(i0 + max_points, np)
             for ii in range(self.n):
                 p1 = x0[i0:i1] + dx[i0:i1] * (
-                    dist[i0:i1] * (ii - (self.n - 1) * 0.5) + width[i0:i1]
+                    dist[i0:i1] * ((self.n - 1) * 0.5 - ii) + width[i0:i1]
                 )
                 p2 = (
                     x0[i0:i1]
                     + dx[i0:i1]
-                    * (dist[i0:i1] * (ii - (self.n - 1) * 0.5) - width[i0:i1])
+                    * (dist[i0:i1] * ((self.n - 1) * 0.5 - ii) - width[i0:i1])
                 )[::-1]
                 if width[i1 - 1, 0] == 0:
                     p2 = p2[1:]
-- 
2.43.0


From 3ac35a37dd8106ae007235eebfd22d924f50a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 37/44] fix: a turn of a Path by a null angle keeps its
 direction

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 5c33e04..d60e4ae 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1401,7 +1401,7 @@ class Path(PolygonSet):
         cy = self.y - radius * numpy.sin(initial_angle)
         self.x = cx + radius * numpy.cos(final_angle)
         self.y = cy + radius * numpy.sin(final_angle)
-        if final_angle > initial_angle:
+        if final_angle >= initial_angle:
             self.direction = final_angle + numpy.pi * 0.5
             side = 1
         else:
-- 
2.43.0


From bb5ca90c6768703c0b3f74827e49bea20f621d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 38/44] fix: length of a Path includes sections of null width

---
 gdspy/polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index d60e4ae..10136ee 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1300,6 +1300,7 @@ class Path(PolygonSet):
             self.w = final_width * 0.5
         if final_distance is not None:
             self.distance = final_distance
+        self.length += (length ** 2 + axis_offset ** 2) ** 0.5
         if (self.w != 0) or (old_w != 0):
             for ii in range(self.n):
                 d0 = ii * self.distance - (self.n - 1) * self.distance * 0.5
@@ -1324,7 +1325,6 @@ class Path(PolygonSet):
                     self.polygons[-1] = self.polygons[-1][:-1]
                 if old_w == 0:
                     self.polygons[-1] = self.polygons[-1][1:]
-            self.length += (length ** 2 + axis_offset ** 2) ** 0.5
             if isinstance(layer, list):
                 self.layers.extend((layer * (self.n // len(layer) + 1))[: self.n])
             else:
@@ -1448,6 +1448,7 @@ class Path(PolygonSet):
         widths = numpy.linspace(old_w, self.w, pieces + 1)
         distances = numpy.linspace(old_distance, self.distance, pieces + 1)
         angles = numpy.linspace(initial_angle, final_angle, pieces + 1)
+        self.length += abs((final_angle - initial_angle) * radius)
         if (self.w != 0) or (old_w != 0):
             for jj in range(pieces):
                 for ii in range(self.n):
@@ -1480,7 +1481,6 @@ class Path(PolygonSet):
                         )
                     self.polygons[-1][pts1:, 0] = numpy.cos(ang) * rad + cx
                     self.polygons[-1][pts1:, 1] = numpy.sin(ang) * rad + cy
-                self.length += abs((angles[jj + 1] - angles[jj]) * radius)
                 if isinstance(layer, list):
                     self.layers.extend((layer * (self.n // len(layer) + 1))[: self.n])
                 else:
-- 
2.43.0


From 7a72e5a7590ca8fcdb06c49711dcb8e94ff94c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:41 +0000
Subject: [PATCH 39/44] fix: arcs of paths accept negative offsets and large
 tolerances

---
 gdspy/path.py    | 4 ++--
 gdspy/polygon.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 69caf80..9a30ffb 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1418,7 +1418,7 @@ class FlexPath(object):
         else:
             off = self.offsets[-1] + offset
         rmax = radius + max(
-            (self.offsets[-1] + self.widths[-1]).max(), (off + wid).max()
+            (abs(self.offsets[-1]) + self.widths[-1]).max(), (abs(off) + wid).max()
         )
         np = max(
             3,
@@ -1426,7 +1426,7 @@ class FlexPath(object):
             + int(
                 0.5
                 * abs(final_angle - initial_angle)
-                / numpy.arccos(1 - self.tolerance / rmax)
+                / numpy.arccos(max(-1, 1 - self.tolerance / rmax))
                 + 0.5
             ),
         )
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 10136ee..873cb27 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1425,7 +1425,7 @@ class Path(PolygonSet):
         if number_of_points is None:
             r = (
                 radius
-                + max(old_distance, self.distance) * (self.n - 1) * 0.5
+                + max(abs(old_distance), abs(self.distance)) * (self.n - 1) * 0.5
                 + max(old_w, self.w)
             )
             number_of_points = max(
@@ -1435,7 +1435,7 @@ class Path(PolygonSet):
                 * int(
                     0.5
                     * abs(final_angle - initial_angle)
-                    / numpy.arccos(1 - tolerance / r)
+                    / numpy.arccos(max(-1, 1 - tolerance / r))
                     + 0.5
                 ),
             )
-- 
2.43.0


From efb2e5d3fc8f36b63babc2898e605a3a2ed416f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 40/44] fix: RobustPath.turn averages directions across the
 negative x axis

---
 gdspy/path.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 9a30ffb..21175f4 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2770,12 +2770,17 @@ class RobustPath(object):
                 "empty RobustPath."
             )
         angle = _angle_dict.get(angle, angle)
-        initial_angle = 0
+        v0 = self.paths[0][i].grad(1, 0)
+        deviation = 0
         for p in self.paths:
             v = p[i].grad(1, 0)
-            initial_angle += numpy.arctan2(v[1], v[0])
-        initial_angle = initial_angle / len(self.paths) + (
-            _halfpi if angle < 0 else -_halfpi
+            deviation += numpy.arctan2(
+                v0[0] * v[1] - v0[1] * v[0], v0[0] * v[0] + v0[1] * v[1]
+            )
+        initial_angle = (
+            numpy.arctan2(v0[1], v0[0])
+            + deviation / len(self.paths)
+            + (_halfpi if angle < 0 else -_halfpi)
         )
         self.arc(radius, initial_angle, initial_angle + angle, width, offset)
         return self
-- 
2.43.0


From 7e365be36dc521a59003e6e07ed8cb135e0eb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:25 +0000
Subject: [PATCH 41/44] fix: fracture ends when most vertices share an extreme
 coordinate

---
 gdspy/polygon.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 873cb27..7f1ab32 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -355,6 +355,10 @@ class PolygonSet(object):
                             pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
                             for i in range(1, ncuts + 1)
                         ]
+                        # Cuts at the extremes do not divide the polygon
+                        cuts = [c for c in cuts if pts0[0] < c < pts0[-1]] or [
+                            (pts0[0] + pts0[-1]) / 2
+                        ]
                         chopped = clipper._chop(
                             self.polygons[ii], cuts, 0, 1 / precision
                         )
@@ -364,6 +368,10 @@ class PolygonSet(object):
                             pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
                             for i in range(1, ncuts + 1)
                         ]
+                        # Cuts at the extremes do not divide the polygon
+                        cuts = [c for c in cuts if pts1[0] < c < pts1[-1]] or [
+                            (pts1[0] + pts1[-1]) / 2
+                        ]
                         chopped = clipper._chop(
                             self.polygons[ii], cuts, 1, 1 / precision
                         )
-- 
2.43.0


From 02483987a7c84767dcc5646646080f62a91df948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 42/44] fix: boolean operations with self-intersecting polygons

---
 gdspy/clipper.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 5895198..06bb05c 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4880,6 +4880,27 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 
 //------------------------------------------------------------------------------
 
+// Replace each polygon by the outlines of its region (non-zero winding), so
+// that no part of a self-intersecting polygon has a negative winding number,
+// which would cancel with that of other polygons.
+void resolve_self_intersections(const Paths& paths, std::vector<Paths>& outlines)
+{
+  outlines.resize(paths.size());
+  for (Paths::size_type i = 0; i < paths.size(); ++i)
+  {
+    if (paths[i].size() < 4)
+      outlines[i].assign(1, paths[i]);
+    else
+    {
+      Clipper clpr;
+      clpr.AddPath(paths[i], ptSubject, true);
+      clpr.Execute(ctUnion, outlines[i], pftNonZero, pftNonZero);
+    }
+  }
+}
+
+//------------------------------------------------------------------------------
+
 cInt bounding_box(Path& points, cInt* bb)
 {
   if (points.empty())
@@ -4938,8 +4959,13 @@ static PyObject* clip(PyObject *self, PyObject *args)
   if (parse_polygon_set(polyA, subj, scaling, true) != 0) return NULL;
   if (parse_polygon_set(polyB, clip, scaling, true) != 0) return NULL;
 
-  clpr.AddPaths(subj, ptSubject, true);
-  clpr.AddPaths(clip, ptClip, true);
+  std::vector<Paths> outlines;
+  resolve_self_intersections(subj, outlines);
+  for (std::vector<Paths>::iterator it = outlines.begin(); it != outlines.end(); ++it)
+    clpr.AddPaths(*it, ptSubject, true);
+  resolve_self_intersections(clip, outlines);
+  for (std::vector<Paths>::iterator it = outlines.begin(); it != outlines.end(); ++it)
+    clpr.AddPaths(*it, ptClip, true);
   clpr.Execute(oper, solution, pftNonZero, pftNonZero);
 
   tree2paths(solution, result);
-- 
2.43.0


From 413b875e11b34ba3f753c47fd3d91abf463400c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:19 +0000
Subject: [PATCH 43/44] fix: offset of self-intersecting polygons and of
 separate polygons

---
 gdspy/clipper.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 06bb05c..1291143 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -5014,22 +5014,36 @@ static PyObject* offset(PyObject *self, PyObject *args)
 
   if (parse_polygon_set(polygons, subj, scaling, true) != 0) return NULL; 
 
+  std::vector<Paths> outlines;
+  resolve_self_intersections(subj, outlines);
+
   if (joinFirst > 0)
   {
     Paths intermediate;
     ClipperOffset clprof_join;
 
-    clprof_join.AddPaths(subj, jtSquare, etClosedPolygon);
+    for (std::vector<Paths>::iterator it = outlines.begin(); it != outlines.end(); ++it)
+      clprof_join.AddPaths(*it, jtSquare, etClosedPolygon);
     clprof_join.Execute(intermediate, 0);
     clprof.AddPaths(intermediate, jt, etClosedPolygon);
+    clprof.Execute(solution, distance * scaling);
   }
   else
   {
-    clprof.AddPaths(subj, jt, etClosedPolygon);
+    // Each polygon is offset on its own, so that what remains of one of them
+    // is not removed by the outlines of the others.
+    Clipper clpr;
+    for (std::vector<Paths>::iterator it = outlines.begin(); it != outlines.end(); ++it)
+    {
+      Paths single;
+      clprof.Clear();
+      clprof.AddPaths(*it, jt, etClosedPolygon);
+      clprof.Execute(single, distance * scaling);
+      clpr.AddPaths(single, ptSubject, true);
+    }
+    clpr.Execute(ctUnion, solution, pftNonZero, pftNonZero);
   }
 
-  clprof.Execute(solution, distance * scaling);
-
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
 }
-- 
2.43.0


From bf154ce633a79a281f2a888c58bb939452a5f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:47 +0000
Subject: [PATCH 44/44] fix: link holes that touch a horizontal side of their
 polygon

---
 gdspy/clipper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 1291143..42f4bb7 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4782,11 +4782,11 @@ void link_holes(PolyNode *node, Paths &out)
         {
           xnew = x;
           p1 = pnext;
-        } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
-          xnew = p->X;
-          p1 = pnext;
-          break;
         }
+      } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
+        xnew = p->X;
+        p1 = pnext;
+        break;
       }
     }
 
-- 
2.43.0

