From 0f4b31f4528cb0382655281f16f0e80662ed8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 01/50] fix: Transform.rotate_about invalidates the cached
 inverse

---
 x7/geom/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index ad38108..32379e3 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -236,6 +236,7 @@ class Transform(Transformer):
         # return self.compose(Transform().translate(*-center).rotate(angle).translate(*center))
         xform = Transform().translate(*-center).rotate(angle).translate(*center)
         self._mat.pre_dot_eq(xform._mat.ndmat)
+        self._inverse = None
         return self
 
     def compose(self, transmat: Union['Transform', Matrix]):
-- 
2.43.0


From 6f2b50cb1b2d34dabe6fccb8ed71b25839759c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 02/50] fix: Vector.p works for relative vectors

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6f207c9..9777364 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -119,7 +119,7 @@ class Vector(typing.SupportsRound):
 
     @property
     def p(self):
-        return Point(self._x, self._y)
+        return Point(*self.xy())
 
     def set(self, v: 'Vector') -> None:
         self._x, self._y = v.xy()
-- 
2.43.0


From 365e6ab753bee1de35dbe6075bad98076b706107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 03/50] fix: Point.copy keeps the name

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 9777364..239665f 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -461,7 +461,7 @@ class Point(BasePoint):
 
     def copy(self) -> 'Point':
         """Return a copy of this point"""
-        return Point(self._x, self._y)
+        return Point(self._x, self._y, self.name)
 
     def restore(self, other: BasePoint):
         self._x, self._y = other.xy()
-- 
2.43.0


From 3b27a30154d0d954c0e67663608ed538a2551e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 04/50] fix: Group copy/transform/restore keep closed and do
 not share xform

---
 x7/geom/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6fea783..626fb86 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -894,19 +894,21 @@ class Group(Elem):
     def copy(self):
         elems = dict(self.elems)
         points = dict(self.points)
-        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points)
+        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, closed=self.closed)
 
     def restore(self, other: 'Group'):
         self.name = other.name
         self.penbrush = other.penbrush
+        self.closed = other.closed
         self.hidden = other.hidden
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.elems = dict(other.elems)
         self.points = dict(other.points)
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points))
+        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points),
+                     closed=self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From 39f19843978a37fd54a134e3ea630c567db55257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 05/50] fix: ElemWithHoles.restore restores the holes and does
 not share xform

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 626fb86..bffeb60 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1114,9 +1114,9 @@ class ElemWithHoles(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.closed = other.closed
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in self.inside]
+        self.inside = [e.copy() for e in other.inside]
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From 73735e8bd6708da7b165e3d797775226689932f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 06/50] fix: element copies do not share their transform with
 the original

---
 x7/geom/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index bffeb60..910e0e3 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -377,7 +377,7 @@ class ElemCurve(Elem):
     def fixed(self):
         """Return copy with all points 'fixed'"""
         cps = [cp.fixed() for cp in self.control_points]
-        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform)
+        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform.copy())
 
     def copy(self):
         """Return deep copy of self"""
@@ -580,7 +580,7 @@ class ElemP1P2(Elem, ABC):
         """Return copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform)
+        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
@@ -746,7 +746,8 @@ class ElemRectangleRounded(ElemP1P2):
         """Return deep copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform)
+        return ElemRectangleRounded(
+            self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
-- 
2.43.0


From 7b9fd63447a3a5725e583d477d23801662253a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 07/50] fix: ElemWithHoles.paths emits each hole edge once

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 910e0e3..6a8dd2f 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1068,8 +1068,8 @@ class ElemWithHoles(Elem):
                     paths = elem.paths(dc)
                     for path in paths:
                         path.penbrush = edge_brush
-                        edges.extend(paths)     # BUG? TODO - why extend with paths multiple times in this loop?
                         fill_path.extend(path.points, closed=True)
+                    edges.extend(paths)
                 return [fill_path] + edges
             else:
                 for elem in self.inside:
-- 
2.43.0


From afbfe50b03905603c6cb2231aa5e18b8cdb330aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 08/50] fix: ElemWithHoles.bbox_int honours outside's transform
 and allows no holes

---
 x7/geom/model.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6a8dd2f..ba08943 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1094,14 +1094,7 @@ class ElemWithHoles(Elem):
         return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
 
     def bbox_int(self) -> BBox:
-        bbox_outside = self.outside.bbox_int()
-        debug = True
-        if debug:
-            bbox_inside = BBox(None)
-            for elem in self.inside:
-                bbox_inside = bbox_inside + elem.bbox()
-            assert bbox_outside.contains(bbox_inside)
-        return bbox_outside
+        return self.outside.bbox()
 
     def bbox_int_update(self, bbox: BBox, context=None):
         raise ValueError("Can't bbox_int_update an ElemWithHoles yet")
-- 
2.43.0


From b59db44367d66565a3199415dc158fe8fa9ebad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 09/50] fix: Group.iter_elems restores the matrix when
 iteration is abandoned

---
 x7/geom/model.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ba08943..579c73a 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -953,13 +953,9 @@ class Group(Elem):
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
-        if self.xform:
-            matrix.push()
-            matrix.compose(self.xform)
-        for elem in self.elems.values():
-            yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
-        if self.xform:
-            matrix.pop()
+        with matrix.push().compose(self.xform):
+            for elem in self.elems.values():
+                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-- 
2.43.0


From c4a033731b3cf6a8502c7d526a31e40c1294e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 10/50] fix: ElemWithHoles.iter_elems does not double the dot
 in names

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 579c73a..72bab74 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1139,7 +1139,7 @@ class ElemWithHoles(Elem):
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
         with matrix.push().compose(self.xform):
-            base = '%s.%s.' % (root, self.name) if root else self.name
+            base = '%s.%s' % (root, self.name) if root else self.name
             yield from self.outside.iter_elems(base + '.outside', matrix)
             for elem in self.inside:
                 yield from elem.iter_elems(base + '.inside', matrix)
-- 
2.43.0


From 411674c75921e159c0b34c2b3082f6f485913d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 11/50] fix: Group.replace checks names before changing
 anything and keeps drawing order

---
 x7/geom/model.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 72bab74..da35c64 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -985,20 +985,33 @@ class Group(Elem):
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
+        self._replace_check(elem, replacement)
         count = 0
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                del self.elems[name]
-                if replacement.name in self.elems:
-                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
-                        replacement.name, self.name))
-                self.add(replacement.name, replacement)
+                # Put the replacement in the same place to retain drawing order
+                items = [(replacement.name, replacement) if n == name else (n, v) for n, v in self.elems.items()]
+                self.elems.clear()
+                self.elems.update(items)
                 count += 1
             elif hasattr(e, 'replace'):
                 count += e.replace(elem, replacement)
         return count
 
+    def _replace_check(self, elem: Elem, replacement):
+        """Raise ValueError if .replace() would fail anywhere, before anything is modified"""
+
+        for name, e in self.elems.items():
+            if e == elem:
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
+                if replacement.name != name and replacement.name in self.elems:
+                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
+                        replacement.name, self.name))
+            elif isinstance(e, Group):
+                e._replace_check(elem, replacement)
+
     def add_pt(self, name, pt):
         assert name not in self.points
         assert '.' not in name
-- 
2.43.0


From 5f7a4cb3a55345d3984598ac2ec545237889c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 12/50] fix: bez_split keeps sharp end points sharp

---
 x7/geom/bezier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index bdc2aac..a1baa42 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -644,9 +644,13 @@ def bez_split(cp1: ControlPoint, cp2: ControlPoint, t=0.5)\
     bcd = mid(bc, cd)
     abcd = mid(abc, bcd)
 
-    left = ControlPoint(a, cp1.dl, ab-a)
+    def kind(cp: ControlPoint):
+        # The inner handle gets shorter, so 'very-smooth' is only 'smooth' after the split
+        return 'sharp' if cp.kind == 'sharp' else 'smooth'
+
+    left = ControlPoint(a, cp1.dl, ab-a, kind(cp1))
     middle = ControlPoint(abcd, abc-abcd, bcd-abcd)
-    right = ControlPoint(d, cd-d, cp2.dr)
+    right = ControlPoint(d, cd-d, cp2.dr, kind(cp2))
 
     return left, middle, right
 
-- 
2.43.0


From 4ad1bf50dccc414f5101c329bb1e371de6e73ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 13/50] fix: ElemCurve.add_one ignores the missing closing
 segment of open curves

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index da35c64..a949805 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -493,6 +493,8 @@ class ElemCurve(Elem):
         orig_len = len(self.control_points)
         cps = self.control_points
         dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
+        if not self.closed:
+            dists = dists[:-1]      # Open curves do not have a segment from last to first
         dists = sorted(dists)
         left = (dists[-1][1]) % len(cps)
         right = (left + 1) % len(cps)
-- 
2.43.0


From 3a6adc9bfcce27f2f1b3e413c59681eb6f1e4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 14/50] fix: bez_self_intersect does not modify its input

---
 x7/geom/bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index a1baa42..1f09544 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -350,7 +350,7 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
 
     # all_curves: list of all curve segments and their intersection t-values/xy-values
     all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
-    for cpa, cpb in iter_rotate(orig_cps):
+    for cpa, cpb in iter_rotate([cp.copy() for cp in orig_cps]):
         left, middle, right = bez_split(cpa, cpb)
         intersection = bez_intersect_new(left, middle, middle, right)
         if intersection:
-- 
2.43.0


From 5df42ae96a0c51ba1e199187869964789a6cf8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 15/50] fix: Animation.periodic and sin_cos add the offset as
 documented

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 6d14bdb..f556ac4 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -126,7 +126,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return trig_func(t) * scale + shift
 
         return func
@@ -148,7 +148,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return sin(t) * scale + shift, cos(t) * scale + shift
 
         return func
-- 
2.43.0


From 12b1a8835c565f93312930ddfc24e3c1f82dd8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 16/50] fix: SimpleAnimation.animate stores each frame once

---
 x7/geom/anim_simple.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index b87f976..72ba914 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -85,9 +85,6 @@ class SimpleAnimation(object):
             with self.next_step() as dc:
                 step_t = self.t_low + step * step_size
                 self.draw_func(dc, step_t)
-            if self.show_steps:
-                dc.show()
-            self.images.append(dc.image())
 
     def save_animation(self, output):
         if not output:
-- 
2.43.0


From 4ac99949d306dae5284ede33c69412a1a288ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 17/50] fix: SimpleAnimation maps asymmetric draw boxes onto
 the image

---
 x7/geom/anim_simple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index 72ba914..646030f 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -67,8 +67,8 @@ class SimpleAnimation(object):
         """Create images, call draw_func for each step"""
 
         this_image = Image.new('RGBA', self.image_size.xy(), self.background)
-        xf = Transform.canvas_fit(self.image_size.xy(), zoom=1.0, zero_zero=(0, self.image_size.y))
-        xf.scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf = Transform().scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf.compose_outer(Transform.canvas_fit(self.image_size.xy()))
         dc = DrawingContext(this_image, xf)
         return StepContext(self, dc)
 
-- 
2.43.0


From f4057c77b50b8fe1b8c904428f35f416feeee3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 18/50] fix: ElemCurve.offset_pt keeps the side when limiting
 the offset

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a949805..a8d8dec 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -433,7 +433,7 @@ class ElemCurve(Elem):
             if abs(scale) > cls.OFFSET_PT_LIMIT:
                 if cls.OFFSET_PT_DEBUG:
                     print('offset_pt: Limited %.4f to %f' % (scale, cls.OFFSET_PT_LIMIT))
-                scale = cls.OFFSET_PT_LIMIT
+                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
                 # TODO-introduce an arc at this point for outside edge
             v_offset = v_offset * scale
         return pt + v_offset
-- 
2.43.0


From 43720428ee61c703fdce1b0774199156aca8df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 19/50] fix: Line.segment_intersection finds touching segments

---
 x7/geom/geom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 239665f..24d2374 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -880,10 +880,13 @@ class Line(object):
 
     def segment_intersection(self, other: 'Line') -> Optional[Tuple[Point, float, float]]:
         """Return None or (intersection point, t_self, t_other)"""
-        if not self.segment_bbox().overlaps(other.segment_bbox()):
+        self_bbox, other_bbox = self.segment_bbox(), other.segment_bbox()
+        if self_bbox.intersection(other_bbox).is_none:
             return None
         if self.parallel(other):
             # Parallel
+            if not self_bbox.overlaps(other_bbox):
+                return None
             # TODO-Could still intersect at end point or overlapping segment
             raise ParallelLineError('parallel lines')
         self_normal = self.direction.normal()
-- 
2.43.0


From e53009f481702f074c4409c6b5210a621bff2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 20/50] fix: Line.segment_intersection does not assert on large
 coordinates

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 24d2374..175f7ae 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -897,7 +897,7 @@ class Line(object):
         t_self = other_normal.dot(other.origin-self.origin)/other_normal.dot(self.direction)
         if t_self < 0 or t_self > 1:
             return None
-        debug = True
+        debug = False
         if debug:
             p_other = other.origin+other.direction*t_other
             p_self = self.origin+self.direction*t_self
-- 
2.43.0


From ddec63ab619c2635ee85f135bd3c0ba02fbb7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 21/50] fix: Group.dump keeps drawing order, hidden and points

---
 x7/geom/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a8d8dec..b477d93 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -944,9 +944,14 @@ class Group(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, elems=list)
+        extra = {}
+        if self.hidden:
+            extra['hidden'] = self.hidden
+        if self.points:
+            extra['points'] = self.points
+        self.dump_elem(context, **extra, elems=list)
         with context:
-            for name, elem in sorted(self.elems.items()):
+            for name, elem in self.elems.items():
                 elem.dump(context)
                 context.add_comma()
         context.append('])')
-- 
2.43.0


From 2a6056071d25cb0334e219df1c5e9302bad8f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 22/50] fix: ElemWithHoles.dump produces python that can be
 evaluated

---
 x7/geom/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b477d93..d2e274b 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1147,12 +1147,15 @@ class ElemWithHoles(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, outside=self.outside, inside=list)
+        self.dump_elem(context, inside=list)
         with context:
             for elem in self.inside:
                 elem.dump(context)
                 context.add_comma()
-        context.append('])')
+        context.append('], outside=')
+        with context:
+            self.outside.dump(context)
+        context.append(')')
         return context
 
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
-- 
2.43.0


From 79e78532b5744c69e1c16cf017bec27aa65698d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 23/50] fix: Mesh grid matches the layout of the values stored
 on it

---
 x7/geom/vec_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 5fece85..48fa65e 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -15,7 +15,7 @@ class Mesh(object):
         self.coord_x = np.linspace(bbox.xl, bbox.xh, steps, dtype=np.dtype(float))
         self.coord_y = np.linspace(bbox.yl, bbox.yh, steps, dtype=np.dtype(float))
 
-        mesh = np.meshgrid(self.coord_x, self.coord_y)
+        mesh = np.meshgrid(self.coord_x, self.coord_y, indexing='ij')
         self.x_grid, self.y_grid = mesh
         self.x_shape = self.x_grid.shape
 
-- 
2.43.0


From 7e5f6fa1b7440db6bb0a70cbd913f9010aad0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 24/50] fix: ExtendedMatcherGeomXY honours places and delta

---
 x7/geom/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index e25be20..6bcf3c4 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -117,8 +117,8 @@ class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
         super().__init__(test_case, self.KLASS)
 
     def almost_equal(self, first, second, places=None, delta=None) -> Union[bool, str]:
-        almost_x = self.test_case.almostEqualFloat(first.x, second.x)
-        almost_y = self.test_case.almostEqualFloat(first.y, second.y)
+        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
+        almost_y = self.test_case.almostEqualFloat(first.y, second.y, places, delta)
         msg = []
         if almost_x is not True:
             msg.append('x: ' + almost_x)
-- 
2.43.0


From 93ce9bad5c9d5adca712e883f0c54083b46dc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 25/50] fix: ExtendedMatcherControlPoint.explain_mismatch
 compares kinds

---
 x7/geom/testing.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 6bcf3c4..dc753e7 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -102,11 +102,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         return self.test_case.almostEqual(vals_f, vals_s, places, delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
-        vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
-        vals_o = [getattr(old_data, attr) for attr in self.ATTRS]
-        if all(n.close(o) for n, o in zip(vals_n, vals_o)):
-            return True, None
-        return False, None
+        return new_data.close(old_data), None
 
 
 class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
-- 
2.43.0


From b0f35750ff689cf8bc9e280d69366e1a2d729b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 26/50] fix: Transformer.transform_pts accepts (x, y) results
 of non-linear transforms

---
 x7/geom/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 32379e3..008e1cb 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -108,11 +108,11 @@ class Transformer(ABC):
         """
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
         if flatten:
-            return [v for x, y, z in np_pts for v in (x, y)]
+            return [v for x, y, *_ in np_pts for v in (x, y)]
         elif isinstance(pts[0], BasePoint):
-            return [Point(x, y) for x, y, z in np_pts]
+            return [Point(x, y) for x, y, *_ in np_pts]
         else:
-            return [(x, y) for x, y, z in np_pts]
+            return [(x, y) for x, y, *_ in np_pts]
 
 
 class Transform(Transformer):
-- 
2.43.0


From d89d3d4c4a1ef568263141a388f27d8efde00c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 27/50] fix: Elem.draw does not outline paths without a pen in
 white

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index d2e274b..c263622 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -263,7 +263,7 @@ class Elem(ABC):
                     draw.show()
                 if do_outline:
                     draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
-            else:
+            elif do_outline:
                 draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
             if draw.debug:
                 self.draw_path_debug(draw, path, p, do_outline)
-- 
2.43.0


From f3562949c1a2c09285509ae1acb297e76dcd2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 28/50] fix: control points can be drawn with current Pillow
 (rectangle corners ordered)

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index c263622..1ef99e4 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -300,9 +300,9 @@ class Elem(ABC):
                     draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
                     draw.draw.ellipse((cp.l - rad).xy() + (cp.l + rad).xy(), outline='red', fill='grey')
                     draw.draw.ellipse((cp.r - rad).xy() + (cp.r + rad).xy(), outline='red', fill='grey')
-                    draw.draw.rectangle((cp.c + rad).xy() + (cp.c - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp.c - rad).xy() + (cp.c + rad).xy(), outline='red', fill='grey')
                 elif isinstance(cp, BasePoint):
-                    draw.draw.rectangle((cp + rad).xy() + (cp - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp - rad).xy() + (cp + rad).xy(), outline='red', fill='grey')
                 else:
                     raise TypeError('unknown control_path element: %r' % cp)
 
-- 
2.43.0


From c6b9385e1cef433b295742f4a795fb17ba992393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 29/50] fix: bez_self_intersect walks on when only the
 straight-through edge is left at a crossing

---
 x7/geom/bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 1f09544..5dd36fb 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -514,7 +514,8 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
                     break
 
                 # TODO-any_edge is not quite the right approach, but good enough for now
-                next_edge = edge.left.any_edge(not_this_one=edge)
+                # Only the straight-through edge is left if an earlier curve was closed at this node
+                next_edge = edge.left.any_edge(not_this_one=edge) or edge.left.any_edge()
                 edge = next_edge
         else:
             raise NotImplementedError("can't handle right iteration yet")
-- 
2.43.0


From 3b3d8277fa9c2260d767112abb3fc6de17bf5adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 30/50] fix: make_rounded_rect_cps drops duplicate control
 points despite float rounding

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 1ef99e4..51ef0d2 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -697,9 +697,9 @@ def make_rounded_rect_cps(p1: Point, p2: Point, radius=5.0) -> List[ControlPoint
     if clipped:
         out = []
         for a, b, c in iter_rotate(cps, 3):
-            if b.c == c.c:
+            if b.c.close(c.c, 1e-9):
                 b.dr = c.dr
-            elif b.c == a.c:
+            elif b.c.close(a.c, 1e-9):
                 continue
             out.append(b)
         cps = out
-- 
2.43.0


From 94cd0ecbc1099a4227511248a89601b8b3e11f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 31/50] fix: fixing a point that is already fixed keeps its
 name, so dumped rectangles and ellipses evaluate to equal ones

---
 x7/geom/geom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 175f7ae..4edea20 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -318,7 +318,10 @@ class BasePoint(ABC, SupportsRound):
         return NotImplemented       # Vector - Point is not allowed
 
     def fixed(self) -> 'Point':
-        return Point(*self.xy(), 'fixed_' + self.name if self.name else None)
+        name = self.name or None
+        if name and not name.startswith('fixed_'):
+            name = 'fixed_' + name
+        return Point(*self.xy(), name)
 
     def xy(self):
         return 0, 0
-- 
2.43.0


From d32c45c5b41dacbfb9ca9b148fd4627f28078c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 32/50] fix: Group.add without fixname refuses a duplicate name
 instead of silently renaming the element

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 51ef0d2..0ca86c9 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -914,7 +914,7 @@ class Group(Elem):
                      closed=self.closed)
 
     def add(self, name, elem, fixname=False):
-        if fixname and '.' in name or name in self.elems:
+        if fixname and ('.' in name or name in self.elems):
             name = name.rpartition('.')[2]
             if name in self.elems:
                 name = type(elem).__name__
-- 
2.43.0


From c6a20e7b4d29d1b45ba20c0ff7923912c175ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:13 +0000
Subject: [PATCH 33/50] fix: DrawingContext.polygon draws nothing when neither
 fill nor outline is given

---
 x7/geom/drawing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/drawing.py b/x7/geom/drawing.py
index 4724383..75aca78 100644
--- a/x7/geom/drawing.py
+++ b/x7/geom/drawing.py
@@ -140,6 +140,8 @@ class DrawingContext(object):
             :param fill: color name or None for no fill
             :param outline: color name or None for no outline
         """
+        if fill is None and outline is None:
+            return      # ImageDraw would draw the outline in its default color
         pts = self.matrix.transform_pts(points, True)
         self.draw.polygon(pts, fill=fill, outline=outline)
 
-- 
2.43.0


From aa697821d1633e5aba1b2e99ae7695bf172a4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 34/50] fix: MorphMultiStep does not rotate the control points
 of open curves

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index f556ac4..008d2e5 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -357,7 +357,7 @@ class MorphMultiStep(Animation):
                 c.add_one()
             # TODO-make sure points are CCW
             # Rotate the so that lower left is 0
-            rotate = force
+            rotate = force and c.closed     # Rotating an open curve would change its shape
             if rotate:
                 bbox = c.bbox()
                 dists = sorted([((bbox.p1-cp.c).length(), idx) for idx, cp in enumerate(c.control_points)])
-- 
2.43.0


From 46fe9ecbc38ffd8f7076016ea6b435f5696a81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 35/50] fix: Builder.max_bbox accepts frames without content

---
 x7/geom/anim.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 008d2e5..faaf959 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -465,9 +465,10 @@ class Builder(object):
 
     def max_bbox(self, images=None):
         images = images or self.images
-        bb = images[0].getbbox()
-        for im in images[1:]:
-            bb = bbox_max(bb, im.getbbox())
+        bb = None
+        for im in images:
+            im_bb = im.getbbox()    # None if there is nothing in this frame
+            bb = bbox_max(bb, im_bb) if bb and im_bb else bb or im_bb
         print('BBox max: %s %s over %d images' % (images[0].size, bb, len(images)))
         return bb
 
-- 
2.43.0


From 17b886b23f0300a740bd684db0f859448fed1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:43 +0000
Subject: [PATCH 36/50] fix: ExtendedMatcherControlPoint.almost_equal honours
 delta

---
 x7/geom/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index dc753e7..a21b5c0 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -99,7 +99,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         vals_f = [getattr(first, attr) for attr in self.ATTRS]
         vals_s = [getattr(second, attr) for attr in self.ATTRS]
         # TODO-not quite right.  It should understand what was different by attr name
-        return self.test_case.almostEqual(vals_f, vals_s, places, delta)
+        return self.test_case.almostEqual(vals_f, vals_s, places=places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
         return new_data.close(old_data), None
-- 
2.43.0


From 7f2b765e4e759c0ac4bc255a339bb70796c68b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 37/50] fix: bez_split returns control points that do not share
 points and vectors with its arguments

---
 x7/geom/bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 5dd36fb..51377dd 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -649,9 +649,9 @@ def bez_split(cp1: ControlPoint, cp2: ControlPoint, t=0.5)\
         # The inner handle gets shorter, so 'very-smooth' is only 'smooth' after the split
         return 'sharp' if cp.kind == 'sharp' else 'smooth'
 
-    left = ControlPoint(a, cp1.dl, ab-a, kind(cp1))
+    left = ControlPoint(a.copy(), cp1.dl.copy(), ab-a, kind(cp1))
     middle = ControlPoint(abcd, abc-abcd, bcd-abcd)
-    right = ControlPoint(d, cd-d, cp2.dr, kind(cp2))
+    right = ControlPoint(d.copy(), cd-d, cp2.dr.copy(), kind(cp2))
 
     return left, middle, right
 
-- 
2.43.0


From 2b5ea7c718619aa9d629e0065344e19e8c262b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 38/50] fix: GroupBuilder.hide hides the group it builds

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 0ca86c9..d62dc46 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1321,6 +1321,7 @@ class GroupBuilder(object):
 
     def hide(self):
         self.hidden = True
+        self.the_group.hidden = True
 
     def draw(self, draw: DrawingContext):
         self.the_group.draw(draw)
-- 
2.43.0


From 2d7975fe2ca5ae289fc2963fb64c6437467e2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 39/50] fix: Group keeps its own table of points

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index d62dc46..05fbe75 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -831,7 +831,7 @@ class Group(Elem):
         super().__init__(name, penbrush, closed=closed, xform=xform)
         self.elems: Dict[str, Elem] = {}
         self.hidden = hidden
-        self.points: Dict[str, BasePoint] = points or {}
+        self.points: Dict[str, BasePoint] = dict(points or {})
         if elems:
             if isinstance(elems, (list, tuple)):
                 for elem in elems:
-- 
2.43.0


From 32776b9a70a9b6ff2bc2f611351c968395e9700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 40/50] fix: colour number zero is a colour

---
 x7/geom/colors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x7/geom/colors.py b/x7/geom/colors.py
index 7b18c48..e647ae8 100644
--- a/x7/geom/colors.py
+++ b/x7/geom/colors.py
@@ -24,7 +24,7 @@ class Colors(object):
 
     @property
     def filled(self):
-        return bool(self.fill)
+        return self.fill is not None
 
     def __repr__(self):
         return 'Colors(%s, %s)' % (self.outline, self.fill)
@@ -66,7 +66,7 @@ class Pen(object):
         return 'Pen(%r, %r)' % (self.brush.color, self.width)
 
     def replace(self, brush=None, width=None):
-        return Pen(brush or self.brush, width if width is not None else self.width)
+        return Pen(brush if brush is not None else self.brush, width if width is not None else self.width)
 
 
 class PenBrush(object):
@@ -122,11 +122,11 @@ class PenBrush(object):
         return 'PenBrush(%r, %r)' % (self.pen, self.brush)
 
     def replace(self, pen=None, width=None, brush=None):
-        if pen and width is not None:
+        if pen is not None and width is not None:
             raise ValueError("specify pen or width not both")
         if width is not None and self.pen:
             pen = Pen(self.pen.brush, width)
-        return PenBrush(pen or self.pen, brush or self.brush)
+        return PenBrush(pen if pen is not None else self.pen, brush if brush is not None else self.brush)
 
 
 class ColorsByShape(object):
-- 
2.43.0


From 4806a57bd3e41f6e76fda8e6aee0c3ad74217595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 41/50] fix: offset_pt leaves points alone at zero-length
 VectorRelative handles too

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 05fbe75..f6cd4d3 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -415,7 +415,7 @@ class ElemCurve(Elem):
     @classmethod
     def offset_pt(cls, dl: Vector, pt: BasePoint, dr: Vector, offset):
         """Compute the new point that is offset from pt by <offset>"""
-        if dl == Vector() or dr == Vector():
+        if not dl or not dr:
             # Do not attempt to offset if either vector is zero
             # TODO-should be smarter than this
             return pt
-- 
2.43.0


From 3dda090fa4d6b4b91c51b544fe209946b6c3e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 42/50] fix: A zero-length curve has no intersections, not ones
 at NaN

---
 x7/geom/bezier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 51377dd..59b7316 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -189,6 +189,9 @@ def bez_intersect_new(
         # bz.intersect will give up if there are too many "candidate" intersections
         print('WARNING: ', err)
         intersections = np.array([])
+    if intersections.size:
+        # bz.intersect produces nan for curves with all control points coincident
+        intersections = intersections[:, np.isfinite(intersections).all(axis=0)]
     if not endpoints and intersections.size:
         intersections = np.array(([(t, s) for t, s in intersections.T if (t, s) not in ((1, 0), (0, 1))])).T
     if intersections.size:
-- 
2.43.0


From 09275950976ccafdb13fb4149e6aa7ea7de30d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 43/50] fix: Non-linear transforms of smooth control points
 with equal handles no longer fail

---
 x7/geom/bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 59b7316..ed507f2 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -85,7 +85,7 @@ class ControlPoint(object):
                 cp.dr = (cp.dr - cp.dl) / 2
                 cp.dl = -cp.dr
             elif cp.kind == 'smooth':
-                if cp.dl or cp.dr:
+                if cp.dr - cp.dl:
                     direction = (cp.dr - cp.dl).unit()
                     cp.dr = cp.dr.length() * direction
                     cp.dl = -cp.dl.length() * direction
-- 
2.43.0


From b7edfc7191618c1dbea6c8adbacabe7e5831d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 44/50] fix: ElemWithHoles.display labels the inside elements

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index f6cd4d3..4fb8e27 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1141,7 +1141,7 @@ class ElemWithHoles(Elem):
             print('%sTransform: %s' % (prefix, self.xform))
         print('%sOutside:' % prefix)
         self.outside.display(detail=detail, prefix=prefix + '  ')
-        print('%sOutside:' % prefix)
+        print('%sInside:' % prefix)
         for elem in self.inside:
             elem.display(detail=detail, prefix=prefix + '  ')
 
-- 
2.43.0


From 25be7057a7fb8747ad455fe3ecae3cf364d89f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 45/50] fix: Intersections of curves with large coordinates no
 longer fail

---
 x7/geom/bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index ed507f2..d93246f 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -183,8 +183,11 @@ def bez_intersect_new(
     """
     curve_a = bz_curve(cpa1, cpa2)
     curve_b = bz_curve(cpb1, cpb2)
+    # The tolerances of bz.intersect are absolute: scale large curves down first (exactly, by a power of two)
+    size = max(np.abs(curve_a.nodes).max(), np.abs(curve_b.nodes).max())
+    scale = 2.0 ** min(0, 7 - int(np.frexp(size)[1]))
     try:
-        intersections = curve_a.intersect(curve_b)
+        intersections = BzCurve(curve_a.nodes*scale, 3).intersect(BzCurve(curve_b.nodes*scale, 3))
     except NotImplementedError as err:
         # bz.intersect will give up if there are too many "candidate" intersections
         print('WARNING: ', err)
-- 
2.43.0


From a35780bf689df5bff39926f9f6aa2c0de4f343ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 46/50] fix: Splitting curves with large coordinates at their
 crossings no longer fails

---
 x7/geom/bezier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index d93246f..647c44c 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -366,6 +366,10 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
             all_curves.append((cpa, cpb, []))
     # bz_plot_curves([[a, b] for a, b, c in all_curves])
 
+    # How close is the same point?  (rounding errors grow with the coordinates)
+    size = max(abs(v) for cp in orig_cps for pt in (cp.c, cp.l, cp.r) for v in pt.xy())
+    eps = max(1e-11, 1e-13*size)
+
     found_ixs = False       # found any intersections?
     for a, b in itertools.combinations(all_curves, 2):
         ixs = bez_intersect_new(a[0], a[1], b[0], b[1], endpoints=False)
@@ -393,7 +397,7 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
         for t_ix, xy_ix in sorted(intersections):
             node_ix = graph.node(xy_ix, create=True)
             l, m, r = bez_split(a, b, (t_ix-t)/(1-t))
-            if (m.c-node_ix.center).length() > 1e-10:
+            if (m.c-node_ix.center).length() > 10*eps:
                 raise ValueError('m.c!=ix.c by %s: %s != %s' % ((m.c-node_ix.center).length(), m.c, node_ix.center))
             local_cpbs.append(CpBool(l, next_node))
             next_node = node_ix
@@ -479,7 +483,6 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
                     if debug:
                         print('   ', ', '.join(str(cp.c.round(2)) for cp in cps))
                     for edge in edges[1:]:
-                        eps = 1e-11
                         if cps[-1].c.close(edge.cps[0].c, max_delta=eps):
                             ecps = edge.cps[:]
                             if debug:
-- 
2.43.0


From bdfc3b60924fa8c15703694e7d21ed13d4c1aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 47/50] fix: Shadows no longer reappear at the opposite edge of
 the image

---
 x7/geom/drawing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/x7/geom/drawing.py b/x7/geom/drawing.py
index 75aca78..e99a3ee 100644
--- a/x7/geom/drawing.py
+++ b/x7/geom/drawing.py
@@ -27,9 +27,17 @@ def make_shadow(base):
     r, g, b, a = base.split()
     [i.paste(i.getextrema()[1], (0, 0) + i.size) for i in (r, g, b)]
     a0 = a
-    sa = ImageChops.offset(a, 4, 3)
+
+    def shift(image):
+        image = ImageChops.offset(image, 4, 3)
+        # ImageChops.offset wraps around, but what moves out of the image is gone
+        image.paste(0, (0, 0, 4, image.height))
+        image.paste(0, (0, 0, image.width, 3))
+        return image
+
+    sa = shift(a)
     for n in range(6):
-        a = ImageChops.offset(a, 4, 3)
+        a = shift(a)
         a = a.filter(ImageFilter.BLUR)
         a = ImageEnhance.Brightness(a).enhance(0.95)
         sa = ImageChops.lighter(sa, a)
-- 
2.43.0


From 5426be675fbed5a65539be0d58fa482bc659d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 48/50] fix: VectorField look-ups see the vectors assigned
 after an earlier look-up

---
 x7/geom/vec_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 48fa65e..cc96435 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -64,7 +64,7 @@ class VectorField(Transformer):
 
     def interp_coords(self, pts: NumpyArray):
         """Lookup/interpolate at all pts.  Return (vx-list, vy-list)"""
-        if not self.interp_x:
+        if not self.interp_x or self.interp_x.values is not self.vx or self.interp_y.values is not self.vy:
             coords = (self.mesh.coord_x, self.mesh.coord_y)
             rgi = scipy.interpolate.RegularGridInterpolator
             self.interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=None)
-- 
2.43.0


From 34e318cb5241a206738ffcd6b971c51ab3cf94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 49/50] fix: bz_plot_curves left out everything past the
 sixtieth curve or segment

---
 x7/geom/bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 647c44c..54e368b 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -128,11 +128,11 @@ def bz_plot(curves: List, points: PointList):
 def bz_plot_curves(curves: List[List[ControlPoint]], color_by_segment=False):
     bz_curves = []
     pts = []
-    colors = ['red', 'green', 'blue', 'yellow', 'cyan', 'purple'] * 10
-    for curve, color in zip(curves, colors):
+    colors = ['red', 'green', 'blue', 'yellow', 'cyan', 'purple']
+    for curve, color in zip(curves, itertools.cycle(colors)):
         pts.extend(cp.c for cp in curve)
         if color_by_segment:
-            bz_curves.extend([(bz_curve(a, b), color) for (a, b), color in zip(iter_rotate(curve), colors)])
+            bz_curves.extend([(bz_curve(a, b), color) for (a, b), color in zip(iter_rotate(curve), itertools.cycle(colors))])
         else:
             bz_curves.extend([(bz_curve(a, b), color) for a, b in iter_rotate(curve)])
         rounded = [cp.round(2) for cp in curve]
-- 
2.43.0


From c9ea0a4954d90a8dd3536ee3a1d029250cafe4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 50/50] fix: VectorField.plot put the title on the current axes
 instead of the given ones

---
 x7/geom/vec_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index cc96435..c64a536 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -95,7 +95,7 @@ class VectorField(Transformer):
         # plt.ylim(-5, 5)
 
         if title:
-            plt.title(title, fontsize=10)
+            ax.set_title(title, fontsize=10)
 
         plt.show()
 
-- 
2.43.0

