From 06f43d3cf47329d1f861f18439ee6cb88ea7e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:12 +0000
Subject: [PATCH 01/20] fix: Segment2D.nearest_point and projection return
 copies, not the stored end points

---
 src/pyrusgeom/segment_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index d37bf8a..4213a6d 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -284,7 +284,7 @@ class Segment2D:
         length = direction.r()
 
         if length < EPSILON:
-            return self._origin
+            return Vector2D(self._origin)
 
         direction /= length  # normalize
 
@@ -450,15 +450,15 @@ class Segment2D:
         len_square = vec_tmp.r2()
 
         if len_square == 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         inner_product = vec_tmp.inner_product((point - self._origin))
 
         if inner_product <= 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         if inner_product >= len_square:
-            return self._terminal
+            return Vector2D(self._terminal)
 
         return self._origin + vec_tmp * inner_product / len_square
 
-- 
2.43.0


From 3e36438fcc361b7750b173400555ead0d86ba56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:14 +0000
Subject: [PATCH 02/20] fix: Segment2D.assign no longer resets the segment
 before rejecting its arguments

---
 src/pyrusgeom/segment_2d.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 4213a6d..2eef353 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -102,8 +102,6 @@ class Segment2D:
             Exception: input must be (4 float) or (1 vector2d , 2 float) or (2 vector2d) or nothing
         """
         # self.__init__(args)
-        self._origin: Vector2D = Vector2D(0, 0)
-        self._terminal: Vector2D = Vector2D(0, 0)
         if len(args) == 2:
             self._origin = Vector2D(args[0])
             self._terminal = Vector2D(args[1])
-- 
2.43.0


From 65b60d80e2d9c54c0705c6367f14a18d5f158e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 03/20] fix: Matrix2D multiplication returns a new matrix and
 leaves its left operand alone

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 478ff06..3ba35b3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -343,7 +343,7 @@ class Matrix2D:
         if isinstance(other, Vector2D):
             return self.transform(other)
         if isinstance(other, Matrix2D):
-            mat_tmp = self
+            mat_tmp = Matrix2D(self._m11, self._m12, self._m21, self._m22, self._dx, self._dy)
             return mat_tmp.__imul__(other)
         return self
 
-- 
2.43.0


From ca7c3e063e3e41d473e1c2730fa2b5745b09635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 04/20] fix: Matrix2D equality compares the horizontal
 translation with its counterpart

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 3ba35b3..dd569f3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -362,7 +362,7 @@ class Matrix2D:
 
         return self._m11 == other.m11() and self._m12 == other.m12() and\
             self._m21 == other.m21() and self._m22 == other.m22() and\
-            self._dx == other.dytf() and self._dy == other.dytf()
+            self._dx == other.dxtf() and self._dy == other.dytf()
 
 
     def __repr__(self):
-- 
2.43.0


From c1a7bd432d82b46915ba329a377e783a06e04d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 05/20] fix: Sector2D keeps the inner radius it is given and
 reports its outer radius

---
 src/pyrusgeom/sector_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index b8b8679..6cd1c6b 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -44,7 +44,7 @@ class Sector2D(Region2D):
         super().__init__()
 
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -62,7 +62,7 @@ class Sector2D(Region2D):
             end (Union[AngleDeg, float]): end angle(turn clockwise)
         """
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -97,7 +97,7 @@ class Sector2D(Region2D):
         Returns:
             float: the big side radius
         """
-        return self._min_r
+        return self._max_r
 
     def angle_left_start(self) -> AngleDeg:
         """get the left start angle copy
-- 
2.43.0


From c1e5ab1a5a2ff19417ae36459c7c727101161ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:23 +0000
Subject: [PATCH 06/20] fix: copies of a Vector2D carry its validity mark

---
 src/pyrusgeom/vector_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 45ccb98..b420eec 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -55,6 +55,7 @@ class Vector2D:
             elif len(args) == 1 and isinstance(args[0], Vector2D):
                 self._x = args[0].x()
                 self._y = args[0].y()
+                self._is_valid = args[0].is_valid()
             elif len(args) == 0:
                 self._x = 0
                 self._y = 0
@@ -110,7 +111,7 @@ class Vector2D:
         Returns:
            Vector2D: Copy of this Vector 2D
         """
-        return Vector2D(self._x, self._y)
+        return Vector2D(self)
 
     def get_copy(self) -> Vector2D:
         """returns copy of this Vector2D
-- 
2.43.0


From ab5e9e134ca21fcf0397cb59eabbd83f86f26b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:29 +0000
Subject: [PATCH 07/20] fix: Rect2D copies the Size2D it is built from instead
 of sharing it with the caller

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index b631ea4..2519852 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -98,7 +98,7 @@ class Rect2D(Region2D):
                 self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
             self._is_valid = True
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
@@ -164,7 +164,7 @@ class Rect2D(Region2D):
                 self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
-- 
2.43.0


From f8891539dce2950fc1cc71faa8735c28b8804c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:31 +0000
Subject: [PATCH 08/20] fix: Rect2D.assign with four numbers takes the length
 from the third one

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 2519852..8e853a5 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -143,7 +143,7 @@ class Rect2D(Region2D):
 
         if len(args) == 4:
             self._top_left.assign(args[0], args[1])
-            self._size.assign(args[0], args[3])
+            self._size.assign(args[2], args[3])
         elif len(args) == 3:
             self._top_left = Vector2D(args[0])
             self._size.assign(args[1], args[2])
-- 
2.43.0


From 553d0a7678055ee20a938ccf57f8c8881d871bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:34 +0000
Subject: [PATCH 09/20] fix: Rect2D built or assigned from two corners is no
 longer emptied

---
 src/pyrusgeom/rect_2d.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 8e853a5..9ac08a2 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -90,12 +90,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-                self._is_valid = True
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
-                self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = Size2D(args[1].length(), args[1].width())
@@ -158,10 +152,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = Size2D(args[1].length(), args[1].width())
-- 
2.43.0


From 46f19eff3001b61ef3d9c6d22e71c273a9231fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:37 +0000
Subject: [PATCH 10/20] fix: Rect2D.from_center accepts a Vector2D as its
 docstring says

---
 src/pyrusgeom/rect_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 9ac08a2..0d64c4d 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -834,7 +834,8 @@ class Rect2D(Region2D):
         if len(args) == 4:
             return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0] - args[1] * 0.5, args[0] - args[2] * 0.5, args[1], args[2])
+            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5,
+                          args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
     def __repr__(self) -> str:
-- 
2.43.0


From a522937fedd4504c2da333d00c6f0b7ffc901639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 11/20] fix: Rect2D.intersected and united compute a new
 rectangle and leave their operands alone

---
 src/pyrusgeom/rect_2d.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 0d64c4d..d957678 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -763,9 +763,8 @@ class Rect2D(Region2D):
         Returns:
             [Rect2D]: rectangle instance
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
         left = max(self.left(), other.left())
         top = max(self.top(), other.top())
@@ -773,13 +772,9 @@ class Rect2D(Region2D):
         length = min(self.bottom(), other.bottom()) - top
 
         if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, width, length)
 
     def united(self, other:Rect2D) -> Rect2D:
         """get the united rectangle of self rectangle and the other rectangle.
@@ -790,23 +785,15 @@ class Rect2D(Region2D):
         Returns:
             Rect2D: rectangle instance.
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-        self._size.assign(0.0, 0.0)
-
-        left = max(self.left(), other.left())
-        top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        left = min(self.left(), other.left())
+        top = min(self.top(), other.top())
+        width = max(self.right(), other.right()) - left
+        length = max(self.bottom(), other.bottom()) - top
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, width, length)
 
     @staticmethod
     def from_center(*args)->Rect2D:
-- 
2.43.0


From 08ba99b68c6289880f4f3071a25ba155efabe22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 12/20] fix: ConvexHull keeps its own list of input points

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 9c5fd3d..5ff28c6 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -137,7 +137,7 @@ class ConvexHull:
             point_list: array of input points
 
         """
-        self._input_points = point_list
+        self._input_points = list(point_list)
         self._vertices = []
         self._edges = []
 
-- 
2.43.0


From 7810b9859b6f7666216893f39ddb15fd8d94ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:44 +0000
Subject: [PATCH 13/20] fix: ConvexHull wrapping method reports the first hull
 edge too

---
 src/pyrusgeom/convex_hull.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 5ff28c6..6cd5183 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -353,10 +353,9 @@ class ConvexHull:
 
             if current_index == min_index:
                 break
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
         self._vertices.pop()
 
-- 
2.43.0


From 44906b5369374587d140631cc75e1a85e60a98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 14/20] fix: ConvexHull Graham scan sorts around its base point
 and keeps the input points

---
 src/pyrusgeom/convex_hull.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 6cd5183..41721d3 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -372,7 +372,7 @@ class ConvexHull:
 
         self.sort_points_angle_from(min_index)
 
-        self._vertices = self._input_points
+        self._vertices = self._input_points.copy()
 
         top = 1
         for i in range(2, point_size):
@@ -420,7 +420,7 @@ class ConvexHull:
         return min_index
 
     def sort_points_angle_from(self, index):
-        """sort points by anlge from base(0,0)
+        """sort points by anlge from the point with the given index
         """
         if len(self._input_points) <= index:
             return
@@ -429,8 +429,10 @@ class ConvexHull:
         self._input_points[0] = self._input_points[index]
         self._input_points[index] = tmp
 
-        # base is (0,0)
-        self._input_points.sort(key=functools.cmp_to_key(angle_sort_predicate))
+        base = self._input_points[0]
+        self._input_points[1:] = sorted(
+            self._input_points[1:],
+            key=functools.cmp_to_key(lambda lhs, rhs: angle_sort_predicate(lhs, rhs, base)))
 
     def to_polygon(self) -> Polygon2D:
         """create and get the convex hull polygon
-- 
2.43.0


From aa142d700cbdf700c7096c9b4d8dfd6678fa5bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:02 +0000
Subject: [PATCH 15/20] fix: an interrupted Graham scan no longer duplicates
 one input point and loses another

---
 src/pyrusgeom/convex_hull.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 41721d3..4c91d35 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -425,14 +425,11 @@ class ConvexHull:
         if len(self._input_points) <= index:
             return
 
-        tmp = self._input_points[0]
-        self._input_points[0] = self._input_points[index]
-        self._input_points[index] = tmp
-
-        base = self._input_points[0]
-        self._input_points[1:] = sorted(
-            self._input_points[1:],
-            key=functools.cmp_to_key(lambda lhs, rhs: angle_sort_predicate(lhs, rhs, base)))
+        base = self._input_points[index]
+        others = self._input_points[:index] + self._input_points[index + 1:]
+        others.sort(key=functools.cmp_to_key(lambda lhs, rhs: angle_sort_predicate(lhs, rhs, base)))
+        # one step, so that an interrupted computation never loses a point
+        self._input_points[:] = [base] + others
 
     def to_polygon(self) -> Polygon2D:
         """create and get the convex hull polygon
-- 
2.43.0


From e04598e86d291d2cc53ea1a0e248ecc0383c0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:04 +0000
Subject: [PATCH 16/20] fix: Triangle2D.intersection with a ray no longer
 returns one point object in two places

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index a78f218..5f6082c 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -299,7 +299,7 @@ class Triangle2D(Region2D):
                 n_sol[0] -= 1
 
             if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
-                n_sol[1] = n_sol[2]
+                n_sol[1] = n_sol[2].copy()
                 n_sol[0] -= 1
 
             return n_sol
-- 
2.43.0


From 76ae4b01f6feab7abad7435b9c4f7ff4595053c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:51 +0000
Subject: [PATCH 17/20] fix: ConvexHull.add_points given the hull's own point
 list no longer runs forever

---
 src/pyrusgeom/convex_hull.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 4c91d35..2f508f4 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -167,8 +167,7 @@ class ConvexHull:
         Args:
             points(list) : points to add
         """
-        for point in points:
-            self._input_points.append(point)
+        self._input_points.extend(points)
 
     def compute(self, m_type: MethodType = MethodType.WRAPPING_METHOD) -> None:
         """generate convex hull by specified method
-- 
2.43.0


From f167feb39be5884f83df1b1e560dcaed0433b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:49 +0000
Subject: [PATCH 18/20] fix: Sector2D given two negative radii no longer ends
 up with a negative outer radius

---
 src/pyrusgeom/sector_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index 6cd1c6b..19585d9 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -45,7 +45,7 @@ class Sector2D(Region2D):
 
         self._center = Vector2D(center)
         self._min_r = max(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
         self.is_valid = True
@@ -63,7 +63,7 @@ class Sector2D(Region2D):
         """
         self._center = Vector2D(center)
         self._min_r = max(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
 
-- 
2.43.0


From 40b5e1a92c8d568d70ceb902430ddb488499dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:15 +0000
Subject: [PATCH 19/20] fix: Segment2D.assign leaves the segment alone when it
 rejects its arguments

The first end was replaced before the second one's type check could raise,
so a rejected call left a segment mixing its new and its old end.
---
 src/pyrusgeom/segment_2d.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 2eef353..eb0b7ae 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -103,20 +103,20 @@ class Segment2D:
         """
         # self.__init__(args)
         if len(args) == 2:
-            self._origin = Vector2D(args[0])
-            self._terminal = Vector2D(args[1])
+            origin, terminal = Vector2D(args[0]), Vector2D(args[1])
         elif len(args) == 3:
-            self._origin = Vector2D(args[0])
-            self._terminal = args[0] + Vector2D.from_polar(args[1], args[2])
+            origin = Vector2D(args[0])
+            terminal = args[0] + Vector2D.from_polar(args[1], args[2])
         elif len(args) == 4:
-            self._origin = Vector2D(args[0], args[1])
-            self._terminal = Vector2D(args[2], args[3])
+            origin, terminal = Vector2D(args[0], args[1]), Vector2D(args[2], args[3])
         elif len(args) == 0:
-            self._origin: Vector2D = Vector2D(0, 0)
-            self._terminal: Vector2D = Vector2D(0, 0)
+            origin, terminal = Vector2D(0, 0), Vector2D(0, 0)
         else:
             raise Exception("input must be (4 float) or \
                 (1 vector2d , 2 float) or (2 vector2d) or nothing")
+        # stored only once every argument has been accepted
+        self._origin: Vector2D = origin
+        self._terminal: Vector2D = terminal
 
     def is_valid(self) -> bool:
         """check if self line segment is valid or not.
-- 
2.43.0


From 1fb75538d9291ca71c3555dd01057cdc8510ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:18 +0000
Subject: [PATCH 20/20] fix: Triangle2D.assign leaves the triangle alone when
 it rejects its arguments

One or two vertices were replaced before a later one's type check could
raise, so a rejected call left a triangle mixing new and old vertices.
---
 src/pyrusgeom/triangle_2d.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 5f6082c..945c9bf 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -86,16 +86,18 @@ class Triangle2D(Region2D):
             Triangle2D: reference to itself
         """
         if len(args) == 3:
-            self._a: Vector2D = Vector2D(args[0])
-            self._b: Vector2D = Vector2D(args[1])
-            self._c: Vector2D = Vector2D(args[2])
+            a, b, c = Vector2D(args[0]), Vector2D(args[1]), Vector2D(args[2])
         elif len(args) == 2:  # and isinstance(args[0], Segment2D):
-            self._a = Vector2D(args[0].origin_())
-            self._b = Vector2D(args[0].terminal_())
-            self._c = Vector2D(args[1])
+            a = Vector2D(args[0].origin_())
+            b = Vector2D(args[0].terminal_())
+            c = Vector2D(args[1])
         else:
             raise Exception("The input must be (three Vector2D) or\
                             (one vector 2D and one segment)")
+        # stored only once every argument has been accepted
+        self._a: Vector2D = a
+        self._b: Vector2D = b
+        self._c: Vector2D = c
         return self
 
     def is_valid(self) -> bool:
-- 
2.43.0

