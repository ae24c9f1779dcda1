From b511f1e1d1fa77cbf752061d70a1ef18cbd39bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 01/28] fix: validity of points and segments follows their
 current coordinates

isvalid was cached on first access, so a point kept its old answer after
_set_coords/_empty and a segment after its endpoints changed.
---
 geometry/SR_line.py  | 3 +--
 geometry/SR_point.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 60ff6ea..a24744c 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -11,7 +11,6 @@ The endpoints are part of the SegmentLine.
 from math import degrees, sqrt, atan2, acos
 from geometry.SR_point import Point, EMPTY, distance, EPS
 from geometry import _plotting_available, plt
-from cached_property import cached_property
 import itertools
 import copy
 
@@ -67,7 +66,7 @@ class LineSegment(object):
         assert all(p.isvalid for p in endpoints)
         self._endpoints = endpoints
 
-    @cached_property
+    @property
     def isvalid(self):
         """ validity check for LineSegments """
         if not (isinstance(self.i, Point) or isinstance(self.j, Point)):
diff --git a/geometry/SR_point.py b/geometry/SR_point.py
index de9b02d..009bc8a 100644
--- a/geometry/SR_point.py
+++ b/geometry/SR_point.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 import math
-from cached_property import cached_property
 from geometry import _plotting_available, plt
 
 EMPTY = (None, None)
@@ -107,7 +106,7 @@ class Point(object):
     def distance(self, other):
         return distance(self, other)
 
-    @cached_property
+    @property
     def isvalid(self):
         """ checks for validity """
         if self._coords == EMPTY:
-- 
2.43.0


From 799d255387d7ed1eafa2746d1a10e660e7f88e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 02/28] fix: angle between parallel lines no longer leaves the
 domain of acos

---
 geometry/SR_line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index a24744c..a5b936f 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -516,7 +516,9 @@ class LineSegment(object):
         assert other.isvalid
 
         # return atan2(norm(self.cross_product(other)), self.dot_product(other))
-        _ret = degrees(acos(self.dotproduct(other) / (self.norm * other.norm)))
+        # rounding may push the cosine of (anti)parallel lines slightly out of [-1, 1]
+        _cos = max(-1., min(1., self.dotproduct(other) / (self.norm * other.norm)))
+        _ret = degrees(acos(_cos))
         return _ret
 
     def angle_from_start_point(self, p=EMPTY):
-- 
2.43.0


From 2574e10d882734ada596020c6a31d939854d59f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 03/28] fix: the point-in-polygon ray ends outside the bounding
 box wherever the polygon lies

The end was drawn from [xmax, 500 * xmax]: for xmax == 0 it lay on the box
and for a negative xmax inside or left of it, so internal points were
reported external.
---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7bc403f..d13b18b 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -494,12 +494,13 @@ class PolygonLine(object):
 
         _bb = self.bounding_box()
         _x, _y = _bb[0][1], _bb[1][1]
+        _span = max(_x - _bb[0][0], _y - _bb[1][0], EPS * 1e3)  # size of the polygon
         _finished = False
         _inters = []
         while not _finished:
             for i in range(ctrlpkt):
                 # # old solution - a Point somewhere to the north east is taken
-                P = Point((random.uniform(_x, 500 * _x), random.uniform(_y, 30 * _y)))
+                P = Point((random.uniform(_x + _span, _x + 500 * _span), random.uniform(_y + _span, _y + 30 * _span)))
                 ls = LineSegment(p, P)  # from p draw line in random direction
 
                 # # new solution: a Line towards the center of gravity and then to infinity
-- 
2.43.0


From 91266e740d5acea3a21671f90feafb18fa985681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 04/28] fix: equal polygons hash equal

The hash was the one of a fresh generator object.
---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index d13b18b..e2f0b16 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -92,7 +92,7 @@ class PolygonLine(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((s.ij for s in self._segments))
+        return hash(tuple(s.ij for s in self._segments))
 
     @property
     def triangles(self):
-- 
2.43.0


From 4e27cb8ca4bf6f986a8a48066f5a3b086d92c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 05/28] fix: loose_equal(direction_matters=True) returns its
 verdict instead of raising TypeError

---
 geometry/SR_polygon.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index e2f0b16..2bb0556 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -71,10 +71,8 @@ class PolygonLine(object):
         if len(self.segments) != len(other.segments):
             return False
 
-        segment_loose_equality = False  # segment loose equality
         if direction_matters:  # direction matters
-            if set(self.segments) == set(other.segments):
-                segment_loose_equality = True
+            return set(self.segments) == set(other.segments)
 
         else:  # whatever the direction
             # we must find for ALL segments in self a segment in other that is loosely equal
-- 
2.43.0


From fefec6dd36fdf8af4aa2d7c883b412d7d6b200a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 06/28] fix: adding polylines leaves the summands as they were

The sum was collected in the segment list of the first summand.
---
 geometry/SR_polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 2bb0556..cc66e9b 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1826,9 +1826,10 @@ def add(self, *other):
     assert self.isvalid and all([x.isvalid for x in other])
     assert not (self.isclosed and all([x.isclosed for x in other]))
 
-    _sum = self.segments
+    # copies: neither the segments nor the Points of the summands may change
+    _sum = copy.deepcopy(self.segments)
     for s in other:
-        _sum += s.segments
+        _sum += copy.deepcopy(s.segments)
 
     _ret = PolygonLine(_sum)
     _ret.purge()
-- 
2.43.0


From ac7443e5ca6d0e344c74414c2b692ba5324bee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 07/28] fix: ordered_copy returns the ordered copy

---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index cc66e9b..07ba73c 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -184,7 +184,8 @@ class PolygonLine(object):
     def ordered_copy(self):
         import copy
         _ = copy.deepcopy(self)
-        return _.order()
+        _.order()
+        return _
 
     def order(self):
         """
-- 
2.43.0


From 27745d9fa9ec1d163ad3753198ccdab41ef83af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 08/28] fix: polygons with more than 250 segments can be
 ordered

---
 geometry/SR_polygon.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 07ba73c..1dd454a 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -238,9 +238,6 @@ class PolygonLine(object):
             _end = _nxt.j
             _akt = _nxt
 
-            if count > 500:
-                raise Exception('WTF')
-
         # finished ordering the polygon
         # making sure the resulting polygon is always the same: sorting the segments so that the first is the one
         # that has its i endpoint the closest to the origin
-- 
2.43.0


From 1da67132dd7e2b856aad7a54112772aafa8968af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 09/28] fix: a line tangent to a sphere gives its one point
 instead of NameError

---
 geometry/additional_stuff.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/additional_stuff.py b/geometry/additional_stuff.py
index 95ec420..f781a14 100644
--- a/geometry/additional_stuff.py
+++ b/geometry/additional_stuff.py
@@ -34,8 +34,6 @@ def sphere_line_intersection(l1, l2, sp, r):
         pass  # no intersections
     elif i == 0.0:
         # one intersection
-        p[0] = 1.0
-
         mu = -b / (2.0 * a)
         p1 = (l1[0] + mu * (l2[0] - l1[0]),
               l1[1] + mu * (l2[1] - l1[1]),
-- 
2.43.0


From 3ae351f4e15389678702b7819c8fa7d6a316edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 10/28] fix: bounding box of polygons beyond 1e11

---
 geometry/SR_polygon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 1dd454a..b8c4665 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -542,10 +542,10 @@ class PolygonLine(object):
 
     def bounding_box(self):
         """ returns a tuple of tuples: (xmin, xmax), (ymin, ymax) """
-        _xmin = 10e10
-        _xmax = -10e10
-        _ymin = 10e10
-        _ymax = -10e10
+        _xmin = float('inf')
+        _xmax = float('-inf')
+        _ymin = float('inf')
+        _ymax = float('-inf')
         for _s in self.segments:
             _xmin = min(_xmin, min([ep.x for ep in _s.ij]))
             _xmax = max(_xmax, max([ep.x for ep in _s.ij]))
-- 
2.43.0


From 890fdb7ff996986e7e11353a759de73292de3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 11/28] fix: is_on_boundary tells points of the outline

Every point is either internal or not internal, so it always returned False.
---
 geometry/SR_polygon.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index b8c4665..1181ce3 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -532,8 +532,6 @@ class PolygonLine(object):
 
     def is_on_boundary(self, p=EMPTY):
         """ Tells if the point is on the Polygonline """
-        if self.is_internal_point(p=p) or self.is_external_point(p=p):
-            return False
         if p in self.point_set:
             return True
         if any([x.is_internal_point(p=p) and x.is_point_on_line(p=p) for x in self.segments]):
-- 
2.43.0


From 49bf3f5475986e397fd6dae42fbdfcae9cc2082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 12/28] fix: clockwise arcs run along the circle

polygon_from_nodes(cw=True) keeps the first node in front, which is right for
a closed outline but replaced the first step of the arc by a chord.
---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 1181ce3..69db1cc 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1742,7 +1742,9 @@ def arc(P=None, r=None, alpha_start=0, alpha_end=360, n=10, cw=False):
     for st in range(n+1):
         _deg = (st * degstep) % 360
         nodes.append([r * math.cos(math.radians(_deg)), r * math.sin(math.radians(_deg))])
-    pl = polygon_from_nodes(nodes=nodes, cw=cw)
+    if cw:
+        nodes = nodes[::-1]
+    pl = polygon_from_nodes(nodes=nodes)
     pl.rotate_about_origin(phi=alpha_start)
     if isinstance(P, Point):
         pl.move(x0=P.x, y0=P.y)
-- 
2.43.0


From 9c663f884a1f64fe7d5cf771ef2f9d4451399f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 13/28] fix: as_edgelist numbers the nodes instead of comparing
 Points, which have no order

---
 geometry/SR_polygon_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 915f40d..b461750 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -267,8 +267,7 @@ class PolygonGroup(object):
     def as_edgelist(self):
         """ Prepares a list of segments, where each node has a separate value (int), to be used in MCB """
         _conn = self.points_numbered
-        # graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
-        graph = sorted([(s.i, s.j) for s in self.all_segments])
+        graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
         return graph
 
     def as_adjacency_list(self, as_numbered=False):
-- 
2.43.0


From 4de86132b6737f0db6f51d3e3a15cb5ca73d6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 14/28] fix: StandZarge.from_dict creates a StandZarge

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index af68e05..a2cc479 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -628,7 +628,7 @@ class Mantel(Hauptteil):
     @classmethod
     def from_dict(cls, adict):
         try:
-            mantel = Mantel(
+            mantel = cls(
                 name=adict['name'],
                 pos_v=adict['pos_v'],
                 pos_h=adict['pos_h'],
-- 
2.43.0


From 03cf733e2eee257a03adf840ae5d405583fabd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 15/28] fix: asking a group for its graph does not tie its
 polygons together

The representative graph was purged in place, so neighbouring polygons ended
up sharing Point objects and moving one of them deformed the other.
---
 geometry/SR_polygon_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index b461750..8c33ecb 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -3,6 +3,7 @@
 from geometry.SR_point import EPS
 from geometry.SR_polygon import PolygonLine, convex_hull, remove_outlier_segments, walk_segments
 from cached_property import cached_property
+import copy
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
 from collections import Counter
@@ -242,7 +243,8 @@ class PolygonGroup(object):
         This PolygonLine is not necessarily valid, but can be used as a Graph of the PolygonGroup
         """
         # _sum = sum([x.segments for x in self.polygons], [])
-        _sum = itertools.chain.from_iterable([x.segments for x in self.polygons])
+        # copies: purging must not make the polygons of the group share their Points
+        _sum = itertools.chain.from_iterable([copy.deepcopy(x.segments) for x in self.polygons])
         pl = PolygonLine(_sum)
         pl.purge()
         return pl
-- 
2.43.0


From c539504f8878a7a1dad7c3009e97a82fb41d13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 16/28] fix: finding the cycles of a group does not reverse the
 segments of its polygons

---
 geometry/SR_polygon_group.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 8c33ecb..1a7f936 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -85,7 +85,8 @@ class PolygonGroup(object):
         """
         _ret = {}
         for k, v in self.segments_in_cycles.items():  # dict with cycle: points in cycle (integer numbered)
-            segs = list(itertools.chain.from_iterable([x.wall_segments for x in v]))  # all segments in the cycle
+            # all segments in the cycle; copies, as ordering reverses segments
+            segs = copy.deepcopy(list(itertools.chain.from_iterable([x.wall_segments for x in v])))
 
             _ch = PolygonLine(remove_outlier_segments(segs))
             _ch.order()
@@ -583,7 +584,7 @@ class BehalterGraph(PolygonGroup):
                     continue
 
                 # make a polygonline from the current segments and order it
-                _polygon = PolygonLine(list(p))
+                _polygon = PolygonLine(copy.deepcopy(list(p)))
                 # if it can be ordered then its is at least a closed loop
                 if not _polygon.order():
                     print('cont: unorderable')
@@ -602,8 +603,7 @@ class BehalterGraph(PolygonGroup):
                     try:
                         next(branchpoints)
                     except StopIteration:  # a loop without branch was found, this can be removed.
-                        graph = [x for x in graph if x not in _polygon.segments]
-                        graph = [x for x in graph if x.line_reversed not in _polygon.segments]
+                        graph = [x for x in graph if not any(x.loose_equal(y) for y in _polygon.segments)]
                         continue
 
         polygons = sorted(cycles, key=lambda x: len(x.segments))
-- 
2.43.0


From e25fa4a309b72153e37c46baa9d3468a5b598ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 17/28] fix: the area of a polygon follows its current shape

It was cached on first access and kept after the polygon was changed.
---
 geometry/SR_polygon.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 69db1cc..4fe9e21 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -9,7 +9,6 @@ from geometry import _plotting_available, plt, PURGE
 import random
 import pprint as pp
 import collections
-from cached_property import cached_property
 
 
 TRIANGULATION_ALGORITHM = 'triangle'  # currently only triangle works
@@ -592,7 +591,7 @@ class PolygonLine(object):
         else:
             return False
 
-    @cached_property
+    @property
     def area(self):
         """
         checks for the results of three different ways to calculate the area and yields one
-- 
2.43.0


From b4575cbf6cee4a2549dab4d7fe6510477475fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 18/28] fix: polygons are purged again after their segments
 were replaced or extended

The purged flag survived appending points, splitting a part and renewing a
graph. The next move() then treated equal but distinct Points as one and left
some of them behind, tearing the outline apart. The triangles of the former
segments are dropped, too.
---
 SR_Vessel/SR_hauptteile.py   |  9 +++++++--
 geometry/SR_polygon.py       | 11 +++++++++--
 geometry/SR_polygon_group.py |  1 +
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index a2cc479..141861d 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -591,6 +591,8 @@ class Hauptteil(PolygonLine):
                     else:
                         raise Exception('What else could it be')
 
+        self._segments_changed()
+
         # making sure the numbering of the graphs is renewed
         # without this the node numbering is screwed up
         self.graph.renew()
@@ -604,6 +606,7 @@ class Hauptteil(PolygonLine):
             # currently the only possibility is to have a ring-formed raumende.
             # the two outer parts are kept as Wall, the internal as NonWall
             ht._segments = [Wall(_pts[0], _pts[1]), NonWall(_pts[1], _pts[2]), Wall(_pts[2], _pts[3])]
+            ht._segments_changed()
 
             # making sure the numbering of the graphs is renewed
             # without this the node numbering is screwed up
@@ -1149,7 +1152,7 @@ class KegelKrempe(Hauptteil):
                 _graphrep_re.append(Wall(_kre_re.segments[-1].i, _kre_re.segments[-1].j))
 
             if _ips[0] is not None:
-                _kre_re._segments.insert(0, LineSegment(_ips[0], _kre_re.first_point))
+                _kre_re.append_point_at_beginning(_ips[0])
                 _graphrep_re.insert(0, Wall(_kre_re.segments[0].i, _kre_re.segments[0].j))
 
         else:
@@ -1188,6 +1191,7 @@ class KegelKrempe(Hauptteil):
         lo_hor = NonWall(p4, p1)
         hi_hor = NonWall(p2, p3)
         self.ht_oben._segments = [ri_vert, hi_hor, le_vert, lo_hor]
+        self.ht_oben._segments_changed()
         self.ht_oben.graph.renew()
 
         _ht = self.kegel
@@ -1200,6 +1204,7 @@ class KegelKrempe(Hauptteil):
         lo_hor = NonWall(p4, p1)
         hi_hor = NonWall(p2, p3)
         self.kegel._segments = [ri_vert, hi_hor, le_vert, lo_hor]
+        self.kegel._segments_changed()
         self.kegel.graph.renew()
 
         if self.ht_unten is not None:
@@ -1218,6 +1223,7 @@ class KegelKrempe(Hauptteil):
             else:
                 raise Exception('WTF')
             _ht._segments = [ri_vert, hi_hor, le_vert, lo_hor]
+            _ht._segments_changed()
             _ht.graph.renew()
 
         # self.ht_oben.plot(show=False)
@@ -1296,7 +1302,6 @@ class StandZarge(Mantel):
     # same as a Mantel but the lower segment is a wall
     def __init__(self, name=None, pos_v=None, pos_h=0, d=(), h=None):
         super(StandZarge, self).__init__(name=name, pos_v=pos_v, pos_h=pos_h, d=d, h=h)
-        self._segments = self.make_segments
 
     @property
     def make_segments(self):
diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 4fe9e21..c5f7721 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -98,6 +98,11 @@ class PolygonLine(object):
     def _delete_triangles(self):
         self._triangles = set()
 
+    def _segments_changed(self):
+        """ forgets what was found out about the former segments """
+        self.purged = False
+        self._delete_triangles()
+
     @property
     def segments(self):
         return self._segments
@@ -252,21 +257,23 @@ class PolygonLine(object):
     def append_point_at_end(self, p=EMPTY):
         """
         Adds a point to the end, that is, a new segment with the starting point previous endpoint
-        This operation maintains the state of being purged or not, thus self.purged remains unchanged
+        p may coincide with an existing Point, so the polyline has to be purged again
         """
         assert p.isvalid  # a Point object
 
         self._segments.append(LineSegment(self.last_point, p))
+        self._segments_changed()
 
     def append_point_at_beginning(self, p=EMPTY):
         """
         Adds a point to the beginning, that is, a new segment with the starting point provided here and 
         endpoint the former startpoint
-        This operation maintains the state of being purged or not, thus self.purged remains unchanged
+        p may coincide with an existing Point, so the polyline has to be purged again
         """
         assert p.isvalid  # a Point object
 
         self._segments.insert(0, LineSegment(p, self.first_point))
+        self._segments_changed()
 
     def add_internal_point(self, p=EMPTY, segment=None):
         """ add a point that is for sure on the inside of the polygon """
diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 1a7f936..533c2ca 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -762,6 +762,7 @@ class Graph(PolygonLine):
     def renew(self):
         """ re-creates the graph. To be used if the hauptteil has been changed (e.g. split) """
         self._segments = self.hauptteil.graphrepr_segments
+        self._segments_changed()
         self._internal_point = []
         self._indifferent_point = []
         self._external_point = []
-- 
2.43.0


From 6fedc0343a5f0bca7e52922e6b491ba9fd43ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 19/28] fix: disjunct compares the current shapes

Polygons that were never triangulated were always disjunct, and triangles of
the former shape were used after a move.
---
 geometry/SR_polygon.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index c5f7721..33f18c5 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -143,6 +143,8 @@ class PolygonLine(object):
         """
         two polygons are disjunct if none of their triangles (from triangulation) overlap or are congruent
         """
+        for x in (self, other):
+            x.triangulate()
         _all_tri_pairs = itertools.combinations(itertools.chain.from_iterable([x.triangles for x in [self, other]]), 2)
         if any(x[0].overlap(x[1]) or x[0].congruent(x[1]) for x in _all_tri_pairs):
             return False
@@ -432,6 +434,7 @@ class PolygonLine(object):
         """ adds a segment to close the plygon """
         if self.isopen:
             self._segments.append(LineSegment(self.last_point, self.first_point))
+            self._delete_triangles()
         else:
             pass
 
@@ -565,6 +568,7 @@ class PolygonLine(object):
         """
         _cp = math.cos(math.radians(phi))  # sin(phi) shorthand
         _sp = math.sin(math.radians(phi))  # cos(phi) shorthand
+        self._delete_triangles()
         self.purge()
         for _p in self.point_set:
             _c = (_p.x * _cp - _p.y * _sp, _p.x * _sp + _p.y * _cp)  # "exact values"
@@ -573,12 +577,14 @@ class PolygonLine(object):
 
     def mirror_vertical(self, x0):
         """ Mirrors the segment on a vertical line located at x0 """
+        self._delete_triangles()
         self.purge()
         for _p in self.point_set:
             _p._set_coords(coords=(_p.x - 2 * (_p.x - x0), _p.y))
 
     def move(self, x0=None, y0=None):
         """ Moves the polygon by x0, y0 units """
+        self._delete_triangles()
         self.purge()
         # for s in self._segments:
         #     s.move(x0=x0, y0=y0)
@@ -1676,6 +1682,7 @@ def simplify(polygon):
     Given a polygon it removes outliers and their internal, external points
     """
     polygon._segments = remove_outlier_segments(polygon._segments)
+    polygon._delete_triangles()
     polygon._internal_point = [x for x in polygon._internal_point if x.segment in polygon.segments]
     polygon._external_point = [x for x in polygon._external_point if x.segment in polygon.segments]
 
-- 
2.43.0


From 6bd09a3a005b32b51aa499d77dab3d5240b37f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 20/28] fix: plotting groups, vessels and triangulations is a
 no-op without matplotlib

They used plt = None and failed with AttributeError.
---
 SR_Vessel/SR_hauptteile.py   | 5 +++++
 geometry/SR_polygon.py       | 4 ++++
 geometry/SR_polygon_group.py | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 141861d..7b5c9fa 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+from geometry import _plotting_available
 from geometry.SR_point import Point
 from geometry.SR_line import LineSegment, point_on_line_at_ratio
 from geometry.SR_polygon import PolygonLine, arc, intersecting_lines, simplify
@@ -430,6 +431,10 @@ class Behalter(PolygonGroup):
 
     def plot(self, cycles=True, annotate=False):
         """ This plots a Behalter, based on the raums """
+        if not _plotting_available:
+            print('No plotting available')
+            return
+
         from geometry import plt, PG, PC
         for rindex, r in enumerate(self.raume):
             _segs = [w.wall_segments for w in itertools.chain(r.innere_wandung, r.aussere_wandung)]
diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 33f18c5..249f42e 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1547,6 +1547,10 @@ class Delaunay2d:
 
     def show(self, width=500, height=500, showVertices=True, showContour=[]):
 
+        if not _plotting_available:
+            print('No plotting available')
+            return
+
         from geometry import plt
 
         xmin = min([p.x for p in self.points])
diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 533c2ca..835bb5e 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+from geometry import _plotting_available
 from geometry.SR_point import EPS
 from geometry.SR_polygon import PolygonLine, convex_hull, remove_outlier_segments, walk_segments
 from cached_property import cached_property
@@ -201,6 +202,9 @@ class PolygonGroup(object):
 
     def plot(self, cycles=True, annotate=False):
         """ This plots all polygons in the group """
+        if not _plotting_available:
+            print('No plotting available')
+            return
 
         if not cycles:
             self.polygons[0].plot(also_plot=self.polygons[1:], show=True, annotate=annotate)
-- 
2.43.0


From 6fd8b82c65a8f698136ed587406dd3c8c5d9e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 21/28] fix: a segment and its reverse have opposite directions

The directions in degrees were compared for exact equality, which rounding
spoils for about every second segment.
---
 geometry/SR_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index a5b936f..148c20b 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -228,7 +228,7 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if (self.direction + 180) % 360 == other.direction:
+        if self.is_parallel(other) and self.dotproduct(other) < 0:
             return True
         else:
             return False
-- 
2.43.0


From 522ff52d5b3f85cc77d0fe5c4b2b5649001f414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 22/28] fix: only cycles within a room are its inner walls

---
 SR_Vessel/SR_hauptteile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 7b5c9fa..96caac3 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -288,6 +288,10 @@ class Behalter(PolygonGroup):
                     _iw = []  # innere Wandung
                     _visited = []
                     for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
+                        # cycles that are not contained in this one are not internal walls of the room
+                        if not all(x in self.contained_cycles[c] for x in k):
+                            continue
+
                         # first run
                         if not _visited:
                             _iw.append([])
-- 
2.43.0


From be10ccd85118488cfd61a6ca60207e4684dc4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 23/28] fix: a node with ten or more edges makes a group
 invalid, too

---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 835bb5e..8a736f7 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -186,7 +186,7 @@ class PolygonGroup(object):
         elif nd[3] % 2 == 1:  # has odd number of branches
             print('has odd number of branches')
             _ret = False
-        elif sum([1 for x in range(4, 10) if nd[x] > 0]):  # has node with more than 3 edges connected
+        elif any([len(x) > 3 for x in _al.values()]):  # has node with more than 3 edges connected
             print('has node with more than 3 edges connected')
             _ret = False
         else:
-- 
2.43.0


From a7b6f87174d9c4c4f0146224d9a38d09b2fa500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 24/28] fix: finding the loops of a group that is one ordered
 loop failed, no segments left to walk

---
 geometry/SR_polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 249f42e..fae0aa8 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1860,6 +1860,9 @@ def walk_segments(segments=(), startingpoint=None):
     The polygon doesn't have to be ordered, but needs to be closed to walk it.
     """
 
+    if not segments:
+        return False
+
     if startingpoint is None:
         startingpoint = segments[0].i
 
-- 
2.43.0


From 8e56d310594c25fb6f3ac1a467848fc1d92d48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 25/28] fix: a loop with branches that end there in the other
 direction was taken for branchless, other loops got lost

---
 geometry/SR_polygon.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index fae0aa8..ea201c7 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1866,7 +1866,6 @@ def walk_segments(segments=(), startingpoint=None):
     if startingpoint is None:
         startingpoint = segments[0].i
 
-    _has_branch = False
     _not_visited = set(copy.deepcopy(segments))
     _aktsegment = [x for x in _not_visited if startingpoint == x.i][0]
     _visited = {_aktsegment}
@@ -1877,8 +1876,6 @@ def walk_segments(segments=(), startingpoint=None):
             _nextsegment = [x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]  # non-ordered solution
             if not _nextsegment:
                 return False
-        if len(_nextsegment) > 1:
-            _has_branch = True
         _nextsegment = _nextsegment[0]
 
         _visited.add(_aktsegment)
@@ -1890,8 +1887,10 @@ def walk_segments(segments=(), startingpoint=None):
         segs = copy.deepcopy(_visited)
         segs.add(_nextsegment)
         _poly = PolygonLine(segs)
-        if _poly.order() and _poly.isclosed and not _has_branch:
-            return _poly
+        if _poly.order() and _poly.isclosed:
+            # no other segment may end in a point of the loop, whatever its direction
+            if all(len([x for x in segments if p in x.ij]) == 2 for p in _poly.point_set):
+                return _poly
 
     return False
 
-- 
2.43.0


From ddf00d49b53be67f3a6810c0b201fc37650e39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 26/28] fix: a loop was taken for the union of others as soon
 as its area was the sum of theirs, its room got lost

---
 geometry/SR_polygon_group.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 8a736f7..69a8ff3 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -655,8 +655,13 @@ class BehalterGraph(PolygonGroup):
                 combs = itertools.combinations(polygons, comblen)
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
-                    for p in polygons:
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS:
+                    # the walls of the combination: those that are not between two of its polygons
+                    _count = Counter(frozenset(s.ij) for x in comb for s in x.segments)
+                    _walls = {k for k, v in _count.items() if v % 2 == 1}
+                    for p in list(polygons):
+                        # the areas may agree by chance, so the walls have to be the same, too
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                                {frozenset(s.ij) for s in p.segments} == _walls:
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From be18c91c0c18c09f26d4781c4c4d7f50af121007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 27/28] fix: asking for the rooms of a vessel without a closed
 loop failed

---
 geometry/SR_polygon_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 69a8ff3..95a4020 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -631,8 +631,8 @@ class BehalterGraph(PolygonGroup):
             # p.plot_triangulation(show=True)
         # p.plot_triangulation(show=True)
 
-        # shortcut for single-raum
-        if len(polygons) == 1:
+        # shortcut for single-raum, or none at all
+        if len(polygons) <= 1:
             return polygons
 
         elif len(polygons) > 1:
-- 
2.43.0


From ba6e111e66d1c3073f0177e2ea724b43a47fe2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 28/28] fix: walking a set of segments reversed some that were
 still to be walked, a wall and its reverse were taken for a loop

---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index ea201c7..e82579c 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1885,7 +1885,7 @@ def walk_segments(segments=(), startingpoint=None):
 
         # check if we have a branchless closed loop?
         segs = copy.deepcopy(_visited)
-        segs.add(_nextsegment)
+        segs.add(copy.deepcopy(_nextsegment))  # a copy: ordering may reverse it
         _poly = PolygonLine(segs)
         if _poly.order() and _poly.isclosed:
             # no other segment may end in a point of the loop, whatever its direction
-- 
2.43.0

