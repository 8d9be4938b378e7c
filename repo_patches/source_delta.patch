From ca6d2bee12f3cde2abc0e26c2e7eaf2c9ed2a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 01/52] fix: pass the source wire, not the last offset wire, to
 circle_bug_workaround

The loop variable shadowed the source wire, so an offset circle that carries a
location ended up with that location applied twice (wrong depth and position).
---
 src/cq_cam/utils/geometry_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a7bf5ea..5c57ff6 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -83,13 +83,13 @@ def offset_wire(
             return []
 
     validated_wires = []
-    for wire in offset_wires:
+    for candidate in offset_wires:
         try:
-            face = cq.Face.makeFromWires(wire)
+            face = cq.Face.makeFromWires(candidate)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
             if face.Area() > 0.1:
-                validated_wires.append(wire)
+                validated_wires.append(candidate)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
         except:
-- 
2.43.0


From 049ed875316f44e860f73bac4cae676bdc73c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 02/52] fix: recognise full circles when routing an edge

Edge.Closed() is a topology flag that is not set on circle edges, so a full
circle was emitted as one zero-length straight cut. IsClosed() tests the geometry.
---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 252e012..9fe0df4 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -162,7 +162,7 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.Closed():
+        if edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
-- 
2.43.0


From dab151fc1a12d1818b2fdf6924e174616237a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 03/52] fix: do not crash routing a profile that contains a
 near zero length arc

Offsetting a contour whose tangency is only accurate to 1e-7 leaves such arcs, and
Edge.paramAt raises on them. Read the parameter bounds of the edge instead.
---
 src/cq_cam/utils/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index b2e6dd4..dcc3c38 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -35,17 +35,21 @@ def edge_start_point(edge: cq.Edge, precision=3) -> cq.Vector:
 
 
 def edge_start_param(edge: cq.Edge) -> float:
+    # Note: Edge.paramAt solves for an arc length, which OCCT refuses to do for
+    # (nearly) zero length edges. The bounds of the edge are the same parameters.
+    first, last = edge._bounds()
     orientation = edge.wrapped.Orientation()
     if orientation == TopAbs_REVERSED:
-        return edge.paramAt(1)
-    return edge.paramAt(0)
+        return last
+    return first
 
 
 def edge_end_param(edge: cq.Edge) -> float:
+    first, last = edge._bounds()
     orientation = edge.wrapped.Orientation()
     if orientation == TopAbs_REVERSED:
-        return edge.paramAt(0)
-    return edge.paramAt(1)
+        return first
+    return last
 
 
 def edge_oriented_param(edge: cq.Edge, p1, p2):
-- 
2.43.0


From 3adaf51ce0df22a5a47cba4c8600de23becff5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 04/52] fix: do not start a wire at the closest point when it
 is entered with a rapid

The parameter of the closest point on the next wire was applied to its first edge
even when the wire was not entered there, which corrupted that edge.
---
 src/cq_cam/routers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 9fe0df4..5698d48 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -279,6 +279,8 @@ def route_wires(
             # Create simple transition between toolpaths
             # TODO Implement Ramping (Horizontal/Vertical)
             # TODO Implement orientation (Climb/Conventional)
+            # The wire is entered from its own start and not from the closest point
+            param = None
             commands += rapid_to(
                 previous_pos,
                 start,
-- 
2.43.0


From 12ae784510ef9bc3a57ed6d68714c5f15fd4cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 05/52] fix: do not cut from the end of a pocket loop to the
 point closest to the previous loop

When a loop is entered with a rapid it starts and ends at its own first point. The
extra cut was a chord of the loop, which leaves the pocket when that is not convex.
---
 src/cq_cam/routers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 5698d48..5d48d3c 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -363,6 +363,8 @@ def route_polyface_outers(
             )
         else:
             # Create simple transition between toolpaths
+            # The polygon is entered from its own start and not from the closest point
+            closest_point = None
             commands += rapid_to(
                 previous_pos,
                 start,
-- 
2.43.0


From ec378e88c962f00605c9e8b9c788876d5159a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 06/52] fix: compare the distance to the next pocket loop, not
 its square, with the stepover

---
 src/cq_cam/routers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 5d48d3c..287aa22 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -1,4 +1,4 @@
-from math import isclose
+from math import isclose, sqrt
 from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
@@ -344,14 +344,16 @@ def route_polyface_outers(
         # Determine how to access the wire
         # Direct plunge option
         if previous_wire_end:
-            distance, closest_point, poly_position = distance_to_path(
+            distance_squared, closest_point, poly_position = distance_to_path(
                 previous_wire_end, poly
             )
+            distance = sqrt(distance_squared)
         else:
             distance, closest_point, poly_position = None, None, None
 
         # Same comment applies here as in the same section in route_wires
-        if stepover and distance and distance <= stepover:
+        # (the loops are a stepover apart only to within the path precision)
+        if stepover and distance and distance <= stepover + 10**-job.precision:
             # Determine the index of the edge, shift edges and use param?
             # edges = shift_edges(edges, target)
             index = poly_position[0]
-- 
2.43.0


From 6a548918bd8d3b8cbfbd4a9adf01e7892b234e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 07/52] fix: keep curves when offsetting pocket loops

CleanPolygons only looks at one corner at a time. On a densely interpolated curve it
drops vertex after vertex without a bound, so a circular pocket was cut as a
pentagon. Simplify with a bounded deviation instead, before the offset too, which
also avoids minutes spent in clipper on loops with ten thousands of points.
---
 src/cq_cam/utils/geometry_op.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 5c57ff6..30aac40 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -99,9 +99,24 @@ def offset_wire(
     return validated_wires
 
 
+def simplify_path(path: ClosedPath, tolerance: float) -> ClosedPath:
+    """
+    Drop points without moving the path by more than the tolerance.
+
+    Note: pyclipper.CleanPolygon does not work for this purpose. It only looks at
+    one corner at a time, so it degrades densely interpolated curves to a handful
+    of points.
+    """
+    line = shapely.LineString(path)
+    return list(line.simplify(tolerance, preserve_topology=False).coords)
+
+
 def offset_path(path: ClosedPath, offset: float, precision: int) -> list[Path]:
+    # To get a little more leeway, we divide the precision by two
+    tolerance = 10**-precision / 2
+
     # noinspection PyArgumentList
-    scaled_path = pc.scale_to_clipper(path)
+    scaled_path = pc.scale_to_clipper(simplify_path(path, tolerance))
 
     # noinspection PyArgumentList
     scaled_offset = pc.scale_to_clipper(offset)
@@ -116,9 +131,8 @@ def offset_path(path: ClosedPath, offset: float, precision: int) -> list[Path]:
     arc_tolerance = radius * (1 - math.cos(math.pi / steps_for_precision))
     """
 
-    # To get a little more leeway, we divide the precision by two
     # noinspection PyArgumentList
-    scaled_precision = pc.scale_to_clipper(10**-precision / 2)
+    scaled_precision = pc.scale_to_clipper(tolerance)
 
     # Use a scaled miter limit of 2. This is the default
     # noinspection PyArgumentList
@@ -126,13 +140,11 @@ def offset_path(path: ClosedPath, offset: float, precision: int) -> list[Path]:
     pco.AddPath(scaled_path, pc.JT_ROUND, pc.ET_CLOSEDPOLYGON)
 
     offset_paths = [
-        close_path(pc.scale_from_clipper(offsetted_path))
-        for offsetted_path in pc.CleanPolygons(
-            pco.Execute(scaled_offset), scaled_precision
-        )
-        if offsetted_path
+        simplify_path(close_path(pc.scale_from_clipper(offsetted_path)), tolerance)
+        for offsetted_path in pco.Execute(scaled_offset)
     ]
-    return offset_paths
+    # Anything with less than three corners has collapsed
+    return [offset_path for offset_path in offset_paths if len(offset_path) > 3]
 
 
 def wire_to_path(wire: cq.Wire, precision: int) -> Path:
-- 
2.43.0


From fed84a22368c615ca6437ae3421202449d23f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 08/52] fix: drill at the job plane coordinates of the holes

The hole positions were converted with the inverse transform (local to world), so
any job plane other than the world XY plane drilled in the wrong place.
---
 src/cq_cam/operations/drill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index f6afc99..033e9c6 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -24,7 +24,7 @@ class Drill(Operation):
     def __post_init__(self):
         # TODO max depth
         # TODO evacuate chips?
-        transform_f = self.job.top.toWorldCoords
+        transform_f = self.job.top.toLocalCoords
         drill_vectors: list[cq.Vector] = []
 
         if self.o is None:
-- 
2.43.0


From 511fcc2237ddd8956e0eae07e001e4f1832d08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 09/52] fix: emit the unit, work offset and path mode of the
 job

The safety block always said G21, G54 and G64, so an imperial program was read as
millimetres by the controller.
---
 src/cq_cam/command.py | 21 ++++++++++++++++++---
 src/cq_cam/fluent.py  |  9 +++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 30b696d..40dec76 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -415,6 +415,21 @@ class StopSequence(ConfigCommand):
 
 
 class SafetyBlock(ConfigCommand):
+    unit: Unit
+    coordinate: WorkOffset
+    controller_motion: PlannerControlMode
+
+    def __init__(
+        self,
+        unit: Unit = Unit.METRIC,
+        coordinate: WorkOffset = WorkOffset.OFFSET_1,
+        controller_motion: PlannerControlMode = PlannerControlMode.CONTINUOUS,
+    ):
+        self.unit = unit
+        self.coordinate = coordinate
+        self.controller_motion = controller_motion
+        super().__init__()
+
     def __str__(self) -> str:
         return "\n".join(
             (
@@ -422,8 +437,8 @@ class SafetyBlock(ConfigCommand):
                     (
                         str(DistanceMode.ABSOLUTE),
                         # str(ArcDistanceMode.INCREMENTAL),
-                        str(WorkOffset.OFFSET_1),
-                        str(PlannerControlMode.CONTINUOUS),
+                        str(self.coordinate),
+                        str(self.controller_motion),
                         str(SpindleControlMode.MAX_SPINDLE_SPEED),
                         str(WorkPlane.XY),
                         str(FeedRateControlMode.UNITS_PER_MINUTE),
@@ -436,7 +451,7 @@ class SafetyBlock(ConfigCommand):
                         str(CannedCycle.CANCEL),
                     )
                 ),
-                str(Unit.METRIC),
+                str(self.unit),
                 str(Position.SECONDARY_HOME),
             )
         )
diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4ca81f9..0447645 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -272,12 +272,17 @@ class Job:
 
     def to_gcode(self):
         task_break = "\n\n\n"
+        safety_block = SafetyBlock(
+            unit=self.unit,
+            coordinate=self.coordinate,
+            controller_motion=self.controller_motion,
+        )
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
             f"{ProgramControlMode.END_RESET}"
         )
-- 
2.43.0


From e9d056a613911a2f10f55fd72b18fe851c724253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 10/52] fix: do not modify the original job when a tool changes
 only the feed or diameter

---
 src/cq_cam/fluent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 0447645..c46db38 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -133,6 +133,9 @@ class Job:
             elif speed is not None and speed != self.speed:
                 commands = [StartSequence(speed, self.coolant)]
                 self = self._add_operation("Speed Change", commands)
+            else:
+                # Do not touch the job this one branches from
+                self = copy(self)
 
             # Update Job attributes
             self.tool_number = tool_number
-- 
2.43.0


From 0f731a5258f0bfbe4d8376918b0a9bd75254d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 11/52] fix: start the spindle with the speed of the first
 operations

The start sequence was built from the speed of the last tool, so operations before
a speed change ran at the speed of the operations after it.
---
 src/cq_cam/fluent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index c46db38..d4844fe 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -75,6 +75,8 @@ class Job:
         self.top_plane_face = cq.Face.makePlane(None, None, top.origin, top.zDir)
         self.feed = feed
         self.speed = speed
+        # Later tools change the speed, but this is what the program starts with
+        self.start_speed = speed
         self.tool_diameter = tool_diameter
         self.tool_number = tool_number
         self.name = name
@@ -283,7 +285,7 @@ class Job:
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
             f"{safety_block}\n"
-            f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
+            f"{StartSequence(speed=self.start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
             f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
-- 
2.43.0


From 5aa61246aa9fcd9aa7632a320f534ef32267cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 12/52] fix: save the gcode of the job and not its repr

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index d4844fe..4e8c419 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -293,7 +293,7 @@ class Job:
         )
 
     def save_gcode(self, file_name):
-        gcode = str(self)
+        gcode = self.to_gcode()
         with open(file_name, "w") as f:
             f.write(gcode)
 
-- 
2.43.0


From 6ec95a311681b915bd3ca73bc7216febefedeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 13/52] fix: accept a profile whose tool provides the diameter

---
 src/cq_cam/fluent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4e8c419..f5f33d5 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -159,14 +159,14 @@ class Job:
         tabs: Tabs | None = None,
         tool: Tool | None = None,
     ) -> Job:
-        if self.tool_diameter is None:
-            raise ValueError("Profile requires tool_diameter to be set")
-
         if outer_offset is None and inner_offset is None:
             raise ValueError('Set at least one of "outer_offset" or "inner_offset"')
         outer_wires, inner_wires = extract_wires(shape)
 
         self = self.update_tool(tool)
+        if self.tool_diameter is None:
+            raise ValueError("Profile requires tool_diameter to be set")
+
         # Prefer inner wires first
         commands = []
         if inner_wires and inner_offset is not None:
-- 
2.43.0


From afd622166ee55d558e7843e3b790b5ded7170325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 14/52] fix: show arcs in the visualization

cadquery does not accept an AddressVector, so both ways to build the edge raised and
every arc was silently left out.
---
 src/cq_cam/command.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 40dec76..8ac2255 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -335,8 +335,9 @@ class Circular(FeedRateCommand, ABC):
         return " ".join(words)
 
     def to_ais_shape(self, as_edges=False, alt_color=False) -> AIS_Shape:
-        end = self.end.to_vector(self.start)
-        mid = self.mid.to_vector(self.start)
+        start = self.start.to_vector(cq.Vector(0, 0, 0))
+        end = self.end.to_vector(start)
+        mid = self.mid.to_vector(start)
 
         # Note: precision of __eq__ on vectors can cause false positive circles with very small arcs
         # TODO: Neutralise small arcs, these can cause similar problem with grbl as far as I remember
@@ -348,10 +349,10 @@ class Circular(FeedRateCommand, ABC):
         #    edge = cq.Edge.makeCircle(radius, center, cq.Vector(0,0,1))
         # else:
         try:
-            edge = cq.Edge.makeThreePointArc(self.start, mid, end)
+            edge = cq.Edge.makeThreePointArc(start, mid, end)
         except:
             try:
-                edge = cq.Edge.makeLine(self.start, end)
+                edge = cq.Edge.makeLine(start, end)
             except:
                 # Too small to render ?
                 return None
-- 
2.43.0


From 022af62882eb7be25afb8649f8ed431436344d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 15/52] fix: cut arcs that are too short for the output
 resolution straight

An arc whose start and end are written with the same coordinates is a full circle to
the controller. The previous check only caught arcs shorter than 1e-5.
---
 src/cq_cam/routers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 287aa22..7b77135 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -61,6 +61,11 @@ def vertical_ramp(
 """
 
 
+# The coordinates of an arc are written with three decimals. If its start and end come
+# out the same (or swapped) after rounding, the controller cuts a full circle instead.
+TINY_ARC_LENGTH = 0.002
+
+
 def rapid_to(
     start: AddressVector,
     end: cq.Vector,
@@ -189,9 +194,8 @@ def route_edge(
                     arrow=arrow,
                 )
             )
-        elif sp == ep:
+        elif abs(end_p - start_p) * edge.radius() < TINY_ARC_LENGTH:
             # Really tiny arc, might as well just cut it straight
-            # TODO verify the sanity
             commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
         else:
             mid_p = np.linspace(start_p, end_p, 3)[1]
-- 
2.43.0


From fabcec778acaf5b6d5052a634ba96ce6d6711cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 16/52] fix: process the tabs of a wire in the order they are
 met along the edge

The tab that wraps around the end of the wire was processed first, so the last edge
was cut with a diagonal from tab to tab, or the profile crashed on arcs.
---
 src/cq_cam/operations/tabs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 6c7ccf5..a044087 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -134,6 +134,10 @@ class WireTabs(Tabs):
                 edge_d = min(max(self.wire_d_to_edge_d(tab_end_d, edge_range), 0), 1)
                 transitions.append((edge_d, Transition.NORMAL))
 
+        # The tabs are not listed in the order they are met (the one that wraps around
+        # the end of the wire comes right after the first one)
+        transitions.sort(key=lambda transition: transition[0])
+
         # Add helper transitions for later processing
         if not transitions or transitions[0][0] != 0:
             transitions.insert(0, (0, Transition.NORMAL))
-- 
2.43.0


From a0dcff6b2ec94c4d62fec20f24169a5067d84698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 17/52] fix: allow a tab to start or end at a corner of the
 profile

A tab that started exactly where an edge starts left a zero length slice, which
raises, and one that ended exactly where an edge ends left the wire disconnected, so
the whole profile was cut without tabs.
---
 src/cq_cam/operations/profile.py | 39 +++++++++++++++-----------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index a18d16d..be04df0 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -91,6 +91,17 @@ def profile(
 TAB_ERRORS = []
 
 
+def append_connected(edges: list[cq.Edge], edge: cq.Edge):
+    """
+    Append an edge and plunge or retract to its start first if needed
+    """
+    if edges:
+        start, end = edge_end_point(edges[-1]), edge_start_point(edge)
+        if start != end:
+            edges.append(cq.Edge.makeLine(start, end))
+    edges.append(edge)
+
+
 def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     if tabs is None:
         return wire
@@ -109,11 +120,14 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     for i, edge in enumerate(edges):
         transitions = tabs.edge_tab_transitions(i)
         if all(t[1] == Transition.NORMAL for t in transitions):
-            new_edges.append(edge)
+            append_connected(new_edges, edge)
             continue
 
-        previous_edge = None
         for t_start, t_end in zip(transitions, transitions[1:]):
+            # A tab may start or end at the very start or end of the edge
+            if (t_end[0] - t_start[0]) * edge.Length() < 1e-6:
+                continue
+
             t_start_p, t_end_p, e_reversed = edge_oriented_param(
                 edge, t_start[0], t_end[0]
             )
@@ -138,16 +152,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     projected_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                if previous_edge:
-                    # Retract
-                    # retract = cq.Edge.makeLine(edge_end_point(previous_edge), edge_start_point(projected_edge))
-                    retract = cq.Edge.makeLine(
-                        edge_end_point(previous_edge), edge_start_point(projected_edge)
-                    )
-                    new_edges.append(retract)
-
-                previous_edge = projected_edge
-                new_edges.append(projected_edge)
+                append_connected(new_edges, projected_edge)
             else:
                 sliced_edge = cq.Edge(BRepBuilderAPI_MakeEdge(curve, p1, p2).Edge())
 
@@ -158,15 +163,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 # The location of the edge needs to be copied because it doesn't
                 # affect the underlying curve..
                 sliced_edge.move(edge.location())
-                # Plunge
-                if previous_edge:
-                    plunge = cq.Edge.makeLine(
-                        edge_end_point(previous_edge), edge_start_point(sliced_edge)
-                    )
-                    new_edges.append(plunge)
-
-                previous_edge = sliced_edge
-                new_edges.append(sliced_edge)
+                append_connected(new_edges, sliced_edge)
 
     global TAB_ERRORS
     try:
-- 
2.43.0


From 2bbc493f78b55cd12ad29f678915fde4b40eb1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 18/52] fix: join the tabs of an edge that overlap

The spacing along an edge is shorter than the requested spacing, so the ranges of
wide tabs overlap. The path then went back and cut through the first of them.
---
 src/cq_cam/operations/tabs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index a044087..62cf81f 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -61,7 +61,11 @@ class EdgeTabs(Tabs):
 
             half_d = 1 / length * half
             for d in np.linspace(0, 1, count + 2, endpoint=True)[1:-1]:
-                edge_ds.append((d - half_d, d + half_d))
+                if edge_ds and d - half_d <= edge_ds[-1][1]:
+                    # Overlaps the previous tab, extend that
+                    edge_ds[-1] = (edge_ds[-1][0], d + half_d)
+                else:
+                    edge_ds.append((d - half_d, d + half_d))
 
     def edge_tab_transitions(self, edge_index):
         edge_ds = self.edges_ds[edge_index]
-- 
2.43.0


From b801814569663b96fa2bee214d72a5fc20ce24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 19/52] fix: place tabs on wires that carry a location

The curve under an edge does not include the location of the edge, and only the
parts between the tabs were moved to it.
---
 src/cq_cam/operations/profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index be04df0..34d88da 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -133,7 +133,10 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
             )
             p1 = edge.paramAt(t_start_p)
             p2 = edge.paramAt(t_end_p)
-            curve = edge._geomAdaptor().Curve().Curve()
+            # The location of the edge needs to be applied because it doesn't
+            # affect the underlying curve..
+            adaptor = edge._geomAdaptor()
+            curve = adaptor.Curve().Curve().Transformed(adaptor.Trsf())
 
             if t_start[1] == Transition.TAB:
                 projected_curve = GeomProjLib.ProjectOnPlane_s(
@@ -160,9 +163,6 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                # The location of the edge needs to be copied because it doesn't
-                # affect the underlying curve..
-                sliced_edge.move(edge.location())
                 append_connected(new_edges, sliced_edge)
 
     global TAB_ERRORS
-- 
2.43.0


From f7c385717f825395a17c4f8b2f243760aa70c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 20/52] fix: compare profile layers with the job plane in the
 same coordinates

The layers are in job coordinates, but the top plane was in world coordinates. A
stepdown layer that happened to lie in it was dropped along with those above.
---
 src/cq_cam/operations/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 34d88da..c45bd7c 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -46,6 +46,7 @@ def profile(
     """
     # Transform to relative coordinates
     wire = wire.transformShape(job.top.fG)
+    top_plane_face = job.top_plane_face.transformShape(job.top.fG)
 
     # Generate base features
     base_features = offset_wire(wire, offset * job.tool_radius)
@@ -68,7 +69,7 @@ def profile(
                 if bb.zmin >= -0.001:
                     break
 
-                edges = compound_to_edges(i_op.cut(job.top_plane_face))
+                edges = compound_to_edges(i_op.cut(top_plane_face))
                 edges = [edge for edge in edges if edge.Center().z < 0]
                 wires = cq.Wire.combine(edges)
 
-- 
2.43.0


From 0cd4cafa4f8c81ea1a228afc9964acdd734a69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 21/52] fix: cut along the islands of a pocket

The pocket loops only shrink from the outside, so up to a stepover of stock was left
around every island.
---
 src/cq_cam/operations/pocket.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 5cdcdb9..b9bb6d7 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -221,7 +221,12 @@ def fill_pocket_contour_shrink(
     except StopIteration:
         pass
 
-    return tree.sequences
+    # The shrinking loops stop up to a step short of the islands they go around
+    island_sequences = [
+        [PathFace(inner, [], pocket.depth)] for inner in pocket.inners
+    ]
+
+    return tree.sequences + island_sequences
 
 
 def pocket_clipper(
-- 
2.43.0


From 3b8f90fab43529a86843e0cc100f28d7f63c06ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 22/52] fix: keep out of the overlap of islands and avoid areas

Clipper's default even-odd fill takes the overlap of two clip polygons as not being
clipped, so the tool went between islands that are closer than its diameter. The
same happened to the overlap of op areas, which was not cut.
---
 src/cq_cam/utils/geometry_op.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 30aac40..babc358 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -222,12 +222,18 @@ def offset_polyface(
         return [PathFace(outer, inners=[], depth=polyface.depth) for outer in outers]
 
 
+def scale_and_orient(path: Path):
+    # noinspection PyArgumentList
+    scaled_path = pc.scale_to_clipper(path)
+    return scaled_path if pc.Orientation(scaled_path) else pc.ReversePath(scaled_path)
+
+
 def prepare_path_boolean_op(subjects: list[Path], clips: list[Path]) -> pc.Pyclipper:
     clipper = pc.Pyclipper()
-    # noinspection PyArgumentList
-    scaled_subjects = [pc.scale_to_clipper(subject) for subject in subjects]
-    # noinspection PyArgumentList
-    scaled_clips = [pc.scale_to_clipper(clip) for clip in clips]
+    # The paths may overlap each other (for example two islands after an offset). They
+    # all need the same orientation for the nonzero fill to cover the overlap too.
+    scaled_subjects = [scale_and_orient(subject) for subject in subjects]
+    scaled_clips = [scale_and_orient(clip) for clip in clips]
 
     clipper.AddPaths(scaled_subjects, pc.PT_SUBJECT)
 
@@ -241,7 +247,10 @@ def boolean_op_path_list(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> list[Path]:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = [pc.scale_from_clipper(result) for result in clipper.Execute(clip_type)]
+    results = [
+        pc.scale_from_clipper(result)
+        for result in clipper.Execute(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
+    ]
     return results
 
 
@@ -249,7 +258,7 @@ def boolean_op_poly_tree(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> pc.PyPolyNode:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = clipper.Execute2(clip_type)
+    results = clipper.Execute2(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
     return results
 
 
-- 
2.43.0


From ae1ef396d23964e537154fa5415a93d38c0defd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 23/52] fix: cut faces that lie in a hole of another face

All holes were subtracted from the union of all outlines, so the top of an island
that is an op area itself, or an area enclosed by islands, was left uncut.
---
 src/cq_cam/operations/pocket.py | 14 +++++++-------
 src/cq_cam/utils/geometry_op.py | 22 +++++++++++++++++++---
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index b9bb6d7..6c74da1 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -17,6 +17,7 @@ from cq_cam.utils.geometry_op import (
     offset_path,
     offset_polyface,
     union_poly_tree,
+    union_polyfaces,
 )
 from cq_cam.utils.tree import Tree
 from cq_cam.utils.utils import flatten_list
@@ -162,8 +163,7 @@ def build_pocket_ops(
         for sub_depth in depths[i + 1 :]:
             depth_faces += depth_map[sub_depth]
 
-        depth_ops = combine_outers(depth_faces, depth)
-        depth_inners = flatten_list(face.inners for face in depth_faces)
+        depth_ops = union_polyfaces(depth_faces, depth)
 
         if avoid_depths:
             active_avoid_depths = [
@@ -177,13 +177,13 @@ def build_pocket_ops(
             # A limitation here is that avoids only work with the outer polygon
             # Technically pyclipper does support multiple depths, so this could
             # be investigated further
-            depth_ops_with_avoid = difference_poly_tree(
-                depth_ops, depth_inners + avoid_outers, depth
-            )
-            pocket_ops += depth_ops_with_avoid
+            for depth_op in depth_ops:
+                pocket_ops += difference_poly_tree(
+                    [depth_op.outer], depth_op.inners + avoid_outers, depth
+                )
 
         else:
-            pocket_ops += difference_poly_tree(depth_ops, depth_inners, depth)
+            pocket_ops += depth_ops
 
     return pocket_ops
 
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index babc358..36a006b 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -191,9 +191,11 @@ def close_path(path: OpenPath) -> ClosedPath:
 
 def poly_tree_to_poly_faces(poly_tree: pc.PyPolyNode, depth: float) -> list[PathFace]:
     polyfaces: list[PathFace] = []
-    for face in poly_tree.Childs:
-        if face.depth > 1:
-            logger.warning("Deep face encountered in make_polyface")
+    faces = list(poly_tree.Childs)
+    for face in faces:
+        # A hole may have faces in it
+        for child in face.Childs:
+            faces += child.Childs
         outer = tuplify_path(close_path(pc.scale_from_clipper(face.Contour)))
         inners = [
             tuplify_path(close_path(pc.scale_from_clipper(child.Contour)))
@@ -270,6 +272,20 @@ def union_poly_tree(
     )
 
 
+def union_polyfaces(polyfaces: list[PathFace], depth: float) -> list[PathFace]:
+    """
+    Union that keeps a hole only where no other face covers it
+    """
+    clipper = pc.Pyclipper()
+    for polyface in polyfaces:
+        clipper.AddPath(scale_and_orient(polyface.outer), pc.PT_SUBJECT)
+        for inner in polyface.inners:
+            clipper.AddPath(pc.ReversePath(scale_and_orient(inner)), pc.PT_SUBJECT)
+    return poly_tree_to_poly_faces(
+        clipper.Execute2(pc.CT_UNION, pc.PFT_NONZERO, pc.PFT_NONZERO), depth
+    )
+
+
 def difference_poly_tree(
     subjects: list[Path], clips: list[Path], depth: float
 ) -> list[PathFace]:
-- 
2.43.0


From 68791deb36214729fd4ea045d0e728d11fa907b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 24/52] fix: do not let numerical noise decide the depth of
 pocket faces

---
 src/cq_cam/utils/geometry_op.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 36a006b..46f425c 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -45,7 +45,8 @@ class PathFace:
         return cls(
             wire_to_path(cq_face.outerWire(), precision),
             [wire_to_path(wire, precision) for wire in cq_face.innerWires()],
-            bbox.zmax,
+            # Faces on the same plane need to end up at the very same depth
+            round(bbox.zmax, 6),
         )
 
     def clone_to_depth(self, depth: float):
-- 
2.43.0


From 44d37532e7f4cea4e8dd9bf331376a166f49287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 25/52] fix: keep parentheses and line breaks of the job name
 out of the comments

---
 src/cq_cam/fluent.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index f5f33d5..712da4e 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -28,6 +28,13 @@ from cq_cam.visualize import visualize_job, visualize_job_as_edges
 logger = logging.getLogger(__name__)
 
 
+def gcode_comment(text: str) -> str:
+    """A comment ends at the first closing parenthesis or line break, so it can't contain any"""
+    for char, replacement in (("(", "["), (")", "]"), ("\n", " "), ("\r", " ")):
+        text = text.replace(char, replacement)
+    return f"({text})"
+
+
 class Operation:
     def __init__(self, job: Job, name: str, commands: list[Command]):
         self.job = job
@@ -37,7 +44,7 @@ class Operation:
     def to_gcode(self):
         # Set starting position above rapid height so that
         # we guarantee getting the correct Z rapid in the beginning
-        gcodes = [f"({self.job.name} - {self.name})"]
+        gcodes = [gcode_comment(f"{self.job.name} - {self.name}")]
         for command in self.commands:
             gcode = str(command)
 
@@ -282,8 +289,11 @@ class Job:
             coordinate=self.coordinate,
             controller_motion=self.controller_motion,
         )
+        header = gcode_comment(
+            f"{self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)}"
+        )
         return (
-            f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
+            f"{header}\n"
             f"{safety_block}\n"
             f"{StartSequence(speed=self.start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-- 
2.43.0


From 193abec20819388516865b2f4ae2e7ae3fcee30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 26/52] fix: offset circles to the right side and at any radius

---
 src/cq_cam/utils/geometry_op.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 46f425c..b5a5a81 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -8,6 +8,8 @@ from typing import Literal, TypeAlias
 import cadquery as cq
 import pyclipper as pc
 import shapely
+from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
+from OCP.gp import gp_Circ
 from OCP.StdFail import StdFail_NotDone
 
 from cq_cam.utils.circle_bug_workaround import circle_bug_workaround
@@ -69,9 +71,32 @@ def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=Non
         return tool_radius * offset
 
 
+def wire_to_circle(wire: cq.Wire) -> gp_Circ | None:
+    edges = wire.Edges()
+    if len(edges) == 1 and edges[0].geomType() == "CIRCLE" and edges[0].IsClosed():
+        return edges[0]._geomAdaptor().Circle()
+    return None
+
+
+def offset_circle(circle: gp_Circ, offset: float) -> list[cq.Wire]:
+    """
+    OCCT offsets a circle to the wrong side if its edge is reversed (like the holes on
+    the bottom face of a solid), and can't offset a radius of 1 or less inwards at all
+    """
+    radius = circle.Radius() + offset
+    # Leave out what the resolution of the output can't represent
+    if radius < 0.01:
+        return []
+    circle.SetRadius(radius)
+    return [cq.Wire.assembleEdges([cq.Edge(BRepBuilderAPI_MakeEdge(circle).Edge())])]
+
+
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
+    if circle := wire_to_circle(wire):
+        return offset_circle(circle, offset)
+
     try:
         offset_wires = wire.offset2D(offset, kind)
     except ValueError:
-- 
2.43.0


From b755829309110d2b1447049ae57d121f67f0fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 27/52] fix: offset contours that OCCT fails to offset around
 arcs as small as the tool

---
 src/cq_cam/utils/geometry_op.py | 42 +++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index b5a5a81..9db3a5a 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -14,7 +14,12 @@ from OCP.StdFail import StdFail_NotDone
 
 from cq_cam.utils.circle_bug_workaround import circle_bug_workaround
 from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
-from cq_cam.utils.utils import dist_to_segment_squared, flatten_list
+from cq_cam.utils.utils import (
+    dist_to_segment_squared,
+    edge_start_end,
+    flatten_list,
+    wire_to_ordered_edges,
+)
 
 logger = logging.getLogger(__name__)
 OffsetToolRadiusMultiplier: TypeAlias = float
@@ -91,12 +96,45 @@ def offset_circle(circle: gp_Circ, offset: float) -> list[cq.Wire]:
     return [cq.Wire.assembleEdges([cq.Edge(BRepBuilderAPI_MakeEdge(circle).Edge())])]
 
 
+def has_vanishing_arcs(wire: cq.Wire, offset: float) -> bool:
+    """
+    Is there an arc that curves around the tool with a radius that is too small for it?
+    """
+    edges = [
+        edge
+        for edge in wire_to_ordered_edges(wire)
+        if edge.geomType() == "CIRCLE" and edge.radius() <= abs(offset) + 1e-6
+    ]
+    if not offset or not edges:
+        return False
+
+    is_ccw = shapely.LinearRing(wire_to_path(wire, 2)).is_ccw
+    for edge in edges:
+        start, end = edge_start_end(edge)
+        middle = edge.positionAt(0.5)
+        turns_left = (middle - start).cross(end - middle).z > 0
+        if (turns_left == is_ccw) == (offset < 0):
+            return True
+    return False
+
+
+def offset_wire_as_path(wire: cq.Wire, offset: float) -> list[cq.Wire]:
+    if not wire.IsClosed():
+        return []
+    path = wire_to_path(wire, 2)
+    return [path_to_wire(path, wire) for path in offset_path(path, offset, 3)]
+
+
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
     if circle := wire_to_circle(wire):
         return offset_circle(circle, offset)
 
+    if has_vanishing_arcs(wire, offset):
+        # OCCT may crash or return a wire that is open or too close to the source
+        return offset_wire_as_path(wire, offset)
+
     try:
         offset_wires = wire.offset2D(offset, kind)
     except ValueError:
@@ -106,7 +144,7 @@ def offset_wire(
         try:
             offset_wires = wire.offset2D(offset + 0.000001, kind)
         except ValueError:
-            return []
+            return offset_wire_as_path(wire, offset)
 
     validated_wires = []
     for candidate in offset_wires:
-- 
2.43.0


From 7f958b628a26a2502a15cf706d8f7436c503dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 28/52] fix: do not take a very short arc for a full circle

---
 src/cq_cam/routers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 7b77135..2d8b1b7 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -164,10 +164,13 @@ def route_edge(
         center = AddressVector.from_vector(edge.arcCenter())
         cmd = CircularCW if is_arc_clockwise2(edge) else CircularCCW
 
+        if abs(end_p - start_p) * edge.radius() < TINY_ARC_LENGTH:
+            # Really tiny arc, might as well just cut it straight
+            commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.IsClosed():
+        elif edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
@@ -194,9 +197,6 @@ def route_edge(
                     arrow=arrow,
                 )
             )
-        elif abs(end_p - start_p) * edge.radius() < TINY_ARC_LENGTH:
-            # Really tiny arc, might as well just cut it straight
-            commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
         else:
             mid_p = np.linspace(start_p, end_p, 3)[1]
             mid = AddressVector.from_vector(edge.positionAt(mid_p, "parameter"))
-- 
2.43.0


From 527275c365085d861912aba299accd91ae4c302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 29/52] fix: show where the tool comes from between the
 contours of a profile

---
 src/cq_cam/fluent.py             | 3 +++
 src/cq_cam/operations/profile.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 712da4e..75831f6 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -184,6 +184,7 @@ class Job:
                     offset=inner_offset,
                     stepdown=stepdown,
                     tabs=tabs,
+                    previous_pos=commands[-1].end if commands else None,
                 )
 
         if outer_wires and outer_offset is not None:
@@ -194,6 +195,7 @@ class Job:
                     offset=outer_offset,
                     stepdown=stepdown,
                     tabs=tabs,
+                    previous_pos=commands[-1].end if commands else None,
                 )
 
         return self._add_operation("Profile", commands)
@@ -218,6 +220,7 @@ class Job:
                 offset=offset,
                 stepdown=stepdown,
                 tabs=tabs,
+                previous_pos=commands[-1].end if commands else None,
             )
         return self._add_operation("Wire Profile", commands)
 
diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index c45bd7c..0c415be 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -33,6 +33,7 @@ def profile(
     offset: float,
     stepdown: int | None = None,
     tabs: Tabs | None = None,
+    previous_pos: AddressVector | None = None,
 ):
     """
     A 2.5D profile operation
@@ -42,6 +43,7 @@ def profile(
     :param offset: Multiplier for tool radius
     :param stepdown:
     :param tabs:
+    :param previous_pos: Position where the commands begin from, if it is known
     :return:
     """
     # Transform to relative coordinates
@@ -85,7 +87,7 @@ def profile(
 
         toolpaths += layers
 
-    commands = route_wires(job, toolpaths)
+    commands = route_wires(job, toolpaths, previous_pos=previous_pos)
     return commands
 
 
-- 
2.43.0


From 955a4b40704d8a3d2c09d601528914fb0e0fbc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 30/52] fix: do not offset a wire that is to be followed as it
 is

---
 src/cq_cam/utils/geometry_op.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 9db3a5a..37e35ed 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -128,6 +128,10 @@ def offset_wire_as_path(wire: cq.Wire, offset: float) -> list[cq.Wire]:
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
+    if not offset:
+        # Nothing to offset (OCCT may crash trying)
+        return [wire]
+
     if circle := wire_to_circle(wire):
         return offset_circle(circle, offset)
 
-- 
2.43.0


From 8a7f9f7ecdf2558b1aa51b1b9f2e07135b901df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 31/52] fix: join the tabs of a wire that overlap

---
 src/cq_cam/operations/tabs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 62cf81f..cc763de 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -103,7 +103,14 @@ class WireTabs(Tabs):
             if range[1] > 1:
                 wire_tab_ds.append((range[0] - 1, range[1] - 1))
 
-        self.wire_tab_ds = wire_tab_ds
+        # Tabs may overlap each other
+        self.wire_tab_ds = []
+        for start_d, end_d in sorted(wire_tab_ds):
+            if self.wire_tab_ds and start_d <= self.wire_tab_ds[-1][1]:
+                end_d = max(end_d, self.wire_tab_ds[-1][1])
+                self.wire_tab_ds[-1] = (self.wire_tab_ds[-1][0], end_d)
+            else:
+                self.wire_tab_ds.append((start_d, end_d))
 
     def load_ordered_edges(self, ordered_edges):
         edge_lengths = [edge.Length() for edge in ordered_edges]
-- 
2.43.0


From bd5aa8a0f0825f08db5e48bb6384cd97a77b720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 32/52] fix: do not lose the tabs of a wire whose edges do not
 quite meet

---
 src/cq_cam/operations/profile.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 0c415be..49ad2f3 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -6,7 +6,8 @@ import cadquery as cq
 from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
 from OCP.Geom import Geom_Plane
 from OCP.GeomProjLib import GeomProjLib
-from OCP.TopAbs import TopAbs_REVERSED
+from OCP.ShapeFix import ShapeFix_ShapeTolerance
+from OCP.TopAbs import TopAbs_REVERSED, TopAbs_VERTEX
 
 from cq_cam.address import AddressVector
 from cq_cam.operations.tabs import Tabs, Transition
@@ -168,6 +169,12 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
 
                 append_connected(new_edges, sliced_edge)
 
+    # The edges of an offset wire may miss each other by more than the tolerance of the
+    # vertices the new edges were given
+    fix = ShapeFix_ShapeTolerance()
+    for edge in new_edges:
+        fix.LimitTolerance(edge.wrapped, 2e-5, 0, TopAbs_VERTEX)
+
     global TAB_ERRORS
     try:
         return cq.Wire.assembleEdges(new_edges)
-- 
2.43.0


From 1f18710b9535a98eb99560c4dfb87711ae446b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 33/52] fix: accept a pocket with islands that the tool does
 not fit into

---
 src/cq_cam/utils/geometry_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 37e35ed..ea4670f 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -283,7 +283,7 @@ def offset_polyface(
     polyface: PathFace, outer_offset: float, inner_offset: float, precision: int
 ) -> list[PathFace]:
     outers = offset_path(polyface.outer, outer_offset, precision)
-    if polyface.inners:
+    if polyface.inners and outers:
         inners = flatten_list(
             [offset_path(inner, inner_offset, precision) for inner in polyface.inners]
         )
-- 
2.43.0


From dd9077e7256ea0d0e043cbe34044994bd1dd70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 34/52] fix: close interpolated paths exactly

---
 src/cq_cam/utils/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/utils/interpolation.py b/src/cq_cam/utils/interpolation.py
index 32fb574..e3c7f2c 100644
--- a/src/cq_cam/utils/interpolation.py
+++ b/src/cq_cam/utils/interpolation.py
@@ -81,6 +81,9 @@ def wire_to_vectors(wire: cq.Wire, precision: int, close=True) -> list[cq.Vector
 
     if close and vectors[0] != vectors[-1]:
         vectors.append(vectors[0])
+    elif close:
+        # Equal vectors may still differ by the tolerance of the comparison
+        vectors[-1] = vectors[0]
 
     elif not close and vectors[0] == vectors[-1]:
         vectors = vectors[:-1]
-- 
2.43.0


From 3d0e4efdf99cae88f24abe9dd85adf373a2c13ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 35/52] fix: do not link the loops of a pocket across what is
 not to be cut

---
 src/cq_cam/operations/pocket.py | 24 ++++++++++++++++--------
 src/cq_cam/routers.py           | 14 +++++++++++++-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 6c74da1..32830d4 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -4,6 +4,7 @@ from typing import TYPE_CHECKING, Literal
 
 import cadquery as cq
 import numpy as np
+import shapely
 
 from cq_cam.address import AddressVector
 from cq_cam.operations.pocket_cq import pocket_cq
@@ -222,9 +223,7 @@ def fill_pocket_contour_shrink(
         pass
 
     # The shrinking loops stop up to a step short of the islands they go around
-    island_sequences = [
-        [PathFace(inner, [], pocket.depth)] for inner in pocket.inners
-    ]
+    island_sequences = [[PathFace(inner, [], pocket.depth)] for inner in pocket.inners]
 
     return tree.sequences + island_sequences
 
@@ -257,25 +256,34 @@ def pocket_clipper(
     pocket_ops = build_pocket_ops(offset_op_areas, offset_avoid_areas)
 
     # Apply pocket fill
-    sequences: list[list[PathFace]] = []
+    sequences: list[tuple[list[PathFace], shapely.Polygon]] = []
     shallower_pocket_ops = []
     for pocket_op in pocket_ops:
         fill_sequences = fill_pocket_contour_shrink(pocket_op, stepover, job.precision)
+        op_sequences = []
         if stepdown:
             stepdown_start_depth = determine_stepdown_start_depth(
                 pocket_op, shallower_pocket_ops
             )
-            sequences += apply_stepdown(fill_sequences, stepdown_start_depth, stepdown)
+            op_sequences += apply_stepdown(
+                fill_sequences, stepdown_start_depth, stepdown
+            )
+        op_sequences += fill_sequences
 
-        sequences += fill_sequences
+        area = pocket_op.polygon.buffer(10**-job.precision)
+        sequences += [(sequence, area) for sequence in op_sequences]
         shallower_pocket_ops.append(pocket_op)
 
     # Route wires
     commands = []
     previous_pos = AddressVector()
-    for sequence_polyfaces in sequences:
+    for sequence_polyfaces, area in sequences:
         commands += route_polyface_outers(
-            job, sequence_polyfaces, stepover=stepover, previous_pos=previous_pos
+            job,
+            sequence_polyfaces,
+            stepover=stepover,
+            previous_pos=previous_pos,
+            area=area,
         )
         cmd = commands[-1]
         previous_pos = cmd.end
diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 2d8b1b7..8db9c7d 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -3,6 +3,7 @@ from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
 import numpy as np
+import shapely
 from OCP.BRepExtrema import BRepExtrema_DistShapeShape, BRepExtrema_SupportType
 from OCP.TopAbs import TopAbs_REVERSED
 
@@ -334,6 +335,7 @@ def route_polyface_outers(
     polyfaces: list[PathFace],
     stepover=None,
     previous_pos: AddressVector | None = None,
+    area: shapely.Polygon | None = None,
 ) -> list[MotionCommand]:
     commands = []
     previous_wire_end = None
@@ -352,12 +354,22 @@ def route_polyface_outers(
                 previous_wire_end, poly
             )
             distance = sqrt(distance_squared)
+            # An island may reach in between the loops
+            is_clear = area is None or area.covers(
+                shapely.LineString([previous_wire_end, closest_point])
+            )
         else:
             distance, closest_point, poly_position = None, None, None
+            is_clear = False
 
         # Same comment applies here as in the same section in route_wires
         # (the loops are a stepover apart only to within the path precision)
-        if stepover and distance and distance <= stepover + 10**-job.precision:
+        if (
+            stepover
+            and distance
+            and distance <= stepover + 10**-job.precision
+            and is_clear
+        ):
             # Determine the index of the edge, shift edges and use param?
             # edges = shift_edges(edges, target)
             index = poly_position[0]
-- 
2.43.0


From 60ddb960a856c389499a3f2ab79f57e0c2f64e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 36/52] fix: do not repeat the last layer of a stepped pocket
 for numerical noise

---
 src/cq_cam/operations/pocket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 32830d4..bf67f68 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -138,7 +138,8 @@ def apply_stepdown(
     if len(end_depths) != 1:
         raise RuntimeError("Multiple depths in sequences")
 
-    step_depths = np.arange(start_depth, list(end_depths)[0], -stepdown)
+    # Leave out a step that only numerical noise sets apart from the end depth
+    step_depths = np.arange(start_depth, list(end_depths)[0] + 1e-6, -stepdown)
     stepped_sequences = []
     for step_depth in step_depths:
         for sequence in sequences:
-- 
2.43.0


From d20186d55d790df3c7a279d0863ab157c5433551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 37/52] fix: refuse a pocket stepover or step down that leads
 nowhere

---
 src/cq_cam/operations/pocket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index bf67f68..a0cb3b7 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -53,6 +53,10 @@ def pocket(
     avoid_outer_offset = calculate_offset(job.tool_radius, avoid_outer_offset, 1)
     avoid_inner_offset = calculate_offset(job.tool_radius, avoid_inner_offset, -1)
     stepover = calculate_offset(job.tool_radius, stepover, 0.5)
+    if stepover <= 0:
+        raise ValueError("Stepover must be positive")
+    if stepdown is not None and stepdown < 0:
+        raise ValueError("Stepdown must not be negative")
 
     # Transform to job plane
     op_areas = [face.transformShape(job.top.fG) for face in op_areas]
-- 
2.43.0


From 5a87d03123179dbfa0950761060f5f284d73ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 38/52] fix: offset circles that consist of several arcs

---
 src/cq_cam/utils/geometry_op.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index ea4670f..bb11427 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -77,10 +77,21 @@ def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=Non
 
 
 def wire_to_circle(wire: cq.Wire) -> gp_Circ | None:
+    """
+    The circle of a wire that consists of a full circle, possibly in several arcs
+    """
     edges = wire.Edges()
-    if len(edges) == 1 and edges[0].geomType() == "CIRCLE" and edges[0].IsClosed():
-        return edges[0]._geomAdaptor().Circle()
-    return None
+    if not wire.IsClosed() or any(edge.geomType() != "CIRCLE" for edge in edges):
+        return None
+
+    circles = [edge._geomAdaptor().Circle() for edge in edges]
+    for circle in circles[1:]:
+        if (
+            circle.Location().Distance(circles[0].Location()) > 1e-5
+            or abs(circle.Radius() - circles[0].Radius()) > 1e-5
+        ):
+            return None
+    return circles[0]
 
 
 def offset_circle(circle: gp_Circ, offset: float) -> list[cq.Wire]:
-- 
2.43.0


From bc2a6f9b1d86c7849ab9470e5a366f78fc2cf04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 39/52] fix: do not displace the offset of a closed spline

---
 src/cq_cam/utils/circle_bug_workaround.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 9753c3a..58dc7e2 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -12,7 +12,7 @@ def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
     """
     if len(source_wire.Edges()) == 1:
         edge = source_wire.Edges()[0]
-        if edge.startPoint() == edge.endPoint():
-            # OCCT bug with offsetting circles!
+        if edge.geomType() == "CIRCLE" and edge.startPoint() == edge.endPoint():
+            # OCCT bug with offsetting circles! Other closed edges are not affected.
             for target in target_wires:
                 target.wrapped.Location(source_wire.wrapped.Location().Inverted())
-- 
2.43.0


From 2aac0345f3d1d006de590b136af6053dce7195ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 40/52] fix: offset curves tighter than the tool as paths

---
 src/cq_cam/utils/geometry_op.py | 67 ++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index bb11427..21991ac 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -6,14 +6,20 @@ from math import sqrt
 from typing import Literal, TypeAlias
 
 import cadquery as cq
+import numpy as np
 import pyclipper as pc
 import shapely
 from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
-from OCP.gp import gp_Circ
+from OCP.gp import gp_Circ, gp_Pnt, gp_Vec
 from OCP.StdFail import StdFail_NotDone
+from OCP.TopAbs import TopAbs_REVERSED
 
 from cq_cam.utils.circle_bug_workaround import circle_bug_workaround
-from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
+from cq_cam.utils.interpolation import (
+    edge_interpolation_count,
+    vectors_to_2d_tuples,
+    wire_to_vectors,
+)
 from cq_cam.utils.utils import (
     dist_to_segment_squared,
     edge_start_end,
@@ -107,26 +113,51 @@ def offset_circle(circle: gp_Circ, offset: float) -> list[cq.Wire]:
     return [cq.Wire.assembleEdges([cq.Edge(BRepBuilderAPI_MakeEdge(circle).Edge())])]
 
 
-def has_vanishing_arcs(wire: cq.Wire, offset: float) -> bool:
+def has_vanishing_curves(wire: cq.Wire, offset: float) -> bool:
     """
-    Is there an arc that curves around the tool with a radius that is too small for it?
+    Does a curve curve around the tool with a radius that is too small for it?
     """
-    edges = [
-        edge
-        for edge in wire_to_ordered_edges(wire)
-        if edge.geomType() == "CIRCLE" and edge.radius() <= abs(offset) + 1e-6
-    ]
-    if not offset or not edges:
+    if not offset:
+        return False
+
+    # Direction and radius of the curvature
+    curvatures = []
+    for edge in wire_to_ordered_edges(wire):
+        geom_type = edge.geomType()
+        if geom_type == "CIRCLE":
+            start, end = edge_start_end(edge)
+            middle = edge.positionAt(0.5)
+            turn = (middle - start).cross(end - middle).z
+            curvatures.append((turn, edge.radius()))
+        elif geom_type != "LINE":
+            curvatures += edge_curvatures(edge)
+
+    curvatures = [turn for turn, radius in curvatures if radius <= abs(offset) + 1e-6]
+    if not curvatures:
         return False
 
     is_ccw = shapely.LinearRing(wire_to_path(wire, 2)).is_ccw
-    for edge in edges:
-        start, end = edge_start_end(edge)
-        middle = edge.positionAt(0.5)
-        turns_left = (middle - start).cross(end - middle).z > 0
-        if (turns_left == is_ccw) == (offset < 0):
-            return True
-    return False
+    return any(((turn > 0) == is_ccw) == (offset < 0) for turn in curvatures)
+
+
+def edge_curvatures(edge: cq.Edge) -> list[tuple[float, float]]:
+    """
+    Sample the direction and radius of the curvature along an edge
+    """
+    curve = edge._geomAdaptor()
+    sign = -1 if edge.wrapped.Orientation() == TopAbs_REVERSED else 1
+    curvatures = []
+    for param in np.linspace(
+        curve.FirstParameter(),
+        curve.LastParameter(),
+        max(edge_interpolation_count(edge, 1), 100),
+    ):
+        point, d1, d2 = gp_Pnt(), gp_Vec(), gp_Vec()
+        curve.D2(float(param), point, d1, d2)
+        turn = d1.Crossed(d2).Z()
+        if abs(turn) > 1e-9:
+            curvatures.append((turn * sign, d1.Magnitude() ** 3 / abs(turn)))
+    return curvatures
 
 
 def offset_wire_as_path(wire: cq.Wire, offset: float) -> list[cq.Wire]:
@@ -146,7 +177,7 @@ def offset_wire(
     if circle := wire_to_circle(wire):
         return offset_circle(circle, offset)
 
-    if has_vanishing_arcs(wire, offset):
+    if has_vanishing_curves(wire, offset):
         # OCCT may crash or return a wire that is open or too close to the source
         return offset_wire_as_path(wire, offset)
 
-- 
2.43.0


From ed58d6c622d6eba5ea47e9d13ee66dd6f0f44156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 41/52] fix: measure the distance to a segment without length

---
 src/cq_cam/utils/geometry_op.py | 2 +-
 src/cq_cam/utils/utils.py       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 21991ac..656e692 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -424,7 +424,7 @@ def distance_to_path(
 
             # the lengths are squared, so to get the correct ratio
             # sqrt needs to be applied
-            poly_param = sqrt(point_length / segment_length)
+            poly_param = sqrt(point_length / segment_length) if segment_length else 0.0
             poly_position = (i, poly_param)
 
     return distance, closest_point, poly_position
diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index dcc3c38..e8e9be5 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -293,6 +293,9 @@ def dist_to_segment_squared(
     p, v, w = point, segment_start, segment_end
     """https://stackoverflow.com/a/1501725"""
     l2 = dist2(v, w)
+    if l2 == 0:
+        # The segment is a point
+        return dist2(p, v), v
     t = ((p[0] - v[0]) * (w[0] - v[0]) + (p[1] - v[1]) * (w[1] - v[1])) / l2
     t = max(0.0, min(1.0, t))
     closest_point = (v[0] + t * (w[0] - v[0]), v[1] + t * (w[1] - v[1]))
-- 
2.43.0


From 043cac68fd60c49ef12c966ac3be33298357eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 42/52] fix: cut surfaces with the feed of the job

---
 src/cq_cam/operations/op3d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 5b9b097..7834f09 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -157,6 +157,7 @@ class Surface3D(FaceBaseOperation):
                                 y=cut[1],
                                 z=max(depth, cut[2]),
                                 start=previous_pos,
+                                feed=self.job.feed,
                             )
                         )
                         previous_pos = self.commands[-1].end
-- 
2.43.0


From 41292fcad8c1d3cdd21f6cc702c9f55e546fd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 43/52] fix: give the drop cutter the surface as it lies in the
 job plane

---
 src/cq_cam/operations/op3d.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 7834f09..aa73cd1 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -196,10 +196,13 @@ class Surface3D(FaceBaseOperation):
         while explorer.More():
             shape_face = explorer.Current()
             triangulation = brep_tool.Triangulation_s(shape.wrapped, location)
+            # The nodes do not include the location of the shape
+            placement = location.Transformation()
             for i in range(triangulation.NbTriangles()):
                 triangle = triangulation.Triangle(i + 1)
                 face_triangles = tuple(
-                    point_to_tuple(triangulation.Node(node)) for node in triangle.Get()
+                    point_to_tuple(triangulation.Node(node).Transformed(placement))
+                    for node in triangle.Get()
                 )
                 triangles.append(face_triangles)
 
@@ -243,10 +246,13 @@ def shape_to_triangles(
     while explorer.More():
         shape_face = explorer.Current()
         triangulation = brep_tool.Triangulation_s(shape.wrapped, location)
+        # The nodes do not include the location of the shape
+        placement = location.Transformation()
         for i in range(triangulation.NbTriangles()):
             triangle = triangulation.Triangle(i + 1)
             face_triangles = tuple(
-                point_to_tuple(triangulation.Node(node)) for node in triangle.Get()
+                point_to_tuple(triangulation.Node(node).Transformed(placement))
+                for node in triangle.Get()
             )
             triangles.append(face_triangles)
 
-- 
2.43.0


From 1bd56f8ed1b9893702a521a7eaf40cd12ab3e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 44/52] fix: accept a surface step down that exceeds the depth
 or is positive

---
 src/cq_cam/operations/op3d.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index aa73cd1..0ddf47b 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -113,12 +113,11 @@ class Surface3D(FaceBaseOperation):
 
             bottom_height = bb.zmin
             if self.stepdown:
+                stepdown = -abs(self.stepdown)
                 depths = list(
-                    np.arange(
-                        self.top_height + self.stepdown, bottom_height, self.stepdown
-                    )
+                    np.arange(self.top_height + stepdown, bottom_height, stepdown)
                 )
-                if depths[-1] != bottom_height:
+                if not depths or not np.isclose(depths[-1], bottom_height):
                     depths.append(bottom_height)
             else:
                 depths = [bottom_height]
-- 
2.43.0


From 7c66f684ca4957842c15b8be83aa86f5bd7fcd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 45/52] fix: plunge to where a surface cut begins

---
 src/cq_cam/operations/op3d.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 0ddf47b..3c5bcb5 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -144,11 +144,16 @@ class Surface3D(FaceBaseOperation):
                     previous_pos = self.commands[-1].end
                     self.commands.append(
                         Rapid.abs(z=self.job.op_safe_height, start=previous_pos)
-                    )  # TODO plunge or rapid?
+                    )
+                    previous_pos = self.commands[-1].end
+                    self.commands.append(
+                        PlungeCut.abs(
+                            z=max(depth, cut_start[2]),
+                            start=previous_pos,
+                            feed=self.job.plunge_feed,
+                        )
+                    )
                     previous_pos = self.commands[-1].end
-                    # self.commands.append(PlungeCut.abs(
-                    #     z=cut_start[2], start=previous_pos))
-                    # previous_pos = self.commands[-1].end
                     for cut in cut_sequence[1:]:
                         self.commands.append(
                             Cut.abs(
-- 
2.43.0


From 3802b6c4f5427efaa17dce4fdb081c38e0100de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 46/52] fix: flatten arcs in the direction of their wire and to
 their end

---
 src/cq_cam/utils/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index e8e9be5..c7a5ee6 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -72,8 +72,7 @@ def drop_z(vector: cq.Vector) -> tuple[float, float]:
 
 
 def position_space(edge: cq.Edge, tolerance=0.1):
-    # TODO orientation check
-    return np.linspace(0, 1, math.ceil(edge.Length() / tolerance))
+    return np.linspace(0, 1, math.ceil(edge.Length() / tolerance) + 1)
 
 
 def flatten_edges(edges: list[cq.Edge]):
@@ -88,9 +87,10 @@ def flatten_edges(edges: list[cq.Edge]):
             # TODO tmp
         elif edge.geomType() in ["ARC", "CIRCLE", "OFFSET"]:
             # TODO handle full circles
-            # TODO make sure position_space ends up returning something (really tiny arcs?)
-            positions = edge.positions(position_space(edge)[1:])
-            vxs += positions
+            positions = edge.positions(position_space(edge))
+            if edge.wrapped.Orientation() == TopAbs_REVERSED:
+                positions.reverse()
+            vxs += positions[1:]
         else:
             print("UNKNOWN TYPE", edge.geomType())
             raise ValueError(f"UNKNOWN TYPE {edge.geomType()}")
-- 
2.43.0


From 28cbf1f212104575c6af4e8d7ce61a8fb05e437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 47/52] fix: include the first edge of a boundary in its
 polygon

---
 src/cq_cam/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index c7a5ee6..2ba57bb 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -194,6 +194,8 @@ class WireClipper:
         if not is_closed:
             polygon.append(polygon[0])
         self._add_path(pyclipper.scale_to_clipper(polygon), pt, is_closed, cache)
+        if is_closed:
+            polygon.append(polygon[0])
         return polygon
 
     def add_clip_polygon(
-- 
2.43.0


From 7da3a264c48de97f2d8e13c552d2facb53671213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 48/52] fix: accept scanlines that touch a corner of the
 boundary

---
 src/cq_cam/operations/strategy.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index f6c9a54..afd41a6 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -1,4 +1,5 @@
 import logging
+from collections.abc import Iterable
 from itertools import pairwise
 
 import cadquery as cq
@@ -94,7 +95,7 @@ class ZigZagStrategy(Strategy):
         for scanline_template in scanline_templates:
             clipper.add_subject_polygon(scanline_template)
 
-        scanlines = clipper.execute()
+        scanlines = cls._join_scanlines(clipper.execute())
 
         scanpoint_to_scanline, scanpoints = cls._scanline_end_map(scanlines)
 
@@ -113,6 +114,24 @@ class ZigZagStrategy(Strategy):
         )
         return cut_sequences
 
+    @staticmethod
+    def _join_scanlines(scanlines: Iterable[Scanline]) -> list[Scanline]:
+        """
+        Clipper splits a scanline where it touches a corner of the boundary or runs
+        along it. Join the parts, because every scanpoint must be the end of a single
+        scanline.
+        """
+        joined = []
+        for scanline in sorted(
+            (tuple(sorted((scanline[0], scanline[-1]))) for scanline in scanlines),
+            key=lambda s: (-s[0][1], s),
+        ):
+            if joined and joined[-1][-1] == scanline[0]:
+                joined[-1] = (joined[-1][0], scanline[-1])
+            elif scanline[0] != scanline[-1]:
+                joined.append(scanline)
+        return joined
+
     @staticmethod
     def _scanline_end_map(scanlines: list[Scanline]):
         scanline_end_map = {}
-- 
2.43.0


From 3cce71d527149bdbd3b87b89ad5b24eb9bb75965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 49/52] fix: fill an area that fits between two scanlines

---
 src/cq_cam/operations/strategy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index afd41a6..db0e3f4 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -78,6 +78,7 @@ class ZigZagStrategy(Strategy):
                 polygon = inner_boundary
             inner_polygons.append(polygon)
 
+        bounds = clipper.bounds()
         max_bounds = clipper.max_bounds()
 
         # Generate ZigZag scanlines
@@ -96,6 +97,13 @@ class ZigZagStrategy(Strategy):
             clipper.add_subject_polygon(scanline_template)
 
         scanlines = cls._join_scanlines(clipper.execute())
+        if not scanlines:
+            # The area fits between two scanlines
+            y = (bounds["bottom"] + bounds["top"]) / 2
+            clipper.add_subject_polygon(
+                ((max_bounds["left"], y), (max_bounds["right"], y))
+            )
+            scanlines = cls._join_scanlines(clipper.execute())
 
         scanpoint_to_scanline, scanpoints = cls._scanline_end_map(scanlines)
 
-- 
2.43.0


From 71d5440675864ebab94cfadc434a2dab01f4cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 50/52] fix: skip repeated points of a surface cut

---
 src/cq_cam/operations/op3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 3c5bcb5..2af8243 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -66,8 +66,10 @@ class Surface3D(FaceBaseOperation):
                 for p2 in cut_sequence[1:]:
                     v2 = cq.Vector(p2)
                     v = v2 - v1
-                    u = v.normalized()
                     l = v.Length
+                    if not l:
+                        continue
+                    u = v.normalized()
                     for step in np.arange(0, l, self.interpolation_step):
                         step_v = v1 + u * step
                         interpolated.append((step_v.x, step_v.y))
-- 
2.43.0


From 6236d8ef6622aa467c3e8af4b6c03e5dd357a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 51/52] fix: offset the boundary of a surface like any other
 contour

---
 src/cq_cam/operations/base_operation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/base_operation.py b/src/cq_cam/operations/base_operation.py
index b8a7c36..886c5a2 100644
--- a/src/cq_cam/operations/base_operation.py
+++ b/src/cq_cam/operations/base_operation.py
@@ -8,6 +8,7 @@ from OCP.TopAbs import TopAbs_FACE
 from OCP.TopExp import TopExp_Explorer
 
 from cq_cam.command import MotionCommand
+from cq_cam.utils.geometry_op import offset_wire
 from cq_cam.utils.utils import flatten_list
 
 
@@ -185,12 +186,15 @@ class FaceBaseOperation(Operation, ABC):
             + self.inner_boundary_offset[1]
         )
 
-        outer_wires = boundary.outerWire().offset2D(outer_offset)
+        outer_wires = offset_wire(boundary.outerWire(), outer_offset)
         inner_wires = (
             []
             if inner_offset is None
             else flatten_list(
-                [inner.offset2D(inner_offset) for inner in boundary.innerWires()]
+                [
+                    offset_wire(inner, inner_offset)
+                    for inner in boundary.innerWires()
+                ]
             )
         )
 
-- 
2.43.0


From 00cad3d80e07dfc67707f27729cc7a4340bce4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:16 +0000
Subject: [PATCH 52/52] fix: offset curves that OCCT finds no offset for

---
 src/cq_cam/utils/geometry_op.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 656e692..deeeb26 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -192,6 +192,10 @@ def offset_wire(
         except ValueError:
             return offset_wire_as_path(wire, offset)
 
+    if not offset_wires:
+        # Nothing fits, or OCCT didn't manage (like a large closed spline inwards)
+        return offset_wire_as_path(wire, offset)
+
     validated_wires = []
     for candidate in offset_wires:
         try:
-- 
2.43.0

