From fda7fd90ca7c46b9856de1cd85afe8fcaaf5c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 01/29] fix: matching never ended for thresholds too large for
 float32

Matched rows and columns were masked with distance_threshold + 1, which in a
float32 matrix can round below the threshold. Mask them with infinity.
---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 275ecee..6c7f08c 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -376,8 +376,8 @@ class Tracker:
                 obj_idx = flattened_arg_min % distance_matrix.shape[1]
                 det_idxs.append(det_idx)
                 obj_idxs.append(obj_idx)
-                distance_matrix[det_idx, :] = distance_threshold + 1
-                distance_matrix[:, obj_idx] = distance_threshold + 1
+                distance_matrix[det_idx, :] = np.inf
+                distance_matrix[:, obj_idx] = np.inf
                 current_min = distance_matrix.min()
 
             return det_idxs, obj_idxs
-- 
2.43.0


From fff09e17892e7f720a4fb14b798b77c01d9d9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 02/29] fix: re-identified objects could exceed hit_counter_max

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 6c7f08c..2309122 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -717,7 +717,7 @@ class TrackedObject:
     def merge(self, tracked_object):
         """Merge with a not yet initialized TrackedObject instance"""
         self.reid_hit_counter = None
-        self.hit_counter = self.initial_period * 2
+        self.hit_counter = min(self.initial_period * 2, self.hit_counter_max)
         self.point_hit_counter = tracked_object.point_hit_counter
         self.last_distance = tracked_object.last_distance
         self.current_min_distance = tracked_object.current_min_distance
-- 
2.43.0


From 5b09262bc519b9324313f33f02c9114b7e3fdef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 03/29] fix: never initialized objects were candidates for
 re-identification

---
 norfair/tracker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 2309122..9d95f4a 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -235,7 +235,8 @@ class Tracker:
             _, _, _ = self._update_objects_in_place(
                 self.reid_distance_function,
                 self.reid_distance_threshold,
-                unmatched_init_trackers + dead_objects,
+                unmatched_init_trackers
+                + [o for o in dead_objects if not o.is_initializing],
                 matched_not_init_trackers,
                 period,
             )
-- 
2.43.0


From 1c16347b8c4f562f61962e33b3c7a8369f7c9c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 04/29] fix: a matched object was dropped when its ReID counter
 ran out

hit() left the ReID counter running, so an object that was matched again right
after its hit counter reached zero was later removed while being tracked.
---
 norfair/tracker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 9d95f4a..1b1c34a 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -627,6 +627,7 @@ class TrackedObject:
 
         self.last_detection = detection
         self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
+        self.reid_hit_counter = None
 
         if self.is_initializing and self.hit_counter > self.initialization_delay:
             self.is_initializing = False
-- 
2.43.0


From 401904987e5573a1844ab6db4c82b9dc531bbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 05/29] fix: first detections of points were adopted for the
 wrong coordinates

The mask of detected points was tiled instead of repeated per coordinate, so
with several points the coordinates of another point were overwritten.
---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 1b1c34a..8d31f4f 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -664,9 +664,7 @@ class TrackedObject:
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
         ).flatten()
-        now_detected_mask = np.hstack(
-            (points_over_threshold_mask,) * self.dim_points
-        ).flatten()
+        now_detected_mask = np.repeat(points_over_threshold_mask, self.dim_points)
         first_detection_mask = np.logical_and(
             now_detected_mask, np.logical_not(detected_at_least_once_mask)
         )
-- 
2.43.0


From 4e650d0a371e73a1ef40435982bdaeb7b2f89f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 06/29] fix: a just detected point could be reported as not
 live

The counter of a point left undetected kept falling below zero, so a new
detection did not make it positive. Clamp it before adding to it.
---
 norfair/tracker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 8d31f4f..12fb90e 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -633,6 +633,8 @@ class TrackedObject:
             self.is_initializing = False
             self._acquire_ids()
 
+        self.point_hit_counter[self.point_hit_counter < 0] = 0
+
         # We use a kalman filter in which we consider each coordinate on each point as a sensor.
         # This is a hacky way to update only certain sensors (only x, y coordinates for
         # points which were detected).
@@ -654,7 +656,6 @@ class TrackedObject:
         self.point_hit_counter[
             self.point_hit_counter >= self.pointwise_hit_counter_max
         ] = self.pointwise_hit_counter_max
-        self.point_hit_counter[self.point_hit_counter < 0] = 0
         H_vel = np.zeros(H_pos.shape)  # But we don't directly measure velocity
         H = np.hstack([H_pos, H_vel])
         self.filter.update(
-- 
2.43.0


From c92a6ec9fb9f3e4fecd1e04fddb15cfe6ce69bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:36 +0000
Subject: [PATCH 07/29] fix: vectorized distances failed on or conflated labels
 that differ only as strings

Labels were compared through a numpy string array, so tuple labels raised and
1 matched '1'. Compare the labels themselves, as ScalarDistance does.
---
 norfair/distances.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index d7d7e4c..669de77 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -151,26 +151,26 @@ class VectorizedDistance(Distance):
         if not objects or not candidates:
             return distance_matrix
 
-        object_labels = np.array([o.label for o in objects]).astype(str)
-        candidate_labels = np.array([c.label for c in candidates]).astype(str)
+        object_labels = [o.label for o in objects]
+        candidate_labels = [c.label for c in candidates]
 
         # iterate over labels that are present both in objects and detections
-        for label in np.intersect1d(
-            np.unique(object_labels), np.unique(candidate_labels)
-        ):
+        for label in dict.fromkeys(object_labels):
+            if label not in candidate_labels:
+                continue
             # generate masks of the subset of object and detections for this label
-            obj_mask = object_labels == label
-            cand_mask = candidate_labels == label
+            obj_mask = np.array([o_label == label for o_label in object_labels])
+            cand_mask = np.array([c_label == label for c_label in candidate_labels])
 
             stacked_objects = []
             for o in objects:
-                if str(o.label) == label:
+                if o.label == label:
                     stacked_objects.append(o.estimate.ravel())
             stacked_objects = np.stack(stacked_objects)
 
             stacked_candidates = []
             for c in candidates:
-                if str(c.label) == label:
+                if c.label == label:
                     if "Detection" in str(type(c)):
                         stacked_candidates.append(c.points.ravel())
                     else:
-- 
2.43.0


From ca7e70df38115d5c85ed9e8e72334ac95e892e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:15 +0000
Subject: [PATCH 08/29] fix: vectorized distances failed on subclasses of
 Detection with another name

---
 norfair/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index 669de77..6d1f4f2 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -171,7 +171,7 @@ class VectorizedDistance(Distance):
             stacked_candidates = []
             for c in candidates:
                 if c.label == label:
-                    if "Detection" in str(type(c)):
+                    if hasattr(c, "points"):
                         stacked_candidates.append(c.points.ravel())
                     else:
                         stacked_candidates.append(c.estimate.ravel())
-- 
2.43.0


From 400bb633210c12d3d5124337587c689ebe0afc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 09/29] fix: accept coord_transformations in updates without
 detections

Tracker.update(None, coord_transformations=...) raised a TypeError, although
frames without detections are documented and the camera keeps moving in them.
---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 12fb90e..e69f65f 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,7 +176,7 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None:
+        if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
 
-- 
2.43.0


From 3c9242772da955e78ad07c7e31e4711b21ae0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 10/29] fix: compute a detection's absolute points from its own
 points

The absolute points were transformed in place, so a detection given to two
trackers (or twice to one) was moved by the camera once per update.
---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index e69f65f..b9c70b4 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -788,6 +788,4 @@ class Detection:
         self, coordinate_transformation: CoordinatesTransformation
     ):
         if coordinate_transformation is not None:
-            self.absolute_points = coordinate_transformation.rel_to_abs(
-                self.absolute_points
-            )
+            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)
-- 
2.43.0


From 1b65e018210b0f283a55f1c1368116754229ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:37 +0000
Subject: [PATCH 11/29] fix: accept upper case digits in hexadecimal colors

The drawing functions document "#FF0000" as a valid color.
---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index 40fc4d9..b38a9fb 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-f0-9]{6}$", hex_value):
+    if re.match("#[a-fA-F0-9]{6}$", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-f0-9]{3}$", hex_value):
+    if re.match("#[a-fA-F0-9]{3}$", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From 0580f123b4c41d6aedef252b049d6e7b5c886189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:37 +0000
Subject: [PATCH 12/29] fix: reject hexadecimal colors followed by a newline

"$" also matches before a trailing newline, so "#ff0000\n" was a valid color.
---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index b38a9fb..e71a5e3 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-fA-F0-9]{6}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{6}", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-fA-F0-9]{3}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{3}", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From e9b5fd4f5fb9501b618a6fc26ea5c872e9a4819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 13/29] fix: return the frame from draw_points without
 drawables

The documented return value is the resulting frame, draw_boxes returns it.
---
 norfair/drawing/draw_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e513e30..23edaf5 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -113,7 +113,7 @@ def draw_points(
     # end
 
     if drawables is None:
-        return
+        return frame
 
     if text_color is not None:
         text_color = parse_color(text_color)
-- 
2.43.0


From 16cab3e01ae66b6ad33dcdf191be860d5a90c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 14/29] fix: place the title of objects without live points

With hide_dead_points=False an object whose points are all dead is drawn, but
its title went to the mean of no points, which is NaN.
---
 norfair/drawing/draw_points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 23edaf5..c531dd1 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -160,7 +160,9 @@ def draw_points(
                     )
 
         if draw_labels or draw_ids or draw_scores:
-            position = d.points[d.live_points].mean(axis=0)
+            # with hide_dead_points=False an object may have no live points at all
+            anchors = d.points[d.live_points] if d.live_points.any() else d.points
+            position = anchors.mean(axis=0)
             position -= radius
             text = _build_text(
                 d, draw_labels=draw_labels, draw_ids=draw_ids, draw_scores=draw_scores
-- 
2.43.0


From fea2ff407137ede0abca3322e65ea7a9682bcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:45 +0000
Subject: [PATCH 15/29] fix: look up variables of information files by their
 whole name

---
 norfair/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b1e056d..6b669f9 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -26,8 +26,8 @@ class InformationFile:
 
     def search(self, variable_name):
         for line in self.lines:
-            if line[: len(variable_name)] == variable_name:
-                result = line[len(variable_name) + 1 :]
+            name, _, result = line.partition("=")
+            if name == variable_name:
                 break
         else:
             raise ValueError(f"Couldn't find '{variable_name}' in {self.path}")
-- 
2.43.0


From 09004383fe2d0615701e0321e5df81d23f5244aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:45 +0000
Subject: [PATCH 16/29] fix: read detection files with a single row or none

---
 norfair/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 6b669f9..70ba1a2 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -110,7 +110,11 @@ class DetectionFileParser:
         # frame, id, bb_left, bb_top, bb_right, bb_down, conf, x, y, z
         detections_path = os.path.join(input_path, "det/det.txt")
 
-        self.matrix_detections = np.loadtxt(detections_path, dtype="f", delimiter=",")
+        self.matrix_detections = np.loadtxt(
+            detections_path, dtype="f", delimiter=",", ndmin=2
+        )
+        if self.matrix_detections.size == 0:
+            self.matrix_detections = np.empty((0, 10), dtype="f")
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From 5b61bd353f2c6008727487e23cf0fbc7608fadbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:58 +0000
Subject: [PATCH 17/29] fix: evaluate sequences with a single prediction

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 70ba1a2..8b8aada 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -207,7 +207,7 @@ class Accumulators:
                 -1,
             ]
             if np.shape(self.matrix_predictions)[0] == 0:
-                self.matrix_predictions = new_row
+                self.matrix_predictions = np.array([new_row])
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
         self.frame_number += 1
-- 
2.43.0


From b1d3a5a66137455f672a41ad9c0dd6ef7ad63d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 18/29] fix: update accumulators without predictions

---
 norfair/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 8b8aada..1d493d1 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -192,6 +192,8 @@ class Accumulators:
         )
 
     def update(self, predictions=None):
+        if predictions is None:
+            predictions = []
         # Get the tracked boxes from this frame in an array
         for obj in predictions:
             new_row = [
-- 
2.43.0


From c47e1906415eb671ae8939d9c8ef9fd33ea94606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 19/29] fix: iterate over videos when the clock has not
 advanced

---
 norfair/video.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 83abbd4..2ab92e0 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -160,7 +160,9 @@ class Video:
                 ret, frame = self.video_capture.read()
                 if ret is False or frame is None:
                     break
-                process_fps = self.frame_counter / (time.time() - start)
+                elapsed = time.time() - start
+                # The clock may not have advanced yet
+                process_fps = self.frame_counter / elapsed if elapsed > 0 else 0
                 progress_bar.update(
                     self.task, advance=1, refresh=True, process_fps=process_fps
                 )
-- 
2.43.0


From 3f1661b6d8a22946ef119c3b00426e501f838133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:45 +0000
Subject: [PATCH 20/29] fix: downsample by ratios that are floats

---
 norfair/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 2ab92e0..eeaef47 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -236,8 +236,8 @@ class Video:
             frame = cv2.resize(
                 frame,
                 (
-                    frame.shape[1] // downsample_ratio,
-                    frame.shape[0] // downsample_ratio,
+                    int(frame.shape[1] // downsample_ratio),
+                    int(frame.shape[0] // downsample_ratio),
                 ),
             )
         cv2.imshow("Output", frame)
-- 
2.43.0


From 6bac4fc7af16a05e19a9106e4f563657534af2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:37 +0000
Subject: [PATCH 21/29] fix: name the output of a camera after its number

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index eeaef47..3032c94 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -260,7 +260,7 @@ class Video:
         if self.input_path is not None:
             file_name = self.input_path.split("/")[-1].split(".")[0]
         else:
-            file_name = "camera_{self.camera}"
+            file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
 
         return os.path.join(self.output_path, file_name)
-- 
2.43.0


From 15cc267ce1d30c8d09862cce82cd5083f9e8de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 22/29] fix: abbreviate descriptions in terminals narrower than
 32 columns

---
 norfair/video.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 3032c94..c6984ea 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -288,9 +288,8 @@ class Video:
     def abbreviate_description(self, description: str) -> str:
         """Conditionally abbreviate description so that progress bar fits in small terminals"""
         terminal_columns, _ = get_terminal_size()
-        space_for_description = (
-            int(terminal_columns) - 25
-        )  # Leave 25 space for progressbar
+        # Leave 25 space for progressbar, the abbreviation needs at least 7
+        space_for_description = max(int(terminal_columns) - 25, 7)
         if len(description) < space_for_description:
             return description
         else:
-- 
2.43.0


From 22a3a6245b4df36ceee2eb5d6f11afa58b0bd9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 23/29] fix: cut out points with negative coordinates

---
 norfair/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 98e0d90..cc30ffe 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -60,10 +60,11 @@ def get_terminal_size(default: Tuple[int, int] = (80, 24)) -> Tuple[int, int]:
 
 def get_cutout(points, image):
     """Returns a rectangular cut-out from a set of points on an image"""
-    max_x = int(max(points[:, 0]))
-    min_x = int(min(points[:, 0]))
-    max_y = int(max(points[:, 1]))
-    min_y = int(min(points[:, 1]))
+    # Negative coordinates are out of the image, not counted from its end
+    max_x = max(int(max(points[:, 0])), 0)
+    min_x = max(int(min(points[:, 0])), 0)
+    max_y = max(int(max(points[:, 1])), 0)
+    min_y = max(int(min(points[:, 1])), 0)
     return image[min_y:max_y, min_x:max_x]
 
 
-- 
2.43.0


From d77c7e3c4de9b4ecd8dd7365da6696c7d6fd195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 24/29] fix: print objects that have not been matched yet

---
 norfair/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index cc30ffe..66488c9 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -41,7 +41,7 @@ def print_objects_as_table(tracked_objects: Sequence):
             str(obj.id),
             str(obj.age),
             str(obj.hit_counter),
-            f"{obj.last_distance:.4f}",
+            "None" if obj.last_distance is None else f"{obj.last_distance:.4f}",
             str(obj.initializing_id),
         )
     console.print(table)
-- 
2.43.0


From 4f93097ea03cf60783e15681a721ff31990a59f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 25/29] fix: deprecated color flags set to False had the effect
 of True

---
 norfair/drawing/draw_boxes.py  | 6 ++++--
 norfair/drawing/draw_points.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/norfair/drawing/draw_boxes.py b/norfair/drawing/draw_boxes.py
index 57789db..756fa25 100644
--- a/norfair/drawing/draw_boxes.py
+++ b/norfair/drawing/draw_boxes.py
@@ -100,12 +100,14 @@ def draw_boxes(
         warn_once(
             'Parameter "random_color" is deprecated, set `color="random"` instead'
         )
-        color = "random"
+        if random_color:
+            color = "random"
     if color_by_label is not None:
         warn_once(
             'Parameter "color_by_label" is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once('Parameter "detections" is deprecated, use "drawables" instead')
         drawables = detections
diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index c531dd1..75e3896 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -99,7 +99,8 @@ def draw_points(
         warn_once(
             'Parameter "color_by_label" on function draw_points is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once(
             "Parameter 'detections' on function draw_points is deprecated, use 'drawables' instead"
-- 
2.43.0


From c4525b7b5db83259410f0ba2ae691b9472396da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 26/29] fix: name outputs and rows after sequence folders given
 with a trailing slash

---
 norfair/metrics.py | 11 +++++++----
 norfair/video.py   |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 1d493d1..2c47521 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -46,7 +46,7 @@ class PredictionsTextFile:
 
     def __init__(self, input_path, save_path=".", information_file=None):
 
-        file_name = os.path.split(input_path)[1]
+        file_name = os.path.basename(os.path.normpath(input_path))
 
         if information_file is None:
             seqinfo_path = os.path.join(input_path, "seqinfo.ini")
@@ -174,7 +174,7 @@ class Accumulators:
         # the whole dataset before failing out if we don't.
         mm.metrics
 
-        file_name = os.path.split(input_path)[1]
+        file_name = os.path.basename(os.path.normpath(input_path))
 
         self.frame_number = 1
         # Save the path of this video in a list
@@ -319,7 +319,7 @@ def eval_motChallenge(matrixes_predictions, paths, metrics=None, generate_overal
     gt = OrderedDict(
         [
             (
-                os.path.split(p)[1],
+                os.path.basename(os.path.normpath(p)),
                 mm.io.loadtxt(
                     os.path.join(p, "gt/gt.txt"), fmt="mot15-2D", min_confidence=1
                 ),
@@ -330,7 +330,10 @@ def eval_motChallenge(matrixes_predictions, paths, metrics=None, generate_overal
 
     ts = OrderedDict(
         [
-            (os.path.split(paths[n])[1], load_motchallenge(matrixes_predictions[n]))
+            (
+                os.path.basename(os.path.normpath(paths[n])),
+                load_motchallenge(matrixes_predictions[n]),
+            )
             for n in range(len(paths))
         ]
     )
diff --git a/norfair/video.py b/norfair/video.py
index c6984ea..1157b9b 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -309,7 +309,7 @@ class VideoFromFrames:
                 file_path=os.path.join(input_path, "seqinfo.ini")
             )
         if make_video:
-            file_name = os.path.split(input_path)[1]
+            file_name = os.path.basename(os.path.normpath(input_path))
 
             # Search framerate on seqinfo.ini
             fps = information_file.search(variable_name="frameRate")
-- 
2.43.0


From 3dfd38a85f45ca7f00244cbd30587594eb1b369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:57 +0000
Subject: [PATCH 27/29] fix: name the stand-in for a missing pandas as it is
 used

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 2c47521..86dee58 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -13,7 +13,7 @@ except ImportError:
     from .utils import DummyMOTMetricsImport
 
     mm = DummyMOTMetricsImport()
-    pandas = DummyMOTMetricsImport()
+    pd = DummyMOTMetricsImport()
 from collections import OrderedDict
 
 
-- 
2.43.0


From 0d30985fef54c4f00159fbc6f0508485e87325c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:08 +0000
Subject: [PATCH 28/29] fix: areas of boxes given in narrow integer types

---
 norfair/distances.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/norfair/distances.py b/norfair/distances.py
index 6d1f4f2..ab6ef8e 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -367,6 +367,10 @@ def iou(candidates: np.ndarray, objects: np.ndarray) -> np.ndarray:
     """
     _validate_bboxes(candidates)
 
+    # Areas of boxes given in narrow integer types would overflow
+    candidates = candidates.astype(float)
+    objects = objects.astype(float)
+
     area_candidates = _boxes_area(candidates.T)
     area_objects = _boxes_area(objects.T)
 
-- 
2.43.0


From 5217a68367e6022a4e2017827cca1b65bf32c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:55 +0000
Subject: [PATCH 29/29] fix: things that are not detections are refused before
 anything is updated

A tracked object given to update was merged with itself and lost, and an
object with the attributes of a detection was dropped in silence.
---
 norfair/tracker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index b9c70b4..afcf7b4 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,6 +176,12 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
+        for det in detections if detections is not None else []:
+            if not isinstance(det, Detection):
+                raise ValueError(
+                    f"\n[red]ERROR[/red]: The detection list fed into `tracker.update()` should be composed of {Detection} objects not {type(det)}.\n"
+                )
+
         if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
-- 
2.43.0

