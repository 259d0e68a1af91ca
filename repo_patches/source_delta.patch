From f9866f01a157ad5f27d3d2f23cb23164b8aa8269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 01/23] fix: rotate points by the quaternion instead of by its
 inverse

---
 src/utils/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 303b72f..9856ffd 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -149,7 +149,7 @@ pub fn translate_inv(xyz1: &[f64; 3], xyz2: &[f64; 3]) -> [f64; 3] {
 /// ```
 pub fn rotate(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
     let rot = quaternion2rotation(q);
-    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot;
+    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot.transpose();
     let row = position.row(0);
     [row[0], row[1], row[2]]
 }
-- 
2.43.0


From 531a82102053ddbea1806447bd070a8eeb29f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 02/23] fix: turn the footprint by the object's heading instead
 of against it

---
 src/object/object3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/object3d.rs b/src/object/object3d.rs
index 1f76a00..498eb0a 100644
--- a/src/object/object3d.rs
+++ b/src/object/object3d.rs
@@ -436,7 +436,7 @@ impl DynamicObject {
         center2corners
             .row_iter()
             .map(|corner| {
-                let mat = corner * rot + position;
+                let mat = corner * rot.transpose() + position;
                 [mat[(0, 0)], mat[(0, 1)], mat[(0, 2)]]
             })
             .collect()
-- 
2.43.0


From 5650e9379fef0e456aad0bfd2b4940318963d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 03/23] fix: compose quaternions with the Hamilton product

---
 src/utils/math.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 9856ffd..55a6bb7 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -192,11 +192,14 @@ pub fn rotate_inv(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 0.0, 0.0, 0.0]);
 /// ```
 pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
-    let mut ret = q1.to_owned();
-    for i in 0..4 {
-        ret[i] *= q2[i];
-    }
-    ret
+    let [w1, x1, y1, z1] = q1;
+    let [w2, x2, y2, z2] = q2;
+    [
+        w2 * w1 - x2 * x1 - y2 * y1 - z2 * z1,
+        w2 * x1 + x2 * w1 + y2 * z1 - z2 * y1,
+        w2 * y1 - x2 * z1 + y2 * w1 + z2 * x1,
+        w2 * z1 + x2 * y1 - y2 * x1 + z2 * w1,
+    ]
 }
 
 /// Inverse rotate `q1` with input `q2`.
-- 
2.43.0


From 677203550442e1de91663550924ea7950ac93cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 04/23] fix: keep the quadrant of roll and yaw in
 quaternion2euler

---
 src/utils/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 55a6bb7..c8f3576 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -52,13 +52,13 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 /// ```
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
-    let roll = (2.0 * (q0 * q1 + q2 * q3) / (1.0 - 2.0 * (q1.powi(2) + q2.powi(2)))).atan();
+    let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
     let pitch = -0.5 * PI
         + 2.0
             * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
                 .sqrt()
                 .atan();
-    let yaw = (2.0 * (q0 * q3 + q1 * q2) / (1.0 - 2.0 * (q2.powi(2) + q3.powi(2)))).atan();
+    let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
 
-- 
2.43.0


From 5933c5cedab5a1b782cf34e8dceac03da4d0332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 05/23] fix: use the overlap of the two boxes as the
 intersection height

---
 src/matching.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 5c2a90c..44b8203 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -210,27 +210,27 @@ fn get_intersection_height(
     estimated_object: &DynamicObject,
     ground_truth_object: &DynamicObject,
 ) -> f64 {
-    let min_z = {
+    let lower_z = {
         [
             estimated_object.position[2] - estimated_object.size[2] * 0.5,
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-    let max_z = {
+    let upper_z = {
         [
             estimated_object.position[2] + estimated_object.size[2] * 0.5,
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-    [0.0, max_z - min_z]
+    [0.0, upper_z - lower_z]
         .into_iter()
         .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
-- 
2.43.0


From 794b86a70bc2e53982549f526bdfa21f4090d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 06/23] fix: match estimations and ground truths one to one

A ground truth was given to several estimations, an estimation was reported
once per ground truth, and estimations without a partner were dropped while
matched ones were reported again as false positives.
---
 src/result/object.rs | 51 ++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/result/object.rs b/src/result/object.rs
index d679461..cf51860 100644
--- a/src/result/object.rs
+++ b/src/result/object.rs
@@ -252,46 +252,37 @@ pub fn get_perception_results(
         let mut took_indices = Vec::new();
         let num_estimated_objects = estimated_objects.len();
         for _ in 0..num_estimated_objects {
-            if score_table
+            // The best pair out of estimations and GTs that have not been matched yet
+            let best = score_table
                 .iter()
-                .all(|row| row.iter().all(|col| col.is_none()))
-            {
-                break;
-            }
-            for (est_idx, row_table) in score_table.iter_mut().enumerate() {
-                let (gt_idx, _) = row_table.iter().enumerate().fold(
-                    (usize::MAX, f64::MAX),
-                    |(a_idx, a), (b_idx, b)| match b {
-                        Some(b) => {
-                            if a < *b {
-                                (a_idx, a)
-                            } else {
-                                (b_idx, *b)
-                            }
-                        }
-                        None => (a_idx, a),
-                    },
-                );
+                .enumerate()
+                .flat_map(|(est_idx, row)| {
+                    row.iter()
+                        .enumerate()
+                        .filter_map(move |(gt_idx, score)| score.map(|s| (est_idx, gt_idx, s)))
+                })
+                .min_by(|(_, _, a), (_, _, b)| a.total_cmp(b));
 
-                if gt_idx == usize::MAX {
-                    continue;
-                }
+            let (est_idx, gt_idx) = match best {
+                Some((est_idx, gt_idx, _)) => (est_idx, gt_idx),
+                None => break,
+            };
 
-                results.push(PerceptionResult {
-                    estimated_object: estimated_objects[est_idx].to_owned(),
-                    ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
-                });
+            results.push(PerceptionResult {
+                estimated_object: estimated_objects[est_idx].to_owned(),
+                ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
+            });
 
-                row_table[gt_idx] = None;
-                took_indices.push(est_idx);
-            }
+            score_table[est_idx].iter_mut().for_each(|s| *s = None);
+            score_table.iter_mut().for_each(|row| row[gt_idx] = None);
+            took_indices.push(est_idx);
         }
 
         if took_indices.len() < num_estimated_objects {
             let index_list = (0..num_estimated_objects).collect::<Vec<usize>>();
             let mut fp_estimated_objects = Vec::new();
             index_list.iter().for_each(|idx| {
-                if took_indices.contains(idx) {
+                if !took_indices.contains(idx) {
                     fp_estimated_objects.push(estimated_objects[*idx].to_owned());
                 }
             });
-- 
2.43.0


From 8b2634f71f88ca1cd277a45f6d3a164a5d1daaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 07/23] fix: integrate the whole interpolated precision-recall
 curve

The interpolation walked from low to high recall and left out the interval
down to recall 0, so a perfect detection scored AP 0. Without any estimation
it panicked instead of scoring 0.
---
 src/metrics/detection.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f6600db..f61f507 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -152,14 +152,18 @@ impl<'a> Ap<'a> {
         if self.results.is_empty() && *self.num_ground_truth == 0 {
             (Vec::new(), Vec::new())
         } else {
-            let mut max_precision_list = vec![*precision_list.last().unwrap()];
-            let mut max_recall_list = vec![*recall_list.last().unwrap()];
-            for i in 0..recall_list.len() - 1 {
+            // If there is no estimation, both of precision and recall are 0
+            let mut max_precision_list = vec![precision_list.last().map_or(0.0, |p| *p)];
+            let mut max_recall_list = vec![recall_list.last().map_or(0.0, |r| *r)];
+            for i in (0..recall_list.len().saturating_sub(1)).rev() {
                 if max_precision_list.last().unwrap() < &precision_list[i] {
                     max_precision_list.push(precision_list[i]);
                     max_recall_list.push(recall_list[i]);
                 }
             }
+            // The last interval reaches to recall 0
+            max_precision_list.push(*max_precision_list.last().unwrap());
+            max_recall_list.push(0.0);
             (max_precision_list, max_recall_list)
         }
     }
-- 
2.43.0


From 444e01b90203746ef595c276950b534f6ce968fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 08/23] fix: rank results by confidence when computing AP

---
 src/metrics/detection.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f61f507..f3818ce 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -215,7 +215,15 @@ impl<'a> Ap<'a> {
             let mut tp_list = vec![0.0; num_results];
             let mut fp_list = vec![0.0; num_results];
 
-            self.results.iter().enumerate().for_each(|(i, result)| {
+            // Accumulate in descending order of confidence
+            let mut sorted_results = self.results.iter().collect::<Vec<_>>();
+            sorted_results.sort_by(|a, b| {
+                b.estimated_object
+                    .confidence
+                    .total_cmp(&a.estimated_object.confidence)
+            });
+
+            sorted_results.iter().enumerate().for_each(|(i, result)| {
                 if result.is_result_correct(matching_mode, threshold).unwrap() {
                     tp_list[i] = tp_metrics.get_value(result);
                 } else {
-- 
2.43.0


From 46443ac230b5cc34a0edcc8a7fc0ea685b4ba6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 09/23] fix: count ground truths once if target labels contain
 duplicates

---
 src/manager.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/manager.rs b/src/manager.rs
index 96ea69b..bf2bc1f 100644
--- a/src/manager.rs
+++ b/src/manager.rs
@@ -128,7 +128,8 @@ impl<'a> PerceptionEvaluationManager<'a> {
 
         self.frame_results.iter().for_each(|frame| {
             let mut result_map = hash_results(frame.results(), target_labels);
-            let num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
+            let mut num_gt_map =
+                hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
             target_labels.iter().for_each(|label| {
                 if let Some(results) = scene_results.get_mut(label) {
                     if let Some(result) = result_map.get_mut(label) {
@@ -136,7 +137,8 @@ impl<'a> PerceptionEvaluationManager<'a> {
                     }
                 };
                 if let Some(num_gts) = num_scene_gt.get_mut(label) {
-                    if let Some(num_gt) = num_gt_map.get(label) {
+                    // A label can be listed twice, e.g. truck and trailer
+                    if let Some(num_gt) = num_gt_map.remove(label) {
                         *num_gts += num_gt
                     }
                 };
-- 
2.43.0


From f69e300979353682d900d830396a3616a83e95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 10/23] fix: tell coincident ground truths apart by uuid when
 extracting FN

---
 src/result/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result/frame.rs b/src/result/frame.rs
index 2a9fa30..1ceaec2 100644
--- a/src/result/frame.rs
+++ b/src/result/frame.rs
@@ -140,7 +140,7 @@ fn is_fn_object(ground_truth: &DynamicObject, tp_results: &[PerceptionResult]) -
     for tp in tp_results {
         match &tp.ground_truth_object {
             Some(gt) => {
-                if gt == ground_truth {
+                if gt == ground_truth && gt.uuid == ground_truth.uuid {
                     return false;
                 }
             }
-- 
2.43.0


From ff398ecec2c8efed90da49ee65f317593d7b94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 11/23] fix: accept samples without annotations or sample data

---
 src/dataset/nuscenes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1761c2d..4744635 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -534,10 +534,10 @@ impl NuScenes {
             .map(|(sample_token, sample)| {
                 let sample_data_tokens = sample_to_sample_data_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let annotation_tokens = sample_to_annotation_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let internal = SampleInternal::from(sample, annotation_tokens, sample_data_tokens);
                 Ok((sample_token, internal))
             })
-- 
2.43.0


From b960c8b8d29450eddbadd7ca8df9fc42497686fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 12/23] fix: serialize timestamps in the unit they are
 deserialized in

---
 src/dataset/nuscenes/schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 61d43fa..370733c 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -579,8 +579,8 @@ mod timestamp_serde {
     where
         S: Serializer,
     {
-        let timestamp = value.timestamp_nanos_opt().unwrap() as f64 / 1_000_000_000.0;
-        serializer.serialize_f64(timestamp)
+        let timestamp_us = value.timestamp_micros() as f64; // in us
+        serializer.serialize_f64(timestamp_us)
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
-- 
2.43.0


From 25158f4e99ec9b0fbd9ffbf6850bed89833a5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 13/23] fix: decode timestamps exactly

Scaling epoch microseconds to nanoseconds in f64 moved them by up to 128 ns.
---
 src/dataset/nuscenes/schema.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 370733c..3e69441 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -588,10 +588,7 @@ mod timestamp_serde {
         D: Deserializer<'de>,
     {
         let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let timestamp_ns = (timestamp_us * 1000.0) as u64; // in ns
-        let secs = timestamp_ns / 1_000_000_000;
-        let nsecs = timestamp_ns % 1_000_000_000;
-        let datetime = NaiveDateTime::from_timestamp_opt(secs as i64, nsecs as u32);
+        let datetime = NaiveDateTime::from_timestamp_micros(timestamp_us as i64);
         match datetime {
             Some(value) => Ok(value),
             None => Err(D::Error::custom("Could not load timestamp")),
-- 
2.43.0


From c78074911a6c6651972515d42809e9184fdf74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 14/23] fix: read point clouds point by point

---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 7531258..3c438d6 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -6,7 +6,7 @@ use super::super::{
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
-use nalgebra::{Dyn, VecStorage, U5};
+use nalgebra::{Dyn, U5};
 use safe_transmute::guard::SingleManyGuard;
 use std::{
     fs::File,
@@ -50,8 +50,8 @@ impl<'a> WithDataset<'a, SampleData> {
                         let n_rows = values.len() / 5;
 
                         // TODO: this step takes one copy of the buffer. try to use more efficient impl.
-                        let storage = VecStorage::new(Dyn(n_rows), U5, Vec::from(values));
-                        let matrix = PointCloudMatrix::from_data(storage);
+                        let matrix =
+                            PointCloudMatrix::from_row_slice_generic(Dyn(n_rows), U5, values);
                         LoadedSampleData::PointCloud(matrix)
                     }
                     _ => {
-- 
2.43.0


From 1b4a0ff323a6bd64ded9193af3eb038cc3715159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 15/23] fix: reject point clouds with trailing bytes

---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 3c438d6..5958c63 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -44,7 +44,7 @@ impl<'a> WithDataset<'a, SampleData> {
                         let bytes = self.load_raw()?;
                         let values = safe_transmute::transmute_many::<f32, SingleManyGuard>(&bytes)
                             .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
-                        if values.len() % 5 != 0 {
+                        if values.len() % 5 != 0 || bytes.len() % 4 != 0 {
                             return Err(NuScenesError::CorruptedFile(path));
                         }
                         let n_rows = values.len() / 5;
-- 
2.43.0


From b23e70d88263b8cb8653ecdda89cb7779a069d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 16/23] fix: report an unknown evaluation_task or frame_id
 instead of panicking

---
 src/config/schema.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/config/schema.rs b/src/config/schema.rs
index 0a05de1..586822f 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -89,7 +89,7 @@ mod evaluation_task_serde {
     use std::str::FromStr;
 
     use crate::evaluation_task::EvaluationTask;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &EvaluationTask, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -104,15 +104,15 @@ mod evaluation_task_serde {
         D: Deserializer<'de>,
     {
         let task_str = String::deserialize(deserializer)?;
-        let task = EvaluationTask::from_str(&task_str).unwrap(); // TODO: update result type
-        Ok(task)
+        EvaluationTask::from_str(&task_str)
+            .map_err(|err| D::Error::custom(format!("{}: {}", err, task_str)))
     }
 }
 
 mod frame_id_serde {
     use std::str::FromStr;
 
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     use crate::frame_id::FrameID;
 
@@ -129,7 +129,6 @@ mod frame_id_serde {
         D: Deserializer<'de>,
     {
         let frame_id_str = String::deserialize(deserializer)?;
-        let frame_id = FrameID::from_str(&frame_id_str).unwrap(); // TODO
-        Ok(frame_id)
+        FrameID::from_str(&frame_id_str).map_err(D::Error::custom)
     }
 }
-- 
2.43.0


From 0594399190a61f93c2e57b483fec16e340f8cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 17/23] fix: report an empty list of datasets instead of
 panicking

---
 src/config.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 4e24f01..ba1531f 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -80,7 +80,10 @@ impl PerceptionEvaluationConfig {
         // TODO
         let mut dataset_path = PathBuf::new();
         let mut version = String::new();
-        for (key, value) in &datasets[0] {
+        let dataset = datasets
+            .first()
+            .ok_or_else(|| ConfigError::KeyError("Datasets".to_string()))?;
+        for (key, value) in dataset {
             dataset_path.set_file_name(key);
             version = value.version.clone();
         }
-- 
2.43.0


From 5da78c670ccb9cda5ad3fa0a56ad4cdefee34a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 18/23] fix: look the nearest frame up in microseconds

Rounded to milliseconds, a frame that is farther away could be preferred and
the 75 ms threshold was off by up to 1 ms.
---
 src/dataset.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index d1ad518..1a5f5ca 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -130,14 +130,13 @@ pub fn get_current_frame(
     frame_ground_truths: &[FrameGroundTruth],
     timestamp: &NaiveDateTime,
 ) -> Option<FrameGroundTruth> {
-    const TIME_THRESHOLD: i64 = 75; // [ms]
+    const TIME_THRESHOLD: i64 = 75_000; // [us]
 
-    // TODO: update timestamp computation
-    let target_time = timestamp.timestamp_millis();
+    let target_time = timestamp.timestamp_micros();
     let (min_index, min_diff_time) = frame_ground_truths.iter().enumerate().fold(
         (usize::MAX, i64::MAX),
         |(a_idx, a), (b_idx, b)| {
-            let diff = (b.timestamp.timestamp_millis() - target_time).abs();
+            let diff = (b.timestamp.timestamp_micros() - target_time).abs();
             if diff < a {
                 (b_idx, diff)
             } else {
@@ -150,7 +149,7 @@ pub fn get_current_frame(
         true => Some(frame_ground_truths[min_index].to_owned()),
         false => {
             log::warn!(
-                "Could not find corresponding FrameGroundTruth for timestamp: {}, because {} [ms] > {} [ms]",
+                "Could not find corresponding FrameGroundTruth for timestamp: {}, because {} [us] > {} [us]",
                 timestamp,
                 min_diff_time,
                 TIME_THRESHOLD
-- 
2.43.0


From a7cbad7a01497f5af091a2a7fdbe6a366cc178f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 19/23] verif: expose scores to the verification harness under
 --cfg perception_verif

---
 src/lib.rs           |  4 +++
 src/metrics/score.rs |  7 +++++
 src/verif.rs         | 63 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 74 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 62e3712..eecc67a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod config;
 pub mod dataset;
 pub mod evaluation_task;
@@ -11,3 +13,5 @@ pub mod object;
 pub mod result;
 pub mod threshold;
 pub mod utils;
+#[cfg(perception_verif)]
+pub mod verif;
diff --git a/src/metrics/score.rs b/src/metrics/score.rs
index 722dbe6..26f4ea8 100644
--- a/src/metrics/score.rs
+++ b/src/metrics/score.rs
@@ -80,3 +80,10 @@ impl MetricsScore {
         // self.scores.push(iou3d_scores_map);
     }
 }
+
+#[cfg(perception_verif)]
+impl MetricsScore {
+    pub(crate) fn verif_scores(&self) -> &[DetectionMetricsScore] {
+        &self.scores
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..be93637
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,63 @@
+//! Access to internal values for the verification harness. Only built with `--cfg perception_verif`.
+
+use crate::{
+    label::Label,
+    matching::{
+        CenterDistanceMatching, Iou2dMatching, Iou3dMatching, MatchingMethod, MatchingMode,
+        PlaneDistanceMatching,
+    },
+    metrics::{detection::DetectionMetricsScore, score::MetricsScore},
+    object::object3d::DynamicObject,
+    result::object::PerceptionResult,
+};
+use std::collections::HashMap;
+
+/// Scores of one matching mode, in the order of `target_labels`.
+pub struct Scores {
+    pub target_labels: Vec<Label>,
+    pub matching_mode: MatchingMode,
+    pub ap: Vec<f64>,
+    pub aph: Vec<f64>,
+}
+
+fn convert(score: &DetectionMetricsScore) -> Scores {
+    Scores {
+        target_labels: score.target_labels.clone(),
+        matching_mode: score.matching_mode.clone(),
+        ap: score.scores["AP"].clone(),
+        aph: score.scores["APH"].clone(),
+    }
+}
+
+/// Returns AP and APH of one label.
+pub fn detection_score(
+    label: &Label,
+    results: Vec<PerceptionResult>,
+    num_ground_truth: usize,
+    mode: &MatchingMode,
+    threshold: f64,
+) -> (f64, f64) {
+    let score = convert(&DetectionMetricsScore::new(
+        &HashMap::from([(label.clone(), results)]),
+        &HashMap::from([(label.clone(), num_ground_truth)]),
+        &vec![label.clone()],
+        mode,
+        &vec![threshold],
+    ));
+    (score.ap[0], score.aph[0])
+}
+
+/// Returns the scores a `MetricsScore` consists of.
+pub fn metrics_scores(score: &MetricsScore) -> Vec<Scores> {
+    score.verif_scores().iter().map(convert).collect()
+}
+
+/// Returns the matching score of two objects.
+pub fn matching_score(mode: &MatchingMode, est: &DynamicObject, gt: &DynamicObject) -> f64 {
+    match mode {
+        MatchingMode::CenterDistance => CenterDistanceMatching.calculate_matching_score(est, gt),
+        MatchingMode::PlaneDistance => PlaneDistanceMatching.calculate_matching_score(est, gt),
+        MatchingMode::Iou2d => Iou2dMatching.calculate_matching_score(est, gt),
+        MatchingMode::Iou3d => Iou3dMatching.calculate_matching_score(est, gt),
+    }
+}
-- 
2.43.0


From 07c75fdb846417e00eec90ddf4dd7a9128e52332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:05 +0000
Subject: [PATCH 20/23] fix: make instances, maps and visibilities of a dataset
 iterable

---
 src/dataset/nuscenes.rs                      | 2 +-
 src/dataset/nuscenes/iter_impl/map.rs        | 4 ++--
 src/dataset/nuscenes/iter_impl/visibility.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 4744635..418b928 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -661,7 +661,7 @@ impl NuScenes {
 
     pub fn instance_iter(
         &self,
-    ) -> Iter<'_, Instance, HashMapKeys<'_, LongToken, InstanceInternal>> {
+    ) -> Iter<'_, InstanceInternal, HashMapKeys<'_, LongToken, InstanceInternal>> {
         self.refer_iter(self.instance_map.keys())
     }
 
diff --git a/src/dataset/nuscenes/iter_impl/map.rs b/src/dataset/nuscenes/iter_impl/map.rs
index 6354e05..5376d16 100644
--- a/src/dataset/nuscenes/iter_impl/map.rs
+++ b/src/dataset/nuscenes/iter_impl/map.rs
@@ -13,13 +13,13 @@ impl<'a> WithDataset<'a, Map> {
 
 impl<'a, It> Iterator for Iter<'a, Map, It>
 where
-    It: Iterator<Item = ShortToken>,
+    It: Iterator<Item = &'a ShortToken>,
 {
     type Item = WithDataset<'a, Map>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.map_map[&token]))
+            .map(|token| self.refer(&self.dataset.map_map[token]))
     }
 }
diff --git a/src/dataset/nuscenes/iter_impl/visibility.rs b/src/dataset/nuscenes/iter_impl/visibility.rs
index 524e54a..0f8f197 100644
--- a/src/dataset/nuscenes/iter_impl/visibility.rs
+++ b/src/dataset/nuscenes/iter_impl/visibility.rs
@@ -2,13 +2,13 @@ use super::super::{iter::Iter, schema::Visibility, WithDataset};
 
 impl<'a, It> Iterator for Iter<'a, Visibility, It>
 where
-    It: Iterator<Item = String>,
+    It: Iterator<Item = &'a String>,
 {
     type Item = WithDataset<'a, Visibility>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.visibility_map[&token]))
+            .map(|token| self.refer(&self.dataset.visibility_map[token]))
     }
 }
-- 
2.43.0


From 00932a338729998def1f3ec714217f8f47507f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 21/23] fix: load every annotation once if a sample has several
 lidars

---
 src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index 1a5f5ca..a683167 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -113,6 +113,8 @@ fn sample_to_frame(
                 uuid: Some(nusc_box.instance.to_string()),
             });
         });
+        // Every lidar of the sample has the same annotations
+        break;
     }
 
     let ret = FrameGroundTruth {
-- 
2.43.0


From 0c14846847fceea38c0f2841680670a2198907ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 22/23] fix: replace the configuration of the logger instead of
 panicking when another scenario is loaded

---
 src/utils/logger.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 5ffa2df..5c48cae 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -3,9 +3,14 @@ use log4rs::{
     append::file::FileAppender,
     config::{Appender, Config, Root},
     encode::pattern::PatternEncoder,
+    Handle,
 };
 use std::error::Error;
 use std::path::Path;
+use std::sync::{Mutex, PoisonError};
+
+/// Handle of the logger, which can be set only once per process.
+static HANDLE: Mutex<Option<Handle>> = Mutex::new(None);
 
 pub type LoggerResult<T> = std::result::Result<T, Box<dyn Error>>;
 
@@ -44,7 +49,11 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         .appender(Appender::builder().build("logfile", Box::new(logfile)))
         .build(Root::builder().appender("logfile").build(level_filter))?;
 
-    log4rs::init_config(config)?;
+    let mut handle = HANDLE.lock().unwrap_or_else(PoisonError::into_inner);
+    match handle.as_ref() {
+        Some(handle) => handle.set_config(config),
+        None => *handle = Some(log4rs::init_config(config)?),
+    }
 
     Ok(())
 }
-- 
2.43.0


From d265f0ab72cd478854d4e777238a18d4c78756e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 23/23] fix: report a log directory that cannot be written
 instead of panicking

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index ba1531f..009fe93 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -111,7 +111,7 @@ impl PerceptionEvaluationConfig {
         let log_dir = result_dir.join("log");
         let viz_dir = result_dir.join("visualize");
 
-        configure_logger(&log_dir, log::Level::Debug).unwrap();
+        configure_logger(&log_dir, log::Level::Debug).map_err(|_| ConfigError::InternalError)?;
 
         let config = Self {
             version,
-- 
2.43.0

