NOTE = ("Bounded: every value of the symbolic inputs within the bounds in jobs.py and the evidence; real arithmetic stands for doubles "
        "unless said otherwise. Trusts the engine llsym (cross-checked by replaying completed paths natively), z3 and rustc.")
p("C01", "Estimations and ground truths of a frame are matched one to one, nearest first",
  "Matching the estimations of a frame with its ground truths reports every estimation exactly once and unchanged, uses every ground truth at most once, and pairs only objects of equal label. "
  "No estimation and ground truth of equal label are both left over, and a pair of equal label is passed over only if one of the two is in a pair that is at least as near. "
  "The pairing does not depend on the order of either list as long as all distances differ.",
  ["inputs"], "all positions, label assignments and list orders, any number of objects in either list (also none)",
  "The tests match one or two fixed lists of well separated objects; conflicts over one ground truth, ties and unequal list lengths depend on all distances at once.",
  ["src/result/object.rs", "src/matching.rs"],
  M(("get_perception_results", "src/result/object.rs"), ("CenterDistanceMatching", "src/matching.rs")),
  ["get_perception_results"], None, NOTE)
p("C02", "Filtering keeps exactly the objects in range, of target label and enough points",
  "An object is kept if and only if its label is a target label and its |x| and |y| are strictly below the limits of that label; a ground truth must in addition contain at least the minimum number of points and, if a list of uuids is given, have a listed uuid. "
  "Estimations are never judged by point count or uuid. Kept objects are unchanged and in input order, and filtering again changes nothing.",
  ["inputs", "configurations"], "all positions (also NaN and infinite), limits, point counts, labels, target lists (also empty or with duplicates) and uuids",
  "The tests call the filter with one object well inside the limits; boundaries, missing values, duplicate target labels and the estimation / ground truth distinction are never sampled.",
  ["src/filter.rs", "src/threshold.rs", "src/config.rs"],
  M(("filter_objects", "src/filter.rs"), ("LabelThreshold", "src/threshold.rs"), ("FilterParams::new", "src/config.rs")),
  ["filter_objects"], None, "Bit-precise f64 and integers; otherwise: " + NOTE)
p("C03", "TP, FP and FN partition the objects of a frame",
  "Every estimation of a target label is reported as exactly one of true positive and false positive, and those of other labels as neither; it is a true positive if and only if it is paired and its score is strictly better than the threshold of its label. "
  "No ground truth belongs to two true positives, and the false negatives are exactly the ground truths no true positive was paired with, each once.",
  ["inputs", "configurations"], "all positions, labels, thresholds and numbers of objects in a frame",
  "The tests look at one hand-made frame; the partition depends on the interplay of matching, per-label thresholds and the extraction of what is left over.",
  ["src/result/frame.rs", "src/result/object.rs", "src/filter.rs", "src/threshold.rs"],
  M(("PerceptionFrameResult::new", "src/result/frame.rs"), ("separate_tp_fp_results / extract_fn_objects", "src/result/frame.rs"), ("is_result_correct", "src/result/object.rs")),
  ["PerceptionFrameResult::tp_results", "fp_results", "fn_objects"], None, NOTE)
p("C04", "AP is the area under the interpolated precision-recall curve",
  "The average precision of a label equals the area under the precision-recall curve of its results ranked by descending confidence, with precision interpolated as the best precision at that recall or higher, and recall counted against the number of ground truths. "
  "It lies in [0, 1], is 1 if every result is correct and every ground truth found, and 0 if no result is correct. With nothing to evaluate the score is undefined (not a number) rather than a number.",
  ["inputs"], "all confidences, distances, thresholds and ground truth counts; results in any input order",
  "The tests compare one or two scores of a handful of results with equal confidence; ranking, interpolation and the denominators matter only for mixed sequences.",
  ["src/metrics/detection.rs", "src/metrics/tp_metrics.rs"],
  M(("calculate_ap / interpolate_precision_recall", "src/metrics/detection.rs"), ("calculate_tp_fp", "src/metrics/detection.rs")),
  ["per-label scores"], "scores are not public: src/verif.rs under cfg(perception_verif)", NOTE)
p("C05", "Heading weighted AP weighs a true positive by its heading error",
  "In the heading weighted score a true positive counts 1 - d/pi, where d in [0, pi] is the smallest angle between the headings of estimation and ground truth, so it is 1 for equal and 0 for opposite headings, symmetric in the two, and never depends on the sign of a quaternion. "
  "The heading of an object is the direction of its longitudinal axis in the ground plane. The score lies between 0 and the average precision.",
  ["inputs"], "all headings and attitudes (unit quaternions of both signs), all confidences",
  "The tests use the identity orientation only, for which any formula gives weight 1.",
  ["src/metrics/tp_metrics.rs", "src/metrics/detection.rs", "src/object/object3d.rs", "src/utils/math.rs"],
  M(("TPMetricsAph", "src/metrics/tp_metrics.rs"), ("heading", "src/object/object3d.rs"), ("quaternion2euler", "src/utils/math.rs")),
  ["per-label scores", "DynamicObject::heading"], "scores are not public: src/verif.rs under cfg(perception_verif)", NOTE)
p("C06", "Center and plane distance are the distances they are defined as",
  "The center distance is the Euclidean distance of the centers; the plane distance is the root mean square distance of the two footprint corners nearest to the ego vehicle, paired left with left and right with right. "
  "Both are non-negative, symmetric and 0 for identical objects, and a pair counts as correct only if the distance is strictly below (overlap strictly above) the threshold; without a ground truth it never does.",
  ["inputs"], "all positions, sizes and thresholds, yaws of the stated kinds",
  "The tests evaluate a few boxes with identity orientation; selection and pairing of the corners change with the place and heading of the boxes.",
  ["src/matching.rs", "src/object/object3d.rs", "src/result/object.rs", "src/utils/point.rs"],
  M(("CenterDistanceMatching", "src/matching.rs"), ("PlaneDistanceMatching", "src/matching.rs"), ("distance_points_bev", "src/utils/point.rs")),
  ["matching scores", "PerceptionResult::is_result_correct"], "scores are not public: src/verif.rs under cfg(perception_verif)", NOTE)
p("C07", "IoU is the overlap of the two boxes over their union",
  "The 2D IoU of two objects is the area of the intersection of their footprints over the area of the union, and the 3D IoU the same for volumes, with the height of the intersection being the overlap of the two height intervals. "
  "Both lie in [0, 1], are symmetric, 1 for identical objects and 0 for disjoint ones.",
  ["inputs"], "all relative positions and sizes, headings of the stated kinds",
  "The tests know identical and far apart boxes; partial overlap, contained boxes and boxes above each other are not sampled.",
  ["src/matching.rs", "src/object/object3d.rs"],
  M(("Iou2dMatching / Iou3dMatching", "src/matching.rs"), ("get_intersection_area / get_intersection_height", "src/matching.rs"), ("footprint, area, volume", "src/object/object3d.rs")),
  ["matching scores"], "scores are not public: src/verif.rs under cfg(perception_verif)", NOTE)
p("C08", "The footprint is the object's rectangle turned by its heading",
  "The footprint of an object is the four corners of the rectangle with its length along its longitudinal and its width along its lateral axis, turned by its orientation around its center; its height is the center's. "
  "Area and volume are the products of its sides.",
  ["inputs"], "all positions, sizes and unit quaternions",
  "The tests use unrotated boxes only, for which turning in the wrong direction is invisible.",
  ["src/object/object3d.rs", "src/utils/math.rs"],
  M(("footprint, area, volume", "src/object/object3d.rs"), ("rotate", "src/utils/math.rs")),
  ["DynamicObject::footprint", "area", "volume"], None, NOTE)
p("C09", "Rotations and quaternions obey their algebra",
  "Rotating a point by a unit quaternion is the rotation that quaternion denotes: it keeps lengths, is undone by the inverse rotation, and its matrix is a proper rotation equal for q and -q. "
  "Composing two quaternions yields the quaternion of first the one and then the other rotation, and composing with the inverse undoes it. Roll and yaw of a quaternion are the angles it denotes in every quadrant.",
  ["inputs"], "all points and unit quaternions (any non-zero quaternion for inverses)",
  "The tests use the identity and one or two axis-aligned quaternions, for which transposed or reordered products agree.",
  ["src/utils/math.rs"],
  M(("rotate / rotate_inv", "src/utils/math.rs"), ("rotate_q / rotate_q_inv / inverse_quaternion", "src/utils/math.rs"), ("quaternion2rotation / quaternion2euler", "src/utils/math.rs")),
  ["utils::math"], None, NOTE)
p("C10", "Ground truths carry the annotated boxes into the frame of the ego vehicle",
  "Loading a dataset yields one frame per sample, in the order of time and stamped with the sample's time, and in it every annotation of the sample exactly once: with the annotated box moved from the map into the frame of the ego vehicle by the inverse of the ego pose of the sample's lidar scan (position and orientation, whatever the pose of the sensor, of other sensors or of other sweeps), "
  "the annotated size, the label of the instance's category, the number of lidar points, the instance token as uuid and confidence 1. The boxes of a scan are given in the map, ego or sensor frame as asked for.",
  ["inputs"], "all ego and sensor poses and boxes, several sensors per sample, samples listed in any order, one or several lidars",
  "The tests load one sample dataset and compare a count; a transposed rotation, the wrong pose or a lost annotation changes no count.",
  ["src/dataset.rs", "src/dataset/nuscenes/lib.rs", "src/dataset/nuscenes/box.rs", "src/utils/math.rs"],
  M(("load_dataset", "src/dataset.rs"), ("get_boxes / get_sample_data", "src/dataset/nuscenes/lib.rs")),
  ["dataset::load_dataset", "NuScenes::get_boxes", "NuScenes::get_sample_data"], None, NOTE)
p("C11", "A dataset loads exactly if its references are sound, and navigation follows them",
  "Loading succeeds if and only if every token a record refers to (but for the logs of a map) exists in its table, and the samples of a scene and the annotations of an instance form a chain: from the first to the last record, linked consistently forwards and backwards, without a cycle, with the stated number of records. "
  "Otherwise it is an error, never a panic. Following a reference leads to the record with that token, walking a chain visits its records in order, and samples, ego poses and sample data are iterated in order of time.",
  ["inputs"], "every reference pointing at any token, every linking of chains of two and three records, every order of timestamps",
  "The tests load one sound dataset; broken references and chains are never tried.",
  ["src/dataset/nuscenes/lib.rs", "src/dataset/nuscenes/internal.rs", "src/dataset/nuscenes/iter.rs", "src/dataset/nuscenes/iter_impl"],
  M(("NuScenes::load and its checks", "src/dataset/nuscenes/lib.rs"), ("internal records", "src/dataset/nuscenes/internal.rs"), ("iterators and references", "src/dataset/nuscenes/iter_impl")),
  ["NuScenes::load", "iterators and WithDataset references"], None, NOTE)
p("C12", "The current frame is the nearest one in time, if it is near enough",
  "Looking a ground truth frame up by time returns a frame whose distance in time is minimal among all frames, if that distance is below 75 ms, and nothing otherwise (also if there are no frames). The frame is returned unchanged.",
  ["inputs"], "all times of the frames and of the lookup to the microsecond, across midnight, equal times, frames in any order",
  "The tests look up the exact time of a frame in a sorted list; ties, boundaries, times before the first frame and other days are never sampled.",
  ["src/dataset.rs", "src/manager.rs"],
  M(("get_current_frame", "src/dataset.rs"),),
  ["dataset::get_current_frame"], None, "Bit-precise integers; otherwise: " + NOTE)
p("C13", "Records of a dataset are decoded and encoded without loss",
  "Every kind of record (attributes, sensors, calibrations, categories, ego poses, instances, logs, maps, samples, annotations, sample data, scenes, visibilities) is decoded field by field into what its text says, with empty tokens and intrinsics as absent ones and timestamps exact to the microsecond, and encoding and decoding it again changes nothing. Intrinsics that are neither empty nor 3 x 3 are refused.",
  ["inputs"], "all numbers, tokens, present and absent references, spellings of enumerations, timestamps",
  "The tests decode the records of one dataset and never encode any; a swapped field or a truncated unit shows in no count.",
  ["src/dataset/nuscenes/schema.rs"],
  M(("records and their (de)serializers", "src/dataset/nuscenes/schema.rs"),),
  ["serde_json::from_str / to_string of the records"], None, NOTE)
p("C14", "Tokens are exactly the 32 digit hexadecimal texts and are kept without loss",
  "A text is a token if and only if it has exactly 32 characters, all hexadecimal digits of either case. A token is shown as the same digits in lower case, shown and read again it is the same token, and two tokens are equal if and only if their digits are.",
  ["inputs"], "any characters at any place, all lengths up to 70",
  "The tests read no malformed token and compare none.",
  ["src/dataset/nuscenes/schema.rs"],
  M(("LongToken / ShortToken", "src/dataset/nuscenes/schema.rs"),),
  ["LongToken / ShortToken try_from, Display, Eq"], None, "Bit-precise; otherwise: " + NOTE)
p("C15", "Names denote exactly the documented labels, frames and tasks",
  "A category name denotes the label of the documented table in every mixture of upper and lower case, and every other text the label unknown. A text names a coordinate frame or an evaluation task if and only if it is one of its two exact spellings; every other text is refused, and what is shown for a frame or task reads back as the same one.",
  ["inputs"], "all ASCII texts up to 41 characters",
  "The tests try a few names of the tables.",
  ["src/label.rs", "src/frame_id.rs", "src/evaluation_task.rs"],
  M(("LabelConverter", "src/label.rs"), ("FrameID", "src/frame_id.rs"), ("EvaluationTask", "src/evaluation_task.rs")),
  ["LabelConverter::convert", "FrameID / EvaluationTask FromStr and Display"], None, "Bit-precise; otherwise: " + NOTE)
p("C16", "The threshold of a label is the one at its place in the target labels",
  "With as many values as target labels, the threshold of a label is the value at the (first) place of that label among the target labels, bit for bit, and there is none if and only if the label is no target label. All ways of looking it up agree.",
  ["inputs", "configurations"], "all labels, target lists in any order and with repetitions, all values",
  "The tests look up one label in one list.",
  ["src/threshold.rs"],
  M(("get_label_threshold / LabelThreshold", "src/threshold.rs"),),
  ["threshold::get_label_threshold", "LabelThreshold::get_threshold"], None, "Bit-precise; otherwise: " + NOTE)
p("C19", "Point clouds are read point by point, all or not at all",
  "A point cloud file is read as one row of five little endian f32 values per point, in the order of the file and bit for bit; a file whose size is no multiple of a point, or that is missing, is an error. The raw content of a file is given unchanged.",
  ["inputs"], "all file contents of up to 63 bytes",
  "The tests read no point cloud whose values they compare.",
  ["src/dataset/nuscenes/iter_impl/sample_data.rs"],
  M(("load / load_raw of sample data", "src/dataset/nuscenes/iter_impl/sample_data.rs"),),
  ["sample data load, load_raw"], None, "Bit-precise; otherwise: " + NOTE)
p("C18", "The score of a scene pools all its frames, label by label",
  "Adding a frame filters its estimations and ground truths, matches them and keeps the result behind those of the earlier frames, which stay as they are. "
  "The score of the scene has, for center and plane distance, one AP and APH per target label: that of the results of this label pooled over all frames and ranked by confidence, against the number of kept ground truths of this label in all frames and the threshold of its kind of distance; "
  "so it does not depend on how the results are spread over the order of the frames, a label listed twice counts once each, and a label without results and ground truths has no score (not a number). Tasks other than detection are an error.",
  ["inputs", "histories", "configurations"], "all histories of up to two (three) frames, all positions, labels, confidences, limits and thresholds",
  "The tests add one frame or compare the printed score of one dataset; pooling, counting over frames and filtering before counting show only for several different frames.",
  ["src/manager.rs", "src/metrics/score.rs", "src/metrics/detection.rs", "src/filter.rs"],
  M(("add_frame_result / get_metrics_score", "src/manager.rs"), ("evaluate_detection", "src/metrics/score.rs"), ("hash_results / hash_num_objects", "src/filter.rs")),
  ["PerceptionEvaluationManager"], "scores are not public: src/verif.rs under cfg(perception_verif)", NOTE)
p("C17", "A scenario file becomes exactly the configuration it describes, or an error",
  "Loading a scenario yields the version and path of its dataset, its task and coordinate frame in either spelling, the target labels its names denote, and its limits and thresholds for each of them, with point number and uuids only if given; results, logs and visualizations go below the result directory. "
  "A scenario that is missing, cut off, lacks a required field or dataset, names an unknown task or frame, has a text for a number, or whose log cannot be written is an error, never a panic; and several scenarios can be loaded in one process.",
  ["inputs", "configurations", "fault_sequences"], "all limits and thresholds, all spellings, every missing line and every place of cutting the file off, an unwritable log directory",
  "The tests load one valid scenario and compare nothing but that it loads.",
  ["src/config.rs", "src/config/schema.rs", "src/utils/logger.rs", "src/evaluation_task.rs", "src/frame_id.rs"],
  M(("PerceptionEvaluationConfig::from", "src/config.rs"), ("Scenario", "src/config/schema.rs"), ("configure_logger", "src/utils/logger.rs")),
  ["PerceptionEvaluationConfig::from and its fields", "filter_objects", "per-label scores"], None, NOTE)

p("C20", "The printed report shows every score beside its label",
  "The printed score of a scene has one section for center and one for plane distance, in which the AP and the APH of every target label stand in the column of this label, which names the label and its threshold, to three decimals and as NaN where undefined; mAP and mAPH are the means of these scores over the target labels.",
  ["inputs", "configurations"], "all thresholds and headings, labels with and without results, scenes without frames",
  "No test looks at the printed report, which is all a user gets to see of the scores.",
  ["src/metrics/score.rs", "src/metrics/detection.rs", "src/label.rs"],
  M(("Display of MetricsScore", "src/metrics/score.rs"), ("Display of DetectionMetricsScore", "src/metrics/detection.rs")),
  ["format!(\"{}\", score)"], "scores are not public: src/verif.rs under cfg(perception_verif)", NOTE)
