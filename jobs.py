"""Which harnesses decide which property, and within which bounds."""
COMMON_ASSUMPTIONS = [
    "f64 arithmetic is executed over the exact reals unless a harness declares bit-precise doubles; rounding is outside the claim (a tolerance of 1e-6 relative is granted)",
    "the LLVM IR rustc emits (dev profile, one LTO module) is what is executed; the engine llsym, its stand-ins for libc/allocator/clock and the solver z3 are trusted, and completed paths are replayed on the native binary",
    "allocation never fails; log and console output is ignored; HashMap iteration is in insertion order unless a job says it seeds the hasher",
]
def J(h, **k):
    return dict(h=h, **k)

PROPS = {
    "C01": dict(
        jobs=[
            J("h_match_2x2", reach=[1, 2, 3], shards=9, bounds="0-2 estimations x 0-2 ground truths in space, 2 labels"),
            J("h_match_line", reach=[1, 2, 3], shards=4, weight=3, bounds="3x2, 2x3, 3x1, 1x3 on a line, one label"),
            J("h_match_labels", reach=[1, 2, 3], shards=6, weight=2, bounds="3x3 on a line, six label assignments"),
            J("h_match_order", bounds="2x2 on a line, reversed inputs"),
            J("h_match_many", reach=[1, 3], shards=5, bounds="6x5, 5x7, 8x2, 4x4, 18x17: one estimation and one ground truth (6x5: one estimation) anywhere on a line (18x17: one estimation within 6 m) among fixed ones"),
            J("h_match_kinds", reach=[1, 2, 3], shards=3, bounds="1x1, 2x1, 1x2 on a line, all eight labels"),
            J("h_match_same", reach=[1], shards=3, bounds="2x2, 3x1, 1x3 on a line, without uuids or sharing one"),
            J("h_match_2x2_full", reach=[1, 2, 3], tier="thorough", secs=7200, bounds="2x2 in space, all coordinates free"),
            J("h_match_3x3", reach=[1, 3], tier="thorough", secs=7200, bounds="3x3 on a line, one label"),
        ],
        bounds="positions: all reals; up to 3 estimations and 3 ground truths per frame, up to 18 of a kind with all but one of each at fixed places",
        outside="more than 3 objects of a kind all of which are anywhere; NaN positions",
    ),
    "C02": dict(
        jobs=[
            J("h_filter_one", reach=[1, 2, 3], weight=3),
            J("h_filter_uuid", reach=[1, 2, 3]),
            J("h_filter_list", reach=[1, 2]),
            J("h_filter_dup"), J("h_filter_texts", reach=[1, 2, 3]), J("h_filter_twin", reach=[1, 2]),
        ],
        bounds="every f64 position and limit (bit-precise), every usize point count, all 8 labels, up to 2 (3) target labels, up to 3 objects, uuids of 0-3 ASCII bytes in lists of up to 2; objects that are equal to each other",
        outside="longer lists and uuids",
    ),
    "C03": dict(
        jobs=[
            J("h_frame_space", reach=[1, 2, 3, 4], shards=9, bounds="0-2 x 0-2 objects in space, 2 labels and thresholds"),
            J("h_frame_line", reach=[1, 2, 3, 4], shards=4, bounds="2x2, 3x1, 1x3, 0x2 on a line"),
            J("h_frame_labels", reach=[1, 2, 3, 4], shards=6, bounds="1x1, 2x1, 1x2, with a label that is not evaluated"),
            J("h_frame_plane", reach=[1, 2, 3, 4], shards=3, bounds="1x1, 2x1, 1x2 with plane distance, ahead of the ego vehicle"),
            J("h_frame_iou", reach=[1, 2, 3], shards=4, bounds="1x1, 2x1 on a line, 2D and 3D overlap"),
            J("h_frame_many", reach=[1], shards=3, bounds="6x5, 4x7, 8x3: one estimation anywhere on a line among fixed ones, any thresholds"),
            J("h_frame_same", reach=[1], shards=4, bounds="1x2, 2x2 on a line, ground truths without uuid, sharing one, or differing in one other field"),
            J("h_frame_line5", reach=[1, 2, 3, 4], shards=2, tier="thorough", bounds="3x2, 2x3 on a line"),
        ],
        bounds="all real positions, confidences and thresholds; up to 2x2 / 3x1 / 1x3 objects (thorough 3x2 / 2x3), up to 8 with all but one at fixed places",
        outside="more objects anywhere; NaN positions; coincident ground truths that share their uuid",
    ),
    "C04": dict(
        jobs=[
            J("h_ap_line", reach=[1, 2, 3], shards=4),
            J("h_ap_line4", reach=[1, 2, 3]),
            J("h_ap_ranked", reach=[1], shards=4),
            J("h_ap_modes", reach=[1, 2], shards=4),
            J("h_ap_ranked9", reach=[1], shards=3, tier="thorough", secs=7200),
            J("h_ap_line4_full", tier="thorough", reach=[1, 2, 3], secs=7200),
        ],
        bounds="up to 3 results with all real confidences, 4 with equal ones, 5-8 (thorough 9-11) ranked in three orders; all real distances, any threshold, 0-9 ground truths; all four kinds of distance and overlap",
        outside="more results",
    ),
    "C05": dict(
        jobs=[J("h_aph_two", reach=[1]), J("h_aph_pair", reach=[1]), J("h_aph_many", reach=[1], shards=3), J("h_aph_any", reach=[1]), J("h_heading_yaw", reach=[1]), J("h_heading_any", reach=[1])],
        bounds="up to 2 results with all headings and attitudes that are unit quaternions; 4-6 results turned by multiples of 15 degrees",
        outside="non-unit quaternions; more results",
    ),
    "C06": dict(
        jobs=[
            J("h_center"), J("h_center_thr", reach=[1, 2, 3]), J("h_modes", reach=[1, 2, 3]),
            J("h_plane", shards=16, weight=2), J("h_plane_self"), J("h_plane_size", shards=6),
        ],
        bounds="center distance: all real positions; plane distance: all real positions with fixed sizes and 16 pairs of headings, and all sides of 0.1-5 m at three places and two pairs of headings; thresholds: all reals",
        outside="box corners at exactly equal distance (either choice is accepted)",
    ),
    "C07": dict(
        jobs=[
            J("h_iou_x", reach=[1, 2, 3]), J("h_iou_z"), J("h_iou_xy", reach=[1, 2, 3], weight=2),
            J("h_iou_size", reach=[1, 2], shards=4), J("h_iou_at", reach=[1], shards=3), J("h_iou_both", reach=[1, 2, 3], shards=4, weight=2),
            J("h_iou_turned", reach=[1, 2, 3], shards=8, weight=3), J("h_iou_self"),
        ],
        bounds="aligned boxes: all shifts in the plane, all heights and shifts in height, any one side of 0.1-20 m; boxes turned alike by three headings, shifted along or across; one box turned by four headings, shifted along x at two offsets",
        outside="two boxes at arbitrary different headings (polygon clipping of the geo crate at symbolic angles); several sides and shifts free at once",
    ),
    "C08": dict(
        jobs=[J("h_footprint_yaw"), J("h_footprint_any"), J("h_area")],
        bounds="all real centres and sizes, all unit quaternions",
        outside="non-unit quaternions",
    ),
    "C09": dict(
        jobs=[J(h) for h in ("h_rot_direction", "h_rot_norm", "h_rot_inverse", "h_rot_matrix", "h_quat_inverse", "h_quat_compose", "h_quat_point", "h_euler_axis", "h_euler_any")],
        bounds="all real points, all unit quaternions",
        outside="pitch of a general attitude; gimbal lock; non-unit quaternions",
    ),
    "C10": dict(
        jobs=[J("h_data_one", reach=[1]), J("h_data_two", reach=[1, 2]), J("h_boxes", reach=[1]), J("h_data_map")],
        bounds="1-2 samples with 1-3 annotations, 1-2 lidars, camera and radar; poses, positions, sizes: all reals and unit quaternions",
        outside="larger datasets; order of the objects within a frame",
    ),
    "C11": dict(
        jobs=[
            J("h_ref", reach=[1, 2], shards=19), J("h_chain2", reach=[1, 2], shards=8), J("h_chain3", reach=[1, 2], shards=16, weight=2),
            J("h_sorted", reach=[1], shards=4, weight=2),
        ],
        bounds="19 kinds of reference, each to any of 16 tokens; chains of 2 and 3 samples or annotations with every pattern of links to any of 16 tokens; 3 samples, poses or scans with timestamps anywhere within 100 microseconds",
        outside="longer chains; several instances or scenes sharing a chain; wider timestamps",
    ),
    "C12": dict(
        jobs=[
            J("h_nearest", reach=[1, 2, 3], shards=4, weight=2), J("h_nearest_far", reach=[1, 2, 3], shards=4),
            J("h_nearest_many", reach=[1, 2, 3], shards=4, weight=2),
            J("h_nearest4", reach=[1, 2, 3], tier="thorough", secs=7200),
        ],
        bounds="0-2 frames at every microsecond within 8 s around midnight, one of them also years away; 3 frames (thorough 4) within 2 s around midnight; 12 fixed frames, and 7 of which one is anywhere within 1 s, in four orders; bit-precise",
        outside="more frames at arbitrary times; times whose difference exceeds 2^63 ns",
    ),
    "C13": dict(
        jobs=[
            J("h_rec_sensor", reach=[1, 2]), J("h_rec_intrinsic", reach=[1, 2]), J("h_rec_pose", reach=[1]), J("h_rec_sample", reach=[1]), J("h_rec_time", reach=[1], bits=True),
            J("h_rec_annotation", reach=[1], shards=2, weight=2), J("h_rec_data", reach=[1]), J("h_rec_other", reach=[1], shards=8),
        ],
        bounds="all 13 kinds of record; numbers: all reals, timestamps: 10^4 (10^2) neighbouring microseconds of 2020, tokens: any last digit, texts: any 3 letters",
        outside="escapes in texts; formatting and parsing of the digits of a floating point number; other timestamps",
    ),
    "C14": dict(
        jobs=[J("h_token", reach=[1, 2], shards=32, weight=2), J("h_token_round", reach=[1], shards=16, weight=2), J("h_token_len", reach=[1, 2]), J("h_token_edge", reach=[1, 2], shards=56)],
        bounds="32 places x any two ASCII characters next to each other; any two digits next to each other in two tokens; lengths 1-70; texts of 30-36 characters that begin or end with any two ASCII characters, or contain any one character of two bytes",
        outside="more than two free characters at a time",
    ),
    "C15": dict(
        jobs=[J("h_names", reach=[1], shards=24), J("h_label_case", reach=[1], shards=42), J("h_label_any", reach=[1], shards=42, weight=2)],
        bounds="any ASCII text of up to 23 (labels: 41) characters; every upper/lower case mixture of all 42 category names",
        outside="longer texts; non-ASCII characters",
    ),
    "C16": dict(
        jobs=[J("h_threshold", reach=[1, 2], shards=5)],
        bounds="all 8 labels, up to 4 target labels in any order and repetition, any f64 and usize values; bit-precise",
        outside="value lists shorter than the list of labels",
    ),
    "C19": dict(
        jobs=[J("h_cloud", reach=[1, 2], shards=105, weight=2), J("h_cloud_many", reach=[1], shards=4), J("h_cloud_no", reach=[1])],
        bounds="files of 0-104 arbitrary bytes (0-5 points), files of 5, 64, 410 and 1640 points with five arbitrary bytes, extensions bin and pcd",
        outside="larger files; empty files; images",
    ),
    "C18": dict(
        jobs=[
            J("h_score_frames", reach=[1, 2, 3, 4], shards=16, weight=2), J("h_score_many", reach=[1, 3, 4], shards=3, weight=3),
            J("h_score_targets", reach=[1, 2, 3, 4], shards=9), J("h_score_task", reach=[1]),
            J("h_score_filter", reach=[1, 2], shards=2), J("h_score_long", reach=[1], shards=2),
            J("h_score_more", reach=[1, 3, 4], shards=4, tier="thorough", secs=7200),
        ],
        bounds="0-2 frames of up to 1x1 objects with 2 labels, 2x1, 1x2, 1x1 then 1x2 objects with one label (thorough 2x2, 3x1, 2x1 then 1x1, three frames); duplicate and foreign labels; one frame of 3x3 objects with any point numbers and a list of uuids; 5 and 12 frames of fixed objects with any threshold; all real distances, confidences, thresholds and limits, ahead of the ego vehicle on a line",
        outside="equal confidences; more objects; two labels with different thresholds (a configuration has one threshold per kind)",
    ),
    "C20": dict(
        jobs=[J("h_report", reach=[1], shards=7, weight=2)],
        bounds="one to four and all eight target labels, up to two frames, all real thresholds of 0-100 and all headings of one estimation; labels without results; no frames",
        outside="the rounding to three decimals itself (a difference of up to 0.0016 is granted)",
    ),
    "C17": dict(
        jobs=[
            J("h_config_text", reach=[1], weight=2), J("h_config_filter", reach=[1, 2, 3], shards=4), J("h_config_score", reach=[1]),
            J("h_config_bad", reach=[1], shards=8), J("h_config_cut", reach=[1], shards=25), J("h_config_twice", reach=[1]),
        ],
        bounds="one scenario layout; all real limits and thresholds, point numbers 10-19 or none, all spellings of tasks and frames, names of 1-2 letters; every single line left out, every place of cutting off, unwritable log directory",
        outside="other YAML layouts of the same content; several datasets; IoU thresholds (not used by any evaluation)",
    ),
}
