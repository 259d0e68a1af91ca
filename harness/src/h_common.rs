//! Shared by the harness modules: objects and plain reference definitions.
#![allow(dead_code)]
pub use crate::sym::*;
pub use chrono::NaiveDateTime;
pub use perception_eval::{
    config::{FilterParams, MetricsParams, PerceptionEvaluationConfig},
    dataset::FrameGroundTruth,
    evaluation_task::EvaluationTask,
    frame_id::FrameID,
    label::Label,
    matching::MatchingMode,
    object::object3d::DynamicObject,
    result::object::{get_perception_results, PerceptionResult},
};
pub const Q0: [f64; 4] = [1.0, 0.0, 0.0, 0.0];
pub fn ts() -> NaiveDateTime {
    NaiveDateTime::from_timestamp_micros(1_600_000_000_000_000).unwrap()
}
pub fn obj(position: [f64; 3], label: Label, confidence: f64, name: &str) -> DynamicObject {
    DynamicObject {
        timestamp: ts(),
        frame_id: FrameID::BaseLink,
        position,
        orientation: Q0,
        size: [2.0, 4.0, 1.5],
        velocity: None,
        confidence,
        label,
        pointcloud_num: Some(10),
        uuid: Some(name.to_string()),
    }
}
/// gives an object values of its own in the fields no harness computes with
pub fn tag(mut o: DynamicObject, k: u32) -> DynamicObject {
    let x = k as f64;
    o.velocity = if k % 3 == 2 { None } else { Some([x + 0.25, x + 0.5, x + 0.75]) };
    o.pointcloud_num = if k % 5 == 4 { None } else { Some(100 + k as usize) };
    o
}
/// like tag, and also the fields that matter only for other modes of matching
pub fn tag_all(o: DynamicObject, k: u32) -> DynamicObject {
    let mut o = tag(o, k);
    let x = k as f64;
    o.size = [x + 1.0, x + 2.0, x + 3.0];
    o.orientation = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.6, 0.0, 0.0, 0.8]][k as usize % 4];
    o.timestamp = NaiveDateTime::from_timestamp_micros(1_600_000_000_000_000 + k as i64).unwrap();
    o.frame_id = if k % 2 == 0 { FrameID::BaseLink } else { FrameID::Map };
    o
}
/// equal in every field
pub fn same_obj(a: &DynamicObject, b: &DynamicObject) -> bool {
    let mut s = a.timestamp == b.timestamp && a.frame_id == b.frame_id && a.label == b.label && a.uuid == b.uuid
        && a.pointcloud_num == b.pointcloud_num && a.velocity.is_some() == b.velocity.is_some();
    for i in 0..3 {
        s = both(s, a.position[i] == b.position[i]);
        s = both(s, a.size[i] == b.size[i]);
        if let (Some(v), Some(w)) = (&a.velocity, &b.velocity) { s = both(s, v[i] == w[i]) }
    }
    for i in 0..4 { s = both(s, a.orientation[i] == b.orientation[i]) }
    both(s, a.confidence == b.confidence)
}
/// any of the eight labels
pub fn any_label(id: u32) -> Label {
    [Label::Unknown, Label::Car, Label::Truck, Label::Bus, Label::Bicycle, Label::Motorbike, Label::Pedestrian, Label::Animal][choose(id, 8) as usize].clone()
}
pub fn sq(x: f64) -> f64 {
    x * x
}
pub fn d2(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    sq(a[0] - b[0]) + sq(a[1] - b[1]) + sq(a[2] - b[2])
}
/// rotation of the plane by the angle whose cosine and sine are given
pub fn rot2(c: f64, s: f64, x: f64, y: f64) -> [f64; 2] {
    [c * x - s * y, s * x + c * y]
}
/// index of the object in a list, by uuid
pub fn idx(o: &DynamicObject, prefix: &str, n: usize) -> Option<usize> {
    let u = o.uuid.as_ref()?;
    (0..n).find(|i| *u == format!("{}{}", prefix, i))
}
pub fn config(
    task: EvaluationTask,
    filter_params: FilterParams,
    metrics_params: MetricsParams,
) -> PerceptionEvaluationConfig {
    PerceptionEvaluationConfig {
        version: "annotation".into(),
        dataset_path: "/nonexistent".into(),
        evaluation_task: task,
        frame_id: FrameID::BaseLink,
        result_dir: "/nonexistent".into(),
        log_dir: "/nonexistent".into(),
        viz_dir: "/nonexistent".into(),
        filter_params,
        metrics_params,
        load_raw_data: false,
    }
}
