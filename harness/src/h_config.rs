//! C17: scenario files
use crate::h_common::*;

pub fn scenario(task: &str, frame: &str, labels: &str, nums: [String; 6], pts: &str, uuids: &str, datasets: &str) -> String {
    let [x, y, c, p, i2, i3] = nums;
    format!("ScenarioFormatVersion: 3.0.0\nScenarioName: n\nScenarioDescription: d\nSensorModel: s\nVehicleModel: v\nEvaluation:\n  UseCaseName: perception\n  UseCaseFormatVersion: 0.4.0\n  Datasets:{}\n  Conditions:\n    PassRate: 99.0\n  PerceptionEvaluationConfig:\n    evaluation_config_dict:\n      evaluation_task: {}\n      frame_id: {}\n      target_labels: {}\n      max_x_position: {}\n      max_y_position: {}\n      min_point_number: {}\n      target_uuids: {}\n      center_distance_threshold: {}\n      plane_distance_threshold: {}\n      iou_2d_threshold: {}\n      iou_3d_threshold: {}\n",
        datasets, task, frame, labels, x, y, pts, uuids, c, p, i2, i3)
}
pub fn dataset(path: &str, version: &str) -> String {
    format!("\n    - {}:\n        Version: {}\n        VehicleId: default\n        LaunchSensing: false\n        LocalMapPath: /m", path, version)
}
pub fn load(text: &str) -> perception_eval::config::ConfigResult<PerceptionEvaluationConfig> {
    let d = root();
    let f = format!("{}/s.yaml", d);
    file(&f, text.as_bytes());
    PerceptionEvaluationConfig::from(&f, &d, false)
}
fn word(id: u32, n: u32) -> String {
    let b = (0..n).map(|i| { let c = bits(id + i, 8) as u8; assume(c >= b'p'); assume(c <= b'w'); c }).collect();
    unsafe { String::from_utf8_unchecked(b) }
}
fn plain() -> [String; 6] {
    ["100.0", "90.0", "1.0", "2.0", "0.5", "0.25"].map(|s| s.to_string())
}
const TASKS: [(&str, EvaluationTask); 6] = [("detection", EvaluationTask::Detection), ("Detection", EvaluationTask::Detection), ("tracking", EvaluationTask::Tracking),
    ("Tracking", EvaluationTask::Tracking), ("prediction", EvaluationTask::Prediction), ("Prediction", EvaluationTask::Prediction)];
const FRAMES: [(&str, FrameID); 20] = [
    ("base_link", FrameID::BaseLink), ("BaseLink", FrameID::BaseLink), ("map", FrameID::Map), ("Map", FrameID::Map),
    ("cam_back", FrameID::CamBack), ("CamBack", FrameID::CamBack), ("cam_back_left", FrameID::CamBackLeft), ("CamBackLeft", FrameID::CamBackLeft),
    ("cam_back_right", FrameID::CamBackRight), ("CamBackRight", FrameID::CamBackRight), ("cam_front", FrameID::CamFront), ("CamFront", FrameID::CamFront),
    ("cam_front_left", FrameID::CamFrontLeft), ("CamFrontLeft", FrameID::CamFrontLeft), ("cam_front_right", FrameID::CamFrontRight), ("CamFrontRight", FrameID::CamFrontRight),
    ("cam_traffic_light_near", FrameID::CamTrafficLightNear), ("CamTrafficLightNear", FrameID::CamTrafficLightNear),
    ("cam_traffic_light_far", FrameID::CamTrafficLightFar), ("CamTrafficLightFar", FrameID::CamTrafficLightFar)];
/// texts: dataset, version, task, frame, directories
#[no_mangle] #[inline(never)]
pub extern "C" fn h_config_text() {
    let (a, b, v) = (word(10, 2), word(20, 1), word(30, 2));
    let t = &TASKS[choose(1, 6) as usize];
    let f = &FRAMES[choose(2, 20) as usize];
    let raw = choose(3, 2) == 1;
    let text = scenario(t.0, f.0, "[car, pedestrian]", plain(), "3", "null", &dataset(&format!("{}/{}", a, b), &v));
    let d = root();
    let p = format!("{}/s.yaml", d);
    file(&p, text.as_bytes());
    let r = format!("{}/res", d);
    let c = PerceptionEvaluationConfig::from(&p, &r, raw).unwrap();
    check(c.version == v, 1);
    check(c.dataset_path.as_os_str().as_encoded_bytes() == format!("{}/{}", a, b).as_bytes(), 2);
    check(c.evaluation_task == t.1, 3);
    check(c.frame_id == f.1, 4);
    check(c.load_raw_data == raw, 5);
    check(c.result_dir.to_str() == Some(&r), 6);
    check(c.log_dir.starts_with(&r) && c.viz_dir.starts_with(&r) && c.log_dir != c.viz_dir, 7);
    reach(1);
}
/// limits and labels, as far as they can be observed: by filtering
#[no_mangle] #[inline(never)]
pub extern "C" fn h_config_filter() {
    let (mx, my) = (real(1), real(2));
    let mut n = plain();
    n[0] = num(mx);
    n[1] = num(my);
    let k = shard(0, 4) as usize;
    let (text, list): (_, &[Label]) = [
        ("[car, pedestrian]", &[Label::Car, Label::Pedestrian][..]), ("[Vehicle.Bus]", &[Label::Bus][..]), ("[truck, trailer, motorbike]", &[Label::Truck, Label::Motorbike][..]), ("[]", &[][..]),
    ][k];
    let p = bits(3, 4) as u8;
    assume(p < 10);
    let (pts, min) = if choose(4, 2) == 1 { let mut s = String::from("1"); s.push((b'0' + p) as char); (s, 10 + p as usize) } else { ("null".to_string(), 0) };
    let (u, ids): (_, Option<&[&str]>) = [("null", None), ("[]", Some(&[][..])), ("[qa, qb]", Some(&["qa", "qb"][..]))][choose(5, 3) as usize];
    let c = load(&scenario("detection", "base_link", text, n, &pts, u, &dataset("a", "v"))).unwrap();
    let labels = [Label::Car, Label::Pedestrian, Label::Bus, Label::Truck, Label::Motorbike, Label::Unknown];
    let mut o = obj([real(11), real(12), 0.0], labels[choose(6, 6) as usize].clone(), 1.0, ["qa", "qb", "qc"][choose(7, 3) as usize]);
    let np = bits(13, 6) as usize;
    o.pointcloud_num = Some(np);
    let inside = both(o.position[0].abs() < mx, o.position[1].abs() < my);
    let listed = list.contains(&o.label);
    let e = perception_eval::filter::filter_objects(&[o.clone()], false, &c.filter_params).len() == 1;
    check(e == both(inside, listed), 1);
    let g = perception_eval::filter::filter_objects(&[o.clone()], true, &c.filter_params).len() == 1;
    let named = ids.map_or(true, |l| l.contains(&o.uuid.as_deref().unwrap()));
    check(g == both(both(inside, np >= min), both(listed, named)), 2);
    if e { reach(1) } else { reach(2) }
    if g { reach(3) }
}
/// thresholds, as far as they can be observed: by the score of one pair
#[no_mangle] #[inline(never)]
pub extern "C" fn h_config_score() {
    use perception_eval::manager::PerceptionEvaluationManager;
    let (ct, pt) = (real(1), real(2));
    let mut n = plain();
    n[2] = num(ct);
    n[3] = num(pt);
    let c = load(&scenario("detection", "base_link", "[bus, car]", n, "null", "null", &dataset("a", "v"))).unwrap();
    let mut m = PerceptionEvaluationManager { config: &c, frame_ground_truths: vec![], frame_results: vec![] };
    let (x, y) = (real_in(3, 10.0, 50.0), real_in(4, 10.0, 50.0));
    let d = (x - y).abs();
    let (l, i) = if choose(5, 2) == 0 { (Label::Bus, 0) } else { (Label::Car, 1) };
    let (e, g) = (obj([x, 0.0, 0.0], l.clone(), 0.5, "e"), obj([y, 0.0, 0.0], l, 1.0, "g"));
    m.add_frame_result(&[e], &FrameGroundTruth { timestamp: ts(), objects: vec![g] }).unwrap();
    check((m.frame_results[0].tp_results().len() == 1) == (d < pt), 1);
    let s = perception_eval::verif::metrics_scores(&m.get_metrics_score().unwrap());
    check(s[0].target_labels == [Label::Bus, Label::Car], 2);
    check((s[0].ap[i] > 0.5) == (d < ct), 3);
    check((s[1].ap[i] > 0.5) == (d < pt), 4);
    reach(1);
}
/// scenarios that cannot be used are an error
#[no_mangle] #[inline(never)]
pub extern "C" fn h_config_bad() {
    let k = shard(0, 8);
    let ok = |t: &str, f: &str, d: &str| scenario(t, f, "[car]", plain(), "3", "null", d);
    let d = dataset("a", "v");
    let good = ok("detection", "base_link", &d);
    let r = match k {
        0 => {
            // every line but the optional ones is needed
            let mut lines: Vec<&str> = good.lines().collect();
            let i = choose(1, lines.len() as u32) as usize;
            let drop = lines.remove(i);
            let optional = drop.contains("min_point_number") || drop.contains("target_uuids");
            let r = load(&lines.join("\n"));
            check(r.is_ok() == optional, 1);
            reach(1);
            return;
        }
        1 => load(&ok(&word(10, 1 + choose(1, 4)), "base_link", &d)),
        2 => load(&ok("detection", &word(10, 1 + choose(1, 4)), &d)),
        3 => load(&ok("detection", "base_link", " []")),
        4 => {
            // a text in place of a number
            let mut n = plain();
            n[choose(1, 6) as usize] = word(10, 2);
            load(&scenario("detection", "base_link", "[car]", n, "3", "null", &d))
        }
        5 => PerceptionEvaluationConfig::from(&format!("{}/none.yaml", root()), &root(), false),
        6 => {
            // no log file can be written where a file is
            let r = format!("{}/res", root());
            let p = format!("{}/s.yaml", root());
            file(&p, good.as_bytes());
            file(&[r.clone(), format!("{}/log", r)][choose(1, 2) as usize], b"x");
            PerceptionEvaluationConfig::from(&p, &r, false)
        }
        _ => {
            // a number of points that is none
            load(&scenario("detection", "base_link", "[car]", plain(), ["-1", "1.5", "x", "[]"][choose(1, 4) as usize], "null", &d))
        }
    };
    check(r.is_err(), 2);
    reach(1);
}
/// a scenario that was cut off, or is no scenario at all
#[no_mangle] #[inline(never)]
pub extern "C" fn h_config_cut() {
    let good = scenario("detection", "base_link", "[car]", plain(), "3", "null", &dataset("a", "v"));
    let n = choose(1, 32) as usize + 32 * shard(0, 25) as usize;
    if n < good.len() {
        let r = load(&good[..n]);
        // the last character is the line feed, the ones before it the digits of the last threshold
        if n < good.len() - 5 { check(r.is_err(), 1) }
    }
    reach(1);
}
/// several scenarios in one process, each with its own values
#[no_mangle] #[inline(never)]
pub extern "C" fn h_config_twice() {
    let t = [choose(1, 3) as usize * 2, choose(2, 3) as usize * 2];
    let mut c = vec![];
    for k in 0..2 {
        c.push(load(&scenario(TASKS[t[k]].0, "base_link", "[car]", plain(), "3", "null", &dataset(["a", "b"][k], "v"))));
    }
    for k in 0..2 {
        let c = c[k].as_ref();
        check(c.is_ok(), 1);
        let c = c.unwrap();
        check(c.evaluation_task == TASKS[t[k]].1 && c.dataset_path == std::path::Path::new(["a", "b"][k]), 2);
    }
    reach(1);
}
