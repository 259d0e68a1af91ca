//! C18: the score of a scene, from the frames that were added
use crate::h_ap::ap_ref;
use crate::h_common::*;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::verif::metrics_scores;

struct Spec {
    /// numbers of estimations and ground truths of each frame
    frames: &'static [(usize, usize)],
    targets: &'static [&'static str],
    /// distinct target labels
    list: &'static [Label],
    /// labels of objects
    labels: &'static [Label],
    limit: bool,
}
/// objects on a line ahead of the ego vehicle, where plane and center distance agree
fn scene(s: &Spec) {
    let (tc, tp) = (real(90), real(91));
    let lim = if s.limit { real(92) } else { 1000.0 };
    let cfg = config(
        EvaluationTask::Detection,
        FilterParams::new(&s.targets.to_vec(), lim, 100.0, None, None).unwrap(),
        MetricsParams::new(&s.targets.to_vec(), tc, tp, 0.5, 0.5).unwrap(),
    );
    let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
    // what is expected: per label the results (confidence, distance) and the number of ground truths
    let mut want: Vec<(Label, f64, Option<f64>)> = vec![];
    let mut ngt: Vec<Label> = vec![];
    let (mut id, mut nth) = (0, 0);
    let mut sizes = vec![];
    for (k, (n, g)) in s.frames.iter().enumerate() {
        let mut objs = |n: usize, c: &str, conf: bool| -> Vec<DynamicObject> {
            (0..n).map(|_| {
                id += 1;
                let l = s.labels[choose(100 + id, s.labels.len() as u32) as usize].clone();
                nth += conf as u32;
                obj([real_in(id, 10.0, 50.0), 0.0, 0.0], l, if conf { real(40 + nth) } else { 1.0 }, &format!("{}{}", c, id))
            }).collect()
        };
        let est = objs(*n, "e", true);
        let gt = objs(*g, "g", false);
        let kept = |o: &DynamicObject| s.list.contains(&o.label) && o.position[0] < lim;
        let fe: Vec<_> = est.iter().filter(|o| kept(o)).cloned().collect();
        let fg: Vec<_> = gt.iter().filter(|o| kept(o)).cloned().collect();
        for o in &fg { ngt.push(o.label.clone()) }
        // one of each: paired if of equal label; else as matched (C01)
        let pairs: Vec<(DynamicObject, Option<DynamicObject>)> = if fe.len() == 1 && fg.len() == 1 {
            vec![(fe[0].clone(), if fe[0].label == fg[0].label { Some(fg[0].clone()) } else { None })]
        } else {
            get_perception_results(&fe, &fg).into_iter().map(|r| (r.estimated_object, r.ground_truth_object)).collect()
        };
        let mut ntp = 0;
        for (e, g) in &pairs {
            let d = g.as_ref().map(|g| (e.position[0] - g.position[0]).abs());
            if let Some(d) = d { if d < tp { ntp += 1 } }
            want.push((e.label.clone(), e.confidence, d));
        }
        sizes.push((fe.len(), fg.len(), ntp));
        m.add_frame_result(&est, &FrameGroundTruth { timestamp: NaiveDateTime::from_timestamp_micros(1_600_000_000_000_000 + k as i64).unwrap(), objects: gt }).unwrap();
        // the frames so far are kept, in order
        check(m.frame_results.len() == k + 1, 1);
        for (i, f) in m.frame_results.iter().enumerate() {
            check(f.frame_ground_truth().timestamp.timestamp_micros() == 1_600_000_000_000_000 + i as i64, 2);
            let (e, g, t) = sizes[i];
            check(f.results().len() == e && f.frame_ground_truth().objects.len() == g, 3);
            check(f.tp_results().len() == t && f.fp_results().len() == e - t && f.fn_objects().len() == g - t, 4);
        }
    }
    for i in 0..nth { for j in 0..i { assume(real(41 + i) != real(41 + j)) } }
    let score = metrics_scores(&m.get_metrics_score().unwrap());
    check(score.len() == 2, 5);
    for (k, thr) in [tc, tp].iter().enumerate() {
        let sc = &score[k];
        check(sc.matching_mode == [MatchingMode::CenterDistance, MatchingMode::PlaneDistance][k], 6);
        check(sc.target_labels.len() == s.targets.len() && sc.ap.len() == s.targets.len() && sc.aph.len() == s.targets.len(), 7);
        for t in 0..s.targets.len() {
            let l = &sc.target_labels[t];
            check(s.list.contains(l), 8);
            // ranked by confidence
            let mut r: Vec<(f64, Option<f64>)> = vec![];
            for (x, c, d) in &want {
                if x != l { continue }
                let mut p = 0;
                while p < r.len() && r[p].0 > *c { p += 1 }
                r.insert(p, (*c, *d));
            }
            let n = ngt.iter().filter(|x| *x == l).count();
            if r.is_empty() && n == 0 {
                check(sc.ap[t].is_nan() && sc.aph[t].is_nan(), 9);
                reach(2);
            } else {
                let w: Vec<f64> = r.iter().map(|(_, d)| if d.map_or(false, |d| d < *thr) { 1.0 } else { 0.0 }).collect();
                let a = ap_ref(&w, n);
                obs(10 * k as u32 + t as u32, sc.ap[t]);
                close(sc.ap[t], a, 10);
                close(sc.aph[t], a, 11);
                if w.iter().any(|x| *x > 0.0) { reach(3) } else { reach(4) }
            }
        }
        if s.list.len() == s.targets.len() {
            for t in 0..s.list.len() { check(sc.target_labels[t] == s.list[t], 12) }
        }
    }
    reach(1);
}
const CP: [Label; 2] = [Label::Car, Label::Pedestrian];
#[no_mangle] #[inline(never)]
pub extern "C" fn h_score_frames() {
    let f: [&[(usize, usize)]; 8] = [&[], &[(0, 0)], &[(1, 1)], &[(1, 1), (0, 0)], &[(1, 0), (0, 1)], &[(0, 1), (1, 1)], &[(1, 1), (1, 0)], &[(1, 1), (1, 1)]];
    let k = shard(0, 16) as usize;
    scene(&Spec { frames: f[k / 2], targets: &["car", "pedestrian"], list: &CP, labels: &CP, limit: k % 2 == 1 });
}
/// several objects in one frame
fn many(frames: &'static [(usize, usize)]) {
    scene(&Spec { frames, targets: &["car"], list: &CP[..1], labels: &CP[..1], limit: false });
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_score_many() {
    let f: [&[(usize, usize)]; 3] = [&[(2, 1)], &[(1, 2)], &[(1, 1), (1, 2)]];
    many(f[shard(0, 3) as usize]);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_score_more() {
    let f: [&[(usize, usize)]; 4] = [&[(2, 2)], &[(2, 1), (1, 1)], &[(3, 1)], &[(1, 1), (1, 1), (1, 1)]];
    many(f[shard(0, 4) as usize]);
}
/// two names of one label, and objects whose label is not evaluated
#[no_mangle] #[inline(never)]
pub extern "C" fn h_score_targets() {
    let f: [&[(usize, usize)]; 3] = [&[(1, 1)], &[(1, 1), (1, 1)], &[(2, 1)]];
    let k = shard(0, 9) as usize;
    let frames = f[k % 3];
    match k / 3 {
        0 => scene(&Spec { frames, targets: &["truck", "trailer"], list: &[Label::Truck], labels: &[Label::Truck], limit: false }),
        1 => scene(&Spec { frames, targets: &["pedestrian"], list: &[Label::Pedestrian], labels: &CP, limit: false }),
        _ => scene(&Spec { frames, targets: &["unknown", "bus"], list: &[Label::Unknown, Label::Bus], labels: &[Label::Unknown, Label::Car], limit: false }),
    }
}
/// only detection is evaluated
#[no_mangle] #[inline(never)]
pub extern "C" fn h_score_task() {
    let k = choose(1, 3);
    let t = [EvaluationTask::Detection, EvaluationTask::Tracking, EvaluationTask::Prediction][k as usize].clone();
    let cfg = config(t, FilterParams::new(&vec!["car"], 100.0, 100.0, None, None).unwrap(), MetricsParams::new(&vec!["car"], 1.0, 1.0, 0.5, 0.5).unwrap());
    let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
    if choose(2, 2) == 1 {
        let o = obj([real(1), real(2), real(3)], Label::Car, 1.0, "o");
        m.add_frame_result(&[o.clone()], &FrameGroundTruth { timestamp: ts(), objects: vec![o] }).unwrap();
    }
    check(m.get_metrics_score().is_ok() == (k == 0), 1);
    reach(1);
}
/// number of points and uuids: asked of ground truths only
#[no_mangle] #[inline(never)]
pub extern "C" fn h_score_filter() {
    let min = bits(60, 64) as usize;
    let uuids = [None, Some(vec!["g1".to_string(), "g3".to_string()])][shard(0, 2) as usize].clone();
    let cfg = config(
        EvaluationTask::Detection,
        FilterParams::new(&vec!["car"], 100.0, 100.0, Some(min), uuids.clone()).unwrap(),
        MetricsParams::new(&vec!["car"], 1.0, 1.0, 0.5, 0.5).unwrap(),
    );
    let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
    let mut est = vec![];
    let mut gt = vec![];
    let mut kept = vec![];
    for i in 0..3 {
        let mut e = tag_all(obj([10.0 * i as f64 + 10.25, 0.0, 0.0], Label::Car, 0.5, &format!("e{}", i)), i as u32);
        e.orientation = Q0;
        let mut g = e.clone();
        g.position[0] -= 0.25;
        g.uuid = Some(format!("g{}", i));
        let n = bits(61 + i as u32, 64) as usize;
        g.pointcloud_num = Some(n);
        e.pointcloud_num = [Some(0), Some(7), None][i];
        kept.push(n >= min && uuids.as_ref().map_or(true, |u| u.contains(&format!("g{}", i))));
        est.push(e);
        gt.push(g);
    }
    let f = FrameGroundTruth { timestamp: NaiveDateTime::from_timestamp_micros(1_600_000_123_456_789).unwrap(), objects: gt.clone() };
    m.add_frame_result(&est, &f).unwrap();
    check(m.frame_results.len() == 1, 1);
    let r = &m.frame_results[0];
    check(r.frame_ground_truth().timestamp == f.timestamp, 2);
    // the estimations are all there, in any order, unchanged
    check(r.results().len() == 3, 3);
    for i in 0..3 {
        let mine: Vec<_> = r.results().iter().filter(|x| idx(&x.estimated_object, "e", 3) == Some(i)).collect();
        check(mine.len() == 1 && same_obj(&mine[0].estimated_object, &est[i]), 4);
    }
    // the ground truths that are kept, in order, unchanged
    let k: Vec<usize> = (0..3).filter(|i| kept[*i]).collect();
    let o = &r.frame_ground_truth().objects;
    check(o.len() == k.len(), 5);
    for (x, i) in o.iter().zip(k.iter()) { check(same_obj(x, &gt[*i]), 6) }
    check(r.tp_results().len() == k.len() && r.fn_objects().is_empty(), 7);
    // of three estimations of equal confidence those come first that were paired first
    let s = metrics_scores(&m.get_metrics_score().unwrap());
    for x in &s { check(x.ap.len() == 1 && x.ap[0] >= 0.0 && x.ap[0] <= 1.0, 8) }
    if k.is_empty() { reach(2) }
    reach(1);
}
/// long histories: many frames, any threshold
#[no_mangle] #[inline(never)]
pub extern "C" fn h_score_long() {
    let n = [5usize, 12][shard(0, 2) as usize];
    let (tc, tp) = (real(90), real(91));
    let cfg = config(
        EvaluationTask::Detection,
        FilterParams::new(&vec!["pedestrian", "car"], 1000.0, 100.0, None, None).unwrap(),
        MetricsParams::new(&vec!["pedestrian", "car"], tc, tp, 0.5, 0.5).unwrap(),
    );
    let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
    // rank by confidence: label, distance (none if there is no ground truth)
    let mut want: Vec<(f64, usize, Option<f64>)> = vec![];
    let mut ngt = [0usize; 2];
    for k in 0..n {
        let (mut est, mut gt) = (vec![], vec![]);
        for l in 0..2usize {
            let label = [Label::Pedestrian, Label::Car][l].clone();
            let d = 0.5 * ((3 * k + 5 * l) % 7) as f64;
            let c = 1.0 - (((5 * k + 2 * l) % 13) as f64 + 16.0 * l as f64) / 64.0;
            let (e, g) = (k % 4 != 3, (k + l) % 3 != 2);
            if e { est.push(obj([20.0 + 10.0 * l as f64 + d, 0.0, 0.0], label.clone(), c, &format!("e{}", l))) }
            if g { gt.push(obj([20.0 + 10.0 * l as f64, 0.0, 0.0], label, 1.0, &format!("g{}", l))); ngt[l] += 1 }
            if e {
                let mut p = 0;
                while p < want.len() && want[p].0 > c { p += 1 }
                want.insert(p, (c, l, if g { Some(d) } else { None }));
            }
        }
        m.add_frame_result(&est, &FrameGroundTruth { timestamp: NaiveDateTime::from_timestamp_micros(1_600_000_000_000_000 + k as i64).unwrap(), objects: gt }).unwrap();
    }
    check(m.frame_results.len() == n, 1);
    for (i, f) in m.frame_results.iter().enumerate() { check(f.frame_ground_truth().timestamp.timestamp_micros() == 1_600_000_000_000_000 + i as i64, 2) }
    let s = metrics_scores(&m.get_metrics_score().unwrap());
    check(s.len() == 2, 3);
    for (k, thr) in [tc, tp].iter().enumerate() {
        for l in 0..2 {
            let w: Vec<f64> = want.iter().filter(|x| x.1 == l).map(|x| if x.2.map_or(false, |d| d < *thr) { 1.0 } else { 0.0 }).collect();
            close(s[k].ap[l], ap_ref(&w, ngt[l]), 4);
            close(s[k].aph[l], ap_ref(&w, ngt[l]), 5);
        }
    }
    reach(1);
}
