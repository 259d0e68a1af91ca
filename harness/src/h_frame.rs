//! C03: TP / FP / FN of one frame
use crate::h_common::*;
use perception_eval::result::frame::PerceptionFrameResult;

fn frame(n: usize, m: usize, labels: &[Label], pos: &dyn Fn(u32) -> [f64; 3], mode: MatchingMode) {
    frame2(n, m, labels, pos, pos, mode)
}
fn frame2(n: usize, m: usize, labels: &[Label], pos: &dyn Fn(u32) -> [f64; 3], gpos: &dyn Fn(u32) -> [f64; 3], mode: MatchingMode) {
    let targets = if labels.contains(&Label::Unknown) { [Label::Unknown, Label::Animal] } else { [Label::Car, Label::Pedestrian] };
    let thr = [real(90), real(91)];
    let mut le = vec![];
    let est: Vec<_> = (0..n).map(|i| {
        let l = labels[choose(10 + i as u32, labels.len() as u32) as usize].clone();
        le.push(l.clone());
        tag(obj(pos(3 * i as u32), l, real(70 + i as u32), &format!("e{}", i)), i as u32)
    }).collect();
    let gt: Vec<_> = (0..m).map(|i| tag(obj(gpos(20 + 3 * i as u32), labels[choose(20 + i as u32, labels.len() as u32) as usize].clone(), 1.0, &format!("g{}", i)), 10 + i as u32)).collect();
    let results = get_perception_results(&est, &gt);
    let mut paired = vec![None; n];
    for r in &results {
        if let (Some(i), Some(g)) = (idx(&r.estimated_object, "e", n), &r.ground_truth_object) {
            paired[i] = idx(g, "g", m);
        }
    }
    let plane = mode == MatchingMode::PlaneDistance;
    let iou = mode == MatchingMode::Iou2d || mode == MatchingMode::Iou3d;
    let f = PerceptionFrameResult::new(results, FrameGroundTruth { timestamp: ts(), objects: gt.clone() }, &targets, mode, &thr).unwrap();
    let mut tp = vec![false; n];
    let mut fp = vec![false; n];
    let mut hit = vec![false; m];
    for r in f.tp_results() {
        let i = idx(&r.estimated_object, "e", n).unwrap();
        check(!tp[i], 1);
        check(same_obj(&r.estimated_object, &est[i]), 12);
        tp[i] = true;
        // a true positive has the ground truth it was paired with
        check(r.ground_truth_object.is_some(), 2);
        if let Some(g) = &r.ground_truth_object {
            let j = idx(g, "g", m).unwrap();
            check(paired[i] == Some(j), 2);
            check(same_obj(g, &gt[j]), 12);
            check(!hit[j], 3);
            hit[j] = true;
        }
    }
    for r in f.fp_results() {
        let i = idx(&r.estimated_object, "e", n).unwrap();
        check(!fp[i] && !tp[i], 4);
        check(same_obj(&r.estimated_object, &est[i]), 12);
        fp[i] = true;
    }
    let mut ntp = 0;
    for i in 0..n {
        let t = targets.iter().position(|l| *l == le[i]);
        match t {
            None => check(!tp[i] && !fp[i], 5),
            Some(t) => {
                // exactly one of both
                check(tp[i] != fp[i], 6);
                if iou {
                    // of boxes 4 long and 2 wide, one behind the other
                    let ok = match paired[i] {
                        Some(j) => {
                            let d = (est[i].position[0] - gt[j].position[0]).abs();
                            let v = if d < 4.0 { (4.0 - d) / (4.0 + d) } else { 0.0 };
                            v > thr[t]
                        }
                        None => false,
                    };
                    check(tp[i] == ok, 7);
                } else if !plane {
                    let ok = match paired[i] {
                        Some(j) => both(thr[t] > 0.0, d2(&est[i].position, &gt[j].position) < thr[t] * thr[t]),
                        None => false,
                    };
                    check(tp[i] == ok, 7);
                }
            }
        }
        if tp[i] { ntp += 1; reach(2) } else { reach(3) }
    }
    // a ground truth is a false negative unless a true positive hit it
    let mut k = 0;
    let fns = f.fn_objects();
    check(fns.len() + ntp == m, 8);
    for j in 0..m {
        let here = k < fns.len() && idx(&fns[k], "g", m) == Some(j);
        check(here != hit[j], 9);
        if here { check(same_obj(&fns[k], &gt[j]), 12) }
        if here { k += 1; reach(4) }
    }
    check(f.results().len() == n, 10);
    check(f.frame_ground_truth().objects.len() == m, 11);
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_frame_space() {
    let k = shard(0, 9) as usize;
    let (n, m) = (k / 3, k % 3);
    if n + m > 2 {
        frame2(n, m, &[Label::Car, Label::Pedestrian], &|id| [real(id), real(id + 1), 0.0], &|id| [real(id), 0.0, 0.0], MatchingMode::CenterDistance);
    } else {
        frame(n, m, &[Label::Car, Label::Pedestrian], &|id| [real(id), real(id + 1), real(id + 2)], MatchingMode::CenterDistance);
    }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_frame_line() {
    let (n, m) = [(2, 2), (3, 1), (1, 3), (0, 2)][shard(0, 4) as usize];
    frame(n, m, &[Label::Car], &|id| [real(id), 0.0, 0.0], MatchingMode::CenterDistance);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_frame_line5() {
    let (n, m) = [(3, 2), (2, 3)][shard(0, 2) as usize];
    frame(n, m, &[Label::Car], &|id| [real(id), 0.0, 0.0], MatchingMode::CenterDistance);
}
/// labels that are not evaluated
#[no_mangle] #[inline(never)]
pub extern "C" fn h_frame_labels() {
    let k = shard(0, 6) as usize;
    let (n, m) = [(1, 1), (2, 1), (1, 2)][k % 3];
    frame(n, m, if k < 3 { &[Label::Car, Label::Bus, Label::Pedestrian] } else { &[Label::Unknown, Label::Car, Label::Animal] }, &|id| [real(id), 0.0, 0.0], MatchingMode::CenterDistance);
}
/// plane distance on a line ahead of the ego vehicle
#[no_mangle] #[inline(never)]
pub extern "C" fn h_frame_plane() {
    let (n, m) = [(1, 1), (2, 1), (1, 2)][shard(0, 3) as usize];
    frame(n, m, &[Label::Car], &|id| [real_in(id, 10.0, 50.0), 0.0, 0.0], MatchingMode::PlaneDistance);
}
/// overlap on a line
#[no_mangle] #[inline(never)]
pub extern "C" fn h_frame_iou() {
    let k = shard(0, 4) as usize;
    let (n, m) = [(1, 1), (2, 1)][k / 2];
    let mode = [MatchingMode::Iou2d, MatchingMode::Iou3d][k % 2].clone();
    frame2(n, m, &[Label::Car], &|id| [real(id), 0.0, 0.0], &|id| [2.0 * id as f64, 0.0, 0.0], mode);
}
/// more objects: one estimation anywhere among fixed ones, and any threshold
#[no_mangle] #[inline(never)]
pub extern "C" fn h_frame_many() {
    let (n, m, l): (usize, usize, &[usize]) = [(6, 5, &[0, 0, 0, 0, 0, 0][..]), (4, 7, &[0, 1, 0, 1]), (8, 3, &[0, 1, 0, 2, 1, 0, 0, 2])][shard(0, 3) as usize];
    let labels = [Label::Car, Label::Pedestrian, Label::Bus];
    let thr = [real(90), real(91)];
    assume(both(thr[0] > 0.0, thr[1] > 0.0));
    let est: Vec<_> = (0..n).map(|i| {
        let x = if i == 1 { real(1) } else { 3.0 * ((5 * i) % 8) as f64 + 0.125 * i as f64 };
        tag(obj([x, 1.0, 0.0], labels[l[i]].clone(), real(70 + i as u32), &format!("e{}", i)), i as u32)
    }).collect();
    let gt: Vec<_> = (0..m).map(|i| tag(obj([2.75 * ((3 * i) % 7) as f64, 1.0, 0.0], labels[l[i % l.len()]].clone(), 1.0, &format!("g{}", i)), 10 + i as u32)).collect();
    let results = get_perception_results(&est, &gt);
    // what each clause asks of the results
    let mut want_tp = vec![];
    let mut want_fp = vec![];
    let mut hit = vec![false; m];
    for r in &results {
        let t = match labels[..2].iter().position(|x| *x == r.estimated_object.label) { Some(t) => t, None => continue };
        let i = idx(&r.estimated_object, "e", n).unwrap();
        match &r.ground_truth_object {
            Some(g) if (r.estimated_object.position[0] - g.position[0]).abs() < thr[t] => {
                let j = idx(g, "g", m).unwrap();
                hit[j] = true;
                want_tp.push((i, j));
            }
            _ => want_fp.push(i),
        }
    }
    let f = PerceptionFrameResult::new(results, FrameGroundTruth { timestamp: ts(), objects: gt.clone() }, &labels[..2], MatchingMode::CenterDistance, &thr).unwrap();
    check(f.tp_results().len() == want_tp.len() && f.fp_results().len() == want_fp.len(), 1);
    for (i, j) in &want_tp {
        let c = f.tp_results().iter().filter(|r| idx(&r.estimated_object, "e", n) == Some(*i) && r.ground_truth_object.as_ref().map_or(false, |g| idx(g, "g", m) == Some(*j))).count();
        check(c == 1, 2);
    }
    for i in &want_fp {
        check(f.fp_results().iter().filter(|r| idx(&r.estimated_object, "e", n) == Some(*i)).count() == 1, 3);
    }
    check(f.fn_objects().len() == m - want_tp.len(), 4);
    for j in 0..m {
        let c = f.fn_objects().iter().filter(|g| idx(g, "g", m) == Some(j)).count();
        check(c == if hit[j] { 0 } else { 1 }, 5);
    }
    reach(1);
}
/// ground truths without uuid, or sharing one, at different places; coincident ones of different uuid
#[no_mangle] #[inline(never)]
pub extern "C" fn h_frame_same() {
    let k = shard(0, 4) as usize;
    let (n, m) = [(1, 2), (2, 2)][k % 2];
    let u = [None, Some("same".to_string())][choose(1, 2) as usize].clone();
    let thr = real(90);
    assume(thr > 0.0);
    let mk = |x: f64, k: usize| { let mut o = obj([x, 0.0, 0.0], Label::Car, 0.5, ""); o.uuid = u.clone(); o.pointcloud_num = Some(k); o };
    let est: Vec<_> = (0..n).map(|i| mk(real(i as u32), i)).collect();
    let mut gt: Vec<_> = (0..m).map(|i| mk(real(20 + i as u32), 10 + i)).collect();
    if k < 2 {
        // also ground truths that differ in one other field only
        match choose(2, 4) {
            0 => assume(gt[0].position[0] != gt[1].position[0]),
            1 => { gt[1].orientation = [0.0, 0.0, 0.0, 1.0] }
            2 => { gt[1].timestamp = NaiveDateTime::from_timestamp_micros(1_600_000_000_000_001).unwrap() }
            _ => { gt[1].position[1] = 1.0 }
        }
    } else {
        gt[0].uuid = Some("a".into());
        gt[1].uuid = [None, Some("b".to_string())][choose(3, 2) as usize].clone();
    }
    let results = get_perception_results(&est, &gt);
    let f = PerceptionFrameResult::new(results, FrameGroundTruth { timestamp: ts(), objects: gt.clone() }, &[Label::Car], MatchingMode::CenterDistance, &[thr]).unwrap();
    let mut hit = vec![false; m];
    for r in f.tp_results() {
        let j = r.ground_truth_object.as_ref().unwrap().pointcloud_num.unwrap() - 10;
        check(j < m && !hit[j], 1);
        hit[j] = true;
    }
    check(f.tp_results().len() + f.fp_results().len() == n, 2);
    check(f.fn_objects().len() + f.tp_results().len() == m, 3);
    for j in 0..m {
        let c = f.fn_objects().iter().filter(|g| g.pointcloud_num == Some(10 + j)).count();
        check(c == if hit[j] { 0 } else { 1 }, 4);
    }
    reach(1);
}
