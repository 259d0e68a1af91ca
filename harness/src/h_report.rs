//! C20: the printed report of the scores of a scene
use crate::h_ap::yawed;
use crate::h_common::*;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::verif::metrics_scores;

/// equal but for the rounding to three decimals
fn shown(text: Option<&str>, v: f64, id: u32) {
    let x: f64 = match text.and_then(|t| t.trim().parse().ok()) {
        Some(x) => x,
        None => { check(false, id); return }
    };
    if v.is_nan() || x.is_nan() { check(v.is_nan() && x.is_nan(), id); return }
    // a difference of the values is still one of what is printed
    let tol = if __sym_symbolic() { 0.0016 } else { 0.001 };
    let d = x - v;
    check(both(d <= tol, d >= -tol), id);
}
/// the cells of a line of the table
fn cells(line: &str) -> Vec<&str> {
    let mut c: Vec<&str> = line.split('|').map(|x| x.trim()).collect();
    if c.first() == Some(&"") { c.remove(0); }
    while c.last() == Some(&"") { c.pop(); }
    c
}
/// objects of the frames: label, and whether there are an estimation and a ground truth
fn report(targets: &[&str], labels: &[Label], frames: &[&[(usize, bool, bool)]], turned: bool) {
    let thr = [real_in(90, 0.0, 100.0), real_in(91, 0.0, 100.0)];
    let cfg = config(
        EvaluationTask::Detection,
        FilterParams::new(&targets.to_vec(), 100.0, 100.0, None, None).unwrap(),
        MetricsParams::new(&targets.to_vec(), thr[0], thr[1], 0.5, 0.5).unwrap(),
    );
    let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
    let mut n = 0;
    for f in frames {
        let (mut est, mut gt) = (vec![], vec![]);
        for (l, e, g) in f.iter() {
            n += 1;
            let x = 10.0 * n as f64;
            let l = labels[*l].clone();
            if *e {
                let mut o = obj([x + n as f64, 0.0, 0.0], l.clone(), 1.0 - n as f64 / 16.0, "e");
                // a quarter turn
                if n == 2 { o.orientation = [0.5f64.sqrt(), 0.0, 0.0, 0.5f64.sqrt()] }
                if n == 1 && turned { o = yawed(o, &angle(0)) }
                est.push(o);
            }
            if *g { gt.push(obj([x, 0.0, 0.0], l, 1.0, &format!("g{}", n))) }
        }
        m.add_frame_result(&est, &FrameGroundTruth { timestamp: ts(), objects: gt }).unwrap();
    }
    let score = m.get_metrics_score().unwrap();
    let want = metrics_scores(&score);
    let text = format!("{}", score);
    let mut lines = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
    for (k, mode) in ["[CenterDistance]", "[PlaneDistance]"].iter().enumerate() {
        check(lines.next() == Some(*mode), 1);
        let w = &want[k];
        let rows = [("AP", &w.ap), ("APH", &w.aph)];
        // the means, in either order
        let mean: Vec<&str> = lines.next().unwrap_or("").split_whitespace().collect();
        check(mean.len() == 4, 2);
        for (name, v) in &rows {
            let at = mean.iter().position(|t| *t == format!("m{}:", name));
            let s: f64 = v.iter().sum();
            shown(at.and_then(|i| mean.get(i + 1)).copied(), s / v.len() as f64, 3);
        }
        let table: Vec<Vec<&str>> = (0..3).map(|_| cells(lines.next().unwrap_or(""))).collect();
        for (i, t) in table.iter().enumerate() {
            check(t.len() == 1 + labels.len(), 4);
            if i == 0 { check(t[0] == "Label", 5) }
        }
        for (i, l) in labels.iter().enumerate() {
            // the label with its threshold
            let c = table[0].get(1 + i).copied().unwrap_or("");
            let p = c.find('(').unwrap_or(0);
            check(c[..p].trim() == format!("{:?}", l) && c.ends_with(')'), 6);
            shown(c.get(p + 1..c.len().saturating_sub(1)), thr[k], 7);
            for (name, v) in &rows {
                let row = table.iter().find(|t| t[0] == *name);
                check(row.is_some(), 8);
                shown(row.and_then(|r| r.get(1 + i)).copied(), v[i], 9);
                if v[i].is_nan() { reach(2) } else { reach(3) }
            }
        }
    }
    check(lines.next().is_none(), 10);
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_report() {
    use Label::*;
    match shard(0, 7) {
        0 => report(&["car"], &[Car], &[&[(0, true, true)]], true),
        1 => report(&["car", "pedestrian", "bus"], &[Car, Pedestrian, Bus], &[&[(0, true, true), (1, true, true)], &[(0, true, false), (1, false, true), (2, false, true)]], true),
        2 => report(&["motorbike", "car", "animal"], &[Motorbike, Car, Animal], &[&[(0, true, true), (1, true, true), (2, true, false)]], false),
        3 => report(&["unknown", "truck", "bicycle"], &[Unknown, Truck, Bicycle], &[&[(0, true, true)], &[(2, true, true), (2, true, true)]], true),
        5 => report(&["pedestrian", "unknown", "bus", "animal", "car", "motorbike", "bicycle", "truck"], &[Pedestrian, Unknown, Bus, Animal, Car, Motorbike, Bicycle, Truck],
            &[&[(4, true, true), (0, true, true)], &[(7, true, true), (3, false, true), (1, true, false), (6, true, true)]], false),
        6 => report(&["car", "pedestrian", "bus", "truck"], &[Car, Pedestrian, Bus, Truck], &[&[(3, true, true), (0, true, true), (3, false, true)]], true),
        _ => report(&["bus", "truck"], &[Bus, Truck], &[], false),
    }
}
