//! C04 / C05: average precision, heading weighted average precision
use crate::h_common::*;
use perception_eval::verif::detection_score;
use std::f64::consts::PI;

/// the definition: sum over the ranks of the recall gained there times the best precision at that rank or later
pub fn ap_ref(w: &[f64], num_gt: usize) -> f64 {
    let mut c = 0.0;
    let prec: Vec<f64> = w.iter().enumerate().map(|(k, x)| { c += x; c / (k as f64 + 1.0) }).collect();
    let mut env = 0.0;
    let mut ap = 0.0;
    for k in (0..w.len()).rev() {
        if prec[k] > env { env = prec[k] }
        ap += w[k] * env;
    }
    if num_gt == 0 { 0.0 } else { ap / num_gt as f64 }
}
/// order of the ranks: indices by descending confidence
fn rank(conf: &[f64]) -> Vec<usize> {
    let mut o: Vec<usize> = vec![];
    for i in 0..conf.len() {
        let mut p = 0;
        while p < o.len() && conf[o[p]] > conf[i] { p += 1 }
        o.insert(p, i);
    }
    o
}
fn confidences(n: usize) -> Vec<f64> {
    let c: Vec<f64> = (0..n).map(|i| real(40 + i as u32)).collect();
    for i in 0..n { for j in 0..i { assume(c[i] != c[j]) } }
    c
}
/// n results on a line, all with the ground truth's heading
fn line(n: usize, distinct: bool) {
    let thr = real(90);
    let conf = if distinct { confidences(n) } else { vec![0.5; n] };
    let mut results = vec![];
    let mut hit = vec![];
    let mut pairs = 0;
    for i in 0..n {
        let x = real(i as u32);
        let paired = choose(10 + i as u32, 2) == 1;
        let e = obj([x, 0.0, 0.0], Label::Car, conf[i], &format!("e{}", i));
        let g = if paired { pairs += 1; Some(obj([7.0 * i as f64, 0.0, 0.0], Label::Car, 1.0, &format!("g{}", i))) } else { None };
        hit.push(match &g { Some(g) => d2(&e.position, &g.position) < thr * thr && thr > 0.0, None => false });
        results.push(PerceptionResult::new(e, g));
    }
    let num_gt = pairs + choose(20, 3) as usize;
    let (ap, aph) = detection_score(&Label::Car, results, num_gt, &MatchingMode::CenterDistance, thr);
    if n == 0 && num_gt == 0 {
        check(ap.is_nan(), 1);
        check(aph.is_nan(), 1);
        reach(1);
        return;
    }
    let o = if distinct { rank(&conf) } else { (0..n).collect() };
    let w: Vec<f64> = o.iter().map(|i| if hit[*i] { 1.0 } else { 0.0 }).collect();
    let r = ap_ref(&w, num_gt);
    obs(1, ap);
    close(ap, r, 2);
    close(aph, r, 3);
    check(ap >= 0.0 && ap <= 1.0 + 1e-9, 4);
    let tp = hit.iter().filter(|h| **h).count();
    if tp == n && tp == num_gt && n > 0 { close(ap, 1.0, 5); reach(2) }
    if tp == 0 { close(ap, 0.0, 6); reach(3) }
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ap_line() {
    let n = shard(0, 4) as usize;
    line(n, true);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ap_line4() {
    line(4, false);
}
/// more results, ranked in or against the order of the list or from the middle
fn ranked(n: usize) {
    // without loss: a threshold that can be met, and estimations on one side of their ground truths
    let thr = real(90);
    assume(thr > 0.0);
    let order = choose(30, 3) as usize;
    let mut results = vec![];
    let mut at = vec![];
    for i in 0..n {
        let k = match order { 0 => i, 1 => n - 1 - i, _ => (i + n / 2) % n };
        at.push(k);
        let x = real(i as u32);
        assume(x >= 7.0 * i as f64);
        let e = obj([x, 0.0, 0.0], Label::Car, 1.0 - k as f64 / 16.0, &format!("e{}", i));
        results.push(PerceptionResult::new(e, Some(obj([7.0 * i as f64, 0.0, 0.0], Label::Car, 1.0, &format!("g{}", i)))));
    }
    let mut w = vec![0.0; n];
    for i in 0..n {
        let g = results[i].ground_truth_object.as_ref().unwrap();
        if results[i].estimated_object.position[0] - g.position[0] < thr { w[at[i]] = 1.0 }
    }
    let num_gt = n + choose(20, 2) as usize;
    let (ap, aph) = detection_score(&Label::Car, results, num_gt, &MatchingMode::CenterDistance, thr);
    let r = ap_ref(&w, num_gt);
    obs(1, ap);
    close(ap, r, 2);
    close(aph, r, 3);
    check(ap >= 0.0 && ap <= 1.0 + 1e-9, 4);
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ap_ranked() {
    ranked(5 + shard(0, 4) as usize);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ap_ranked9() {
    ranked(9 + shard(0, 3) as usize);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ap_line4_full() {
    line(4, true);
}
/// weight of a true positive with headings 2a and 2b
fn weight(a: f64, b: f64) -> f64 {
    let mut d = 2.0 * a - 2.0 * b;
    if d < 0.0 { d = -d }
    if d > PI { d = 2.0 * PI - d }
    1.0 - d / PI
}
pub fn yawed(mut o: DynamicObject, q: &[f64; 3]) -> DynamicObject {
    o.orientation = [q[0], 0.0, 0.0, q[1]];
    o
}
/// two results with symbolic headings, ranks by confidence
#[no_mangle] #[inline(never)]
pub extern "C" fn h_aph_two() {
    let h = [angle(0), angle(1)];
    let conf = confidences(2);
    let extra = choose(20, 2) as usize;
    let mut results = vec![];
    let mut w = vec![];
    let mut hit = vec![];
    for i in 0..2 {
        let x = if choose(10 + i as u32, 2) == 1 { 0.5 } else { 5.0 };
        let e = yawed(obj([10.0 * i as f64 + x, 0.0, 0.0], Label::Car, conf[i], "e"), &h[i]);
        let mut g = obj([10.0 * i as f64, 0.0, 0.0], Label::Car, 1.0, "g");
        // the second ground truth is turned by a quarter
        if i == 1 { g.orientation = [0.5f64.sqrt(), 0.0, 0.0, 0.5f64.sqrt()] }
        hit.push(if x < 1.0 { 1.0 } else { 0.0 });
        w.push(if x < 1.0 { weight(h[i][2], if i == 1 { PI / 4.0 } else { 0.0 }) } else { 0.0 });
        results.push(PerceptionResult::new(e, Some(g)));
    }
    let (ap, aph) = detection_score(&Label::Car, results, 2 + extra, &MatchingMode::CenterDistance, 1.0);
    let o = if conf[0] > conf[1] { [0, 1] } else { [1, 0] };
    close(ap, ap_ref(&[hit[o[0]], hit[o[1]]], 2 + extra), 1);
    close(aph, ap_ref(&[w[o[0]], w[o[1]]], 2 + extra), 2);
    check(aph >= -1e-9, 3);
    check(aph <= ap + 1e-9, 4);
    reach(1);
}
/// several results turned by multiples of 15 degrees, either sign of the quaternions, ranked in three orders
#[no_mangle] #[inline(never)]
pub extern "C" fn h_aph_many() {
    let n = 4 + shard(0, 3) as usize;
    let thr = real(90);
    assume(thr > 0.0);
    let order = choose(30, 3) as usize;
    // turns in steps of 15 degrees, of estimation and ground truth
    let turn: [(i32, i32); 6] = [(0, 0), (1, 23), (20, 4), (13, 1), (18, 6), (11, 10)];
    let q = |k: i32| { let h = k as f64 * PI / 24.0; [h.cos(), 0.0, 0.0, h.sin()] };
    let mut results = vec![];
    let mut at = vec![];
    for i in 0..n {
        let k = match order { 0 => i, 1 => n - 1 - i, _ => (i + n / 2) % n };
        at.push(k);
        let x = real(i as u32);
        assume(x >= 7.0 * i as f64);
        let mut e = obj([x, 0.0, 0.0], Label::Car, 1.0 - k as f64 / 16.0, &format!("e{}", i));
        let mut g = obj([7.0 * i as f64, 0.0, 0.0], Label::Car, 1.0, &format!("g{}", i));
        e.orientation = q(turn[i].0);
        g.orientation = q(turn[i].1);
        if i == 3 { for v in e.orientation.iter_mut() { *v = -*v } }
        results.push(PerceptionResult::new(e, Some(g)));
    }
    let mut w = vec![0.0; n];
    let mut hit = vec![0.0; n];
    for i in 0..n {
        let g = results[i].ground_truth_object.as_ref().unwrap();
        if results[i].estimated_object.position[0] - g.position[0] < thr {
            let d = (turn[i].0 - turn[i].1).abs();
            w[at[i]] = 1.0 - (if d > 12 { 24 - d } else { d }) as f64 / 12.0;
            hit[at[i]] = 1.0;
        }
    }
    let num_gt = n + choose(20, 2) as usize;
    let (ap, aph) = detection_score(&Label::Car, results, num_gt, &MatchingMode::CenterDistance, thr);
    obs(1, aph);
    close(ap, ap_ref(&hit, num_gt), 1);
    close(aph, ap_ref(&w, num_gt), 2);
    check(aph >= -1e-9 && aph <= ap + 1e-9, 3);
    reach(1);
}
/// the four kinds of distance and overlap, better than the threshold
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ap_modes() {
    let k = shard(0, 4) as usize;
    let mode = [MatchingMode::CenterDistance, MatchingMode::PlaneDistance, MatchingMode::Iou2d, MatchingMode::Iou3d][k].clone();
    let thr = real(90);
    let mut results = vec![];
    let mut w = vec![];
    // ranked by confidence: the second, the first
    for i in 0..2 {
        let x = 10.0 + 20.0 * i as f64;
        let d = if i == 0 { real_in(1, 0.0, 8.0) } else { 1.0 };
        results.push(PerceptionResult::new(obj([x + d, 0.0, 0.0], Label::Car, [0.25, 0.75][i], "e"), Some(obj([x, 0.0, 0.0], Label::Car, 1.0, "g"))));
        // boxes 4 long and 2 wide, one behind the other
        let ok = if k < 2 { d < thr } else { (if d < 4.0 { (4.0 - d) / (4.0 + d) } else { 0.0 }) > thr };
        w.insert(0, if ok { 1.0 } else { 0.0 });
    }
    let (ap, aph) = detection_score(&Label::Car, results, 2, &mode, thr);
    obs(1, ap);
    close(ap, ap_ref(&w, 2), 1);
    close(aph, ap_ref(&w, 2), 2);
    if w[1] > w[0] { reach(2) }
    reach(1);
}
/// the heading of an object turned about the vertical axis only, both signs of the quaternion
#[no_mangle] #[inline(never)]
pub extern "C" fn h_heading_yaw() {
    let q = angle(0);
    let mut o = yawed(obj([1.0, 2.0, 3.0], Label::Car, 1.0, "o"), &q);
    if choose(1, 2) == 1 { for x in o.orientation.iter_mut() { *x = -*x } }
    let h = o.heading();
    obs(1, h);
    close(h, 2.0 * q[2], 1);
    let e = o.euler();
    close(e[0], 0.0, 2);
    close(e[1], 0.0, 3);
    close(e[2], 2.0 * q[2], 4);
    reach(1);
}
/// the heading of any attitude is the direction of its longitudinal axis
#[no_mangle] #[inline(never)]
pub extern "C" fn h_heading_any() {
    let q = unit4(0);
    let mut o = obj([1.0, 2.0, 3.0], Label::Car, 1.0, "o");
    o.orientation = q;
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    let (ax, ay) = (w * w + x * x - y * y - z * z, 2.0 * (x * y + w * z));
    assume(ay != 0.0);
    let h = o.heading();
    close(h, ay.atan2(ax), 1);
    check(h <= PI && h > -PI, 2);
    reach(1);
}
/// weight of one matched pair: symmetric, in range, and equal to the definition
#[no_mangle] #[inline(never)]
pub extern "C" fn h_aph_pair() {
    let (a, b) = (angle(0), angle(1));
    let e = yawed(obj([1.0, 2.0, 0.0], Label::Car, 0.7, "e"), &a);
    let mut g = yawed(obj([1.0, 2.0, 0.0], Label::Car, 1.0, "g"), &b);
    if choose(1, 2) == 1 { for x in g.orientation.iter_mut() { *x = -*x } }
    let (ap, aph) = detection_score(&Label::Car, vec![PerceptionResult::new(e.clone(), Some(g.clone()))], 1, &MatchingMode::CenterDistance, 1.0);
    close(ap, 1.0, 1);
    obs(1, aph);
    // a weight w contributes w at precision w
    let w = weight(a[2], b[2]);
    close(aph, w * w, 2);
    let (_, r) = detection_score(&Label::Car, vec![PerceptionResult::new(g, Some(e))], 1, &MatchingMode::CenterDistance, 1.0);
    close(aph, r, 3);
    check(aph >= -1e-9 && aph <= 1.0 + 1e-9, 4);
    reach(1);
}
/// the weight for any attitude of the estimation depends on its heading alone
#[no_mangle] #[inline(never)]
pub extern "C" fn h_aph_any() {
    let p = unit4(0);
    let mut e = obj([1.0, 2.0, 0.0], Label::Car, 0.7, "e");
    let g = obj([1.0, 2.0, 0.0], Label::Car, 1.0, "g");
    e.orientation = p;
    let mut d = e.heading();
    if d < 0.0 { d = -d }
    let w = 1.0 - d / PI;
    let (_, aph) = detection_score(&Label::Car, vec![PerceptionResult::new(e, Some(g))], 1, &MatchingMode::CenterDistance, 1.0);
    close(aph, w * w, 1);
    reach(1);
}
