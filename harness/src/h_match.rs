//! C01: matching of estimations and ground truths
use crate::h_common::*;

/// the clauses of the property, for any positions
fn matching(est: Vec<DynamicObject>, gt: Vec<DynamicObject>) {
    let (n, m) = (est.len(), gt.len());
    let est: Vec<_> = est.into_iter().enumerate().map(|(i, o)| DynamicObject { confidence: real(70 + i as u32), ..tag_all(o, i as u32) }).collect();
    let gt: Vec<_> = gt.into_iter().enumerate().map(|(i, o)| tag_all(o, 10 + i as u32)).collect();
    let results = get_perception_results(&est, &gt);
    check(results.len() == n, 1);
    let mut of_est = vec![None; n];
    let mut seen = vec![false; n];
    let mut of_gt = vec![None; m];
    for r in &results {
        let i = idx(&r.estimated_object, "e", n);
        check(i.is_some(), 2);
        let i = i.unwrap_or(0);
        // every estimation is reported exactly once, unchanged
        check(!seen[i], 3);
        seen[i] = true;
        check(same_obj(&r.estimated_object, &est[i]), 4);
        if let Some(g) = &r.ground_truth_object {
            let j = idx(g, "g", m);
            check(j.is_some(), 5);
            let j = j.unwrap_or(0);
            check(same_obj(g, &gt[j]), 4);
            // a ground truth is used at most once
            check(of_gt[j].is_none(), 6);
            of_gt[j] = Some(i);
            of_est[i] = Some(j);
            check(est[i].label == gt[j].label, 7);
        }
    }
    for i in 0..n {
        for j in 0..m {
            if est[i].label != gt[j].label {
                continue;
            }
            // nothing that could be matched is left over
            check(of_est[i].is_some() || of_gt[j].is_some(), 8);
            if of_est[i] != Some(j) {
                // a pair is passed over only for a pair of one of the two that is at least as near
                let s = d2(&est[i].position, &gt[j].position);
                let a = of_est[i].map_or(false, |k| d2(&est[i].position, &gt[k].position) <= s);
                let b = of_gt[j].map_or(false, |k| d2(&est[k].position, &gt[j].position) <= s);
                check(either(a, b), 9);
            } else {
                reach(3);
            }
        }
    }
    if of_est.iter().any(|x| x.is_none()) {
        reach(2);
    }
    reach(1);
}
const L: [Label; 3] = [Label::Car, Label::Pedestrian, Label::Bus];
fn x3(id: u32) -> [f64; 3] {
    [real(id), real(id + 1), real(id + 2)]
}
fn x1(id: u32) -> [f64; 3] {
    [real(id), 0.0, 0.0]
}
/// positions in space, up to 2 estimations and 2 ground truths, any labels out of two
fn space(n: usize, m: usize, full: bool) {
    let pe = |id: u32| if full { x3(id) } else { [real(id), real(id + 1), 0.0] };
    let pg = |id: u32| if full { x3(id) } else { [real(id), 0.0, 1.5] };
    let est = (0..n).map(|i| obj(pe(3 * i as u32), L[choose(10 + i as u32, 2) as usize].clone(), 0.5, &format!("e{}", i))).collect();
    let gt = (0..m).map(|i| obj(pg(20 + 3 * i as u32), L[choose(20 + i as u32, 2) as usize].clone(), 1.0, &format!("g{}", i))).collect();
    matching(est, gt);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_2x2() {
    let k = shard(0, 9) as usize;
    space(k / 3, k % 3, k / 3 + k % 3 <= 3);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_2x2_full() {
    space(2, 2, true);
}
/// any of all eight labels
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_kinds() {
    let (n, m) = [(1, 1), (2, 1), (1, 2)][shard(0, 3) as usize];
    let est = (0..n).map(|i| obj(x1(i as u32), any_label(10 + i as u32), 0.5, &format!("e{}", i))).collect();
    let gt = (0..m).map(|i| obj(x1(20 + i as u32), any_label(20 + i as u32), 1.0, &format!("g{}", i))).collect();
    matching(est, gt);
}
/// positions on a line, equal labels
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_line() {
    let k = shard(0, 4) as usize;
    let (n, m) = [(3, 2), (2, 3), (3, 1), (1, 3)][k];
    let est = (0..n).map(|i| obj(x1(i as u32), Label::Car, 0.5, &format!("e{}", i))).collect();
    let gt = (0..m).map(|i| obj(x1(20 + i as u32), Label::Car, 1.0, &format!("g{}", i))).collect();
    matching(est, gt);
}
/// three of each on a line
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_3x3() {
    let est = (0..3).map(|i| obj(x1(i as u32), Label::Car, 0.5, &format!("e{}", i))).collect();
    let gt = (0..3).map(|i| obj(x1(20 + i as u32), Label::Car, 1.0, &format!("g{}", i))).collect();
    matching(est, gt);
}
/// three of each on a line, labels differ
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_labels() {
    let k = shard(0, 6);
    let l = |i: u32| L[i as usize].clone();
    let (le, lg) = [
        ([0, 0, 1], [0, 1, 1]),
        ([0, 1, 2], [2, 0, 1]),
        ([0, 1, 0], [0, 0, 1]),
        ([0, 0, 0], [1, 0, 1]),
        ([1, 0, 1], [2, 0, 0]),
        ([2, 2, 1], [2, 0, 2]),
    ][k as usize];
    let est = (0..3).map(|i| obj(x1(i as u32), l(le[i]), 0.5, &format!("e{}", i))).collect();
    let gt = (0..3).map(|i| obj(x1(20 + i as u32), l(lg[i]), 1.0, &format!("g{}", i))).collect();
    matching(est, gt);
}
/// the order of the input lists does not matter
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_order() {
    let est: Vec<_> = (0..2).map(|i| obj(x1(i as u32), Label::Car, 0.5, &format!("e{}", i))).collect();
    let gt: Vec<_> = (0..2).map(|i| obj(x1(20 + i as u32), Label::Car, 1.0, &format!("g{}", i))).collect();
    // all scores differ
    for (a, b) in [((0, 0), (0, 1)), ((0, 0), (1, 0)), ((0, 0), (1, 1)), ((0, 1), (1, 0)), ((0, 1), (1, 1)), ((1, 0), (1, 1))] {
        let f = |p: (usize, usize)| d2(&est[p.0].position, &gt[p.1].position);
        assume(f(a) != f(b));
    }
    let pairs = |r: Vec<PerceptionResult>| {
        let mut v = [None; 2];
        for x in &r {
            if let (Some(i), Some(g)) = (idx(&x.estimated_object, "e", 2), &x.ground_truth_object) {
                v[i] = idx(g, "g", 2);
            }
        }
        v
    };
    let a = pairs(get_perception_results(&est, &gt));
    let (er, gr): (Vec<_>, Vec<_>) = (est.iter().rev().cloned().collect(), gt.iter().rev().cloned().collect());
    let b = pairs(get_perception_results(&er, &gt));
    let c = pairs(get_perception_results(&est, &gr));
    check(a == b, 1);
    check(a == c, 2);
    reach(1);
}
/// more objects, two of them anywhere on a line among fixed ones
fn many(k: usize) {
    let (n, m, le, lg): (usize, usize, &[usize], &[usize]) = [
        (6, 5, &[0, 0, 0, 0, 0, 0][..], &[0, 0, 0, 0, 0][..]),
        (5, 7, &[0, 1, 0, 1, 2], &[1, 0, 0, 1, 0, 2, 1]),
        (8, 2, &[0, 0, 0, 1, 1, 0, 2, 0], &[0, 0]),
        (4, 4, &[2, 0, 2, 0], &[0, 2, 0, 2]),
        (18, 17, &[0; 18], &[0; 17]),
    ][k];
    let est = (0..n).map(|i| {
        let x = if i == 2 && n > 8 { real_in(2, 20.0, 26.0) } else if i == 2 { real(2) } else { 3.0 * (if n > 8 { i } else { (5 * i) % 8 }) as f64 + 0.125 * i as f64 };
        obj([x, 1.0, 0.0], L[le[i]].clone(), 0.5, &format!("e{}", i))
    }).collect();
    let gt = (0..m).map(|i| {
        let x = if i == 1 && k > 0 && n <= 8 { real(20) } else { 2.75 * (if n > 8 { i } else { (3 * i) % 7 }) as f64 };
        obj([x, 1.0, 0.0], L[lg[i]].clone(), 1.0, &format!("g{}", i))
    }).collect();
    matching(est, gt);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_many() {
    many(shard(0, 5) as usize);
}
/// objects without uuid, or sharing one
#[no_mangle] #[inline(never)]
pub extern "C" fn h_match_same() {
    let (n, m) = [(2, 2), (3, 1), (1, 3)][shard(0, 3) as usize];
    let u = [None, Some("same".to_string())][choose(1, 2) as usize].clone();
    let mk = |x: f64, k: usize| { let mut o = obj([x, 0.0, 0.0], Label::Car, 0.5, ""); o.uuid = u.clone(); o.pointcloud_num = Some(k); o };
    let est: Vec<_> = (0..n).map(|i| mk(real(i as u32), i)).collect();
    let gt: Vec<_> = (0..m).map(|i| mk(real(20 + i as u32), 10 + i)).collect();
    let r = get_perception_results(&est, &gt);
    check(r.len() == n, 1);
    let mut pairs = 0;
    let (mut se, mut sg) = (vec![false; n], vec![false; m]);
    for x in &r {
        let i = x.estimated_object.pointcloud_num.unwrap();
        check(i < n && !se[i], 2);
        se[i] = true;
        check(same_obj(&x.estimated_object, &est[i]), 3);
        if let Some(g) = &x.ground_truth_object {
            let j = g.pointcloud_num.unwrap() - 10;
            check(j < m && !sg[j], 4);
            sg[j] = true;
            check(same_obj(g, &gt[j]), 5);
            pairs += 1;
        }
    }
    check(pairs == n.min(m), 6);
    reach(1);
}
