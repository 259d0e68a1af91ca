//! C06-C08: distances, plane distance, IoU, footprints
use crate::h_common::*;
use perception_eval::verif::matching_score;

fn at(p: [f64; 3]) -> DynamicObject {
    obj(p, Label::Car, 1.0, "o")
}
fn p3(id: u32) -> [f64; 3] {
    [real(id), real(id + 1), real(id + 2)]
}
/// center distance is the Euclidean metric
#[no_mangle] #[inline(never)]
pub extern "C" fn h_center() {
    let (p, q) = (p3(0), p3(10));
    let (a, b) = (at(p), at(q));
    let s = matching_score(&MatchingMode::CenterDistance, &a, &b);
    obs(1, s);
    check(s >= 0.0, 1);
    close(s * s, d2(&p, &q), 2);
    close(s, matching_score(&MatchingMode::CenterDistance, &b, &a), 3);
    check((s == 0.0) == (p == q), 4);
    close(a.distance_from(&q), s, 5);
    let d = a.distance();
    check(d >= 0.0, 6);
    close(d * d, d2(&p, &[0.0; 3]), 6);
    let d = a.distance_bev();
    check(d >= 0.0, 7);
    close(d * d, sq(p[0]) + sq(p[1]), 7);
    let d = a.distance_bev_from(&q);
    check(d >= 0.0, 8);
    close(d * d, sq(p[0] - q[0]) + sq(p[1] - q[1]), 8);
    reach(1);
}
/// better than the threshold: strictly nearer
#[no_mangle] #[inline(never)]
pub extern "C" fn h_center_thr() {
    let (p, q) = ([real(0), real(1), 0.0], [0.0, 0.0, real(2)]);
    let t = real(3);
    let r = PerceptionResult::new(at(p), Some(at(q)));
    let ok = r.is_result_correct(&MatchingMode::CenterDistance, &t).unwrap();
    check(ok == both(t > 0.0, d2(&p, &q) < t * t), 1);
    let r = PerceptionResult::new(at(p), None);
    check(!r.is_result_correct(&MatchingMode::CenterDistance, &t).unwrap(), 2);
    check(!r.is_label_correct(), 3);
    if ok { reach(2) } else { reach(3) }
    reach(1);
}
/// corners of a box, by the definition
fn corners(o: &DynamicObject, c: f64, s: f64) -> Vec<[f64; 2]> {
    [(1.0, 1.0), (-1.0, 1.0), (-1.0, -1.0), (1.0, -1.0)]
        .iter()
        .map(|(i, j)| {
            let r = rot2(c, s, i * o.size[1] * 0.5, j * o.size[0] * 0.5);
            [r[0] + o.position[0], r[1] + o.position[1]]
        })
        .collect()
}
/// a few rational half angles (cosine, sine); the quaternion about the vertical axis
fn half(k: usize) -> (f64, f64) {
    let (c, s, d) = [(1, 0, 1), (4, 3, 5), (3, 4, 5), (12, -5, 13), (0, 1, 1)][k];
    (rat(c, d), rat(s, d))
}
/// cosine and sine of the yaw
fn yaw(k: usize) -> (f64, f64) {
    let (c, s, d) = [(1, 0, 1), (7, 24, 25), (-7, 24, 25), (119, -120, 169), (-1, 0, 1)][k];
    (rat(c, d), rat(s, d))
}
fn yaw_q(k: usize) -> [f64; 4] {
    let (c, s) = half(k);
    [c, 0.0, 0.0, s]
}
/// the footprint of an object of any yaw, size and place
#[no_mangle] #[inline(never)]
pub extern "C" fn h_footprint_yaw() {
    let a = angle(0);
    let mut o = at(p3(0));
    o.orientation = [a[0], 0.0, 0.0, a[1]];
    o.size = [real(10), real(11), real(12)];
    let (c, s) = (a[0] * a[0] - a[1] * a[1], 2.0 * a[0] * a[1]);
    let f = o.footprint();
    check(f.len() == 4, 1);
    let r = corners(&o, c, s);
    for i in 0..4 {
        close(f[i][0], r[i][0], 2);
        close(f[i][1], r[i][1], 3);
        close(f[i][2], o.position[2], 4);
    }
    reach(1);
}
/// the footprint of any attitude: a rectangle with the object's sides around its center
#[no_mangle] #[inline(never)]
pub extern "C" fn h_footprint_any() {
    let mut o = at(p3(0));
    o.orientation = unit4(0);
    o.size = [real(10), real(11), real(12)];
    let f = o.footprint();
    for i in 0..3 {
        close(f[0][i] + f[2][i], 2.0 * o.position[i], 1);
        close(f[1][i] + f[3][i], 2.0 * o.position[i], 2);
        // x axis of the object, from the quaternion
        let q = o.orientation;
        let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
        let ax = [w * w + x * x - y * y - z * z, 2.0 * (x * y + w * z), 2.0 * (x * z - w * y)];
        let ay = [2.0 * (x * y - w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z + w * x)];
        close(f[0][i] - f[1][i], o.size[1] * ax[i], 3);
        close(f[0][i] - f[3][i], o.size[0] * ay[i], 4);
    }
    close(d2(&f[0], &f[1]), sq(o.size[1]), 5);
    close(d2(&f[0], &f[3]), sq(o.size[0]), 6);
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_area() {
    let mut o = at([0.0; 3]);
    o.size = [real(10), real(11), real(12)];
    close(o.area(), o.size[0] * o.size[1], 1);
    close(o.volume(), o.size[0] * o.size[1] * o.size[2], 2);
    reach(1);
}
/// the two corners nearest to the origin, left one first; None if not unique
fn near(c: &[[f64; 2]]) -> Option<([f64; 2], [f64; 2])> {
    let mut o: Vec<usize> = vec![];
    let d: Vec<f64> = c.iter().map(|p| p[0] * p[0] + p[1] * p[1]).collect();
    for i in 0..4 {
        let mut p = 0;
        while p < o.len() && d[o[p]] <= d[i] { p += 1 }
        o.insert(p, i);
    }
    if d[o[1]] == d[o[2]] { return None }
    let (a, b) = (c[o[0]], c[o[1]]);
    let cross = a[0] * b[1] - a[1] * b[0];
    if cross == 0.0 { None } else if cross < 0.0 { Some((a, b)) } else { Some((b, a)) }
}
fn plane(ka: usize, kb: usize, pa: [f64; 3], pb: [f64; 3]) {
    let (mut a, mut b) = (at(pa), at(pb));
    a.orientation = yaw_q(ka);
    b.orientation = yaw_q(kb);
    b.size = [1.0, 2.0, 1.5];
    let ca = near(&corners(&a, yaw(ka).0, yaw(ka).1));
    let cb = near(&corners(&b, yaw(kb).0, yaw(kb).1));
    let (ca, cb) = match (ca, cb) { (Some(x), Some(y)) => (x, y), _ => { assume(false); return } };
    let e = |p: [f64; 2], q: [f64; 2]| sq(p[0] - q[0]) + sq(p[1] - q[1]);
    let s = matching_score(&MatchingMode::PlaneDistance, &a, &b);
    obs(1, s);
    check(s >= 0.0, 1);
    close(s * s, (e(ca.0, cb.0) + e(ca.1, cb.1)) * 0.5, 2);
    close(s, matching_score(&MatchingMode::PlaneDistance, &b, &a), 3);
    reach(1);
}
/// both on the ground anywhere, yaws out of a table (16 pairs)
#[no_mangle] #[inline(never)]
pub extern "C" fn h_plane() {
    let k = shard(0, 16) as usize;
    plane(k / 4, k % 4, [real(0), real(1), real(2)], [real(10), real(11), real(12)]);
}
/// boxes of any size, ahead of and beside the ego vehicle
#[no_mangle] #[inline(never)]
pub extern "C" fn h_plane_size() {
    let k = shard(0, 6) as usize;
    let (mut a, mut b) = (at([[12.0, 1.0, 0.5], [-3.0, 9.0, 0.0], [2.0, -14.0, 1.0]][k % 3]), at([[10.0, -0.5, 0.0], [-2.5, 11.0, 0.5], [1.0, -12.0, 0.0]][k % 3]));
    let q = if k < 3 { 0 } else { 1 };
    a.orientation = yaw_q(q);
    b.orientation = yaw_q(2 * q);
    a.size = [real_in(1, 0.1, 5.0), real_in(2, 0.1, 5.0), 1.0];
    b.size = [1.0, 2.0, 1.5];
    if q == 0 { b.size[1] = real_in(3, 0.1, 5.0) }
    let (ca, cb) = match (near(&corners(&a, yaw(q).0, yaw(q).1)), near(&corners(&b, yaw(2 * q).0, yaw(2 * q).1))) { (Some(x), Some(y)) => (x, y), _ => { assume(false); return } };
    let e = |p: [f64; 2], q: [f64; 2]| sq(p[0] - q[0]) + sq(p[1] - q[1]);
    let s = matching_score(&MatchingMode::PlaneDistance, &a, &b);
    obs(1, s);
    check(s >= 0.0, 1);
    close(s * s, (e(ca.0, cb.0) + e(ca.1, cb.1)) * 0.5, 2);
    close(s, matching_score(&MatchingMode::PlaneDistance, &b, &a), 3);
    reach(1);
}
/// an object has plane distance 0 from itself
#[no_mangle] #[inline(never)]
pub extern "C" fn h_plane_self() {
    let mut a = at(p3(0));
    a.orientation = yaw_q(choose(1, 4) as usize);
    let s = matching_score(&MatchingMode::PlaneDistance, &a, &a.clone());
    close(s, 0.0, 1);
    reach(1);
}
/// boxes aligned with the axes, the second one shifted
fn overlap(a0: f64, a1: f64, b0: f64, b1: f64) -> f64 {
    let lo = if a0 > b0 { a0 } else { b0 };
    let hi = if a1 < b1 { a1 } else { b1 };
    if hi > lo { hi - lo } else { 0.0 }
}
fn iou(a: &DynamicObject, b: &DynamicObject, along_x: bool) {
    let h = |o: &DynamicObject, i: usize| {
        let l = if i == 2 { o.size[2] } else if (i == 0) == along_x { o.size[1] } else { o.size[0] };
        (o.position[i] - l * 0.5, o.position[i] + l * 0.5)
    };
    let ov = |i| { let (p, q) = (h(a, i), h(b, i)); overlap(p.0, p.1, q.0, q.1) };
    let (x, y, z) = (ov(0), ov(1), ov(2));
    let s2 = matching_score(&MatchingMode::Iou2d, a, b);
    let s3 = matching_score(&MatchingMode::Iou3d, a, b);
    obs(1, s2);
    obs(2, s3);
    let (fa, fb) = (a.size[0] * a.size[1], b.size[0] * b.size[1]);
    close(s2 * (fa + fb - x * y), x * y, 1);
    close(s3 * (fa * a.size[2] + fb * b.size[2] - x * y * z), x * y * z, 2);
    check(s2 >= 0.0 && s2 <= 1.0, 3);
    check(s3 >= 0.0 && s3 <= 1.0, 4);
    if x * y > 0.0 { reach(2) } else { reach(3) }
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_iou_x() {
    let a = at([0.0; 3]);
    let mut b = at([real(0), 0.5, 0.25]);
    b.size = [1.0, 3.0, 2.0];
    iou(&a, &b, true);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_iou_z() {
    let a = at([0.0; 3]);
    let mut b = at([0.5, 0.25, real(0)]);
    b.size = [1.0, 3.0, real_in(1, 0.1, 10.0)];
    iou(&a, &b, true);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_iou_xy() {
    let a = at([0.0; 3]);
    let mut b = at([real(0), real(1), 0.25]);
    b.size = [1.0, 3.0, 2.0];
    iou(&a, &b, true);
}
/// boxes anywhere, one of whose sides has any length
#[no_mangle] #[inline(never)]
pub extern "C" fn h_iou_size() {
    let k = shard(0, 4) as usize;
    let p = [3.0, -2.0, 1.0];
    let mut a = at(p);
    let mut b = at([p[0] + 0.5, p[1] + 0.25, p[2] - 0.5]);
    b.size = [1.0, 3.0, 2.0];
    let v = real_in(1, 0.1, 20.0);
    if k < 2 { a.size[k] = v } else { b.size[k - 2] = v }
    iou(&a, &b, true);
}
/// both boxes anywhere
#[no_mangle] #[inline(never)]
pub extern "C" fn h_iou_at() {
    let k = shard(0, 3) as usize;
    let mut p = [3.0, -2.0, 1.0];
    p[k] = real(5);
    let a = at(p);
    let mut q = [p[0] + 0.5, p[1] + 0.25, p[2] - 0.5];
    q[(k + 1) % 3] = p[(k + 1) % 3] + real_in(6, -5.0, 5.0);
    let mut b = at(q);
    b.size = [1.0, 3.0, 2.0];
    iou(&a, &b, true);
}
/// two boxes turned alike, shifted along or across
#[no_mangle] #[inline(never)]
pub extern "C" fn h_iou_both() {
    let k = shard(0, 4) as usize;
    let t = [1, 1, 2, 3][k];
    let (c, s) = yaw(t);
    let d = real_in(0, -6.0, 6.0);
    // a: 4 long and 2 wide; b: 3 long and 1 wide
    let (u, v) = if k % 2 == 0 { (d, 0.25) } else { (0.75, d) };
    let m = rot2(c, s, u, v);
    let mut a = at([3.0, -2.0, 1.0]);
    let mut b = at([3.0 + m[0], m[1] - 2.0, 0.5]);
    b.size = [1.0, 3.0, 2.0];
    a.orientation = yaw_q(t);
    b.orientation = yaw_q(t);
    let i = overlap(-2.0, 2.0, u - 1.5, u + 1.5) * overlap(-1.0, 1.0, v - 0.5, v + 0.5);
    let z = overlap(0.25, 1.75, -0.5, 1.5);
    let s2 = matching_score(&MatchingMode::Iou2d, &a, &b);
    let s3 = matching_score(&MatchingMode::Iou3d, &a, &b);
    obs(1, s2);
    close(s2 * (11.0 - i), i, 1);
    close(s3 * (18.0 - i * z), i * z, 2);
    check(s2 >= 0.0 && s2 <= 1.0, 5);
    check(s3 >= 0.0 && s3 <= 1.0, 6);
    if i > 0.0 { reach(2) } else { reach(3) }
    reach(1);
}
/// area of the part of a convex polygon inside the box |x - cx| <= hx, |y - cy| <= hy
fn clipped(mut p: Vec<[f64; 2]>, c: [f64; 2], h: [f64; 2]) -> f64 {
    for (axis, sign) in [(0usize, 1.0), (0, -1.0), (1, 1.0), (1, -1.0)] {
        // inside: d >= 0
        let d = |q: &[f64; 2]| h[axis] - sign * (q[axis] - c[axis]);
        let mut r = vec![];
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            let (da, db) = (d(&a), d(&b));
            if da >= 0.0 { r.push(a) }
            if (da > 0.0 && db < 0.0) || (da < 0.0 && db > 0.0) {
                let t = da / (da - db);
                r.push([a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]);
            }
        }
        p = r;
    }
    let mut s = 0.0;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        s += a[0] * b[1] - a[1] * b[0];
    }
    if s < 0.0 { -s * 0.5 } else { s * 0.5 }
}
/// a turned box against one aligned with the axes
fn iou_turned(k: usize, pb: [f64; 3]) {
    let mut a = at([0.0; 3]);
    a.size = [2.0, 4.0, 1.5];
    let mut b = at(pb);
    b.size = [1.0, 3.0, 2.0];
    b.orientation = yaw_q(k);
    let (c, s) = yaw(k);
    let i = clipped(corners(&b, c, s), [0.0, 0.0], [2.0, 1.0]);
    let z = overlap(-0.75, 0.75, pb[2] - 1.0, pb[2] + 1.0);
    let s2 = matching_score(&MatchingMode::Iou2d, &a, &b);
    let s3 = matching_score(&MatchingMode::Iou3d, &a, &b);
    obs(1, s2);
    close(s2 * (11.0 - i), i, 1);
    close(s3 * (18.0 - i * z), i * z, 2);
    close(matching_score(&MatchingMode::Iou2d, &b, &a), s2, 3);
    close(matching_score(&MatchingMode::Iou3d, &b, &a), s3, 4);
    check(s2 >= 0.0 && s2 <= 1.0, 5);
    check(s3 >= 0.0 && s3 <= 1.0, 6);
    if i > 0.0 { reach(2) } else { reach(3) }
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_iou_turned() {
    let k = shard(0, 8) as usize;
    iou_turned(1 + k % 4, [real(0), if k < 4 { 0.3 } else { 1.1 }, 0.25]);
}
/// thresholds of the four modes: distances strictly below, overlaps strictly above
#[no_mangle] #[inline(never)]
pub extern "C" fn h_modes() {
    let t = real(3);
    let a = at([real_in(0, 5.0, 50.0), 0.0, 0.0]);
    let b = at([20.0, 0.0, 0.25]);
    let r = PerceptionResult::new(a.clone(), Some(b.clone()));
    let k = choose(1, 4);
    let m = [MatchingMode::CenterDistance, MatchingMode::PlaneDistance, MatchingMode::Iou2d, MatchingMode::Iou3d][k as usize].clone();
    let s = matching_score(&m, &a, &b);
    let ok = r.is_result_correct(&m, &t).unwrap();
    check(ok == if k < 2 { s < t } else { s > t }, 1);
    check(!PerceptionResult::new(a, None).is_result_correct(&m, &t).unwrap(), 2);
    if ok { reach(2) } else { reach(3) }
    reach(1);
}
/// an object coincides with itself
#[no_mangle] #[inline(never)]
pub extern "C" fn h_iou_self() {
    let k = choose(1, 5) as usize;
    let mut a = at([real(0), 2.0, -1.0]);
    a.orientation = yaw_q(k);
    close(matching_score(&MatchingMode::Iou2d, &a, &a.clone()), 1.0, 1);
    close(matching_score(&MatchingMode::Iou3d, &a, &a.clone()), 1.0, 2);
    reach(1);
}
