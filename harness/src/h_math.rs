//! C09: rotations and quaternions
use crate::sym::*;
use perception_eval::utils::math::*;

fn p3(id: u32) -> [f64; 3] {
    [real(id), real(id + 1), real(id + 2)]
}
/// p + 2w (v x p) + 2 v x (v x p)
fn turned(p: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    let c = [y * p[2] - z * p[1], z * p[0] - x * p[2], x * p[1] - y * p[0]];
    let d = [y * c[2] - z * c[1], z * c[0] - x * c[2], x * c[1] - y * c[0]];
    [p[0] + 2.0 * w * c[0] + 2.0 * d[0], p[1] + 2.0 * w * c[1] + 2.0 * d[1], p[2] + 2.0 * w * c[2] + 2.0 * d[2]]
}
/// rotate() is the rotation by the quaternion (column convention)
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rot_direction() {
    let q = unit4(0);
    let p = p3(0);
    let r = rotate(&p, &q);
    let e = turned(&p, &q);
    for i in 0..3 {
        obs(i as u32, r[i]);
        close(r[i], e[i], i as u32);
    }
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rot_norm() {
    let q = unit4(0);
    let p = p3(0);
    let r = rotate(&p, &q);
    close(r[0] * r[0] + r[1] * r[1] + r[2] * r[2], p[0] * p[0] + p[1] * p[1] + p[2] * p[2], 1);
    reach(1);
}
/// rotate_inv undoes rotate, both ways; translate_inv undoes translate
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rot_inverse() {
    let q = unit4(0);
    let p = p3(0);
    let r = rotate_inv(&rotate(&p, &q), &q);
    let s = rotate(&rotate_inv(&p, &q), &q);
    let n = rotate(&p, &inverse_quaternion(&q));
    let m = rotate_inv(&p, &q);
    let t = p3(10);
    let u = translate_inv(&translate(&p, &t), &t);
    let v = translate(&p, &t);
    for i in 0..3 {
        close(r[i], p[i], 1);
        close(s[i], p[i], 2);
        close(n[i], m[i], 3);
        close(u[i], p[i], 4);
        close(v[i], p[i] + t[i], 5);
    }
    reach(1);
}
/// the rotation matrix is orthogonal with determinant 1, and q and -q are the same rotation
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rot_matrix() {
    let q = unit4(0);
    let m = quaternion2rotation(&q);
    let n = quaternion2rotation(&[-q[0], -q[1], -q[2], -q[3]]);
    for i in 0..3 {
        for j in 0..3 {
            let d = m[(i, 0)] * m[(j, 0)] + m[(i, 1)] * m[(j, 1)] + m[(i, 2)] * m[(j, 2)];
            close(d, if i == j { 1.0 } else { 0.0 }, 1);
            close(m[(i, j)], n[(i, j)], 2);
        }
    }
    let det = m[(0, 0)] * (m[(1, 1)] * m[(2, 2)] - m[(1, 2)] * m[(2, 1)])
        - m[(0, 1)] * (m[(1, 0)] * m[(2, 2)] - m[(1, 2)] * m[(2, 0)])
        + m[(0, 2)] * (m[(1, 0)] * m[(2, 1)] - m[(1, 1)] * m[(2, 0)]);
    close(det, 1.0, 3);
    // columns are the turned axes
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let t = turned(&e, &q);
        for i in 0..3 { close(m[(i, j)], t[i], 4) }
    }
    reach(1);
}
/// q * inverse(q) = 1, for any quaternion but 0
#[no_mangle] #[inline(never)]
pub extern "C" fn h_quat_inverse() {
    let q = [real(0), real(1), real(2), real(3)];
    assume(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] > 0.0);
    let i = inverse_quaternion(&q);
    for r in [rotate_q(&q, &i), rotate_q(&i, &q), rotate_q_inv(&q, &q)] {
        close(r[0], 1.0, 1);
        for k in 1..4 { close(r[k], 0.0, 2) }
    }
    reach(1);
}
/// composing quaternions composes the rotations
#[no_mangle] #[inline(never)]
pub extern "C" fn h_quat_compose() {
    let (a, b) = (unit4(0), unit4(1));
    let c = rotate_q(&a, &b);
    close(c[0] * c[0] + c[1] * c[1] + c[2] * c[2] + c[3] * c[3], 1.0, 1);
    // first a, then b
    let r = [
        b[0] * a[0] - b[1] * a[1] - b[2] * a[2] - b[3] * a[3],
        b[0] * a[1] + b[1] * a[0] + b[2] * a[3] - b[3] * a[2],
        b[0] * a[2] - b[1] * a[3] + b[2] * a[0] + b[3] * a[1],
        b[0] * a[3] + b[1] * a[2] - b[2] * a[1] + b[3] * a[0],
    ];
    for i in 0..4 { close(c[i], r[i], 2) }
    let d = rotate_q_inv(&c, &b);
    for i in 0..4 { close(d[i], a[i], 3) }
    reach(1);
}
/// the same, seen on a point
#[no_mangle] #[inline(never)]
pub extern "C" fn h_quat_point() {
    let (a, b) = (unit4(0), unit4(1));
    let p = [1.0, -2.0, 3.0];
    let l = rotate(&p, &rotate_q(&a, &b));
    let r = rotate(&rotate(&p, &a), &b);
    for i in 0..3 { close(l[i], r[i], 1) }
    reach(1);
}
/// Euler angles of turns about a single axis
#[no_mangle] #[inline(never)]
pub extern "C" fn h_euler_axis() {
    let a = angle(0);
    let e = quaternion2euler(&[a[0], 0.0, 0.0, a[1]]);
    close(e[0], 0.0, 1);
    close(e[1], 0.0, 2);
    close(e[2], 2.0 * a[2], 3);
    let e = quaternion2euler(&[a[0], a[1], 0.0, 0.0]);
    close(e[0], 2.0 * a[2], 4);
    close(e[1], 0.0, 5);
    close(e[2], 0.0, 6);
    reach(1);
}
/// roll and yaw of any attitude are the directions the definition names
#[no_mangle] #[inline(never)]
pub extern "C" fn h_euler_any() {
    let q = unit4(0);
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    let e = quaternion2euler(&q);
    let (ry, rx) = (2.0 * (w * x + y * z), w * w - x * x - y * y + z * z);
    let (yy, yx) = (2.0 * (w * z + x * y), w * w + x * x - y * y - z * z);
    assume(ry != 0.0);
    assume(yy != 0.0);
    close(e[0], ry.atan2(rx), 1);
    close(e[2], yy.atan2(yx), 2);
    reach(1);
}
