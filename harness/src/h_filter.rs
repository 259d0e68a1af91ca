//! C02: filtering. Doubles are bit-precise: every f64 including NaN, infinities and -0.
use crate::h_common::*;
use perception_eval::filter::filter_objects;

const NAMES: [&str; 8] = ["unknown", "car", "truck", "bus", "bicycle", "motorbike", "pedestrian", "animal"];
fn label(i: u32) -> Label {
    [Label::Unknown, Label::Car, Label::Truck, Label::Bus, Label::Bicycle, Label::Motorbike, Label::Pedestrian, Label::Animal][i as usize].clone()
}
/// one object of any label, any lists of up to two target labels
#[no_mangle] #[inline(never)]
pub extern "C" fn h_filter_one() {
    let is_gt = choose(0, 2) == 1;
    let nt = choose(1, 3);
    let t: Vec<u32> = (0..nt).map(|i| choose(2 + i, 8)).collect();
    let names: Vec<&str> = t.iter().map(|i| NAMES[*i as usize]).collect();
    let l = choose(6, 8);
    let (mx, my) = (dbl(0), dbl(1));
    let p = [dbl(2), dbl(3), dbl(4)];
    let min = if choose(7, 2) == 1 { Some(bits(30, 64) as usize) } else { None };
    let pts = if choose(8, 2) == 1 { Some(bits(31, 64) as usize) } else { None };
    let params = FilterParams::new(&names, mx, my, min, None).unwrap();
    let mut o = tag_all(obj(p, label(l), 0.5, "e0"), 7);
    o.pointcloud_num = pts;
    let out = filter_objects(&[o.clone()], is_gt, &params);
    let mut keep = both(p[0].abs() < mx, p[1].abs() < my);
    keep = both(keep, t.contains(&l));
    if is_gt {
        if let (Some(a), Some(b)) = (min, pts) {
            keep = both(keep, a <= b);
        }
    }
    check((out.len() == 1) == keep, 1);
    check(out.len() <= 1, 2);
    if out.len() == 1 {
        reach(2);
        for i in 0..3 { check(out[0].position[i].to_bits() == p[i].to_bits(), 3) }
        // not a number differs from itself
        let mut c = out[0].clone();
        c.position = o.position;
        o.position = [0.0; 3];
        c.position = [0.0; 3];
        check(same_obj(&c, &o), 3);
    } else {
        reach(3);
    }
    reach(1);
}
/// uuid list: only ground truths whose uuid is listed are kept, estimations are not affected
#[no_mangle] #[inline(never)]
pub extern "C" fn h_filter_uuid() {
    let is_gt = choose(0, 2) == 1;
    let has = choose(1, 2) == 1;
    let nl = choose(2, 4);
    // uuids of two arbitrary bytes (ASCII)
    let ch = |id: u32| {
        let b = bits(id, 8) as u8;
        assume(b < 128);
        b
    };
    let mk = |id: u32| String::from_utf8(vec![ch(id), ch(id + 1)]).unwrap();
    let u = mk(40);
    let mut list: Option<Vec<String>> = if nl == 3 { None } else { Some((0..nl).map(|i| mk(42 + 2 * i)).collect()) };
    let mut o = obj([dbl(0), dbl(1), 0.0], Label::Car, 0.5, "");
    o.uuid = if has { Some(u.clone()) } else { None };
    let params = FilterParams::new(&vec!["car"], 10.0, 10.0, None, list.clone()).unwrap();
    let out = filter_objects(&[o.clone()], is_gt, &params);
    let mut keep = both(o.position[0].abs() < 10.0, o.position[1].abs() < 10.0);
    if is_gt {
        if let Some(v) = list.take() {
            let mut m = false;
            if has {
                for x in v {
                    let (x, y) = (x.as_bytes(), u.as_bytes());
                    m = either(m, both(x[0] == y[0], x[1] == y[1]));
                }
            }
            keep = both(keep, m);
        }
    }
    check((out.len() == 1) == keep, 1);
    if out.len() == 1 { reach(2) } else { reach(3) }
    reach(1);
}
/// a list of objects: order kept, every object judged on its own
#[no_mangle] #[inline(never)]
pub extern "C" fn h_filter_list() {
    let is_gt = choose(0, 2) == 1;
    let (mx, my) = (dbl(0), dbl(1));
    let min = bits(30, 64) as usize;
    let ls = [1u32, 6, 1];
    let params = FilterParams::new(&vec!["pedestrian", "car"], mx, my, Some(min), None).unwrap();
    let mut v = vec![];
    let mut keep = vec![];
    for i in 0..3u32 {
        let p = [dbl(2 + 2 * i), dbl(3 + 2 * i), 0.0];
        let mut o = tag_all(obj(p, label(ls[i as usize]), 0.5, &format!("e{}", i)), i);
        let n = bits(31 + i, 64) as usize;
        o.pointcloud_num = Some(n);
        v.push(o);
        keep.push(both(both(p[0].abs() < mx, p[1].abs() < my), either(!is_gt, min <= n)));
    }
    let out = filter_objects(&v, is_gt, &params);
    let mut k = 0;
    for i in 0..3 {
        let here = k < out.len() && idx(&out[k], "e", 3) == Some(i);
        check(here == keep[i], 1);
        if here {
            let (mut a, mut b) = (out[k].clone(), v[i].clone());
            for x in 0..3 { check(a.position[x].to_bits() == b.position[x].to_bits(), 4) }
            a.position = [0.0; 3];
            b.position = [0.0; 3];
            check(same_obj(&a, &b), 4);
            k += 1;
        }
    }
    check(k == out.len(), 2);
    if k == 2 { reach(2) }
    // filtering twice changes nothing
    check(filter_objects(&out, is_gt, &params).len() == out.len(), 3);
    reach(1);
}
/// unusual: the same label listed twice (truck and trailer are the same label)
#[no_mangle] #[inline(never)]
pub extern "C" fn h_filter_dup() {
    let (mx, my) = (dbl(0), dbl(1));
    let p = [dbl(2), dbl(3), 0.0];
    let params = FilterParams::new(&vec!["truck", "car", "trailer"], mx, my, None, None).unwrap();
    let l = choose(0, 8);
    let out = filter_objects(&[obj(p, label(l), 0.5, "e0")], choose(1, 2) == 1, &params);
    let keep = both(both(p[0].abs() < mx, p[1].abs() < my), l == 1 || l == 2);
    check((out.len() == 1) == keep, 1);
    reach(1);
}
/// uuids of 0-3 characters and lists of one or two of them
#[no_mangle] #[inline(never)]
pub extern "C" fn h_filter_texts() {
    let is_gt = choose(0, 2) == 1;
    let mk = |id: u32| {
        let n = choose(id, 4);
        String::from_utf8((0..n).map(|i| { let b = bits(id + 1 + i, 8) as u8; assume(b < 128); b }).collect()).unwrap()
    };
    let u = mk(10);
    let list: Vec<String> = if choose(1, 2) == 0 { vec![mk(20)] } else { vec!["ab".into(), mk(20)] };
    let mut o = obj([1.0, 2.0, 0.0], Label::Car, 0.5, "");
    o.uuid = Some(u.clone());
    let params = FilterParams::new(&vec!["car"], 10.0, 10.0, None, Some(list.clone())).unwrap();
    let out = filter_objects(&[o], is_gt, &params);
    let mut keep = !is_gt;
    for x in &list {
        let (x, y) = (x.as_bytes(), u.as_bytes());
        let mut m = x.len() == y.len();
        if m { for i in 0..x.len() { m = both(m, x[i] == y[i]) } }
        keep = either(keep, m);
    }
    check((out.len() == 1) == keep, 1);
    if out.len() == 1 { reach(2) } else { reach(3) }
    reach(1);
}
/// objects that are equal are judged one by one
#[no_mangle] #[inline(never)]
pub extern "C" fn h_filter_twin() {
    let is_gt = choose(0, 2) == 1;
    let (mx, my) = (dbl(0), dbl(1));
    let p = [dbl(2), dbl(3), 0.0];
    let params = FilterParams::new(&vec!["car"], mx, my, None, None).unwrap();
    let mut o = obj(p, Label::Car, 0.5, "e0");
    if choose(1, 2) == 1 { o.uuid = None }
    let mut far = o.clone();
    far.position = [dbl(4), 0.0, 0.0];
    let out = filter_objects(&[o.clone(), far, o.clone(), o], is_gt, &params);
    let near = both(p[0].abs() < mx, p[1].abs() < my);
    let other = both(dbl(4).abs() < mx, 0.0 < my);
    let want = (if near { 3 } else { 0 }) + other as usize;
    check(out.len() == want, 1);
    if out.len() == 3 { reach(2) }
    reach(1);
}
