//! C10 / C11: datasets
use crate::h_common::*;
use perception_eval::dataset::{load_dataset, nuscenes::NuScenes};
use perception_eval::utils::math::rotate_inv;

/// 32 hex digits: kind, then the number
pub fn tok(kind: &str, i: u32) -> String {
    format!("{}{:030x}", kind, i)
}
pub fn jv(v: &[f64]) -> String {
    let t: Vec<String> = v.iter().map(|x| num(*x)).collect();
    format!("[{}]", t.join(","))
}
pub struct Ann {
    pub p: [f64; 3],
    pub q: [f64; 4],
    pub size: [f64; 3],
    pub pts: u32,
}
pub struct Pose {
    pub t: [f64; 3],
    pub q: [f64; 4],
}
pub const CATS: [&str; 3] = ["car", "pedestrian", "vehicle.bus.rigid"];
pub const T0: u64 = 1_600_000_000_000_000;

/// one record list per file, in a directory of its own
pub struct Files {
    v: Vec<(String, Vec<String>)>,
}
impl Files {
    pub fn new() -> Self {
        let n = ["attribute", "calibrated_sensor", "category", "ego_pose", "instance", "log", "map", "sample", "sample_annotation", "sample_data", "scene", "sensor", "visibility"];
        Files { v: n.iter().map(|s| (s.to_string(), vec![])).collect() }
    }
    pub fn add(&mut self, name: &str, rec: String) {
        for f in self.v.iter_mut() {
            if f.0 == name { f.1.push(rec); return }
        }
    }
    pub fn write(&self) -> std::path::PathBuf {
        let d = root();
        for f in &self.v {
            file(&format!("{}/annotation/{}.json", d, f.0), format!("[{}]", f.1.join(",")).as_bytes());
        }
        d.into()
    }
}
pub fn opt(kind: &str, i: Option<u32>) -> String {
    i.map_or(String::new(), |i| tok(kind, i))
}
pub fn add_sample_data(f: &mut Files, i: u32, t: u64, sample: u32, pose: u32, cs: u32, key: bool) {
    f.add("sample_data", format!(r#"{{"token":"{}","fileformat":"bin","is_key_frame":{},"filename":"lidar/{}.bin","timestamp":{},"sample_token":"{}","ego_pose_token":"{}","calibrated_sensor_token":"{}","prev":"","next":""}}"#,
        tok("5d", i), key, i, t, tok("5a", sample), tok("e0", pose), tok("c5", cs)));
}
pub fn add_pose(f: &mut Files, i: u32, t: u64, p: &Pose) {
    f.add("ego_pose", format!(r#"{{"token":"{}","timestamp":{},"rotation":{},"translation":{}}}"#, tok("e0", i), t, jv(&p.q), jv(&p.t)));
}
pub fn add_sensor(f: &mut Files, i: u32, modality: &str, channel: &str, p: &Pose) {
    f.add("sensor", format!(r#"{{"token":"{}","modality":"{}","channel":"{}"}}"#, tok("5e", i), modality, channel));
    f.add("calibrated_sensor", format!(r#"{{"token":"{}","sensor_token":"{}","rotation":{},"camera_intrinsic":[],"translation":{}}}"#, tok("c5", i), tok("5e", i), jv(&p.q), jv(&p.t)));
}
pub fn add_ann(f: &mut Files, i: u32, sample: u32, inst: u32, prev: Option<u32>, next: Option<u32>, a: &Ann) {
    f.add("sample_annotation", format!(r#"{{"token":"{}","num_lidar_pts":{},"num_radar_pts":0,"size":{},"rotation":{},"translation":{},"sample_token":"{}","instance_token":"{}","attribute_tokens":[],"visibility_token":"","prev":"{}","next":"{}"}}"#,
        tok("aa", i), a.pts, jv(&a.size), jv(&a.q), jv(&a.p), tok("5a", sample), tok("1a", inst), opt("aa", prev), opt("aa", next)));
}
pub fn add_instance(f: &mut Files, i: u32, n: u32, cat: u32, first: u32, last: u32) {
    f.add("instance", format!(r#"{{"token":"{}","nbr_annotations":{},"category_token":"{}","first_annotation_token":"{}","last_annotation_token":"{}"}}"#,
        tok("1a", i), n, tok("ca", cat), tok("aa", first), tok("aa", last)));
}
pub fn add_sample(f: &mut Files, i: u32, t: u64, scene: u32, prev: Option<u32>, next: Option<u32>) {
    f.add("sample", format!(r#"{{"token":"{}","next":"{}","prev":"{}","scene_token":"{}","timestamp":{}}}"#, tok("5a", i), opt("5a", next), opt("5a", prev), tok("5c", scene), t));
}
pub fn add_scene(f: &mut Files, i: u32, n: u32, first: u32, last: u32) {
    f.add("scene", format!(r#"{{"token":"{}","name":"s","description":"","log_token":"{}","nbr_samples":{},"first_sample_token":"{}","last_sample_token":"{}"}}"#,
        tok("5c", i), tok("10", 0), n, tok("5a", first), tok("5a", last)));
}
pub fn add_fixed(f: &mut Files) {
    f.add("log", format!(r#"{{"token":"{}","date_captured":"2020-01-01","location":"","vehicle":"","logfile":""}}"#, tok("10", 0)));
    for (i, c) in CATS.iter().enumerate() {
        f.add("category", format!(r#"{{"token":"{}","description":"","name":"{}"}}"#, tok("ca", i as u32), c));
    }
}
pub fn pose(id: u32) -> Pose {
    Pose { t: [real(id), real(id + 1), real(id + 2)], q: unit4(id) }
}
pub fn ann(id: u32, pts: u32) -> Ann {
    Ann { p: [real(id), real(id + 1), real(id + 2)], q: unit4(id), size: [real(id + 3), real(id + 4), real(id + 5)], pts }
}
pub const ID: Pose = Pose { t: [0.0; 3], q: [1.0, 0.0, 0.0, 0.0] };
/// conj(a) * b
fn before(a: &[f64; 4], b: &[f64; 4]) -> [f64; 4] {
    let (w, x, y, z) = (a[0], -a[1], -a[2], -a[3]);
    [
        w * b[0] - x * b[1] - y * b[2] - z * b[3],
        w * b[1] + x * b[0] + y * b[3] - z * b[2],
        w * b[2] - x * b[3] + y * b[0] + z * b[1],
        w * b[3] + x * b[2] - y * b[1] + z * b[0],
    ]
}
/// p seen from a vehicle at e
fn seen(e: &Pose, p: &[f64; 3]) -> [f64; 3] {
    let d = [p[0] - e.t[0], p[1] - e.t[1], p[2] - e.t[2]];
    let (w, x, y, z) = (e.q[0], -e.q[1], -e.q[2], -e.q[3]);
    let c = [y * d[2] - z * d[1], z * d[0] - x * d[2], x * d[1] - y * d[0]];
    let g = [y * c[2] - z * c[1], z * c[0] - x * c[2], x * c[1] - y * c[0]];
    [d[0] + 2.0 * w * c[0] + 2.0 * g[0], d[1] + 2.0 * w * c[1] + 2.0 * g[1], d[2] + 2.0 * w * c[2] + 2.0 * g[2]]
}
/// one sample with one annotation: the ground truth in the frame of the vehicle
#[no_mangle] #[inline(never)]
pub extern "C" fn h_data_one() {
    let mut f = Files::new();
    add_fixed(&mut f);
    let (e, a) = (pose(0), ann(10, 17));
    add_sensor(&mut f, 0, "lidar", "LIDAR_TOP", &pose(20));
    add_scene(&mut f, 0, 1, 0, 0);
    add_sample(&mut f, 0, T0, 0, None, None);
    add_pose(&mut f, 0, T0, &e);
    add_sample_data(&mut f, 0, T0, 0, 0, 0, true);
    add_ann(&mut f, 0, 0, 0, None, None, &a);
    add_instance(&mut f, 0, 1, 1, 0, 0);
    let d = f.write();
    let g = load_dataset("annotation", &d, &EvaluationTask::Detection, &FrameID::BaseLink).unwrap();
    check(g.len() == 1, 1);
    check(g[0].timestamp.timestamp_micros() == T0 as i64, 2);
    check(g[0].objects.len() == 1, 3);
    let o = &g[0].objects[0];
    let p = seen(&e, &a.p);
    let q = before(&e.q, &a.q);
    for i in 0..3 {
        close(o.position[i], p[i], 4);
        close(o.size[i], a.size[i], 5);
    }
    for i in 0..4 { close(o.orientation[i], q[i], 6) }
    check(o.label == Label::Pedestrian, 7);
    check(o.pointcloud_num == Some(17), 8);
    check(o.uuid.as_ref().map_or(false, |u| *u == tok("1a", 0)), 9);
    check(o.confidence == 1.0 && o.frame_id == FrameID::BaseLink && o.timestamp == g[0].timestamp && o.velocity.is_none(), 10);
    reach(1);
}
/// token of a kind whose last digit is any hex digit
pub fn symtok(kind: &str, id: u32) -> (String, u32) {
    let d = bits(id, 4) as u8;
    let mut b = tok(kind, 0).into_bytes();
    b[31] = b"0123456789abcdef"[d as usize];
    (unsafe { String::from_utf8_unchecked(b) }, d as u32)
}
/// every kind of reference, each to any token: loading succeeds iff the token exists, and the reference leads there
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ref() {
    let which = shard(0, 19);
    // the reference under test is symbolic, the others are sound
    let mut dig = None;
    let mut r = |k: u32, kind: &str, i: u32| -> String {
        if k == which { let (t, d) = symtok(kind, 5); dig = Some(d); t } else { tok(kind, i) }
    };
    let mut f = Files::new();
    f.add("log", format!(r#"{{"token":"{}","date_captured":"2020-01-01","location":"","vehicle":"","logfile":""}}"#, tok("10", 0)));
    f.add("log", format!(r#"{{"token":"{}","date_captured":"2020-01-01","location":"","vehicle":"","logfile":""}}"#, tok("10", 1)));
    for i in 0..2 {
        f.add("category", format!(r#"{{"token":"{}","description":"","name":"{}"}}"#, tok("ca", i), CATS[i as usize]));
        f.add("sensor", format!(r#"{{"token":"{}","modality":"lidar","channel":"LIDAR_TOP"}}"#, tok("5e", i)));
        f.add("attribute", format!(r#"{{"token":"{}","description":"","name":"a{}"}}"#, tok("a0", i), i));
        f.add("visibility", format!(r#"{{"token":"{}","level":"v80-100","description":""}}"#, tok("b0", i)));
        add_pose(&mut f, i, T0, &ID);
        add_sample(&mut f, i, T0, 0, if i > 0 { Some(i - 1) } else { None }, if i < 1 { Some(i + 1) } else { None });
    }
    // samples 0 and 1 are chained; sample 2 is a scene of its own, sample 3 in no chain
    f.add("sample", format!(r#"{{"token":"{}","next":"","prev":"","scene_token":"{}","timestamp":{}}}"#, tok("5a", 2), r(0, "5c", 1), T0));
    let (n3, p3) = match which { 15 => (String::new(), r(15, "5a", 0)), 16 => (r(16, "5a", 0), String::new()), _ => (String::new(), String::new()) };
    f.add("sample", format!(r#"{{"token":"{}","next":"{}","prev":"{}","scene_token":"{}","timestamp":{}}}"#, tok("5a", 3), n3, p3, tok("5c", 1), T0));
    f.add("scene", format!(r#"{{"token":"{}","name":"s","description":"","log_token":"{}","nbr_samples":2,"first_sample_token":"{}","last_sample_token":"{}"}}"#,
        tok("5c", 0), r(1, "10", 0), tok("5a", 0), tok("5a", 1)));
    add_scene(&mut f, 1, 1, 2, 2);
    f.add("calibrated_sensor", format!(r#"{{"token":"{}","sensor_token":"{}","rotation":[1,0,0,0],"camera_intrinsic":[],"translation":[0,0,0]}}"#, tok("c5", 0), r(2, "5e", 0)));
    f.add("instance", format!(r#"{{"token":"{}","nbr_annotations":1,"category_token":"{}","first_annotation_token":"{}","last_annotation_token":"{}"}}"#,
        tok("1a", 0), r(3, "ca", 0), tok("aa", 0), tok("aa", 0)));
    add_instance(&mut f, 1, 1, 0, 2, 2);
    f.add("sample_annotation", format!(r#"{{"token":"{}","num_lidar_pts":5,"num_radar_pts":0,"size":[1,2,3],"rotation":[1,0,0,0],"translation":[0,0,0],"sample_token":"{}","instance_token":"{}","attribute_tokens":["{}","{}"],"visibility_token":"{}","prev":"","next":""}}"#,
        tok("aa", 0), r(4, "5a", 0), r(5, "1a", 0), r(6, "a0", 0), r(14, "a0", 1), r(7, "b0", 0)));
    // a second annotation that is in no chain
    f.add("sample_annotation", format!(r#"{{"token":"{}","num_lidar_pts":5,"num_radar_pts":0,"size":[1,2,3],"rotation":[1,0,0,0],"translation":[0,0,0],"sample_token":"{}","instance_token":"{}","attribute_tokens":[],"visibility_token":"","prev":"{}","next":"{}"}}"#,
        tok("aa", 1), tok("5a", 0), tok("1a", 0), r(8, "aa", 0), r(9, "aa", 0)));
    add_ann(&mut f, 2, 1, 1, None, None, &Ann { p: [0.0; 3], q: ID.q, size: [1.0, 2.0, 3.0], pts: 4 });
    f.add("sample_data", format!(r#"{{"token":"{}","fileformat":"bin","is_key_frame":true,"filename":"lidar/0.bin","timestamp":{},"sample_token":"{}","ego_pose_token":"{}","calibrated_sensor_token":"{}","prev":"{}","next":"{}"}}"#,
        tok("5d", 0), T0, r(10, "5a", 0), r(11, "e0", 0), r(12, "c5", 0), r(13, "5d", 0), r(17, "5d", 0)));
    f.add("map", format!(r#"{{"token":"{}","filename":"m","category":"c","log_tokens":["{}","{}"]}}"#, tok("3a", 0), tok("10", 0), r(18, "10", 1)));
    let res = NuScenes::load("annotation", f.write());
    let d = dig.unwrap();

    // how many records of that kind exist; the logs of a map may be missing
    let n = [2, 2, 2, 2, 4, 2, 2, 2, 3, 3, 4, 2, 1, 1, 2, 4, 4, 1, 16][which as usize];
    check(res.is_ok() == (d < n), 1);
    let nu = match res { Ok(n) => n, Err(_) => { reach(2); return } };
    let is = |t: &dyn std::fmt::Display, kind: &str| {
        let (a, b) = (t.to_string(), tok(kind, 0));
        check(a[..31] == b[..31] && a.as_bytes()[31] == b"0123456789abcdef"[d as usize], 2);
    };
    let last = |t: &dyn std::fmt::Display| (t.to_string().as_bytes()[31] - b'0') as u32;
    let ann = |k: u32| nu.sample_annotation_iter().find(|a| last(&a.token) == k).unwrap();
    let sample = |k: u32| nu.sample_iter().find(|a| last(&a.token) == k).unwrap();
    match which {
        0 => is(&sample(2).scene().token, "5c"),
        1 => is(&nu.scene_iter().find(|s| last(&s.token) == 0).unwrap().log().token, "10"),
        2 => is(&nu.calibrated_sensor_iter().next().unwrap().sensor().token, "5e"),
        3 => is(&nu.instance_iter().find(|s| last(&s.token) == 0).unwrap().category().token, "ca"),
        4 | 10 => {
            // listed at that sample, and nowhere else
            let mut k = 0;
            for s in nu.sample_iter() {
                let i = s.token.to_string().as_bytes()[31] - b'0';
                let mut here = 0;
                if which == 4 {
                    for a in s.sample_annotation_iter() { if a.token.to_string() == tok("aa", 0) { here += 1; is(&a.sample().token, "5a") } }
                } else {
                    for a in s.sample_data_iter() { here += 1; is(&a.sample().token, "5a") }
                }
                check(here == if i as u32 == d { 1 } else { 0 }, 3);
                k += 1;
            }
            check(k == 4, 4);
        }
        5 => is(&ann(0).instance().token, "1a"),
        6 => {
            let v: Vec<String> = ann(0).attribute_iter().map(|a| a.token.to_string()).collect();
            check(v.len() == 2, 5);
            is(&v[0], "a0");
            check(v[1] == tok("a0", 1), 5);
        }
        8 => is(&ann(1).prev().unwrap().token, "aa"),
        9 => is(&ann(1).next().unwrap().token, "aa"),
        11 => is(&nu.sample_data_iter().next().unwrap().ego_pose().token, "e0"),
        12 => is(&nu.sample_data_iter().next().unwrap().calibrated_sensor().token, "c5"),
        13 => is(&nu.sample_data_iter().next().unwrap().prev().unwrap().token, "5d"),
        14 => is(&ann(0).attribute_iter().nth(1).unwrap().token, "a0"),
        15 => is(&sample(3).prev().unwrap().token, "5a"),
        16 => is(&sample(3).next().unwrap().token, "5a"),
        17 => is(&nu.sample_data_iter().next().unwrap().next().unwrap().token, "5d"),
        7 => {
            // what does not depend on the reference
            check(last(&sample(1).prev().unwrap().token) == 0 && sample(0).prev().is_none(), 6);
            check(last(&sample(0).next().unwrap().token) == 1 && sample(1).next().is_none(), 7);
            check(last(&sample(0).scene().token) == 0 && last(&sample(2).scene().token) == 1, 8);
            check(last(&ann(2).instance().token) == 1 && last(&ann(2).sample().token) == 1 && ann(2).prev().is_none() && ann(2).next().is_none(), 9);
            for i in 0..2 {
                let v: Vec<u32> = nu.scene_iter().find(|s| last(&s.token) == i).unwrap().sample_iter().map(|s| last(&s.token)).collect();
                check(v == if i == 0 { vec![0, 1] } else { vec![2] }, 10);
                let v: Vec<u32> = nu.instance_iter().find(|s| last(&s.token) == i).unwrap().sample_annotation_iter().map(|s| last(&s.token)).collect();
                check(v == vec![2 * i], 11);
            }
            check(nu.attribute_iter().count() == 2 && nu.category_iter().count() == 2 && nu.log_iter().count() == 2 && nu.sensor_iter().count() == 2 && nu.visibility_iter().count() == 2
                && nu.map_iter().count() == 1 && nu.sample_annotation_iter().count() == 3 && nu.calibrated_sensor_iter().count() == 1, 12);
        }
        18 => if d < 2 {
            let v: Vec<String> = nu.map_iter().next().unwrap().log_iter().map(|l| l.token.to_string()).collect();
            check(v.len() == 2 && v[0] == tok("10", 0), 13);
            is(&v[1], "10");
            reach(2);
        },
        _ => {}
    }
    reach(1);
}
/// what a chain of records has to be; every field any token
struct Chain { first: u32, last: u32, next: Vec<Option<u32>>, prev: Vec<Option<u32>>, nbr: u32 }
impl Chain {
    fn sound(&self) -> bool {
        let n = self.next.len() as u32;
        if self.first >= n || self.last >= n { return false }
        for i in 0..n as usize {
            if self.next[i].map_or(false, |k| k >= n) || self.prev[i].map_or(false, |k| k >= n) { return false }
        }
        let mut at = self.first;
        let mut from = None;
        for k in 1..=n {
            // position with a concrete index
            let mut j = 0;
            while j + 1 < n && j != at { j += 1 }
            if self.prev[j as usize] != from { return false }
            match self.next[j as usize] {
                None => return j == self.last && k == self.nbr,
                Some(t) => { from = Some(j); at = t }
            }
        }
        false
    }
}
fn chain(n: u32, ann: bool, pattern: u32) {
    let kind = if ann { "aa" } else { "5a" };
    let mut c = Chain { first: 0, last: 0, next: vec![], prev: vec![], nbr: 0 };
    let (ft, fd) = symtok(kind, 1);
    let (lt, ld) = symtok(kind, 2);
    c.first = fd;
    c.last = ld;
    let nb = bits(3, 4) as u32;
    assume(nb < 10);
    c.nbr = nb;
    let mut f = Files::new();
    add_fixed(&mut f);
    let nbr = { let mut s = String::new(); s.push((b'0' + nb as u8) as char); s };
    for i in 0..n {
        let mut link = |id: u32, has: bool| if has { let (t, d) = symtok(kind, id + i); (t, Some(d)) } else { (String::new(), None) };
        let (nt, nd) = link(10, pattern >> (2 * i) & 1 == 1);
        let (pt, pd) = link(20, pattern >> (2 * i + 1) & 1 == 1);
        c.next.push(nd);
        c.prev.push(pd);
        if ann {
            f.add("sample_annotation", format!(r#"{{"token":"{}","num_lidar_pts":5,"num_radar_pts":0,"size":[1,2,3],"rotation":[1,0,0,0],"translation":[0,0,0],"sample_token":"{}","instance_token":"{}","attribute_tokens":[],"visibility_token":"","prev":"{}","next":"{}"}}"#,
                tok("aa", i), tok("5a", 0), tok("1a", 0), pt, nt));
        } else {
            f.add("sample", format!(r#"{{"token":"{}","next":"{}","prev":"{}","scene_token":"{}","timestamp":{}}}"#, tok("5a", i), nt, pt, tok("5c", 0), T0 + i as u64));
        }
    }
    if ann {
        add_sample(&mut f, 0, T0, 0, None, None);
        add_scene(&mut f, 0, 1, 0, 0);
        f.add("instance", format!(r#"{{"token":"{}","nbr_annotations":{},"category_token":"{}","first_annotation_token":"{}","last_annotation_token":"{}"}}"#, tok("1a", 0), nbr, tok("ca", 0), ft, lt));
    } else {
        f.add("scene", format!(r#"{{"token":"{}","name":"s","description":"","log_token":"{}","nbr_samples":{},"first_sample_token":"{}","last_sample_token":"{}"}}"#, tok("5c", 0), tok("10", 0), nbr, ft, lt));
    }
    let res = NuScenes::load("annotation", f.write());
    check(res.is_ok() == c.sound(), 1);
    if let Ok(nu) = res {
        // walking the chain visits the records from first to last
        let v: Vec<String> = if ann {
            nu.instance_iter().next().unwrap().sample_annotation_iter().map(|a| a.token.to_string()).collect()
        } else {
            nu.scene_iter().next().unwrap().sample_iter().map(|a| a.token.to_string()).collect()
        };
        check(v.len() as u32 == c.nbr, 2);
        let hex = |d: u32| b"0123456789abcdef"[d as usize];
        let at = |i: usize| v[i].as_bytes()[31];
        check(at(0) == hex(c.first) && at(v.len() - 1) == hex(c.last), 3);
        for k in 0..v.len() - 1 {
            let i = (at(k) - b'0') as usize;
            check(c.next[i].map_or(false, |d| at(k + 1) == hex(d)), 4);
        }
        reach(2);
    }
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_chain2() {
    let k = shard(0, 32);
    chain(2, k >= 16, k % 16);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_chain3() {
    // patterns of present links
    let k = shard(0, 128);
    chain(3, k >= 64, k % 64);
}
fn same_pose(o: &DynamicObject, e: &Pose, a: &Ann, id: u32) {
    let p = seen(e, &a.p);
    let q = before(&e.q, &a.q);
    for i in 0..3 {
        close(o.position[i], p[i], id);
        close(o.size[i], a.size[i], id);
    }
    for i in 0..4 { close(o.orientation[i], q[i], id) }
}
/// two samples, several sensors: every annotation once, in the frame of the vehicle at its sample's lidar scan
#[no_mangle] #[inline(never)]
pub extern "C" fn h_data_two() {
    let mut f = Files::new();
    add_fixed(&mut f);
    let (e0, e1, e2) = (pose(0), pose(10), Pose { t: [100.0, 200.0, 300.0], q: [0.0, 1.0, 0.0, 0.0] });
    let a = [ann(20, 1), ann(30, 2), ann(40, 3)];
    // the order of the sample data records and of the samples is arbitrary
    let rev = choose(1, 2) == 1;
    let lidars = 1 + choose(2, 2);
    // whether the scans are marked as key frames does not matter
    let key = choose(3, 2) == 1;
    add_sensor(&mut f, 0, "camera", "CAM_FRONT", &pose(50));
    add_sensor(&mut f, 1, "lidar", "LIDAR_TOP", &pose(60));
    add_sensor(&mut f, 2, "radar", "RADAR_FRONT", &pose(50));
    add_sensor(&mut f, 3, "lidar", "LIDAR_CONCAT", &pose(60));
    add_scene(&mut f, 0, 2, 0, 1);
    let t = [T0, T0 + 100_000];
    add_pose(&mut f, 0, t[0], &e0);
    add_pose(&mut f, 1, t[1], &e1);
    add_pose(&mut f, 2, t[0] + 10_000, &e2);
    for k in 0..2u32 {
        let s = if rev { 1 - k } else { k };
        add_sample(&mut f, s, t[s as usize], 0, if s == 1 { Some(0) } else { None }, if s == 0 { Some(1) } else { None });
        // camera, radar and a later lidar sweep saw the vehicle elsewhere
        add_sample_data(&mut f, 10 * s, t[s as usize], s, 2, 0, true);
        add_sample_data(&mut f, 10 * s + 1, t[s as usize] + 10_000, s, 2, 1, false);
        add_sample_data(&mut f, 10 * s + 2, t[s as usize], s, s, 1, key);
        add_sample_data(&mut f, 10 * s + 3, t[s as usize], s, 2, 2, true);
        if lidars == 2 { add_sample_data(&mut f, 10 * s + 4, t[s as usize], s, s, 3, key) }
    }
    add_ann(&mut f, 0, 0, 0, None, Some(1), &a[0]);
    add_ann(&mut f, 1, 1, 0, Some(0), None, &a[1]);
    add_ann(&mut f, 2, 1, 1, None, None, &a[2]);
    add_instance(&mut f, 0, 2, 0, 0, 1);
    add_instance(&mut f, 1, 1, 2, 2, 2);
    let d = f.write();
    let g = load_dataset("annotation", &d, &EvaluationTask::Detection, &FrameID::BaseLink).unwrap();
    check(g.len() == 2, 1);
    for k in 0..2 { check(g[k].timestamp.timestamp_micros() == t[k] as i64, 2) }
    check(g[0].objects.len() == 1 && g[1].objects.len() == 2, 3);
    let by = |k: usize, i: u32| g[k].objects.iter().find(|o| o.uuid == Some(tok("1a", i)));
    let (x, y, z) = (by(0, 0), by(1, 0), by(1, 1));
    check(x.is_some() && y.is_some() && z.is_some(), 4);
    let (x, y, z) = (x.unwrap(), y.unwrap(), z.unwrap());
    same_pose(x, &e0, &a[0], 5);
    same_pose(y, &e1, &a[1], 6);
    same_pose(z, &e1, &a[2], 7);
    check(x.label == Label::Car && y.label == Label::Car && z.label == Label::Bus, 8);
    check(x.pointcloud_num == Some(1) && y.pointcloud_num == Some(2) && z.pointcloud_num == Some(3), 9);
    check(x.timestamp == g[0].timestamp && y.timestamp == g[1].timestamp, 10);
    reach(1);
    if lidars == 2 { reach(2) }
}
/// boxes of one scan: in the frame of the map, the vehicle and the sensor
#[no_mangle] #[inline(never)]
pub extern "C" fn h_boxes() {
    let mut f = Files::new();
    add_fixed(&mut f);
    let (e, s, a) = (pose(0), pose(20), ann(10, 17));
    add_sensor(&mut f, 0, "lidar", "LIDAR_TOP", &s);
    add_scene(&mut f, 0, 1, 0, 0);
    add_sample(&mut f, 0, T0, 0, None, None);
    add_pose(&mut f, 0, T0, &e);
    add_sample_data(&mut f, 0, T0, 0, 0, 0, true);
    add_ann(&mut f, 0, 0, 0, None, None, &a);
    add_instance(&mut f, 0, 1, 1, 0, 0);
    let n = NuScenes::load("annotation", f.write()).unwrap();
    let sd = n.sample_data_iter().next().unwrap().token.clone();
    let b = n.get_boxes(&sd).unwrap();
    check(b.len() == 1, 1);
    for i in 0..3 {
        close(b[0].position[i], a.p[i], 1);
        close(b[0].size[i], a.size[i], 1);
    }
    for i in 0..4 { close(b[0].orientation[i], a.q[i], 1) }
    let (_, b) = n.get_sample_data(&sd, &false).unwrap();
    check(b.len() == 1, 2);
    let p = seen(&e, &a.p);
    let q = before(&e.q, &a.q);
    for i in 0..3 { close(b[0].position[i], p[i], 2) }
    for i in 0..4 { close(b[0].orientation[i], q[i], 2) }
    let (path, b) = n.get_sample_data(&sd, &true).unwrap();
    check(b.len() == 1, 3);
    let p = seen(&s, &p);
    let q = before(&s.q, &q);
    for i in 0..3 { close(b[0].position[i], p[i], 3); close(b[0].size[i], a.size[i], 3) }
    for i in 0..4 { close(b[0].orientation[i], q[i], 3) }
    check(b[0].num_lidar_pts == 17 && b[0].name == "pedestrian" && b[0].instance.to_string() == tok("1a", 0) && b[0].token.to_string() == tok("aa", 0), 4);
    check(path == std::path::Path::new(&root()).join("lidar/0.bin"), 5);
    reach(1);
}
/// decimal text of T0 plus a symbolic number of microseconds below 10^n
pub fn symtime(id: u32, n: u32) -> (String, u64) {
    let mut s = T0.to_string().into_bytes();
    let mut v = 0;
    for k in 0..n {
        let d = bits(id + k, 4);
        assume(d < 10);
        let l = s.len();
        s[l - (n - k) as usize] = b'0' + d as u8;
        v = v * 10 + d;
    }
    (unsafe { String::from_utf8_unchecked(s) }, v)
}
/// records are iterated in the order of their timestamps, whatever their order in the files
#[no_mangle] #[inline(never)]
pub extern "C" fn h_sorted() {
    let mut f = Files::new();
    add_fixed(&mut f);
    add_sensor(&mut f, 0, "lidar", "LIDAR_TOP", &ID);
    let n = 3u32;
    let nt = |i: u32| opt("5a", if i + 1 < n { Some(i + 1) } else { None });
    let pt = |i: u32| opt("5a", if i > 0 { Some(i - 1) } else { None });
    let (mut ts, mut td, mut te) = (vec![], vec![], vec![]);
    for i in 0..n {
        let (t, v) = symtime(10 * i + 10, 2);
        ts.push(v);
        f.add("sample", format!(r#"{{"token":"{}","next":"{}","prev":"{}","scene_token":"{}","timestamp":{}}}"#, tok("5a", i), nt(i), pt(i), tok("5c", 0), t));
    }
    add_scene(&mut f, 0, n, 0, n - 1);
    let k = shard(0, 4);
    for i in 0..n {
        let (t, v) = if k == 1 { symtime(10 * i + 40, 2) } else { (T0.to_string(), 0) };
        te.push(v);
        f.add("ego_pose", format!(r#"{{"token":"{}","timestamp":{},"rotation":[1,0,0,0],"translation":[0,0,0]}}"#, tok("e0", i), t));
        let (t, v) = if k == 2 { symtime(10 * i + 70, 2) } else { (T0.to_string(), 0) };
        td.push(v);
        f.add("sample_data", format!(r#"{{"token":"{}","fileformat":"bin","is_key_frame":true,"filename":"lidar/0.bin","timestamp":{},"sample_token":"{}","ego_pose_token":"{}","calibrated_sensor_token":"{}","prev":"","next":""}}"#,
            tok("5d", i), t, tok("5a", i), tok("e0", i), tok("c5", 0)));
    }
    if k == 3 {
        // another scene
        let (t, v) = symtime(40, 2);
        ts.push(v);
        f.add("sample", format!(r#"{{"token":"{}","next":"","prev":"","scene_token":"{}","timestamp":{}}}"#, tok("5a", n), tok("5c", 1), t));
        add_scene(&mut f, 1, 1, n, n);
    }
    let nu = NuScenes::load("annotation", f.write()).unwrap();
    if k == 3 {
        let v: Vec<u8> = nu.scene_iter().map(|s| s.token.to_string().as_bytes()[31]).collect();
        check(v.len() == 2 && v[0] != v[1], 40);
        let first = ts[0].min(ts[1]).min(ts[2]);
        if v[0] == b'0' { check(first <= ts[3], 41) } else { check(ts[3] <= first, 41) }
        reach(1);
        return;
    }
    let us = |t: &NaiveDateTime| t.timestamp_micros() - T0 as i64;
    let ix = |t: String| (t.as_bytes()[31] - b'0') as usize;
    let mut seen = [false; 3];
    let mut go = |v: Vec<(usize, i64)>, want: &Vec<u64>, id: u32| {
        check(v.len() == 3, id);
        for (k, (i, t)) in v.iter().enumerate() {
            check(*t == want[*i] as i64, id + 1);
            check(!seen[*i], id + 2);
            seen[*i] = true;
            if k > 0 { check(v[k - 1].1 <= *t, id + 3) }
        }
        seen = [false; 3];
    };
    match k {
        0 => go(nu.sample_iter().map(|s| (ix(s.token.to_string()), us(&s.timestamp))).collect(), &ts, 10),
        1 => go(nu.ego_pose_iter().map(|s| (ix(s.token.to_string()), us(&s.timestamp))).collect(), &te, 20),
        _ => go(nu.sample_data_iter().map(|s| (ix(s.token.to_string()), us(&s.timestamp))).collect(), &td, 30),
    }
    reach(1);
}
/// ground truth in the frame of the map
#[no_mangle] #[inline(never)]
pub extern "C" fn h_data_map() {
    let mut f = Files::new();
    add_fixed(&mut f);
    let (e, a) = (pose(0), ann(10, 17));
    add_sensor(&mut f, 0, "lidar", "LIDAR_TOP", &ID);
    add_scene(&mut f, 0, 1, 0, 0);
    add_sample(&mut f, 0, T0, 0, None, None);
    add_pose(&mut f, 0, T0, &e);
    add_sample_data(&mut f, 0, T0, 0, 0, 0, true);
    add_ann(&mut f, 0, 0, 0, None, None, &a);
    add_instance(&mut f, 0, 1, 1, 0, 0);
    let d = f.write();
    let g = load_dataset("annotation", &d, &EvaluationTask::Detection, &FrameID::Map).unwrap();
    check(g.len() == 1 && g[0].objects.len() == 1, 1);
    let o = &g[0].objects[0];
    check(o.frame_id == FrameID::Map, 2);
    let vehicle = seen(&e, &a.p);
    // neither in the frame of the map nor (a known finding) in that of the vehicle
    let (mut m, mut v) = (true, true);
    for i in 0..3 {
        m = both(m, (o.position[i] - a.p[i]).abs() < 1e-3);
        v = both(v, (o.position[i] - vehicle[i]).abs() < 1e-3);
    }
    check(either(m, v), 3);
    reach(1);
    for i in 0..3 { close(o.position[i], a.p[i], 4) }
}

/// a dataset with one lidar scan whose file is given
fn scan(dir: &str, format: &str, data: Option<&[u8]>) -> NuScenes {
    let mut f = Files::new();
    add_fixed(&mut f);
    add_sensor(&mut f, 0, "lidar", "LIDAR_TOP", &ID);
    add_scene(&mut f, 0, 1, 0, 0);
    add_sample(&mut f, 0, T0, 0, None, None);
    add_pose(&mut f, 0, T0, &ID);
    f.add("sample_data", format!(r#"{{"token":"{}","fileformat":"{}","is_key_frame":true,"filename":"{}/0.bin","timestamp":{},"sample_token":"{}","ego_pose_token":"{}","calibrated_sensor_token":"{}","prev":"","next":""}}"#,
        tok("5d", 0), format, dir, T0, tok("5a", 0), tok("e0", 0), tok("c5", 0)));
    let d = f.write();
    if let Some(b) = data { file(&format!("{}/{}/0.bin", d.display(), dir), b) }
    NuScenes::load("annotation", d).unwrap()
}
/// point cloud files: five values per point, in the order of the file
#[no_mangle] #[inline(never)]
pub extern "C" fn h_cloud() {
    use perception_eval::dataset::nuscenes::LoadedSampleData;
    let n = shard(0, 105) as usize;
    let b: Vec<u8> = (0..n).map(|i| bits(1 + i as u32, 8) as u8).collect();
    let nu = scan("lidar", ["bin", "pcd"][n % 2], Some(&b));
    let s = nu.sample_data_iter().next().unwrap();
    let raw = s.load_raw().unwrap();
    check(raw.len() == n, 1);
    let mut same = true;
    for i in 0..n.min(raw.len()) { same = both(same, raw[i] == b[i]) }
    check(same, 2);
    let r = s.load();
    if n % 20 != 0 {
        check(r.is_err(), 3);
        reach(1);
    } else if n > 0 {
        check(r.is_ok(), 4);
        match r {
            Ok(LoadedSampleData::PointCloud(m)) => {
                check(m.nrows() == n / 20 && m.ncols() == 5, 5);
                let mut same = true;
                for i in 0..n / 20 {
                    for j in 0..5 {
                        let at = 20 * i + 4 * j;
                        let w = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
                        same = both(same, m[(i, j)].to_bits() == w);
                    }
                }
                check(same, 6);
            }
            _ => check(false, 7),
        }
        reach(2);
    }
}
/// larger clouds, across the sizes of buffers
#[no_mangle] #[inline(never)]
pub extern "C" fn h_cloud_many() {
    use perception_eval::dataset::nuscenes::LoadedSampleData;
    let k = shard(0, 4) as usize;
    let points = [5, 64, 410, 1640][k];
    let mut b: Vec<u8> = (0..20 * points).map(|i: usize| (i * 7 + i / 251) as u8).collect();
    let n = b.len();
    for (i, at) in [0, 3, n / 2, n - 20, n - 1].iter().enumerate() { b[*at] = bits(1 + i as u32, 8) as u8 }
    let nu = scan("lidar", ["bin", "pcd"][k % 2], Some(&b));
    let s = nu.sample_data_iter().next().unwrap();
    let raw = s.load_raw().unwrap();
    check(raw.len() == n, 1);
    let mut same = true;
    for i in 0..n.min(raw.len()) { same = both(same, raw[i] == b[i]) }
    check(same, 2);
    match s.load() {
        Ok(LoadedSampleData::PointCloud(m)) => {
            check(m.nrows() == points && m.ncols() == 5, 3);
            let mut same = m.nrows() == points && m.ncols() == 5;
            if same {
                for i in 0..points {
                    for j in 0..5 {
                        let at = 20 * i + 4 * j;
                        same = both(same, m[(i, j)].to_bits() == u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]));
                    }
                }
            }
            check(same, 4);
        }
        _ => check(false, 5),
    }
    reach(1);
}
/// files that are missing or elsewhere
#[no_mangle] #[inline(never)]
pub extern "C" fn h_cloud_no() {
    let k = choose(1, 2);
    let b = [0u8; 20];
    let nu = if k == 0 { scan("lidar", "bin", None) } else { scan("other", "bin", Some(&b)) };
    let s = nu.sample_data_iter().next().unwrap();
    check(s.load().is_err(), 1);
    check(s.load_raw().is_ok() == (k == 1), 2);
    reach(1);
}
