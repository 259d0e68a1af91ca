//! C13: records are decoded and encoded without loss
use crate::h_common::*;
use crate::h_data::{ann, jv, pose, symtime, tok, T0};
use perception_eval::dataset::nuscenes::schema::*;

fn again<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> T {
    serde_json::from_str(&serde_json::to_string(v).unwrap()).unwrap()
}
/// decoded once, and decoded again from what it is encoded as
fn twice<T: serde::Serialize + serde::de::DeserializeOwned>(t: &str) -> [T; 2] {
    let a: T = serde_json::from_str(t).unwrap();
    let b = again(&a);
    [a, b]
}
fn same(t: &impl std::fmt::Display, kind: &str, d: u32, id: u32) {
    let (a, b) = (t.to_string(), tok(kind, 0));
    check(a.len() == 32 && a[..31] == b[..31] && a.as_bytes()[31] == b"0123456789abcdef"[d as usize], id);
}
fn same_opt(t: &Option<LongToken>, kind: &str, d: &Option<u32>, id: u32) {
    check(t.is_some() == d.is_some(), id);
    if let (Some(t), Some(d)) = (t, d) { same(t, kind, *d, id) }
}
/// token whose last digit is any decimal digit
fn symtok(kind: &str, id: u32) -> (String, u32) {
    let d = bits(id, 4) as u8;
    assume(d < 10);
    let mut b = tok(kind, 0).into_bytes();
    b[31] = b'0' + d;
    (unsafe { String::from_utf8_unchecked(b) }, d as u32)
}
fn opt_tok(kind: &str, id: u32) -> (String, Option<u32>) {
    if choose(id + 1000, 2) == 1 { let (t, d) = symtok(kind, id); (t, Some(d)) } else { (String::new(), None) }
}
fn vec3(a: &[f64], b: &[f64], id: u32) {
    for i in 0..b.len() { close(a[i], b[i], id) }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rec_sensor() {
    let p = pose(0);
    let m: Vec<f64> = (0..9).map(|i| real(20 + i)).collect();
    let some = choose(1, 2) == 1;
    let k = if some { format!("[{},{},{}]", jv(&m[..3]), jv(&m[3..6]), jv(&m[6..])) } else { "[]".to_string() };
    let (a, da) = symtok("c5", 40);
    let (b, db) = symtok("5e", 41);
    let t = format!(r#"{{"token":"{}","sensor_token":"{}","rotation":{},"camera_intrinsic":{},"translation":{}}}"#, a, b, jv(&p.q), k, jv(&p.t));
    for (n, x) in twice::<CalibratedSensor>(&t).iter().enumerate() {
        let id = 10 * n as u32;
        same(&x.token, "c5", da, id + 1);
        same(&x.sensor_token, "5e", db, id + 1);
        vec3(&x.rotation, &p.q, id + 2);
        vec3(&x.translation, &p.t, id + 3);
        check(x.camera_intrinsic.is_some() == some, id + 4);
        if let Some(c) = x.camera_intrinsic {
            for i in 0..9 { close(c[i / 3][i % 3], m[i], id + 5) }
        }
    }
    reach(if some { 1 } else { 2 });
}
/// intrinsics are empty or three rows of three
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rec_intrinsic() {
    let (rows, cols) = (choose(1, 5) as usize, 1 + choose(2, 4) as usize);
    let m: Vec<f64> = (0..20).map(|i| real(20 + i)).collect();
    let r: Vec<String> = (0..rows).map(|i| jv(&m[4 * i..4 * i + cols])).collect();
    let t = format!(r#"{{"token":"{}","sensor_token":"{}","rotation":[1,0,0,0],"camera_intrinsic":[{}],"translation":[0,0,0]}}"#, tok("c5", 0), tok("5e", 0), r.join(","));
    let x = serde_json::from_str::<CalibratedSensor>(&t);
    check(x.is_ok() == (rows == 0 || rows == 3 && cols == 3), 1);
    if x.is_ok() { reach(1) } else { reach(2) }
}
/// timestamps: whole microseconds, written as an integer or with a fraction
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rec_pose() {
    let p = pose(0);
    let (a, da) = symtok("e0", 40);
    let (ts, v) = symtime(50, 4);
    let frac = ["", ".0"][choose(3, 2) as usize];
    let t = format!(r#"{{"token":"{}","timestamp":{}{},"rotation":{},"translation":{}}}"#, a, ts, frac, jv(&p.q), jv(&p.t));
    for (n, x) in twice::<EgoPose>(&t).iter().enumerate() {
        let id = 10 * n as u32;
        same(&x.token, "e0", da, id + 1);
        check(x.timestamp.timestamp_micros() == (T0 + v) as i64, id + 2);
        vec3(&x.rotation, &p.q, id + 3);
        vec3(&x.translation, &p.t, id + 4);
    }
    reach(1);
}
/// timestamps in bit-precise doubles
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rec_time() {
    let (ts, v) = symtime(50, 3);
    let t = format!(r#"{{"token":"{}","next":"","prev":"","scene_token":"{}","timestamp":{}}}"#, tok("5a", 1), tok("5c", 2), ts);
    let x: Sample = serde_json::from_str(&t).unwrap();
    check(x.timestamp.timestamp_micros() == (T0 + v) as i64, 1);
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rec_sample() {
    let (a, da) = symtok("5a", 40);
    let (s, ds) = symtok("5c", 41);
    let (nt, nd) = opt_tok("5a", 42);
    let (pt, pd) = opt_tok("5a", 43);
    let (ts, v) = symtime(50, 2);
    let t = format!(r#"{{"token":"{}","next":"{}","prev":"{}","scene_token":"{}","timestamp":{}}}"#, a, nt, pt, s, ts);
    for (n, x) in twice::<Sample>(&t).iter().enumerate() {
        let id = 10 * n as u32;
        same(&x.token, "5a", da, id + 1);
        same(&x.scene_token, "5c", ds, id + 2);
        same_opt(&x.next, "5a", &nd, id + 3);
        same_opt(&x.prev, "5a", &pd, id + 4);
        check(x.timestamp.timestamp_micros() == (T0 + v) as i64, id + 5);
    }
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rec_annotation() {
    let a = ann(0, 0);
    let (s, ds) = symtok("5a", 40);
    let (i, di) = symtok("1a", 41);
    let (nt, nd) = opt_tok("aa", 42);
    let (pt, pd) = opt_tok("aa", 43);
    let (at, ad) = opt_tok("a0", 44);
    let vis = shard(0, 2) == 1;
    let d: Vec<u8> = (0..2).map(|i| { let d = bits(60 + i, 4); assume(d < 10); d as u8 }).collect();
    let nb = |i: usize| { let mut s = String::from("1"); s.push((b'0' + d[i]) as char); s };
    let t = format!(r#"{{"token":"{}","num_lidar_pts":{},"num_radar_pts":{},"size":{},"rotation":{},"translation":{},"sample_token":"{}","instance_token":"{}","attribute_tokens":[{}],"visibility_token":"{}","prev":"{}","next":"{}"}}"#,
        tok("aa", 7), nb(0), nb(1), jv(&a.size), jv(&a.q), jv(&a.p), s, i, if ad.is_some() { format!("\"{}\"", at) } else { at }, if vis { "4" } else { "" }, pt, nt);
    for (n, x) in twice::<SampleAnnotation>(&t).iter().enumerate() {
        let id = 20 * n as u32;
        same(&x.token, "aa", 7, id + 1);
        check(x.num_lidar_pts == 10 + d[0] as usize, id + 2);
        check(x.num_radar_pts == 10 + d[1] as usize, id + 3);
        vec3(&x.size, &a.size, id + 4);
        vec3(&x.rotation, &a.q, id + 5);
        vec3(&x.translation, &a.p, id + 6);
        same(&x.sample_token, "5a", ds, id + 7);
        same(&x.instance_token, "1a", di, id + 8);
        check(x.attribute_tokens.len() == ad.is_some() as usize, id + 9);
        if let Some(d) = ad { same(&x.attribute_tokens[0], "a0", d, id + 9) }
        check(x.visibility_token.as_ref().map(|v| v == "4") == if vis { Some(true) } else { None }, id + 10);
        same_opt(&x.prev, "aa", &pd, id + 11);
        same_opt(&x.next, "aa", &nd, id + 12);
    }
    reach(1);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rec_data() {
    let (s, ds) = symtok("5a", 40);
    let (e, de) = symtok("e0", 41);
    let (c, dc) = symtok("c5", 42);
    let (nt, nd) = opt_tok("5d", 43);
    let (pt, pd) = opt_tok("5d", 44);
    let key = choose(45, 2) == 1;
    let f = choose(46, 5) as usize;
    let (ts, v) = symtime(50, 2);
    let t = format!(r#"{{"token":"{}","fileformat":"{}","is_key_frame":{},"filename":"lidar/x.bin","timestamp":{},"sample_token":"{}","ego_pose_token":"{}","calibrated_sensor_token":"{}","prev":"{}","next":"{}"}}"#,
        tok("5d", 3), ["bin", "pcd", "jpeg", "jpg", "png"][f], key, ts, s, e, c, pt, nt);
    for (n, x) in twice::<SampleData>(&t).iter().enumerate() {
        let id = 20 * n as u32;
        same(&x.token, "5d", 3, id + 1);
        check(x.fileformat == [FileFormat::Bin, FileFormat::Bin, FileFormat::Jpeg, FileFormat::Jpeg, FileFormat::Png][f], id + 2);
        check(x.is_key_frame == key, id + 3);
        check(x.filename.to_str() == Some("lidar/x.bin"), id + 4);
        check(x.timestamp.timestamp_micros() == (T0 + v) as i64, id + 5);
        same(&x.sample_token, "5a", ds, id + 6);
        same(&x.ego_pose_token, "e0", de, id + 7);
        same(&x.calibrated_sensor_token, "c5", dc, id + 8);
        same_opt(&x.prev, "5d", &pd, id + 9);
        same_opt(&x.next, "5d", &nd, id + 10);
    }
    reach(1);
}
fn word(id: u32, n: u32) -> String {
    // letters only: no escapes
    let b = (0..n).map(|i| { let c = bits(id + i, 8) as u8; assume(c >= b'a'); assume(c <= b'z'); c }).collect();
    unsafe { String::from_utf8_unchecked(b) }
}
/// the other kinds of record
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rec_other() {
    let k = shard(0, 8);
    let (a, da) = symtok("77", 40);
    let (b, db) = symtok("88", 41);
    let (c, dc) = symtok("99", 42);
    let (w, u, z) = (word(50, 3), word(60, 3), word(70, 3));
    match k {
        0 => {
            let t = format!(r#"{{"token":"{}","description":"{}","name":"{}"}}"#, a, w, u);
            for x in twice::<Attribute>(&t) { same(&x.token, "77", da, 1); check(x.description == w && x.name == u, 2) }
        }
        1 => {
            let t = format!(r#"{{"token":"{}","description":"{}","name":"{}"}}"#, a, w, u);
            for x in twice::<Category>(&t) { same(&x.token, "77", da, 1); check(x.description == w && x.name == u, 2) }
        }
        2 => {
            let n = bits(43, 4) as u8;
            assume(n < 10);
            let mut d = String::from("2");
            d.push((b'0' + n) as char);
            let t = format!(r#"{{"token":"{}","nbr_annotations":{},"category_token":"{}","first_annotation_token":"{}","last_annotation_token":"{}"}}"#, tok("ff", 0), d, a, b, c);
            for x in twice::<Instance>(&t) {
                check(x.nbr_annotations == 20 + n as usize, 1);
                same(&x.category_token, "77", da, 2);
                same(&x.first_annotation_token, "88", db, 3);
                same(&x.last_annotation_token, "99", dc, 4);
            }
        }
        3 => {
            let some = choose(44, 2) == 1;
            let date = choose(45, 2) == 1;
            let t = format!(r#"{{"token":"{}","date_captured":{},"location":"{}","vehicle":"{}","logfile":"{}"}}"#, a, if date { "\"2023-02-28\"" } else { "null" }, w, u, if some { &z[..] } else { "" });
            for x in twice::<Log>(&t) {
                same(&x.token, "77", da, 1);
                check(x.location == w && x.vehicle == u, 2);
                check(x.logfile.as_ref().map(|p| p.to_str() == Some(&z)) == if some { Some(true) } else { None }, 3);
                check(x.date_captured == if date { chrono::NaiveDate::from_ymd_opt(2023, 2, 28) } else { None }, 4);
            }
        }
        4 => {
            let t = format!(r#"{{"token":"{}","log_tokens":["{}","{}"],"filename":"{}","category":"{}"}}"#, a, b, c, w, u);
            for x in twice::<Map>(&t) {
                same(&x.token, "77", da, 1);
                check(x.log_tokens.len() == 2, 2);
                same(&x.log_tokens[0], "88", db, 2);
                same(&x.log_tokens[1], "99", dc, 2);
                check(x.filename.to_str() == Some(&w) && x.category == u, 3);
            }
        }
        5 => {
            let n = bits(43, 4) as u8;
            assume(n < 10);
            let mut d = String::from("2");
            d.push((b'0' + n) as char);
            let t = format!(r#"{{"token":"{}","name":"{}","description":"{}","log_token":"{}","nbr_samples":{},"first_sample_token":"{}","last_sample_token":"{}"}}"#, tok("ff", 0), w, u, a, d, b, c);
            for x in twice::<Scene>(&t) {
                check(x.name == w && x.description == u && x.nbr_samples == 20 + n as usize, 1);
                same(&x.log_token, "77", da, 2);
                same(&x.first_sample_token, "88", db, 3);
                same(&x.last_sample_token, "99", dc, 4);
            }
        }
        6 => {
            use Channel::*;
            const N: [(&str, Channel); 16] = [
                ("CAM_BACK", CamBack), ("CAM_BACK_LEFT", CamBackLeft), ("CAM_BACK_RIGHT", CamBackRight), ("CAM_FRONT", CamFront),
                ("CAM_FRONT_LEFT", CamFrontLeft), ("CAM_FRONT_RIGHT", CamFrontRight), ("CAM_FRONT_ZOOMED", CamFrontZoomed), ("LIDAR_TOP", LidarTop),
                ("LIDAR_CONCAT", LidarTop), ("RADAR_BACK_LEFT", RadarBackLeft), ("RADAR_BACK_RIGHT", RadarBackRight), ("RADAR_FRONT", RadarFront),
                ("RADAR_FRONT_LEFT", RadarFrontLeft), ("RADAR_FRONT_RIGHT", RadarFrontRight), ("CAM_TRAFFIC_LIGHT_NEAR", CamTrafficLightNear),
                ("CAM_TRAFFIC_LIGHT_FAR", CamTrafficLightFar)];
            let i = choose(1043, 16) as usize;
            let m = choose(44, 3) as usize;
            let t = format!(r#"{{"token":"{}","modality":"{}","channel":"{}"}}"#, a, ["camera", "lidar", "radar"][m], N[i].0);
            for x in twice::<Sensor>(&t) {
                same(&x.token, "77", da, 1);
                check(x.modality == [Modality::Camera, Modality::Lidar, Modality::Radar][m], 2);
                check(std::mem::discriminant(&x.channel) == std::mem::discriminant(&N[i].1), 3);
            }
        }
        _ => {
            use VisibilityLevel as V;
            let i = choose(1043, 8) as usize;
            let l = ["v0-40", "none", "v40-60", "partial", "v60-80", "most", "v80-100", "full"][i];
            let t = format!(r#"{{"token":"{}","level":"{}","description":"{}"}}"#, w, l, u);
            for x in twice::<Visibility>(&t) {
                check(x.token == w && x.description == u, 1);
                check(std::mem::discriminant(&x.level) == std::mem::discriminant(&[V::None, V::Partial, V::Most, V::Full][i / 2]), 2);
            }
        }
    }
    reach(1);
}
