//! C12 nearest frame, C14 tokens, C15 names, C16 thresholds
use crate::h_common::*;
use perception_eval::dataset::get_current_frame;
use perception_eval::dataset::nuscenes::schema::{LongToken, ShortToken};
use perception_eval::label::LabelConverter;
use perception_eval::threshold::get_label_threshold;
use std::str::FromStr;

fn nearest(n: usize, far: i64) {
    // microseconds around midnight
    let day = 1_600_041_600_000_000i64;
    let w = if n < 3 { 23 } else { 21 };
    let at = |id: u32| bits(id, w) as i64 - (choose(id + 50, 2) as i64) * (1 << w);
    let time = |d: i64| NaiveDateTime::from_timestamp_micros(day + d).unwrap();
    let d: Vec<i64> = (0..n).map(|i| at(10 + i as u32) + if i == 0 { far } else { 0 }).collect();
    let f: Vec<FrameGroundTruth> = (0..n).map(|i| FrameGroundTruth { timestamp: time(d[i]), objects: vec![tag_all(obj([i as f64, 0.0, 0.0], Label::Car, 1.0, "g"), i as u32)] }).collect();
    let q = at(1);
    let r = get_current_frame(&f, &time(q));
    let dist = |i: usize| (d[i] - q).abs();
    match r {
        None => {
            for i in 0..n { check(dist(i) >= 75_000, 1) }
            reach(2);
        }
        Some(g) => {
            check(g.objects.len() == 1, 2);
            let i = g.objects[0].position[0] as usize;
            check(i < n, 3);
            check(g.timestamp == f[i].timestamp && same_obj(&g.objects[0], &f[i].objects[0]), 4);
            check(dist(i) < 75_000, 5);
            for k in 0..n { check(dist(i) <= dist(k), 6) }
            reach(3);
        }
    }
    reach(1);
}
/// the frame nearest in time, if it is less than 75 ms away
#[no_mangle] #[inline(never)]
pub extern "C" fn h_nearest() {
    nearest(shard(0, 4) as usize, 0)
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_nearest4() {
    nearest(4, 0)
}
/// many frames, in order or not, and one of them anywhere
#[no_mangle] #[inline(never)]
pub extern "C" fn h_nearest_many() {
    let k = shard(0, 4) as usize;
    let n = [12usize, 7, 12, 7][k];
    let base = 1_600_041_600_000_000i64;
    let free = bits(10, 20) as i64 - (choose(11, 2) as i64) * (1 << 20);
    let d: Vec<i64> = (0..n as i64).map(|i| match k { 0 => 100_000 * i - 600_000, 1 => 300_000 - 100_000 * i, 2 => 100_000 * ((5 * i) % 12) - 600_000, _ => 300_000 * ((7 * i) % 4) - 500_000 }).enumerate().map(|(i, x)| if k % 2 == 1 && i == 5 { free } else { x }).collect();
    let time = |x: i64| NaiveDateTime::from_timestamp_micros(base + x).unwrap();
    let f: Vec<FrameGroundTruth> = (0..n).map(|i| FrameGroundTruth { timestamp: time(d[i]), objects: (0..i % 3).map(|j| tag_all(obj([i as f64, j as f64, 0.0], Label::Car, 1.0, "g"), (i + j) as u32)).collect() }).collect();
    let q = bits(1, 20) as i64 - (choose(2, 2) as i64) * (1 << 20);
    match get_current_frame(&f, &time(q)) {
        None => {
            for i in 0..n { check((d[i] - q).abs() >= 75_000, 1) }
            reach(2);
        }
        Some(g) => {
            // it is one of the frames, complete
            let mut any = false;
            let dist = (g.timestamp.timestamp_micros() - base - q).abs();
            for i in 0..n {
                let mut s = both(g.timestamp == f[i].timestamp, g.objects.len() == f[i].objects.len());
                if g.objects.len() == f[i].objects.len() { for j in 0..g.objects.len() { s = both(s, same_obj(&g.objects[j], &f[i].objects[j])) } }
                any = either(any, s);
                check(dist <= (d[i] - q).abs(), 2);
            }
            check(any, 3);
            check(dist < 75_000, 4);
            reach(3);
        }
    }
    reach(1);
}
/// one frame in another year
#[no_mangle] #[inline(never)]
pub extern "C" fn h_nearest_far() {
    let k = shard(0, 4);
    let far = [400i64, -400, 20_000, -18_000][k as usize] * 86_400_000_000;
    nearest(1 + choose(2, 2) as usize, far)
}
fn hexval(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
fn ascii(id: u32) -> u8 {
    let b = bits(id, 8) as u8;
    assume(b < 128);
    b
}
fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
/// two characters of a token, at every place: decoded iff hexadecimal, shown as lower case hexadecimal
#[no_mangle] #[inline(never)]
pub extern "C" fn h_token() {
    let k = shard(0, 32) as usize;
    let (short, k) = (k >= 16, k % 16);
    let mut b = *b"00112233445566778899aAbBcCdDeEfF";
    // three neighbouring characters
    let (x, y) = (ascii(1), ascii(2));
    b[2 * k] = x;
    b[2 * k + 1] = y;
    let want = hexval(x).is_some() && hexval(y).is_some();
    let r = if short { ShortToken::try_from(text(&b)).map(|t| t.to_string()) } else { LongToken::try_from(text(&b)).map(|t| t.to_string()) };
    check(r.is_ok() == want, 1);
    if let Ok(t) = r {
        let o = t.as_bytes();
        check(o.len() == 32, 2);
        for i in 0..32 { check(i < o.len() && o[i] == b[i].to_ascii_lowercase(), 3) }
        reach(2);
    }
    reach(1);
}
/// every 16 bytes: shown and decoded again it is the same token, and different bytes are different tokens
#[no_mangle] #[inline(never)]
pub extern "C" fn h_token_round() {
    let k = shard(0, 16);
    let hex = b"0123456789abcdef";
    let (mut a, mut b) = ([b'0'; 32], [b'0'; 32]);
    let mut same = true;
    for i in 0..2usize {
        let (x, y) = (bits(10 + i as u32, 4) as usize, bits(30 + i as u32, 4) as usize);
        a[(2 * k as usize + i) % 32] = hex[x];
        b[(2 * k as usize + i) % 32] = hex[y];
        same = both(same, x == y);
    }
    let (s, t) = (LongToken::try_from(text(&a)), LongToken::try_from(text(&b)));
    check(s.is_ok() && t.is_ok(), 1);
    let (s, t) = (s.unwrap(), t.unwrap());
    check(s.to_string().as_bytes() == a && t.to_string().as_bytes() == b, 2);
    check((s == t) == same, 3);
    let (s, t) = (ShortToken::try_from(text(&a)).unwrap(), ShortToken::try_from(text(&b)).unwrap());
    check(s.to_string().as_bytes() == a && t.to_string().as_bytes() == b, 4);
    check((s == t) == same, 5);
    reach(1);
}
/// only texts of 32 digits are tokens
#[no_mangle] #[inline(never)]
pub extern "C" fn h_token_len() {
    let n = choose(1, 70) as usize;
    let b = vec![b'7'; n];
    check(LongToken::try_from(text(&b)).is_ok() == (n == 32), 1);
    check(ShortToken::try_from(text(&b)).is_ok() == (n == 32), 2);
    if n == 32 { reach(1) } else { reach(2) }
}
/// texts of 30 to 36 characters that begin or end with any two (or both with any one), or contain one of two bytes
#[no_mangle] #[inline(never)]
pub extern "C" fn h_token_edge() {
    let k = shard(0, 56) as usize;
    let (short, k) = (k >= 28, k % 28);
    let (n, mode) = (30 + k % 7, k / 7);
    let mut b = vec![b'7'; n];
    let (x, y) = (ascii(1), ascii(2));
    let mut want = n == 32 && hexval(x).is_some() && hexval(y).is_some();
    match mode {
        0 => (b[0], b[1]) = (x, y),
        1 => (b[n - 2], b[n - 1]) = (x, y),
        2 => (b[0], b[n - 1]) = (x, y),
        _ => {
            let p = [0, n / 2, n - 2][choose(3, 3) as usize];
            b[p] = 0xc2 + bits(4, 4) as u8;
            b[p + 1] = 0x80 + bits(5, 6) as u8;
            want = false;
        }
    }
    let ok = if short { ShortToken::try_from(text(&b)).is_ok() } else { LongToken::try_from(text(&b)).is_ok() };
    check(ok == want, 1);
    if ok { reach(1) } else { reach(2) }
}
/// names of coordinate frames and tasks: exactly the two spellings of each
#[no_mangle] #[inline(never)]
pub extern "C" fn h_names() {
    use EvaluationTask as T;
    use FrameID as F;
    let n = shard(0, 24) as usize;
    let b: Vec<u8> = (0..n).map(|i| ascii(1 + i as u32)).collect();
    let frames = [
        (F::BaseLink, "BaseLink", "base_link"), (F::Map, "Map", "map"), (F::CamBack, "CamBack", "cam_back"),
        (F::CamBackLeft, "CamBackLeft", "cam_back_left"), (F::CamBackRight, "CamBackRight", "cam_back_right"),
        (F::CamFront, "CamFront", "cam_front"), (F::CamFrontLeft, "CamFrontLeft", "cam_front_left"),
        (F::CamFrontRight, "CamFrontRight", "cam_front_right"), (F::CamTrafficLightNear, "CamTrafficLightNear", "cam_traffic_light_near"),
        (F::CamTrafficLightFar, "CamTrafficLightFar", "cam_traffic_light_far"),
    ];
    let tasks = [(T::Detection, "Detection", "detection"), (T::Tracking, "Tracking", "tracking"), (T::Prediction, "Prediction", "prediction")];
    let s = text(&b);
    let is = |w: &str| {
        let w = w.as_bytes();
        let mut r = w.len() == b.len();
        if r { for i in 0..w.len() { r = both(r, b[i] == w[i]) } }
        r
    };
    let f = F::from_str(s);
    let mut any = false;
    for (v, p, q) in &frames {
        let hit = either(is(p), is(q));
        any = either(any, hit);
        check(matches!(&f, Ok(x) if x == v) == hit, 1);
    }
    check(f.is_ok() == any, 2);
    let t = T::from_str(s);
    let mut any = false;
    for (v, p, q) in &tasks {
        let hit = either(is(p), is(q));
        any = either(any, hit);
        check(matches!(&t, Ok(x) if x == v) == hit, 3);
    }
    check(t.is_ok() == any, 4);
    // what is shown is read back
    for (v, p, _) in &frames {
        check(v.to_string() == *p && F::from_str(&v.to_string()).ok().as_ref() == Some(v), 5);
    }
    for (v, p, _) in &tasks {
        check(v.to_string() == *p && T::from_str(&v.to_string()).ok().as_ref() == Some(v), 6);
    }
    reach(1);
}
const NAMES: [(&str, Label); 42] = [
    ("car", Label::Car), ("vehicle.car", Label::Car), ("vehicle.construction", Label::Car),
    ("vehicle.emergency (ambulance & police)", Label::Car), ("vehicle.police", Label::Car), ("vehicle.fire", Label::Car), ("vehicle.ambulance", Label::Car),
    ("truck", Label::Truck), ("vehicle.truck", Label::Truck), ("trailer", Label::Truck), ("vehicle.trailer", Label::Truck),
    ("bus", Label::Bus), ("vehicle.bus", Label::Bus), ("vehicle.bus (bendy & rigid)", Label::Bus), ("vehicle.bus.rigid", Label::Bus), ("vehicle.bus.bendy", Label::Bus),
    ("bicycle", Label::Bicycle), ("vehicle.bicycle", Label::Bicycle), ("motorbike", Label::Motorbike), ("vehicle.motorcycle", Label::Motorbike),
    ("pedestrian", Label::Pedestrian), ("pedestrian.adult", Label::Pedestrian), ("pedestrian.child", Label::Pedestrian),
    ("pedestrian.construction_worker", Label::Pedestrian), ("pedestrian.personal_mobility", Label::Pedestrian), ("pedestrian.police_officer", Label::Pedestrian),
    ("pedestrian.stroller", Label::Pedestrian), ("pedestrian.wheelchair", Label::Pedestrian),
    ("human.pedestrian.adult", Label::Pedestrian), ("human.pedestrian.child", Label::Pedestrian), ("human.pedestrian.construction_worker", Label::Pedestrian),
    ("human.pedestrian.personal_mobility", Label::Pedestrian), ("human.pedestrian.police_officer", Label::Pedestrian),
    ("human.pedestrian.stroller", Label::Pedestrian), ("human.pedestrian.wheelchair", Label::Pedestrian),
    ("animal", Label::Animal), ("unknown", Label::Unknown), ("movable_object.barrier", Label::Unknown), ("movable_object.debris", Label::Unknown),
    ("movable_object.trafficcone", Label::Unknown), ("static_object.bicycle_rack", Label::Unknown), ("static_object.bollard", Label::Unknown),
];
/// category names in any mixture of upper and lower case
#[no_mangle] #[inline(never)]
pub extern "C" fn h_label_case() {
    let k = shard(0, NAMES.len() as u32) as usize;
    let (n, l) = &NAMES[k];
    let c = LabelConverter::new("autoware").unwrap();
    let b: Vec<u8> = n.bytes().enumerate().map(|(i, x)| {
        if x.is_ascii_lowercase() { x - 32 * bits(1 + i as u32, 1) as u8 } else { x }
    }).collect();
    check(c.convert(text(&b)) == *l, 1);
    reach(1);
}
/// any other text is unknown, whatever its bytes
#[no_mangle] #[inline(never)]
pub extern "C" fn h_label_any() {
    let n = shard(0, 42) as usize;
    let b: Vec<u8> = (0..n).map(|i| ascii(1 + i as u32)).collect();
    let c = LabelConverter::new("autoware").unwrap();
    let got = c.convert(text(&b));
    let mut want = [false; 8];
    for (w, l) in &NAMES {
        if w.len() != n { continue }
        let mut r = true;
        for (i, x) in w.bytes().enumerate() { r = both(r, either(b[i] == x, both(x.is_ascii_lowercase(), b[i] == x.to_ascii_uppercase()))) }
        let k = l.clone() as usize;
        want[k] = either(want[k], r);
    }
    let mut other = false;
    for (k, l) in [Label::Car, Label::Truck, Label::Bus, Label::Bicycle, Label::Motorbike, Label::Pedestrian, Label::Animal].iter().enumerate() {
        check((got == *l) == want[k + 1], 1);
        other = either(other, want[k + 1]);
    }
    check((got == Label::Unknown) == !other, 2);
    reach(1);
}
/// the limit of a label is the one listed at its (first) place
#[no_mangle] #[inline(never)]
pub extern "C" fn h_threshold() {
    let n = shard(0, 5) as usize;
    let label = |id: u32| match choose(id, 8) { 0 => Label::Unknown, 1 => Label::Car, 2 => Label::Truck, 3 => Label::Bus, 4 => Label::Bicycle, 5 => Label::Motorbike, 6 => Label::Pedestrian, _ => Label::Animal };
    let l = label(1);
    let t: Vec<Label> = (0..n).map(|i| label(10 + i as u32)).collect();
    let v: Vec<f64> = (0..n).map(|i| dbl(20 + i as u32)).collect();
    let u: Vec<usize> = (0..n).map(|i| bits(30 + i as u32, 64) as usize).collect();
    let i = t.iter().position(|x| *x == l);
    let r = get_label_threshold(&l, &t, &v);
    let s = perception_eval::threshold::LabelThreshold::new(&l, &t);
    let (p, q) = (s.get_threshold(&v), s.get_threshold(&u));
    check(r.is_some() == i.is_some() && p.is_some() == i.is_some() && q.is_some() == i.is_some(), 1);
    if let Some(i) = i {
        check(r.unwrap().to_bits() == v[i].to_bits() && p.unwrap().to_bits() == v[i].to_bits(), 2);
        check(q == Some(u[i]), 3);
        reach(2);
    } else { reach(1) }
}
