//! Harness interface. Under the symbolic executor every `__sym_*` call is intercepted;
//! natively the values come from an input file (one model of the solver).
#![allow(dead_code)]
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Default)]
struct In {
    m: HashMap<(char, u32), Vec<u64>>,
}
static IN: Mutex<Option<In>> = Mutex::new(None);
static EXPECT_PANIC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static SCRATCH: Mutex<Option<String>> = Mutex::new(None);

fn get(k: char, id: u32) -> Option<Vec<u64>> {
    IN.lock().unwrap().as_ref().and_then(|i| i.m.get(&(k, id)).cloned())
}
pub fn load(path: &str) {
    let mut i = In::default();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() >= 3 {
                let v = w[2..].iter().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
                i.m.insert((w[0].chars().next().unwrap(), w[1].parse().unwrap()), v);
            }
        }
    }
    *IN.lock().unwrap() = Some(i);
    std::panic::set_hook(Box::new(|p| {
        println!("PANIC {}", p.to_string().replace('\n', " "));
    }));
}
pub fn set_scratch(s: &str) {
    *SCRATCH.lock().unwrap() = Some(s.to_string());
}

macro_rules! api { ($($(#[$a:meta])* fn $n:ident($($p:ident : $t:ty),*) $(-> $r:ty)? $b:block)*) => {
    $( $(#[$a])* #[no_mangle] #[inline(never)] pub extern "C" fn $n($($p: $t),*) $(-> $r)? $b )*
} }
api! {
    fn __sym_real(id: u32) -> f64 { get('R', id).map_or(0.0, |v| f64::from_bits(v[0])) }
    fn __sym_rat(n: i64, d: i64) -> f64 { std::hint::black_box(n) as f64 / d as f64 }
    fn __sym_f64(id: u32) -> f64 { get('D', id).map_or(0.0, |v| f64::from_bits(v[0])) }
    fn __sym_u64(id: u32, _bits: u32) -> u64 { get('U', id).map_or(0, |v| v[0]) }
    fn __sym_choose(id: u32, n: u32) -> u32 { get('U', id).map_or(0, |v| v[0] as u32).min(n - 1) }
    fn __sym_shard(id: u32, n: u32) -> u32 { get('U', id).map_or(0, |v| v[0] as u32).min(n - 1) }
    fn __sym_unit4(id: u32, out: *mut f64) {
        let v = get('Q', id).unwrap_or(vec![1f64.to_bits(), 0, 0, 0]);
        for i in 0..4 { unsafe { *out.add(i) = f64::from_bits(v[i]) } }
    }
    fn __sym_angle(id: u32, out: *mut f64) {
        let v = get('A', id).unwrap_or(vec![1f64.to_bits(), 0, 0]);
        for i in 0..3 { unsafe { *out.add(i) = f64::from_bits(v[i]) } }
    }
    fn __sym_assume(c: bool) { if !c { println!("ASSUME-FAIL"); std::process::exit(0) } }
    fn __sym_assert(c: bool, id: u32) { if !c { println!("ASSERT-FAIL {}", id); } }
    fn __sym_close(a: f64, b: f64, tol: f64, id: u32) {
        let m = 1.0 + a.abs().max(b.abs());
        if !(a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * 4.0 + 1e-9 * m) {
            println!("ASSERT-FAIL {} ({} vs {})", id, a, b);
        }
    }
    fn __sym_obs_f64(id: u32, v: f64) { println!("OBSF {} {:016x}", id, v.to_bits()); }
    fn __sym_obs_u64(id: u32, v: u64) { println!("OBSU {} {:016x}", id, v); }
    fn __sym_num(v: f64, out: *mut u8) -> usize {
        let t = format!("{:?}", v);
        unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), out, t.len()) }
        t.len()
    }
    fn __sym_reach(_id: u32) { std::hint::black_box(_id); }
    fn __sym_expect_panic(on: bool) { EXPECT_PANIC.store(on, std::sync::atomic::Ordering::Relaxed); }
    fn __sym_fs_add(p: *const u8, pl: usize, d: *const u8, dl: usize) {
        // natively the file is really created, below the scratch directory
        let path = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, pl)) };
        let data = if dl == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(d, dl) } };
        assert!(path.starts_with(&root()), "file outside the scratch directory");
        if let Some(par) = std::path::Path::new(path).parent() { let _ = std::fs::create_dir_all(par); }
        std::fs::write(path, data).unwrap();
    }
    fn __sym_and(a: bool, b: bool) -> bool { std::hint::black_box(a) & b }
    fn __sym_or(a: bool, b: bool) -> bool { std::hint::black_box(a) | b }
    fn __sym_pick(v: u64) -> u64 { std::hint::black_box(v) }
    fn __sym_symbolic() -> bool { std::hint::black_box(false) }
}

/// directory in which harness files live
pub fn root() -> String {
    if __sym_symbolic() {
        return "/vfs".to_string();
    }
    SCRATCH.lock().unwrap().clone().unwrap_or_else(|| "/nonexistent".into())
}

// ---- convenience
pub fn real(id: u32) -> f64 { __sym_real(id) }
/// the rational n/d, exactly
pub fn rat(n: i64, d: i64) -> f64 { __sym_rat(n, d) }
pub fn dbl(id: u32) -> f64 { __sym_f64(id) }
pub fn bits(id: u32, n: u32) -> u64 { __sym_u64(id, n) }
pub fn choose(id: u32, n: u32) -> u32 { __sym_choose(id, n) }
pub fn shard(id: u32, n: u32) -> u32 { __sym_shard(id, n) }
pub fn unit4(id: u32) -> [f64; 4] {
    let mut q = [0.0; 4];
    __sym_unit4(id, q.as_mut_ptr());
    q
}
/// (cos phi, sin phi, phi), -pi/2 < phi <= pi/2
pub fn angle(id: u32) -> [f64; 3] {
    let mut q = [0.0; 3];
    __sym_angle(id, q.as_mut_ptr());
    q
}
pub fn assume(c: bool) { __sym_assume(c) }
pub fn check(c: bool, id: u32) { __sym_assert(c, id) }
pub fn close(a: f64, b: f64, id: u32) { __sym_close(a, b, 1e-6, id) }
pub fn obs(id: u32, v: f64) { __sym_obs_f64(id, v) }
pub fn obsu(id: u32, v: u64) { __sym_obs_u64(id, v) }
pub fn reach(id: u32) { __sym_reach(id) }
pub fn both(a: bool, b: bool) -> bool { __sym_and(a, b) }
pub fn either(a: bool, b: bool) -> bool { __sym_or(a, b) }
/// real in [lo, hi]
pub fn real_in(id: u32, lo: f64, hi: f64) -> f64 {
    let v = __sym_real(id);
    __sym_assume(both(v >= lo, v <= hi));
    v
}
/// decimal text that decodes to v
pub fn num(v: f64) -> String {
    let mut b = [0u8; 400];
    let n = __sym_num(v, b.as_mut_ptr());
    String::from_utf8(b[..n].to_vec()).unwrap()
}
pub fn file(path: &str, data: &[u8]) {
    __sym_fs_add(path.as_ptr(), path.len(), data.as_ptr(), data.len())
}
