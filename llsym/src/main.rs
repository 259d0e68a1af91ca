mod bigrat;
mod exec;
mod hooks;
mod ir;
mod smt;
mod term;
use bigrat::Rat;
use exec::*;
use ir::Val;
use std::collections::{BTreeMap, HashMap};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use term::*;

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

struct Native {
    asserts_failed: Vec<u32>,
    panic: Option<String>,
    assume_failed: bool,
    obs: Vec<(u32, bool, u64)>,
    done: bool,
    killed: bool,
    raw: String,
}
fn native(bin: &str, harness: &str, file: &str) -> Option<Native> {
    let mut ch = Command::new(bin).arg(harness).arg(file).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut out = ch.stdout.take()?;
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let mut killed = false;
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) => {
                if t0.elapsed() > Duration::from_secs(20) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    killed = true;
                    break;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
            Err(_) => return None,
        }
    }
    let s = h.join().ok()?;
    let mut n = Native { asserts_failed: vec![], panic: None, assume_failed: false, obs: vec![], done: false, killed, raw: s.clone() };
    for l in s.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("ASSERT-FAIL") => n.asserts_failed.push(w.next().and_then(|x| x.parse().ok()).unwrap_or(0)),
            Some("PANIC") => n.panic = Some(l[6..].to_string()),
            Some("ASSUME-FAIL") => n.assume_failed = true,
            Some("OBSF") | Some("OBSU") => {
                let f = l.starts_with("OBSF");
                if let (Some(i), Some(v)) = (w.next(), w.next()) {
                    n.obs.push((i.parse().unwrap_or(0), f, u64::from_str_radix(v, 16).unwrap_or(0)));
                }
            }
            Some("END") => n.done = true,
            _ => {}
        }
    }
    Some(n)
}

fn mval(m: &Model, t: T) -> Option<MV> {
    match cx().n(t) {
        N::Var(i) => m.get(i).cloned(),
        _ => None,
    }
}
fn mf(v: Option<MV>) -> Option<f64> {
    match v {
        Some(MV::R(r)) => Some(r.to_f64()),
        Some(MV::F(f)) => Some(f),
        Some(MV::I(i)) => Some(i as f64),
        None => None,
    }
}
/// input file for the native run
fn input_file(vars: &BTreeMap<(u8, u32), Vec<T>>, m: &Model, use_phi: bool) -> String {
    let mut s = String::new();
    for ((k, id), v) in vars {
        match k {
            0 => s.push_str(&format!("R {} {:016x}\n", id, mf(mval(m, v[0])).unwrap_or(0.0).to_bits())),
            1 => {
                let b = match mval(m, v[0]) {
                    Some(MV::I(x)) => x as u64,
                    _ => 0,
                };
                s.push_str(&format!("D {} {:016x}\n", id, b));
            }
            2 => {
                let b = match mval(m, v[0]) {
                    Some(MV::I(x)) => x as u64,
                    _ => 0,
                };
                s.push_str(&format!("U {} {:x}\n", id, b));
            }
            3 => {
                let mut q: Vec<f64> = v.iter().map(|t| mf(mval(m, *t)).unwrap_or(0.0)).collect();
                if q[1..].iter().all(|x| *x == 0.0) && q[0] == 0.0 {
                    q[0] = 1.0;
                }
                let n2 = q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
                if !q[0].is_finite() || (q[0] * q[0] + n2 - 1.0).abs() > 1e-9 {
                    let w = (1.0 - n2).max(0.0).sqrt();
                    q[0] = if q[0] < 0.0 { -w } else { w };
                }
                s.push_str(&format!("Q {} {:016x} {:016x} {:016x} {:016x}\n", id, q[0].to_bits(), q[1].to_bits(), q[2].to_bits(), q[3].to_bits()));
            }
            _ => {
                let (c, sn, phi) = (mf(mval(m, v[0])), mf(mval(m, v[1])), mf(mval(m, v[2])));
                let (c, sn, phi) = match (c, sn, phi) {
                    (_, _, Some(p)) if use_phi => (p.cos(), p.sin(), p),
                    (Some(c), Some(s), _) => {
                        let n = c.hypot(s);
                        if n > 1e-9 {
                            (c / n, s / n, (s / n).atan2(c / n))
                        } else {
                            (1.0, 0.0, 0.0)
                        }
                    }
                    (_, _, Some(p)) => (p.cos(), p.sin(), p),
                    _ => (1.0, 0.0, 0.0),
                };
                s.push_str(&format!("A {} {:016x} {:016x} {:016x}\n", id, c.to_bits(), sn.to_bits(), phi.to_bits()));
            }
        }
    }
    s
}
fn sat_all(pc: &[T], m: &Model) -> bool {
    let mut memo = HashMap::new();
    pc.iter().all(|t| eval(*t, m, &mut memo, true).bool() == Some(true))
}
/// round free real variables to short dyadic values while the constraints stay true
fn nicen(vars: &BTreeMap<(u8, u32), Vec<T>>, pc: &[T], m: &Model) -> Model {
    let mut m = m.clone();
    if !sat_all(pc, &m) {
        return m;
    }
    for ((k, _), v) in vars {
        if *k != 0 {
            continue;
        }
        let id = match cx().n(v[0]) {
            N::Var(i) => *i,
            _ => continue,
        };
        let f = match m.get(&id) {
            Some(MV::R(r)) => r.to_f64(),
            Some(MV::F(f)) => *f,
            _ => continue,
        };
        let old = m.get(&id).cloned();
        for g in [1.0, 2.0, 4.0, 16.0, 256.0, 65536.0] {
            let c = (f * g).round() / g;
            let mut ok = false;
            for c in [c, c + 1.0 / g, c - 1.0 / g] {
                if let Some(r) = Rat::from_f64(c) {
                    m.insert(id, MV::R(r));
                    if sat_all(pc, &m) {
                        ok = true;
                        break;
                    }
                }
            }
            if ok {
                break;
            }
            if let Some(o) = &old {
                m.insert(id, o.clone());
            }
        }
    }
    m
}
/// strict versions of the non-strict constraints, to move a model off the boundaries
fn margin(e: &mut Exec, pc: &[T]) -> Option<Model> {
    let c = cx();
    let mut q: Vec<T> = pc.to_vec();
    for t in pc {
        let extra = match c.n(*t).clone() {
            N::RRel(_, p) => {
                let pp = c.poly(p);
                let k = Poly::konst(Rat::from_f64(1.0 / 1024.0).unwrap());
                Some(c.rrel0(RRel::Le, pp.add(&k)))
            }
            _ => None,
        };
        if let Some(x) = extra {
            if matches!(c.n(*t), N::RRel(RRel::Eq, _)) {
                continue;
            }
            let mut q2 = q.clone();
            q2.push(x);
            if let smt::Res::Sat(_) = e.smt.full_model(&q2) {
                q = q2;
            }
        }
    }
    match e.smt.full_model(&q) {
        smt::Res::Sat(m) => Some(m),
        _ => None,
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}
fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let mut pos = vec![];
    let mut o: HashMap<String, String> = HashMap::new();
    while let Some(a) = args.next() {
        if let Some(k) = a.strip_prefix("--") {
            o.insert(k.to_string(), args.next().unwrap_or_default());
        } else {
            pos.push(a);
        }
    }
    let geti = |k: &str, d: u64| o.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    term::init();
    let t0 = Instant::now();
    let m = match ir::Module::open(&pos[0]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot read module: {}", e);
            return 3;
        }
    };
    let t_open = t0.elapsed().as_secs_f64();
    let harness = pos[1].clone();
    let secs = geti("secs", 120);
    let mut e = new_exec(m, geti("timeout", 8000), secs);
    e.max_paths = geti("max-paths", 1_000_000);
    e.hash_seed = geti("hash", 0);
    e.smt.xcheck = o.contains_key("xcheck");
    e.keep_ends = geti("keep", 24) as usize;
    e.max_viol = geti("max-viol", 1) as usize;
    e.real_mode = !o.contains_key("bits");
    if let Some(s) = o.get("shard") {
        if let Some((a, b)) = s.split_once('/') {
            e.shard = (a.parse().unwrap_or(0), b.parse().unwrap_or(1));
        }
    }
    e.run(&harness);
    let t_exec = t0.elapsed().as_secs_f64();
    // ------------------------------------------------ replay
    let bins: Vec<String> = o.get("bin").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let dir = o.get("replay-dir").cloned().unwrap_or_else(|| "/tmp".into());
    let tag = format!("{}{}", harness, o.get("shard").map(|s| format!("_{}", s.replace('/', "of"))).unwrap_or_default());
    let mut confirmed: Vec<(String, String, String)> = vec![];
    let mut unconfirmed: Vec<String> = vec![];
    let viols = std::mem::take(&mut e.violations);
    e.smt.timeout_ms = e.smt.timeout_ms.min(6000);
    for (vi, v) in viols.iter().enumerate() {
        let mut cands: Vec<Model> = vec![];
        cands.push(nicen(&e.vars, &v.pc, &v.model));
        cands.push(v.model.clone());
        let mut hit = None;
        'outer: for round in 0..3 {
            if round == 1 {
                cands.clear();
                if let Some(m) = margin(&mut e, &v.pc) {
                    cands.push(nicen(&e.vars, &v.pc, &m));
                    cands.push(m);
                }
            }
            if round == 2 {
                cands.clear();
                if let Some(g) = v.goal {
                    // ask for a bigger violation
                    if let N::RRel(r, p) = cx().n(g).clone() {
                        if r != RRel::Eq {
                            let pp = cx().poly(p).add(&Poly::konst(Rat::from_f64(0.0625).unwrap()));
                            let x = cx().rrel0(RRel::Le, pp);
                            let mut q = v.pc.clone();
                            q.push(x);
                            if let smt::Res::Sat(m) = e.smt.full_model(&q) {
                                cands.push(nicen(&e.vars, &q, &m));
                            }
                        }
                    }
                }
            }
            for m in &cands {
                for phi in [false, true] {
                    let f = format!("{}/{}_{}.in", dir, tag, vi);
                    let _ = std::fs::write(&f, input_file(&e.vars, m, phi));
                    let mut all = true;
                    let mut how = String::new();
                    for b in &bins {
                        match native(b, &harness, &f) {
                            Some(n) => {
                                let bad = n.panic.is_some() || !n.asserts_failed.is_empty();
                                if std::env::var("LLSYM_V").is_ok() {
                                    eprintln!("replay {} {} -> {}", b, f, n.raw);
                                }
                                if !bad || n.assume_failed {
                                    all = false;
                                } else {
                                    how = n.panic.clone().unwrap_or_else(|| format!("assertion {:?} fails", n.asserts_failed));
                                }
                            }
                            None => all = false,
                        }
                    }
                    if all && !bins.is_empty() {
                        hit = Some((f, how));
                        break 'outer;
                    }
                }
            }
        }
        match hit {
            Some((f, how)) => confirmed.push((v.what.clone(), f, how)),
            None => unconfirmed.push(format!("{} [{}]", v.what, v.trace.iter().take(8).cloned().collect::<Vec<_>>().join(" <- "))),
        }
    }
    // ------------------------------------------------ validation of completed paths on the binary
    let ends = std::mem::take(&mut e.ends);
    let (mut validated, mut mismatched, mut nomodel) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut mism: Vec<String> = vec![];
    let vdeadline = Instant::now() + Duration::from_secs(geti("validate-secs", 60));
    e.smt.timeout_ms = e.smt.timeout_ms.min(3000);
    if let Some(b) = bins.first() {
        for (i, p) in ends.iter().enumerate() {
            if Instant::now() > vdeadline {
                break;
            }
            let m = match e.smt.full_model(&p.pc) {
                smt::Res::Sat(m) => m,
                smt::Res::Unsat => continue,
                smt::Res::Unknown => {
                    nomodel += 1;
                    continue;
                }
            };
            let mut ok = false;
            let mut why = String::new();
            // inputs on which the binary breaks an assertion although the path over the reals does not
            let mut broken: Vec<(String, String)> = vec![];
            let mut tries = 0;
            let base = nicen(&e.vars, &p.pc, &m);
            for k in 0..3 {
                let m2;
                let mm = match k {
                    0 | 1 => &base,
                    _ => match margin(&mut e, &p.pc) {
                        Some(x) => {
                            m2 = nicen(&e.vars, &p.pc, &x);
                            &m2
                        }
                        None => break,
                    },
                };
                let f = format!("{}/{}_v{}.in", dir, tag, i);
                let _ = std::fs::write(&f, input_file(&e.vars, mm, k == 1));
                let r = native(b, &harness, &f);
                let text = std::fs::read_to_string(&f).unwrap_or_default();
                let _ = std::fs::remove_file(&f);
                let n = match r {
                    Some(n) => n,
                    None => continue,
                };
                why.clear();
                tries += 1;
                if !n.assume_failed && p.panic.is_none() {
                    if let Some(x) = &n.panic {
                        broken.push((text, x.clone()));
                    } else if !n.asserts_failed.is_empty() {
                        broken.push((text, format!("assertion {:?} fails", n.asserts_failed)));
                    }
                }
                if p.panic.is_some() != n.panic.is_some() {
                    why = format!("panic {:?} vs {:?}", p.panic, n.panic);
                } else if n.assume_failed {
                    why = "assumption fails natively".into();
                } else if !n.asserts_failed.is_empty() {
                    why = format!("assertion {:?} fails natively", n.asserts_failed);
                } else if p.panic.is_none() && !n.done {
                    why = "native run did not finish".into();
                } else if n.obs.len() != p.obs.len() {
                    why = format!("{} observations vs {}", p.obs.len(), n.obs.len());
                } else {
                    let mut memo = HashMap::new();
                    for ((id, v, isf), (nid, _, bits)) in p.obs.iter().zip(n.obs.iter()) {
                        if id != nid {
                            why = format!("observation order {} {}", id, nid);
                            break;
                        }
                        let ev = match v {
                            Val::C(x) => EV::I(*x),
                            Val::T(t) => eval(*t, mm, &mut memo, true),
                            _ => EV::Unk,
                        };
                        let same = if *isf {
                            let y = f64::from_bits(*bits);
                            let x = match &ev {
                                EV::I(x) => Some(f64::from_bits(*x as u64)),
                                ev => ev.f(),
                            };
                            match x {
                                Some(x) => (x.is_nan() && y.is_nan()) || x == y || (x - y).abs() <= 1e-6 * (1.0 + x.abs().max(y.abs())),
                                None => true,
                            }
                        } else {
                            matches!(ev, EV::I(x) if x as u64 == *bits)
                        };
                        if !same {
                            why = format!("observation {}: engine {:?} binary {:#x} ({})", id, ev, bits, f64::from_bits(*bits));
                            break;
                        }
                    }
                }
                if why.is_empty() {
                    ok = true;
                    if samples.len() < 4 {
                        let ins: Vec<String> = input_file(&e.vars, mm, k == 1)
                            .lines()
                            .take(14)
                            .map(|l| {
                                let w: Vec<&str> = l.split_whitespace().collect();
                                if w[0] == "U" {
                                    format!("u{}={}", w[1], w[2])
                                } else {
                                    format!("{}{}={}", w[0].to_lowercase(), w[1], w[2..].iter().map(|x| format!("{}", f64::from_bits(u64::from_str_radix(x, 16).unwrap_or(0)))).collect::<Vec<_>>().join(","))
                                }
                            })
                            .collect();
                        samples.push(format!("{} path {}: {}", harness, i, ins.join(" ")));
                    }
                    break;
                }
            }
            if ok {
                validated += 1;
            } else if tries > 1 && broken.len() == tries {
                // every input tried on this path is a counterexample of the real code
                let (text, how) = broken.pop().unwrap();
                let f = format!("{}/{}_r{}.in", dir, tag, i);
                let _ = std::fs::write(&f, text);
                confirmed.push((format!("{} on the binary (rounding)", how), f, how));
            } else {
                mismatched += 1;
                if mism.len() < 5 {
                    mism.push(format!("path {}: {}", i, why));
                }
            }
        }
    }
    // ------------------------------------------------ paths the engine could not follow to their end
    let ue = std::mem::take(&mut e.unsup_ends);
    if let Some(b) = bins.first() {
        for (i, (why, pc)) in ue.iter().enumerate() {
            if Instant::now() > vdeadline + Duration::from_secs(60) || !confirmed.is_empty() {
                break;
            }
            let m = match e.smt.full_model(pc) {
                smt::Res::Sat(m) => m,
                _ => continue,
            };
            let mut ms = vec![nicen(&e.vars, pc, &m)];
            if let Some(x) = margin(&mut e, pc) {
                ms.push(x);
            }
            let (mut bad, mut tries, mut how) = (0, 0, String::new());
            let f = format!("{}/{}_u{}.in", dir, tag, i);
            for mm in &ms {
                for phi in [false, true] {
                    let _ = std::fs::write(&f, input_file(&e.vars, mm, phi));
                    if let Some(n) = native(b, &harness, &f) {
                        tries += 1;
                        if n.assume_failed {
                            continue;
                        }
                        if !n.asserts_failed.is_empty() {
                            bad += 1;
                            how = format!("assertion {:?} fails", n.asserts_failed);
                        } else if n.killed && why.contains("step limit") {
                            bad += 1;
                            how = "does not end".into();
                        }
                    }
                }
            }
            if tries > 0 && bad == tries {
                confirmed.push((format!("{} on the binary ({})", how, why), f, how));
            } else {
                let _ = std::fs::remove_file(&f);
            }
        }
    }
    let fns: Vec<String> = e.fns_seen.iter().map(|i| hooks::demangle(&e.m.fns[*i as usize].name)).collect();
    let mut ours: Vec<String> = fns.iter().filter(|n| n.starts_with("perception_eval") || n.contains("::perception_eval::") && !n.starts_with("core") && !n.starts_with("alloc") && !n.starts_with("std")).cloned().collect();
    ours.sort();
    ours.dedup();
    let st = &e.smt.st;
    let mut j = String::from("{");
    j.push_str(&format!("\"harness\":{},", js(&harness)));
    j.push_str(&format!("\"paths\":{},\"pruned\":{},\"forks\":{},\"instructions\":{},\"asserts\":{},\"asserts_trivial\":{},", e.n_paths, e.n_pruned, e.n_forks, e.n_steps, e.n_asserts, e.n_assert_const));
    j.push_str(&format!("\"unknown_branches\":{},\"queries\":{},\"cached\":{},\"by_eval\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"xchecked\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},", e.unknown_branch, st.queries, st.cache, st.by_eval, st.sat, st.unsat, st.unknown, st.fallback, st.xchecked, st.time, st.max_time));
    j.push_str(&format!("\"open_s\":{:.3},\"exec_s\":{:.3},\"total_s\":{:.3},", t_open, t_exec, t0.elapsed().as_secs_f64()));
    j.push_str(&format!("\"validated\":{},\"mismatched\":{},\"no_model\":{},", validated, mismatched, nomodel));
    let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    j.push_str(&format!("\"mismatches\":[{}],\"samples\":[{}],", list(&mism), list(&samples)));
    j.push_str(&format!("\"reach\":{{{}}},", e.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"obligations\":{{{}}},", e.obligations.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"functions_total\":{},\"functions\":[{}],", fns.len(), list(&ours)));
    j.push_str(&format!("\"violations\":[{}],", confirmed.iter().map(|(w, f, h)| format!("{{\"what\":{},\"input\":{},\"native\":{}}}", js(w), js(f), js(h))).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"unconfirmed\":[{}],\"inconclusive\":[{}],\"solver_errors\":[{}]", list(&unconfirmed), list(&e.inconclusive), list(&e.smt.errors.iter().take(5).cloned().collect::<Vec<_>>())));
    j.push('}');
    match o.get("json") {
        Some(f) => {
            let _ = std::fs::write(f, &j);
        }
        None => println!("{}", j),
    }
    if !confirmed.is_empty() {
        1
    } else if !unconfirmed.is_empty() || !e.inconclusive.is_empty() {
        2
    } else {
        0
    }
}
