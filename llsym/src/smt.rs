//! SMT back end: prints queries, drives solver processes, parses models.
use crate::bigrat::{Int, Rat};
use crate::term::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    rx: Receiver<String>,
}
impl Proc {
    fn start(cmd: &[&str]) -> Option<Proc> {
        let mut child = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        let inp = child.stdin.take()?;
        let out = child.stdout.take()?;
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(out);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Some(Proc { child, inp, rx })
    }
    /// sends text, collects lines until the sentinel
    fn ask(&mut self, q: &str, deadline: Instant) -> Option<Vec<String>> {
        self.inp.write_all(q.as_bytes()).ok()?;
        self.inp.write_all(b"(echo \"@@done\")\n").ok()?;
        self.inp.flush().ok()?;
        let mut v = vec![];
        loop {
            let now = Instant::now();
            if now >= deadline {
                return None;
            }
            match self.rx.recv_timeout(deadline - now) {
                Ok(l) => {
                    if l.trim().trim_matches('"') == "@@done" {
                        return Some(v);
                    }
                    v.push(l);
                }
                Err(_) => return None,
            }
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Kind {
    Z3New,
    Z3Old,
    Cvc5,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cache: u64,
    pub by_eval: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub xchecked: u64,
    pub fallback: u64,
}

pub struct Smt {
    procs: HashMap<Kind, Proc>,
    cache: HashMap<Vec<T>, Res>,
    models: Vec<Model>,
    vars_memo: HashMap<T, std::rc::Rc<BTreeSet<u32>>>,
    pub st: Stats,
    pub timeout_ms: u64,
    pub xcheck: bool,
    pub dump: Option<String>,
    pub errors: Vec<String>,
}

fn is_fp_node(n: &N) -> bool {
    matches!(n, N::FBin(..) | N::FUn(..) | N::FFromS(_) | N::FFromU(_) | N::FCvt(_))
}

struct Emit {
    out: String,
    done: HashSet<T>,
    bv_of_fp: HashSet<T>,
    vars: BTreeSet<u32>,
    fun_atoms: Vec<T>,
    has_bv: bool,
    has_fp: bool,
    has_real: bool,
    nonlinear: bool,
    mixed: bool,
}
fn fpsort(w: u16) -> &'static str {
    if w == 64 {
        "11 53"
    } else {
        "8 24"
    }
}
impl Emit {
    fn new() -> Emit {
        Emit { out: String::new(), done: HashSet::new(), bv_of_fp: HashSet::new(), vars: BTreeSet::new(), fun_atoms: vec![], has_bv: false, has_fp: false, has_real: false, nonlinear: false, mixed: false }
    }
    fn var(&mut self, id: u32) -> String {
        if self.vars.insert(id) {
            let s = cx().vars[id as usize].sort;
            let ss = match s {
                Sort::Bool => "Bool".to_string(),
                Sort::BV(w) => {
                    self.has_bv = true;
                    format!("(_ BitVec {})", w)
                }
                Sort::Real => {
                    self.has_real = true;
                    "Real".to_string()
                }
            };
            self.out.push_str(&format!("(declare-const v{} {})\n", id, ss));
        }
        format!("v{}", id)
    }
    fn atom(&mut self, t: T) -> String {
        let c = cx();
        match c.n(t).clone() {
            N::Var(id) => {
                let s = self.var(id);
                if c.sq.contains_key(&t) && !self.fun_atoms.contains(&t) {
                    self.fun_atoms.push(t);
                } else if c.trig.iter().any(|p| p.c == t || p.s == t || p.phi == t) && !self.fun_atoms.contains(&t) {
                    self.fun_atoms.push(t);
                }
                s
            }
            N::RFun(..) => {
                if self.done.insert(t) {
                    self.has_real = true;
                    self.out.push_str(&format!("(declare-const a{} Real)\n", t));
                    self.fun_atoms.push(t);
                }
                format!("a{}", t)
            }
            N::RFromInt(sg, x) => {
                self.mixed = true;
                let s = self.bv(x);
                let w = c.width(x);
                if sg {
                    format!("(to_real (- (bv2nat (bvxor {} (_ bv{} {}))) {}))", s, 1u128 << (w - 1), w, 1u128 << (w - 1))
                } else {
                    format!("(to_real (bv2nat {}))", s)
                }
            }
            n => panic!("atom {:?}", n),
        }
    }
    fn poly(&mut self, p: &Poly) -> String {
        let mut ts = vec![];
        for (m, k) in &p.0 {
            let mut fs = vec![];
            if !k.is_one() || m.is_empty() {
                fs.push(k.smt());
            }
            let mut deg = 0;
            for (a, e) in m {
                let s = self.atom(*a);
                deg += e.abs();
                if *e < 0 {
                    deg = 9;
                }
                for _ in 0..e.abs() {
                    if *e > 0 {
                        fs.push(s.clone());
                    } else {
                        fs.push(format!("(/ 1.0 {})", s));
                    }
                }
            }
            if deg > 1 {
                self.nonlinear = true;
            }
            ts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        match ts.len() {
            0 => "0.0".into(),
            1 => ts.pop().unwrap(),
            _ => format!("(+ {})", ts.join(" ")),
        }
    }
    /// p rel 0 printed with positive terms on each side
    fn fp(&mut self, t: T) -> String {
        let c = cx();
        let n = c.n(t).clone();
        let w = c.width(t);
        self.has_fp = true;
        if is_fp_node(&n) {
            if self.done.insert(t) {
                let e = match n {
                    N::FBin(op, a, b) => {
                        let (x, y) = (self.fp(a), self.fp(b));
                        match op {
                            FOp::Add => format!("(fp.add RNE {} {})", x, y),
                            FOp::Sub => format!("(fp.sub RNE {} {})", x, y),
                            FOp::Mul => format!("(fp.mul RNE {} {})", x, y),
                            FOp::Div => format!("(fp.div RNE {} {})", x, y),
                            FOp::Min => format!("(fp.min {} {})", x, y),
                            FOp::Max => format!("(fp.max {} {})", x, y),
                        }
                    }
                    N::FUn(op, a) => {
                        let x = self.fp(a);
                        match op {
                            FUn::Sqrt => format!("(fp.sqrt RNE {})", x),
                            FUn::Floor => format!("(fp.roundToIntegral RTN {})", x),
                            FUn::Ceil => format!("(fp.roundToIntegral RTP {})", x),
                            FUn::Trunc => format!("(fp.roundToIntegral RTZ {})", x),
                            FUn::RoundEven => format!("(fp.roundToIntegral RNE {})", x),
                            FUn::RoundAway => format!("(fp.roundToIntegral RNA {})", x),
                        }
                    }
                    N::FFromS(a) => {
                        let x = self.bv(a);
                        format!("((_ to_fp {}) RNE {})", fpsort(w), x)
                    }
                    N::FFromU(a) => {
                        let x = self.bv(a);
                        format!("((_ to_fp_unsigned {}) RNE {})", fpsort(w), x)
                    }
                    N::FCvt(a) => {
                        let x = self.fp(a);
                        format!("((_ to_fp {}) RNE {})", fpsort(w), x)
                    }
                    _ => unreachable!(),
                };
                self.out.push_str(&format!("(define-fun f{} () (_ FloatingPoint {}) {})\n", t, fpsort(w), e));
            }
            return format!("f{}", t);
        }
        let s = self.bv(t);
        format!("((_ to_fp {}) {})", fpsort(w), s)
    }
    fn bv(&mut self, t: T) -> String {
        let c = cx();
        let n = c.n(t).clone();
        let w = match c.sort(t) {
            Sort::BV(w) => w,
            Sort::Bool => {
                let b = self.bool(t);
                return format!("(ite {} #b1 #b0)", b);
            }
            _ => panic!("bv of real"),
        };
        self.has_bv = true;
        match n {
            N::C(v) => return format!("(_ bv{} {})", v, w),
            N::Var(id) => return self.var(id),
            _ => {}
        }
        if is_fp_node(&n) {
            let f = self.fp(t);
            if self.bv_of_fp.insert(t) {
                self.out.push_str(&format!("(declare-const b{} (_ BitVec {}))\n(assert (= ((_ to_fp {}) b{}) {}))\n", t, w, fpsort(w), t, f));
            }
            return format!("b{}", t);
        }
        if self.done.insert(t) {
            let e = match n {
                N::Bv(op, a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    let o = match op {
                        BvOp::Add => "bvadd",
                        BvOp::Sub => "bvsub",
                        BvOp::Mul => "bvmul",
                        BvOp::UDiv => "bvudiv",
                        BvOp::URem => "bvurem",
                        BvOp::SDiv => "bvsdiv",
                        BvOp::SRem => "bvsrem",
                        BvOp::Shl => "bvshl",
                        BvOp::LShr => "bvlshr",
                        BvOp::AShr => "bvashr",
                        BvOp::And => "bvand",
                        BvOp::Or => "bvor",
                        BvOp::Xor => "bvxor",
                    };
                    format!("({} {} {})", o, x, y)
                }
                N::Concat(a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    format!("(concat {} {})", x, y)
                }
                N::Extract(h, l, a) => {
                    let x = self.bv(a);
                    format!("((_ extract {} {}) {})", h, l, x)
                }
                N::ZExt(a) => {
                    let x = self.bv(a);
                    format!("((_ zero_extend {}) {})", w - c.width(a), x)
                }
                N::SExt(a) => {
                    let x = self.bv(a);
                    format!("((_ sign_extend {}) {})", w - c.width(a), x)
                }
                N::Ite(k, a, b) => {
                    let (k, x, y) = (self.bool(k), self.bv(a), self.bv(b));
                    format!("(ite {} {} {})", k, x, y)
                }
                N::FToS(a) => {
                    let x = self.fp(a);
                    format!("((_ fp.to_sbv {}) RTZ {})", w, x)
                }
                N::FToU(a) => {
                    let x = self.fp(a);
                    format!("((_ fp.to_ubv {}) RTZ {})", w, x)
                }
                n => panic!("bv {:?}", n),
            };
            self.out.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", t, w, e));
        }
        format!("n{}", t)
    }
    fn bool(&mut self, t: T) -> String {
        let c = cx();
        let n = c.n(t).clone();
        match n {
            N::B(v) => return v.to_string(),
            N::Var(id) => return self.var(id),
            N::Not(a) => return format!("(not {})", self.bool(a)),
            _ => {}
        }
        if self.done.insert(t) {
            let e = match n {
                N::And(a, b) => {
                    let (x, y) = (self.bool(a), self.bool(b));
                    format!("(and {} {})", x, y)
                }
                N::Or(a, b) => {
                    let (x, y) = (self.bool(a), self.bool(b));
                    format!("(or {} {})", x, y)
                }
                N::Eq(a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    format!("(= {} {})", x, y)
                }
                N::Ult(a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    format!("(bvult {} {})", x, y)
                }
                N::Slt(a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    format!("(bvslt {} {})", x, y)
                }
                N::FRel(op, a, b) => {
                    let (x, y) = (self.fp(a), self.fp(b));
                    match op {
                        FRel::Eq => format!("(fp.eq {} {})", x, y),
                        FRel::Lt => format!("(fp.lt {} {})", x, y),
                        FRel::Le => format!("(fp.leq {} {})", x, y),
                    }
                }
                N::FNan(a) => {
                    let x = self.fp(a);
                    format!("(fp.isNaN {})", x)
                }
                N::RRel(op, p) => {
                    let pp = c.poly(p);
                    let s = self.poly(&pp);
                    match op {
                        RRel::Eq => format!("(= {} 0.0)", s),
                        RRel::Lt => format!("(< {} 0.0)", s),
                        RRel::Le => format!("(<= {} 0.0)", s),
                    }
                }
                n => panic!("bool {:?}", n),
            };
            self.out.push_str(&format!("(define-fun n{} () Bool {})\n", t, e));
        }
        format!("n{}", t)
    }
    fn ax(&mut self, t: T) {
        let c = cx();
        if t == c.tt {
            return;
        }
        let s = self.bool(t);
        self.out.push_str(&format!("(assert {})\n", s));
    }
    /// defining constraints of the function atoms met so far (may add more atoms)
    fn axioms(&mut self) {
        let mut i = 0;
        while i < self.fun_atoms.len() {
            let a = self.fun_atoms[i];
            i += 1;
            let c = cx();
            let nm = self.atom(a);
            if let Some(rule) = c.sq.get(&a).cloned() {
                let s = self.poly(&rule);
                self.nonlinear = true;
                self.out.push_str(&format!("(assert (= (* {} {}) {}))\n", nm, nm, s));
            }
            if let Some(p) = c.trig.iter().find(|p| p.c == a || p.s == a || p.phi == a).cloned() {
                // link the triple
                for x in [p.c, p.s, p.phi] {
                    self.atom(x);
                }
                let (cs, ss, ph) = (self.atom(p.c), self.atom(p.s), self.atom(p.phi));
                let hp = Rat::from_f64(std::f64::consts::FRAC_PI_2).unwrap().smt();
                let qp = Rat::from_f64(std::f64::consts::FRAC_PI_4).unwrap().smt();
                if p.c == a {
                    self.nonlinear = true;
                    self.out.push_str(&format!("(assert (>= {c} 0.0))\n(assert (<= {c} 1.0))\n(assert (<= (- 1.0) {s}))\n(assert (<= {s} 1.0))\n(assert (= (= {c} 0.0) (= {p} {hp})))\n(assert (> {p} (- {hp})))\n(assert (<= {p} {hp}))\n(assert (= (> {s} 0.0) (> {p} 0.0)))\n(assert (= (= {s} 0.0) (= {p} 0.0)))\n(assert (= (> {s} {c}) (> {p} {qp})))\n(assert (= (= {s} {c}) (= {p} {qp})))\n(assert (= (< {s} (- {c})) (< {p} (- {qp}))))\n(assert (= (= {s} (- {c})) (or (= {p} (- {qp})))))\n", c = cs, s = ss, p = ph, hp = hp, qp = qp));
                }
            }
            if let N::RFun(f, x, y) = c.n(a).clone() {
                match f {
                    RFn::Sqrt => self.out.push_str(&format!("(assert (>= {} 0.0))\n", nm)),
                    RFn::Inv => {
                        let p = c.poly(x);
                        let s = self.poly(&p);
                        self.nonlinear = true;
                        self.out.push_str(&format!("(assert (= (* {} {}) 1.0))\n", nm, s));
                    }
                    RFn::Cos | RFn::Sin => self.out.push_str(&format!("(assert (<= {n} 1.0))(assert (>= {n} (- 1.0)))\n", n = nm)),
                    RFn::Atan2 => {
                        // x is the ordinate, y the abscissa; not both zero on the path
                        let pi = Rat::from_f64(std::f64::consts::PI).unwrap();
                        let (py, px) = (c.poly(x), c.poly(y));
                        let th = Poly::atom(a);
                        let zero = Poly::default();
                        let _ = zero;
                        let lt = |p: Poly| cx().rrel0(RRel::Lt, p);
                        let le = |p: Poly| cx().rrel0(RRel::Le, p);
                        let eq = |p: Poly| cx().rrel0(RRel::Eq, p);
                        let pk = |r: &Rat| Poly::konst(r.clone());
                        let half = pi.mul(&Rat::new(Int::S(1), Int::S(2)));
                        self.ax(lt(pk(&pi).neg().sub(&th)));
                        self.ax(le(th.sub(&pk(&pi))));
                        let ypos = lt(py.neg());
                        let yneg = lt(py.clone());
                        let yz = eq(py.clone());
                        let xpos = lt(px.neg());
                        let xneg = lt(px.clone());
                        let xz = eq(px.clone());
                        let cxx = cx();
                        let thpos = lt(th.neg());
                        let thlt = lt(th.sub(&pk(&pi)));
                        let thneg = lt(th.clone());
                        let th0 = eq(th.clone());
                        let thpi = eq(th.sub(&pk(&pi)));
                        let imp = |a: T, b: T| {
                            let c = cx();
                            let n = c.not(a);
                            c.or(n, b)
                        };
                        let a1 = cxx.and(thpos, thlt);
                        self.ax(imp(ypos, a1));
                        self.ax(imp(yneg, thneg));
                        let k = cxx.and(yz, xpos);
                        self.ax(imp(k, th0));
                        let k = cxx.and(yz, xneg);
                        self.ax(imp(k, thpi));
                        // |theta| vs pi/2
                        let lo = lt(pk(&half).neg().sub(&th));
                        let hi = lt(th.sub(&pk(&half)));
                        let inner = cxx.and(lo, hi);
                        self.ax(imp(xpos, inner));
                        let lo = lt(th.add(&pk(&half)));
                        let hi = lt(pk(&half).sub(&th));
                        let outer = cxx.or(lo, hi);
                        self.ax(imp(xneg, outer));
                        let k = cxx.and(xz, ypos);
                        self.ax(imp(k, eq(th.sub(&pk(&half)))));
                        let k = cxx.and(xz, yneg);
                        self.ax(imp(k, eq(th.add(&pk(&half)))));
                        // relation with the other atan2 atoms already present: same direction <=> same angle
                        let others: Vec<T> = self.fun_atoms[..i - 1].iter().cloned().filter(|o| matches!(cxx.n(*o), N::RFun(RFn::Atan2, ..))).collect();
                        for o in others {
                            if let N::RFun(_, y2, x2) = cxx.n(o).clone() {
                                let (py2, px2) = (cxx.poly(y2), cxx.poly(x2));
                                let cross = cxx.pmul(&py, &px2).sub(&cxx.pmul(&px, &py2));
                                let dot = cxx.pmul(&px, &px2).add(&cxx.pmul(&py, &py2));
                                let z = cxx.rrel0(RRel::Eq, cross.clone());
                                let dp = cxx.rrel0(RRel::Lt, dot.neg());
                                let same = cxx.and(z, dp);
                                let d = Poly::atom(a).sub(&Poly::atom(o));
                                let e = cxx.rrel0(RRel::Eq, d.clone());
                                let iff = cxx.iff(same, e);
                                self.ax(iff);
                                // cross > 0 <=> d in (0,pi) or d < -pi
                                let cp = cxx.rrel0(RRel::Lt, cross.neg());
                                let d0 = cxx.rrel0(RRel::Lt, d.neg());
                                let d1 = cxx.rrel0(RRel::Lt, d.sub(&pk(&pi)));
                                let d2 = cxx.rrel0(RRel::Lt, d.add(&pk(&pi)));
                                let k = cxx.and(d0, d1);
                                let k = cxx.or(k, d2);
                                let iff = cxx.iff(cp, k);
                                self.ax(iff);
                            }
                        }
                    }
                }
            }
        }
    }
}

impl Smt {
    pub fn new(timeout_ms: u64) -> Smt {
        Smt {
            procs: HashMap::new(),
            cache: HashMap::new(),
            models: vec![],
            vars_memo: HashMap::new(),
            st: Stats::default(),
            timeout_ms,
            xcheck: false,
            dump: std::env::var("LLSYM_DUMP").ok(),
            errors: vec![],
        }
    }
    /// variables a term depends on (with definitional links)
    pub fn vars_of(&mut self, t: T) -> std::rc::Rc<BTreeSet<u32>> {
        if let Some(v) = self.vars_memo.get(&t) {
            return v.clone();
        }
        let c = cx();
        let mut s = BTreeSet::new();
        let mut kids: Vec<T> = vec![];
        match c.n(t).clone() {
            N::B(_) | N::C(_) => {}
            N::Var(id) => {
                s.insert(id);
                let idof = |t: T| match cx().n(t) {
                    N::Var(i) => *i,
                    _ => unreachable!(),
                };
                if let Some(p) = c.trig.iter().find(|p| p.c == t || p.s == t || p.phi == t) {
                    s.insert(idof(p.c));
                    s.insert(idof(p.s));
                    s.insert(idof(p.phi));
                } else if let Some(r) = c.sq.get(&t) {
                    kids.extend(r.atoms());
                } else {
                    // a variable used in the rule of another one
                    let mut users: Vec<T> = c.sq.iter().filter(|(a, r)| matches!(c.n(**a), N::Var(_)) && r.atoms().contains(&t)).map(|x| *x.0).collect();
                    users.sort();
                    for u in users {
                        s.insert(idof(u));
                        for a in c.sq[&u].atoms() {
                            if let N::Var(i) = c.n(a) {
                                s.insert(*i);
                            }
                        }
                    }
                }
            }
            N::Not(a) | N::Extract(_, _, a) | N::ZExt(a) | N::SExt(a) | N::FUn(_, a) | N::FNan(a) | N::FFromS(a) | N::FFromU(a) | N::FToS(a) | N::FToU(a) | N::FCvt(a) | N::RRel(_, a) | N::RFromInt(_, a) => kids.push(a),
            N::And(a, b) | N::Or(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Bv(_, a, b) | N::Concat(a, b) | N::FBin(_, a, b) | N::FRel(_, a, b) => {
                kids.push(a);
                kids.push(b)
            }
            N::Ite(a, b, d) => kids.extend([a, b, d]),
            N::Poly(p) => kids.extend(p.atoms()),
            N::RFun(f, a, b) => {
                kids.push(a);
                if f == RFn::Atan2 {
                    kids.push(b)
                }
            }
        }
        for k in kids {
            let ks = self.vars_of(k);
            s.extend(ks.iter().cloned());
        }
        let r = std::rc::Rc::new(s);
        self.vars_memo.insert(t, r.clone());
        r
    }
    /// constraints of pc relevant to the seed terms (transitive variable sharing)
    pub fn slice(&mut self, pc: &[T], seed: &[T]) -> Vec<T> {
        let mut vs: BTreeSet<u32> = BTreeSet::new();
        for s in seed {
            vs.extend(self.vars_of(*s).iter().cloned());
        }
        let sets: Vec<_> = pc.iter().map(|t| self.vars_of(*t)).collect();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !taken[i] && (sets[i].iter().any(|v| vs.contains(v))) {
                    taken[i] = true;
                    ch = true;
                    vs.extend(sets[i].iter().cloned());
                }
            }
            if !ch {
                break;
            }
        }
        pc.iter().enumerate().filter(|(i, _)| taken[*i]).map(|(_, t)| *t).collect()
    }
    /// satisfiability of pc /\ extra, by components when a full model is wanted
    pub fn check(&mut self, pc: &[T], extra: &[T]) -> Res {
        let mut q: Vec<T> = if extra.is_empty() { pc.to_vec() } else { self.slice(pc, extra) };
        q.extend_from_slice(extra);
        self.solve(q)
    }
    pub fn full_model(&mut self, pc: &[T]) -> Res {
        let mut rest: Vec<T> = pc.to_vec();
        let mut m = Model::new();
        while let Some(t) = rest.first().cloned() {
            let comp = self.slice(&rest, &[t]);
            let comp = if comp.is_empty() { vec![t] } else { comp };
            match self.solve(comp.clone()) {
                Res::Sat(mm) => {
                    // keep only the variables of this component
                    let mut vs = BTreeSet::new();
                    for c in &comp {
                        vs.extend(self.vars_of(*c).iter().cloned());
                    }
                    for (k, v) in mm {
                        if vs.contains(&k) {
                            m.insert(k, v);
                        }
                    }
                }
                r => return r,
            }
            let cs: HashSet<T> = comp.into_iter().collect();
            rest.retain(|x| !cs.contains(x));
        }
        Res::Sat(m)
    }
    pub fn solve(&mut self, q: Vec<T>) -> Res {
        let c = cx();
        let mut q2: Vec<T> = vec![];
        let mut stack = q;
        while let Some(t) = stack.pop() {
            if t == c.ff {
                return Res::Unsat;
            }
            if let N::And(a, b) = c.n(t) {
                stack.push(*a);
                stack.push(*b);
            } else if t != c.tt {
                q2.push(t);
            }
        }
        q2.sort();
        q2.dedup();
        for i in 0..q2.len() {
            let n = c.not(q2[i]);
            if q2.binary_search(&n).is_ok() {
                return Res::Unsat;
            }
        }
        if q2.is_empty() {
            return Res::Sat(Model::new());
        }
        if let Some(r) = self.cache.get(&q2) {
            self.st.cache += 1;
            return r.clone();
        }
        // recent models
        for m in self.models.iter().rev().take(12) {
            let mut memo = HashMap::new();
            if q2.iter().all(|t| eval(*t, m, &mut memo, false).bool() == Some(true)) && self.consistent(m, &q2) {
                self.st.by_eval += 1;
                let r = Res::Sat(m.clone());
                self.cache.insert(q2, r.clone());
                return r;
            }
        }
        let r = self.solve_ext(&q2);
        if let Res::Sat(m) = &r {
            self.models.push(m.clone());
            if self.models.len() > 40 {
                self.models.remove(0);
            }
        }
        self.cache.insert(q2, r.clone());
        r
    }
    /// a cached model must also satisfy the side conditions of linked atoms of the query
    fn consistent(&self, m: &Model, q: &[T]) -> bool {
        let c = cx();
        // only reuse models for queries without definitional atoms unless every needed variable is present
        let mut seen = HashSet::new();
        let mut st: Vec<T> = q.to_vec();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            match c.n(t) {
                N::Var(id) => {
                    if !m.contains_key(id) {
                        if c.sq.contains_key(&t) || c.trig.iter().any(|p| p.c == t || p.s == t || p.phi == t) {
                            return false;
                        }
                        if c.sort(t) == Sort::Real && c.sq.values().any(|r| r.atoms().contains(&t)) {
                            return false;
                        }
                    }
                }
                N::Not(a) | N::Extract(_, _, a) | N::ZExt(a) | N::SExt(a) | N::FUn(_, a) | N::FNan(a) | N::FFromS(a) | N::FFromU(a) | N::FToS(a) | N::FToU(a) | N::FCvt(a) | N::RRel(_, a) | N::RFromInt(_, a) => st.push(*a),
                N::And(a, b) | N::Or(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Bv(_, a, b) | N::Concat(a, b) | N::FBin(_, a, b) | N::FRel(_, a, b) => {
                    st.push(*a);
                    st.push(*b)
                }
                N::Ite(a, b, d) => st.extend([*a, *b, *d]),
                N::Poly(p) => st.extend(p.atoms()),
                N::RFun(f, a, b) => {
                    st.push(*a);
                    if *f == RFn::Atan2 {
                        st.push(*b)
                    }
                }
                _ => {}
            }
        }
        true
    }
    pub fn print(&self, q: &[T]) -> (String, Vec<u32>, &'static str) {
        let mut e = Emit::new();
        let mut asserts = String::new();
        for t in q {
            let s = e.bool(*t);
            asserts.push_str(&format!("(assert {})\n", s));
        }
        e.axioms();
        let logic = if e.mixed || (e.has_real && (e.has_bv || e.has_fp)) {
            "ALL"
        } else if e.has_real {
            if e.nonlinear {
                "QF_NRA"
            } else {
                "QF_LRA"
            }
        } else if e.has_fp {
            "QF_BVFP"
        } else {
            "QF_BV"
        };
        let vars: Vec<u32> = e.vars.iter().cloned().collect();
        (format!("{}{}", e.out, asserts), vars, logic)
    }
    fn solve_ext(&mut self, q: &[T]) -> Res {
        let (body, vars, logic) = self.print(q);
        self.st.queries += 1;
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{:05}.smt2", d, self.st.queries), format!("(set-logic {})\n{}(check-sat)\n(get-model)\n", logic, body));
        }
        let t0 = Instant::now();
        let order: &[(Kind, f64)] = match logic {
            "QF_NRA" => &[(Kind::Z3New, 0.5), (Kind::Cvc5, 1.0), (Kind::Z3Old, 1.0)],
            "QF_BVFP" => &[(Kind::Z3New, 0.5), (Kind::Cvc5, 1.0), (Kind::Z3Old, 0.5)],
            _ => &[(Kind::Z3New, 1.0), (Kind::Cvc5, 1.0)],
        };
        let mut res = Res::Unknown;
        let mut who = None;
        for (i, (k, f)) in order.iter().enumerate() {
            let ms = (self.timeout_ms as f64 * f) as u64;
            res = self.run(*k, logic, &body, &vars, ms);
            if i > 0 {
                self.st.fallback += 1;
            }
            if !matches!(res, Res::Unknown) {
                who = Some(*k);
                break;
            }
        }
        if self.xcheck && who == Some(Kind::Z3New) {
            let r2 = self.run(Kind::Cvc5, logic, &body, &vars, self.timeout_ms);
            match (&res, &r2) {
                (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => {
                    self.errors.push(format!("solver disagreement on query {}", self.st.queries));
                    res = Res::Unknown;
                }
                (_, Res::Unknown) => {}
                _ => self.st.xchecked += 1,
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        match &res {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        res
    }
    fn run(&mut self, k: Kind, logic: &str, body: &str, vars: &[u32], ms: u64) -> Res {
        let ms = ms.max(500);
        if !self.procs.contains_key(&k) {
            let cmd: &[&str] = match k {
                Kind::Z3New => &["z3-new", "-in", "-smt2"],
                Kind::Z3Old => &["z3", "-in", "-smt2"],
                Kind::Cvc5 => &["cvc5", "--incremental", "--produce-models", "--lang", "smt2"],
            };
            match Proc::start(cmd) {
                Some(p) => {
                    self.procs.insert(k, p);
                }
                None => return Res::Unknown,
            }
        }
        let deadline = Instant::now() + Duration::from_millis(ms + 1500);
        let mut s = String::with_capacity(body.len() + 200);
        match k {
            Kind::Cvc5 => {
                s.push_str("(reset)\n");
                s.push_str(&format!("(set-option :tlimit-per {})\n(set-option :produce-models true)\n", ms));
                if logic == "QF_NRA" {
                    s.push_str("(set-option :nl-cov true)\n");
                }
                s.push_str(&format!("(set-logic {})\n", logic));
                s.push_str(&body.replace("bv2nat", "ubv_to_int"));
                s.push_str("(check-sat)\n");
                if logic == "ALL" {
                    s = s.replace("ubv_to_int", "bv2nat");
                }
            }
            _ => {
                s.push_str("(reset)\n");
                s.push_str(&format!("(set-option :timeout {})\n", ms));
                if logic != "ALL" && logic != "QF_BVFP" {
                    s.push_str(&format!("(set-logic {})\n", logic));
                }
                s.push_str(body);
                s.push_str("(check-sat)\n");
            }
        }
        let p = self.procs.get_mut(&k).unwrap();
        let r = match p.ask(&s, deadline) {
            None => {
                self.procs.remove(&k);
                return Res::Unknown;
            }
            Some(l) => l,
        };
        if let Some(e) = r.iter().find(|l| l.contains("(error")) {
            if !e.contains("timeout") && !e.contains("canceled") {
                self.errors.push(format!("{:?}: {}", k, e));
            }
            self.procs.remove(&k);
            return Res::Unknown;
        }
        match r.last().map(|s| s.trim()) {
            Some("unsat") => Res::Unsat,
            Some("sat") => {
                if vars.is_empty() {
                    return Res::Sat(Model::new());
                }
                let gv: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
                let q = format!("(get-value ({}))\n", gv.join(" "));
                let p = self.procs.get_mut(&k).unwrap();
                let lines = match p.ask(&q, Instant::now() + Duration::from_secs(20)) {
                    None => {
                        self.procs.remove(&k);
                        return Res::Unknown;
                    }
                    Some(l) => l,
                };
                let mut m = match parse_model(&lines.join("\n")) {
                    Some(m) => m,
                    None => {
                        self.errors.push(format!("model: {}", lines.join(" ")));
                        return Res::Unknown;
                    }
                };
                // algebraic values: ask again in decimal
                let alg: Vec<u32> = vars.iter().cloned().filter(|v| !m.contains_key(v)).collect();
                if !alg.is_empty() {
                    if k != Kind::Cvc5 {
                        let gv: Vec<String> = alg.iter().map(|v| format!("v{}", v)).collect();
                        let q = format!("(set-option :pp.decimal true)(set-option :pp.decimal_precision 25)\n(get-value ({}))\n(set-option :pp.decimal false)\n", gv.join(" "));
                        let p = self.procs.get_mut(&k).unwrap();
                        if let Some(l) = p.ask(&q, Instant::now() + Duration::from_secs(20)) {
                            parse_decimal(&l.join("\n"), &mut m);
                        }
                    }
                    for v in alg {
                        m.entry(v).or_insert(MV::F(f64::NAN));
                    }
                }
                Res::Sat(m)
            }
            _ => Res::Unknown,
        }
    }
}

#[derive(Debug, Clone)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn sexp(b: &[u8], i: &mut usize) -> Option<Sx> {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
    if *i >= b.len() {
        return None;
    }
    if b[*i] == b'(' {
        *i += 1;
        let mut v = vec![];
        loop {
            while *i < b.len() && b[*i].is_ascii_whitespace() {
                *i += 1;
            }
            if *i >= b.len() {
                return None;
            }
            if b[*i] == b')' {
                *i += 1;
                return Some(Sx::L(v));
            }
            v.push(sexp(b, i)?);
        }
    }
    let s = *i;
    while *i < b.len() && !b[*i].is_ascii_whitespace() && b[*i] != b'(' && b[*i] != b')' {
        *i += 1;
    }
    Some(Sx::A(String::from_utf8_lossy(&b[s..*i]).into_owned()))
}
fn num(s: &Sx) -> Option<Rat> {
    match s {
        Sx::A(a) => {
            let a = a.trim_end_matches('?');
            match a.split_once('.') {
                None => Some(Rat { n: Int::parse(a)?, d: Int::S(1) }),
                Some((x, y)) => {
                    let mut d = Int::S(1);
                    for _ in 0..y.len() {
                        d = d.mul(&Int::S(10));
                    }
                    let n = Int::parse(&format!("{}{}", x, y))?;
                    Some(Rat::new(n, d))
                }
            }
        }
        Sx::L(v) => match v.as_slice() {
            [Sx::A(m), x] if m == "-" => Some(num(x)?.neg()),
            [Sx::A(m), x, y] if m == "/" => {
                let d = num(y)?;
                if d.is_zero() {
                    return None;
                }
                Some(num(x)?.div(&d))
            }
            _ => None,
        },
    }
}
fn parse_model(s: &str) -> Option<Model> {
    let mut i = 0;
    let sx = sexp(s.as_bytes(), &mut i)?;
    let mut m = Model::new();
    if let Sx::L(items) = sx {
        for it in items {
            if let Sx::L(kv) = it {
                if let [Sx::A(k), v] = kv.as_slice() {
                    let id: u32 = k.strip_prefix('v')?.parse().ok()?;
                    let sort = cx().vars[id as usize].sort;
                    match sort {
                        Sort::Bool => {
                            if let Sx::A(a) = v {
                                m.insert(id, MV::I((a == "true") as u128));
                            }
                        }
                        Sort::BV(_) => match v {
                            Sx::A(a) => {
                                let x = if let Some(h) = a.strip_prefix("#x") {
                                    u128::from_str_radix(h, 16).ok()?
                                } else if let Some(h) = a.strip_prefix("#b") {
                                    u128::from_str_radix(h, 2).ok()?
                                } else {
                                    return None;
                                };
                                m.insert(id, MV::I(x));
                            }
                            Sx::L(l) => {
                                if let [_, Sx::A(b), _] = l.as_slice() {
                                    m.insert(id, MV::I(b.strip_prefix("bv")?.parse().ok()?));
                                }
                            }
                        },
                        Sort::Real => {
                            if let Some(r) = num(v) {
                                m.insert(id, MV::R(r));
                            }
                        }
                    }
                }
            }
        }
        return Some(m);
    }
    None
}
fn parse_decimal(s: &str, m: &mut Model) {
    let mut i = 0;
    if let Some(Sx::L(items)) = sexp(s.as_bytes(), &mut i) {
        for it in items {
            if let Sx::L(kv) = it {
                if let [Sx::A(k), v] = kv.as_slice() {
                    if let Some(Ok(id)) = k.strip_prefix('v').map(|x| x.parse::<u32>()) {
                        if let Some(r) = num(v) {
                            m.insert(id, MV::F(r.to_f64()));
                        }
                    }
                }
            }
        }
    }
}
