//! Hash-consed terms: booleans, bit-vectors (IEEE doubles live in 64-bit vectors) and exact reals.
//! Real terms are kept as normalised polynomials over atoms.
use crate::bigrat::{Int, Rat};
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    BV(u16),
    Real,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BvOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Min,
    Max,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FUn {
    Sqrt,
    Floor,
    Ceil,
    Trunc,
    RoundEven,
    RoundAway,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FRel {
    Eq,
    Lt,
    Le,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum RRel {
    Eq,
    Lt,
    Le,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum RFn {
    Sqrt,
    Inv,
    Atan2,
    /// uninterpreted-but-range-limited function of one argument (cos, sin outside the known pairs)
    Cos,
    Sin,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    B(bool),
    Not(T),
    And(T, T),
    Or(T, T),
    Var(u32),
    C(u128),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Bv(BvOp, T, T),
    Concat(T, T),
    Extract(u16, u16, T), // hi, lo
    ZExt(T),
    SExt(T),
    Ite(T, T, T),
    FBin(FOp, T, T),
    FUn(FUn, T),
    FRel(FRel, T, T),
    FNan(T),
    FFromS(T),
    FFromU(T),
    FToS(T),
    FToU(T),
    FCvt(T),
    RRel(RRel, T),
    Poly(Rc<Poly>),
    RFun(RFn, T, T),
    /// real value of a signed / unsigned bit-vector
    RFromInt(bool, T),
}

pub type Mono = Vec<(T, i32)>;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub Vec<(Mono, Rat)>); // sorted by mono

impl Poly {
    pub fn konst(r: Rat) -> Poly {
        if r.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], r)])
        }
    }
    pub fn atom(t: T) -> Poly {
        Poly(vec![(vec![(t, 1)], Rat::one())])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::zero()),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.cmp(&b[j].0) {
                std::cmp::Ordering::Less => {
                    r.push(a[i].clone());
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    r.push(b[j].clone());
                    j += 1
                }
                std::cmp::Ordering::Equal => {
                    let c = a[i].1.add(&b[j].1);
                    if !c.is_zero() {
                        r.push((a[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Poly(r)
    }
    pub fn scale(&self, k: &Rat) -> Poly {
        if k.is_zero() {
            return Poly(vec![]);
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect())
    }
    pub fn neg(&self) -> Poly {
        self.scale(&Rat::int(-1))
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    fn mul_raw(&self, o: &Poly) -> Poly {
        let mut m: HashMap<Mono, Rat> = HashMap::new();
        for (ma, ca) in &self.0 {
            for (mb, cb) in &o.0 {
                let mm = mono_mul(ma, mb);
                let c = ca.mul(cb);
                match m.get_mut(&mm) {
                    Some(x) => *x = x.add(&c),
                    None => {
                        m.insert(mm, c);
                    }
                }
            }
        }
        let mut v: Vec<_> = m.into_iter().filter(|x| !x.1.is_zero()).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Poly(v)
    }
    pub fn atoms(&self) -> Vec<T> {
        let mut v: Vec<T> = self.0.iter().flat_map(|(m, _)| m.iter().map(|x| x.0)).collect();
        v.sort();
        v.dedup();
        v
    }
}
pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else if a[i].0 > b[j].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}
/// a proper monomial order (lex by atom id)
fn mono_lex(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    let (mut i, mut j) = (0, 0);
    loop {
        let x = a.get(i);
        let y = b.get(j);
        match (x, y) {
            (None, None) => return std::cmp::Ordering::Equal,
            (Some(x), None) => return x.1.cmp(&0),
            (None, Some(y)) => return 0.cmp(&y.1),
            (Some(x), Some(y)) => {
                if x.0 == y.0 {
                    if x.1 != y.1 {
                        return x.1.cmp(&y.1);
                    }
                    i += 1;
                    j += 1;
                } else if x.0 < y.0 {
                    return x.1.cmp(&0);
                } else {
                    return 0.cmp(&y.1);
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub sort: Sort,
}
/// cos/sin pair of an angle variable with -pi/2 < phi <= pi/2
#[derive(Clone, Debug)]
pub struct TrigPair {
    pub c: T,
    pub s: T,
    pub phi: T,
}

pub struct Ctx {
    pub nodes: Vec<N>,
    pub sorts: Vec<Sort>,
    map: HashMap<N, [T; 1]>,
    mapw: HashMap<(N, Sort), T>,
    pub vars: Vec<VarInfo>,
    pub sq: HashMap<T, Poly>,
    pub trig: Vec<TrigPair>,
    ranges: HashMap<T, (i128, i128)>,
    pub tt: T,
    pub ff: T,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
pub fn init() {
    let mut c = Box::new(Ctx {
        nodes: vec![],
        sorts: vec![],
        map: HashMap::new(),
        mapw: HashMap::new(),
        vars: vec![],
        sq: HashMap::new(),
        trig: vec![],
        ranges: HashMap::new(),
        tt: 0,
        ff: 0,
    });
    c.ff = c.mk(N::B(false), Sort::Bool);
    c.tt = c.mk(N::B(true), Sort::Bool);
    unsafe { CTX = Box::into_raw(c) }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn bvop_c(op: BvOp, w: u16, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        BvOp::Add => a.wrapping_add(b) & m,
        BvOp::Sub => a.wrapping_sub(b) & m,
        BvOp::Mul => a.wrapping_mul(b) & m,
        BvOp::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        BvOp::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        BvOp::SDiv => {
            if b == 0 {
                return None;
            }
            sext(a, w).wrapping_div(sext(b, w)) as u128 & m
        }
        BvOp::SRem => {
            if b == 0 {
                return None;
            }
            sext(a, w).wrapping_rem(sext(b, w)) as u128 & m
        }
        BvOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        BvOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BvOp::AShr => {
            let s = sext(a, w);
            (if b >= w as u128 { s >> 127 } else { s >> b }) as u128 & m
        }
        BvOp::And => a & b,
        BvOp::Or => a | b,
        BvOp::Xor => a ^ b,
    })
}
pub fn fbin_c(op: FOp, w: u16, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Min => x.min(y),
            FOp::Max => x.max(y),
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Min => x.min(y),
            FOp::Max => x.max(y),
        };
        r.to_bits() as u128
    }
}
pub fn fun_c(op: FUn, w: u16, a: u128) -> u128 {
    let x = if w == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
    let r = match op {
        FUn::Sqrt => x.sqrt(),
        FUn::Floor => x.floor(),
        FUn::Ceil => x.ceil(),
        FUn::Trunc => x.trunc(),
        FUn::RoundEven => x.round_ties_even(),
        FUn::RoundAway => x.round(),
    };
    if w == 64 {
        r.to_bits() as u128
    } else {
        if let FUn::Sqrt = op {
            return f32::from_bits(a as u32).sqrt().to_bits() as u128;
        }
        (r as f32).to_bits() as u128
    }
}
pub fn frel_c(op: FRel, w: u16, a: u128, b: u128) -> bool {
    let (x, y) = if w == 64 {
        (f64::from_bits(a as u64), f64::from_bits(b as u64))
    } else {
        (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
    };
    match op {
        FRel::Eq => x == y,
        FRel::Lt => x < y,
        FRel::Le => x <= y,
    }
}
pub fn fnan_c(w: u16, a: u128) -> bool {
    if w == 64 {
        f64::from_bits(a as u64).is_nan()
    } else {
        f32::from_bits(a as u32).is_nan()
    }
}

impl Ctx {
    pub fn mk(&mut self, n: N, s: Sort) -> T {
        // nodes whose sort is not determined by their children carry it in the key
        if let Some(t) = self.mapw.get(&(n.clone(), s)) {
            return *t;
        }
        let id = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.sorts.push(s);
        self.mapw.insert((n, s), id);
        let _ = &self.map;
        id
    }
    pub fn sort(&self, t: T) -> Sort {
        self.sorts[t as usize]
    }
    pub fn width(&self, t: T) -> u16 {
        match self.sorts[t as usize] {
            Sort::BV(w) => w,
            Sort::Bool => 1,
            Sort::Real => panic!("width of real"),
        }
    }
    pub fn n(&self, t: T) -> &N {
        &self.nodes[t as usize]
    }
    pub fn var(&mut self, name: &str, s: Sort) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), sort: s });
        self.mk(N::Var(id), s)
    }
    pub fn b(&self, v: bool) -> T {
        if v {
            self.tt
        } else {
            self.ff
        }
    }
    pub fn c(&mut self, w: u16, v: u128) -> T {
        self.mk(N::C(v & mask(w)), Sort::BV(w))
    }
    pub fn as_c(&self, t: T) -> Option<u128> {
        match self.n(t) {
            N::C(v) => Some(*v),
            N::B(b) => Some(*b as u128),
            _ => None,
        }
    }
    // ---------- bool
    pub fn not(&mut self, a: T) -> T {
        match self.n(a) {
            N::B(v) => {
                let v = !*v;
                self.b(v)
            }
            N::Not(x) => *x,
            N::RRel(RRel::Lt, p) => {
                // !(p<0)  <=>  -p <= 0
                let p = *p;
                let q = self.poly(p).neg();
                self.rrel0(RRel::Le, q)
            }
            N::RRel(RRel::Le, p) => {
                let p = *p;
                let q = self.poly(p).neg();
                self.rrel0(RRel::Lt, q)
            }
            _ => self.mk(N::Not(a), Sort::Bool),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == self.ff || b == self.ff {
            return self.ff;
        }
        if a == self.tt || a == b {
            return b;
        }
        if b == self.tt {
            return a;
        }
        if self.not(a) == b {
            return self.ff;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(N::And(a, b), Sort::Bool)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == self.tt || b == self.tt {
            return self.tt;
        }
        if a == self.ff || a == b {
            return b;
        }
        if b == self.ff {
            return a;
        }
        if self.not(a) == b {
            return self.tt;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(N::Or(a, b), Sort::Bool)
    }
    pub fn iff(&mut self, a: T, b: T) -> T {
        let x = self.xor_b(a, b);
        self.not(x)
    }
    pub fn xor_b(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        if a == self.ff {
            return b;
        }
        if b == self.ff {
            return a;
        }
        if a == self.tt {
            return self.not(b);
        }
        if b == self.tt {
            return self.not(a);
        }
        let na = self.not(a);
        let nb = self.not(b);
        let p = self.and(a, nb);
        let q = self.and(na, b);
        self.or(p, q)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == self.tt || a == b {
            return a;
        }
        if c == self.ff {
            return b;
        }
        if self.sort(a) == Sort::Bool {
            let nc = self.not(c);
            let p = self.and(c, a);
            let q = self.and(nc, b);
            return self.or(p, q);
        }
        if let N::Not(x) = self.n(c) {
            let x = *x;
            return self.ite(x, b, a);
        }
        let s = self.sort(a);
        self.mk(N::Ite(c, a, b), s)
    }
    /// if-then-else tree of constants: apply f to each leaf when it is small
    fn map_leaves(&mut self, t: T, depth: u32, f: &mut dyn FnMut(&mut Ctx, T) -> T) -> Option<T> {
        match self.n(t).clone() {
            N::C(_) => Some(f(self, t)),
            N::Ite(c, a, b) if depth > 0 => {
                let x = self.map_leaves(a, depth - 1, f)?;
                let y = self.map_leaves(b, depth - 1, f)?;
                Some(self.ite(c, x, y))
            }
            _ => None,
        }
    }
    fn is_ite(&self, t: T) -> bool {
        matches!(self.n(t), N::Ite(..))
    }
    // ---------- bv
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt;
        }
        if self.sort(a) == Sort::Bool {
            return self.iff(a, b);
        }
        if self.sort(a) == Sort::Real {
            return self.rcmp(RRel::Eq, a, b);
        }
        let (a, b) = if self.as_c(a).is_some() { (b, a) } else { (a, b) };
        if let Some(cb) = self.as_c(b) {
            if let Some(ca) = self.as_c(a) {
                return self.b(ca == cb);
            }
            match self.n(a).clone() {
                N::Ite(..) => {
                    if let Some(r) = self.map_leaves(a, 24, &mut |cx, l| {
                        let v = cx.as_c(l) == Some(cb);
                        cx.b(v)
                    }) {
                        return r;
                    }
                }
                N::ZExt(x) => {
                    let w = self.width(x);
                    if cb > mask(w) {
                        return self.ff;
                    }
                    let c = self.c(w, cb);
                    return self.eq(x, c);
                }
                N::SExt(x) => {
                    let w = self.width(x);
                    let wa = self.width(a);
                    if sext(cb & mask(w), w) as u128 & mask(wa) != cb {
                        return self.ff;
                    }
                    let c = self.c(w, cb);
                    return self.eq(x, c);
                }
                N::Concat(h, l) => {
                    let wl = self.width(l);
                    let wh = self.width(h);
                    let ch = self.c(wh, cb >> wl);
                    let cl = self.c(wl, cb);
                    let x = self.eq(h, ch);
                    let y = self.eq(l, cl);
                    return self.and(x, y);
                }
                N::Bv(BvOp::Add, x, k) if self.as_c(k).is_some() => {
                    let w = self.width(a);
                    let kv = self.as_c(k).unwrap();
                    let c = self.c(w, cb.wrapping_sub(kv));
                    return self.eq(x, c);
                }
                N::Bv(BvOp::Xor, x, k) if self.as_c(k).is_some() => {
                    let w = self.width(a);
                    let kv = self.as_c(k).unwrap();
                    let c = self.c(w, cb ^ kv);
                    return self.eq(x, c);
                }
                _ => {}
            }
        }
        let (a, b) = if self.as_c(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(N::Eq(a, b), Sort::Bool)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        let w = self.width(a);
        match (ca, cb) {
            (Some(x), Some(y)) => return self.b(x < y),
            (_, Some(0)) => return self.ff,
            (Some(x), _) if x == mask(w) => return self.ff,
            _ => {}
        }
        if let (Some(y), true) = (cb, self.is_ite(a)) {
            if let Some(r) = self.map_leaves(a, 24, &mut |cx, l| {
                let v = cx.as_c(l).unwrap() < y;
                cx.b(v)
            }) {
                return r;
            }
        }
        if let (Some(x), true) = (ca, self.is_ite(b)) {
            if let Some(r) = self.map_leaves(b, 24, &mut |cx, l| {
                let v = x < cx.as_c(l).unwrap();
                cx.b(v)
            }) {
                return r;
            }
        }
        if let (Some(y), N::ZExt(x)) = (cb, self.n(a).clone()) {
            let wx = self.width(x);
            if y > mask(wx) {
                return self.tt;
            }
            let c = self.c(wx, y);
            return self.ult(x, c);
        }
        if let (Some(y), N::ZExt(x)) = (ca, self.n(b).clone()) {
            let wx = self.width(x);
            if y >= mask(wx) {
                return self.ff;
            }
            let c = self.c(wx, y);
            return self.ult(c, x);
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
            if self.width(x) == self.width(y) {
                return self.ult(x, y);
            }
        }
        let (ra, rb) = (self.irange(a), self.irange(b));
        if ra.0 >= 0 && rb.0 >= 0 {
            if ra.1 < rb.0 {
                return self.tt;
            }
            if ra.0 >= rb.1 {
                return self.ff;
            }
        }
        self.mk(N::Ult(a, b), Sort::Bool)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.width(a);
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.b(sext(x, w) < sext(y, w));
        }
        if let (Some(y), true) = (cb, self.is_ite(a)) {
            let y = sext(y, w);
            if let Some(r) = self.map_leaves(a, 24, &mut |cx, l| {
                let v = sext(cx.as_c(l).unwrap(), w) < y;
                cx.b(v)
            }) {
                return r;
            }
        }
        if let (Some(x), true) = (ca, self.is_ite(b)) {
            let x = sext(x, w);
            if let Some(r) = self.map_leaves(b, 24, &mut |cx, l| {
                let v = x < sext(cx.as_c(l).unwrap(), w);
                cx.b(v)
            }) {
                return r;
            }
        }
        if let (Some(y), N::ZExt(x)) = (cb, self.n(a).clone()) {
            // zero-extended values are non-negative
            let y = sext(y, w);
            if y <= 0 {
                return self.ff;
            }
            let wx = self.width(x);
            if y as u128 > mask(wx) {
                return self.tt;
            }
            let c = self.c(wx, y as u128);
            return self.ult(x, c);
        }
        if let (Some(y), N::ZExt(x)) = (ca, self.n(b).clone()) {
            let y = sext(y, w);
            if y < 0 {
                return self.tt;
            }
            let wx = self.width(x);
            if y as u128 >= mask(wx) {
                return self.ff;
            }
            let c = self.c(wx, y as u128);
            return self.ult(c, x);
        }
        let (ra, rb) = (self.irange(a), self.irange(b));
        if ra.1 < rb.0 {
            return self.tt;
        }
        if ra.0 >= rb.1 {
            return self.ff;
        }
        // x + k < c  is  x < c - k  when nothing wraps
        if let (Some(y), N::Bv(BvOp::Add, x, k)) = (self.as_c(b), self.n(a).clone()) {
            if let Some(kv) = self.as_c(k) {
                let (kv, yv) = (sext(kv, w), sext(y, w));
                let rx = self.irange(x);
                let lim = 1i128 << (w - 1).min(90);
                if w <= 80 && rx.0 + kv >= -lim && rx.1 + kv < lim && yv - kv >= -lim && yv - kv < lim {
                    let c = self.c(w, (yv - kv) as u128 & mask(w));
                    return self.slt(x, c);
                }
            }
        }
        if let (Some(y), N::Bv(BvOp::Add, x, k)) = (self.as_c(a), self.n(b).clone()) {
            if let Some(kv) = self.as_c(k) {
                let (kv, yv) = (sext(kv, w), sext(y, w));
                let rx = self.irange(x);
                let lim = 1i128 << (w - 1).min(90);
                if w <= 80 && rx.0 + kv >= -lim && rx.1 + kv < lim && yv - kv >= -lim && yv - kv < lim {
                    let c = self.c(w, (yv - kv) as u128 & mask(w));
                    return self.slt(c, x);
                }
            }
        }
        self.mk(N::Slt(a, b), Sort::Bool)
    }
    /// interval the signed value of a bit-vector lies in (widths up to 100)
    pub fn irange(&mut self, t: T) -> (i128, i128) {
        let w = match self.sort(t) {
            Sort::BV(w) if w <= 100 => w,
            _ => return (i128::MIN / 4, i128::MAX / 4),
        };
        if let Some(r) = self.ranges.get(&t) {
            return *r;
        }
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let fit = |lo: i128, hi: i128| if lo >= full.0 && hi <= full.1 { (lo, hi) } else { full };
        let r = match self.n(t).clone() {
            N::C(v) => (sext(v, w), sext(v, w)),
            N::ZExt(x) if self.sort(x) == Sort::Bool => (0, 1),
            N::ZExt(x) => {
                let wx = self.width(x);
                let (lo, hi) = self.irange(x);
                if lo >= 0 {
                    (lo, hi)
                } else {
                    (0, mask(wx) as i128)
                }
            }
            N::SExt(x) if self.sort(x) != Sort::Bool => self.irange(x),
            N::Ite(_, x, y) => {
                let (a, b) = (self.irange(x), self.irange(y));
                (a.0.min(b.0), a.1.max(b.1))
            }
            N::Extract(_, 0, x) => {
                let (lo, hi) = self.irange(x);
                fit(lo, hi)
            }
            N::Concat(h, l) => {
                let wl = self.width(l);
                let (lo, hi) = self.irange(h);
                fit(lo << wl, (hi << wl) | mask(wl) as i128)
            }
            N::Bv(op, x, y) if w <= 64 || op == BvOp::Add || op == BvOp::Sub => {
                let (a, b) = (self.irange(x), self.irange(y));
                match op {
                    BvOp::Add => fit(a.0 + b.0, a.1 + b.1),
                    BvOp::Sub => fit(a.0 - b.1, a.1 - b.0),
                    BvOp::Mul => {
                        let v = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                        fit(*v.iter().min().unwrap(), *v.iter().max().unwrap())
                    }
                    BvOp::SDiv if b.0 == b.1 && b.0 > 0 => (a.0 / b.0, a.1 / b.0),
                    BvOp::UDiv if b.0 == b.1 && b.0 > 0 && a.0 >= 0 => (a.0 / b.0, a.1 / b.0),
                    BvOp::SRem if b.0 == b.1 && b.0 > 0 => (if a.0 < 0 { a.0.max(1 - b.0) } else { 0 }, if a.1 > 0 { a.1.min(b.0 - 1) } else { 0 }),
                    BvOp::URem if b.0 == b.1 && b.0 > 0 => (0, b.0 - 1),
                    BvOp::And if b.0 >= 0 => (0, b.1),
                    BvOp::And if a.0 >= 0 => (0, a.1),
                    BvOp::AShr if b.0 == b.1 && b.0 >= 0 && b.0 < w as i128 => (a.0 >> b.0, a.1 >> b.0),
                    _ => full,
                }
            }
            _ => full,
        };
        self.ranges.insert(t, r);
        r
    }
    /// constant-leaved ite as offset + scale * canonical ite
    fn canon_ite(&mut self, t: T) -> Option<(T, i128, i128)> {
        let w = self.width(t);
        let mut leaves = vec![];
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            match self.n(x).clone() {
                N::Ite(_, a, b) => {
                    st.push(b);
                    st.push(a);
                }
                N::C(v) => leaves.push(sext(v, w)),
                _ => return None,
            }
            if leaves.len() > 24 || st.len() > 48 {
                return None;
            }
        }
        let off = leaves[0];
        let mut g: i128 = 0;
        let mut first = 0;
        for l in &leaves {
            let d = l - off;
            if first == 0 {
                first = d;
            }
            let (mut a, mut b) = (g.abs(), d.abs());
            while b != 0 {
                let r = a % b;
                a = b;
                b = r;
            }
            g = a;
        }
        if g == 0 {
            return None;
        }
        if first < 0 {
            g = -g;
        }
        let r = self.map_leaves(t, 24, &mut |cx, l| {
            let v = sext(cx.as_c(l).unwrap(), w);
            cx.c(w, ((v - off) / g) as u128 & mask(w))
        })?;
        Some((r, off, g))
    }
    fn lin(&mut self, t: T, k: u128, acc: &mut Vec<(T, u128)>, konst: &mut u128, n: &mut u32) {
        let w = self.width(t);
        if *n > 40 {
            *n = 1000;
            return;
        }
        match self.n(t).clone() {
            N::C(v) => *konst = konst.wrapping_add(v.wrapping_mul(k)),
            N::Bv(BvOp::Add, a, b) => {
                self.lin(a, k, acc, konst, n);
                self.lin(b, k, acc, konst, n);
            }
            N::Bv(BvOp::Sub, a, b) => {
                self.lin(a, k, acc, konst, n);
                self.lin(b, k.wrapping_neg() & mask(w), acc, konst, n);
            }
            N::Bv(BvOp::Mul, a, b) if self.as_c(b).is_some() => {
                let c = self.as_c(b).unwrap();
                self.lin(a, k.wrapping_mul(c) & mask(w), acc, konst, n)
            }
            N::Concat(h, l) if self.as_c(l) == Some(0) && matches!(self.n(h), N::Extract(_, 0, x) if self.width(*x) == w) => {
                let (wl, x) = (self.width(l), if let N::Extract(_, 0, x) = self.n(h) { *x } else { unreachable!() });
                self.lin(x, k.wrapping_mul(1 << wl) & mask(w), acc, konst, n)
            }
            N::Ite(..) => {
                *n += 1;
                let (a, c) = match self.canon_ite(t) {
                    Some((a, off, g)) => {
                        *konst = konst.wrapping_add((off as u128).wrapping_mul(k));
                        (a, k.wrapping_mul(g as u128) & mask(w))
                    }
                    None => (t, k),
                };
                acc.push((a, c))
            }
            _ => {
                *n += 1;
                acc.push((t, k))
            }
        }
    }
    /// sums in which something cancels
    fn lin_merge(&mut self, op: BvOp, a: T, b: T) -> Option<T> {
        let w = self.width(a);
        if w < 16 || w > 100 {
            return None;
        }
        let deep = |cx: &Ctx, t: T| matches!(cx.n(t), N::Bv(BvOp::Add | BvOp::Sub | BvOp::Mul, ..) | N::Concat(..) | N::Ite(..));
        if !deep(self, a) && !deep(self, b) {
            return None;
        }
        let (mut acc, mut konst, mut n) = (vec![], 0u128, 0);
        match op {
            BvOp::Add => {
                self.lin(a, 1, &mut acc, &mut konst, &mut n);
                self.lin(b, 1, &mut acc, &mut konst, &mut n);
            }
            BvOp::Sub => {
                self.lin(a, 1, &mut acc, &mut konst, &mut n);
                self.lin(b, mask(w), &mut acc, &mut konst, &mut n);
            }
            _ => {
                let k = self.as_c(b)?;
                self.lin(a, k, &mut acc, &mut konst, &mut n);
            }
        }
        if n > 40 {
            return None;
        }
        let total = acc.len();
        acc.sort();
        let mut m: Vec<(T, u128)> = vec![];
        for (t, k) in acc {
            match m.last_mut() {
                Some(l) if l.0 == t => l.1 = l.1.wrapping_add(k) & mask(w),
                _ => m.push((t, k)),
            }
        }
        m.retain(|x| x.1 != 0);
        if m.len() == total && op != BvOp::Mul {
            return None;
        }
        if op == BvOp::Mul && m.len() == total && !matches!(self.n(a), N::Bv(..)) {
            return None;
        }
        let mut r = self.c(w, konst & mask(w));
        for (t, k) in m {
            let kt = self.c(w, k);
            let x = if k == 1 || self.is_ite(t) {
                self.bv(BvOp::Mul, t, kt)
            } else if k == mask(w) {
                r = self.bv(BvOp::Sub, r, t);
                continue;
            } else {
                self.mk(N::Bv(BvOp::Mul, t, kt), Sort::BV(w))
            };
            r = self.bv(BvOp::Add, x, r);
        }
        Some(r)
    }
    /// (d * x + y) / d for 0 <= y < d, without wrapping
    fn split_div(&mut self, op: BvOp, a: T, d: u128) -> Option<T> {
        let w = self.width(a);
        if w > 64 || w < 16 || !matches!(self.n(a), N::Extract(..) | N::Bv(BvOp::Add | BvOp::Sub | BvOp::Mul, ..)) {
            return None;
        }
        let d = sext(d, w);
        if d <= 1 {
            return None;
        }
        if w < 64 && (matches!(op, BvOp::SDiv | BvOp::SRem) || self.irange(a).0 >= 0) {
            // where the pieces were cut from wider ones
            let x = self.sext(64, a);
            if matches!(self.n(x), N::Bv(..)) {
                let r = self.split_div(op, x, d as u128)?;
                // left as it is, to be found again when it is widened
                return Some(match self.as_c(r) {
                    Some(_) => self.extract(w - 1, 0, r),
                    None => {
                        let b = self.irange(r);
                        let t = self.mk(N::Extract(w - 1, 0, r), Sort::BV(w));
                        self.bound(t, b);
                        t
                    }
                });
            }
        }
        let (mut acc, mut konst, mut n) = (vec![], 0u128, 0);
        self.lin(a, 1, &mut acc, &mut konst, &mut n);
        if n > 40 {
            return None;
        }
        acc.sort();
        let mut m: Vec<(T, i128)> = vec![];
        for (t, k) in acc {
            let k = sext(k, w);
            match m.last_mut() {
                Some(l) if l.0 == t => l.1 += k,
                _ => m.push((t, k)),
            }
        }
        m.retain(|x| x.1 != 0);
        if !m.iter().any(|x| x.1 % d == 0) {
            return None;
        }
        let konst = sext(konst & mask(w), w);
        let lim = 1i128 << (w - 1);
        let (mut lo, mut hi, mut rl, mut rh) = (konst, konst, 0i128, 0i128);
        for (t, k) in &m {
            let r = self.irange(*t);
            let (x, y) = (k.checked_mul(r.0)?, k.checked_mul(r.1)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
            if k % d != 0 {
                rl += x.min(y);
                rh += x.max(y);
            }
        }
        if lo < -lim || hi >= lim {
            return None;
        }
        // the constant that makes the rest fall into 0..d
        let base = (konst + rl).div_euclid(d) * d;
        if konst + rl - base < 0 || konst + rh - base >= d {
            return None;
        }
        let exact = m.iter().all(|x| x.1 % d == 0) && konst % d == 0;
        let signed = matches!(op, BvOp::SDiv | BvOp::SRem);
        if self.irange(a).0 < 0 && lo < 0 && !(signed && exact) {
            return None;
        }
        if matches!(op, BvOp::SDiv | BvOp::UDiv) {
            let mut r = self.c(w, (base / d) as u128 & mask(w));
            for (t, k) in m {
                if k % d == 0 {
                    let kt = self.c(w, (k / d) as u128 & mask(w));
                    let x = self.bv(BvOp::Mul, t, kt);
                    r = self.bv(BvOp::Add, r, x);
                }
            }
            let b = self.irange(a);
            self.bound(r, (b.0 / d, b.1 / d));
            Some(r)
        } else {
            let mut r = self.c(w, (konst - base) as u128 & mask(w));
            for (t, k) in m {
                if k % d != 0 {
                    let kt = self.c(w, k as u128 & mask(w));
                    let x = self.bv(BvOp::Mul, t, kt);
                    r = self.bv(BvOp::Add, r, x);
                }
            }
            self.bound(r, (0, d - 1));
            Some(r)
        }
    }
    /// division of a value that spans few multiples of the divisor
    fn narrow_div(&mut self, op: BvOp, a: T, c: u128) -> Option<T> {
        let w = self.width(a);
        if w > 64 || self.as_c(a).is_some() {
            return None;
        }
        let c = sext(c, w);
        if c <= 1 {
            return None;
        }
        let (lo, hi) = self.irange(a);
        let signed = matches!(op, BvOp::SDiv | BvOp::SRem);
        if !signed && lo < 0 {
            return None;
        }
        let (ql, qh) = (lo / c, hi / c);
        if qh - ql > 40 {
            return None;
        }
        if ql == qh && matches!(op, BvOp::SDiv | BvOp::UDiv) {
            return Some(self.c(w, ql as u128 & mask(w)));
        }
        let mut q = self.c(w, ql as u128 & mask(w));
        for k in ql + 1..=qh {
            // a >= k*c for positive k, a > (k-1)*c otherwise
            let bound = if k > 0 { k * c - 1 } else { (k - 1) * c };
            let bt = self.c(w, bound as u128 & mask(w));
            let ge = self.slt(bt, a);
            let kt = self.c(w, k as u128 & mask(w));
            q = self.ite(ge, kt, q);
        }
        self.ranges.insert(q, (ql, qh));
        if matches!(op, BvOp::SDiv | BvOp::UDiv) {
            return Some(q);
        }
        let ct = self.c(w, c as u128);
        let m = self.bv(BvOp::Mul, q, ct);
        let r = self.bv(BvOp::Sub, a, m);
        let rl = if lo < 0 { 1 - c } else { 0 };
        let rh = if hi > 0 { c - 1 } else { 0 };
        if self.as_c(r).is_none() {
            let (ol, oh) = self.irange(r);
            self.ranges.insert(r, (ol.max(rl), oh.min(rh)));
        }
        Some(r)
    }
    pub fn bv(&mut self, op: BvOp, a: T, b: T) -> T {
        let t = self.bv_(op, a, b);
        // what is known of the operands bounds the result, however it is written
        if matches!(op, BvOp::Add | BvOp::Sub | BvOp::Mul) && self.as_c(t).is_none() {
            let w = self.width(t);
            if w <= 64 {
                let (x, y) = (self.irange(a), self.irange(b));
                let r = match op {
                    BvOp::Add => (x.0 + y.0, x.1 + y.1),
                    BvOp::Sub => (x.0 - y.1, x.1 - y.0),
                    _ => {
                        let v = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1];
                        (*v.iter().min().unwrap(), *v.iter().max().unwrap())
                    }
                };
                self.bound(t, r);
            }
        }
        t
    }
    /// the value is known to lie within r
    fn bound(&mut self, t: T, r: (i128, i128)) {
        let w = self.width(t);
        if w > 64 || self.as_c(t).is_some() || r.0 < -(1i128 << (w - 1)) || r.1 >= 1i128 << (w - 1) {
            return;
        }
        let o = self.irange(t);
        let n = (o.0.max(r.0), o.1.min(r.1));
        if n != o && n.0 <= n.1 {
            self.ranges.insert(t, n);
        }
    }
    fn bv_(&mut self, op: BvOp, a: T, b: T) -> T {
        let w = self.width(a);
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(y), BvOp::SDiv | BvOp::UDiv | BvOp::SRem | BvOp::URem) = (cb, op) {
            if !y.is_power_of_two() {
                if let Some(r) = self.split_div(op, a, y) {
                    return r;
                }
                if let Some(r) = self.narrow_div(op, a, y) {
                    return r;
                }
            }
        }
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = bvop_c(op, w, x, y) {
                return self.c(w, r);
            }
        }
        use BvOp::*;
        match op {
            Add | Or | Xor | And | Mul if ca.is_some() && cb.is_none() => return self.bv(op, b, a),
            _ => {}
        }
        if let Some(y) = cb {
            match op {
                Add | Sub | Or | Xor | Shl | LShr | AShr if y == 0 => return a,
                Sub => {
                    let c = self.c(w, (0u128).wrapping_sub(y));
                    return self.bv(Add, a, c);
                }
                And if y == 0 => return b,
                And if y == mask(w) => return a,
                Or if y == mask(w) => return b,
                Mul if y == 0 => return b,
                Mul | UDiv | SDiv if y == 1 => return a,
                URem if y == 1 => return self.c(w, 0),
                Mul if y.is_power_of_two() => {
                    let s = self.c(w, y.trailing_zeros() as u128);
                    return self.bv(Shl, a, s);
                }
                UDiv if y.is_power_of_two() => {
                    let s = self.c(w, y.trailing_zeros() as u128);
                    return self.bv(LShr, a, s);
                }
                URem if y.is_power_of_two() => {
                    let s = self.c(w, y - 1);
                    return self.bv(And, a, s);
                }
                Shl | LShr if y >= w as u128 => return self.c(w, 0),
                LShr => {
                    // zext(extract)
                    let e = self.extract(w - 1, y as u16, a);
                    return self.zext(w, e);
                }
                Shl => {
                    let e = self.extract(w - 1 - y as u16, 0, a);
                    let z = self.c(y as u16, 0);
                    return self.concat(e, z);
                }
                And if (y + 1).is_power_of_two() && y > 0 => {
                    let k = (y + 1).trailing_zeros() as u16;
                    let e = self.extract(k - 1, 0, a);
                    return self.zext(w, e);
                }
                _ => {}
            }
            if op == Add {
                if let N::Bv(Add, x, k) = self.n(a).clone() {
                    if let Some(kv) = self.as_c(k) {
                        let c = self.c(w, kv.wrapping_add(y));
                        return self.bv(Add, x, c);
                    }
                }
            }
            if self.is_ite(a) {
                if let Some(r) = self.map_leaves(a, 24, &mut |cx, l| cx.bv(op, l, b)) {
                    return r;
                }
            }
        }
        if a == b {
            match op {
                Sub | Xor => return self.c(w, 0),
                And | Or => return a,
                _ => {}
            }
        }
        if ca == Some(0) {
            match op {
                Shl | LShr | AShr | UDiv | URem | SDiv | SRem => return a,
                _ => {}
            }
        }
        if op == Or {
            // disjoint concat pieces: (zext x) | (y << k)
            if let Some(r) = self.or_concat(a, b) {
                return r;
            }
        }
        if matches!(op, Add | Sub) || (op == Mul && cb.is_some()) {
            if let Some(r) = self.lin_merge(op, a, b) {
                return r;
            }
        }
        if let (Some(d), SDiv | UDiv | SRem | URem, N::Bv(Mul, x, m)) = (cb, op, self.n(a).clone()) {
            // (x * m) / d without wrapping
            if let Some(mv) = self.as_c(m) {
                let (d, mv) = (sext(d, w), sext(mv, w));
                let r = self.irange(x);
                let lim = 1i128 << (w - 1).min(64);
                if w <= 64 && d > 0 && mv > 0 && mv % d == 0 && r.0 * mv >= -lim && r.1 * mv < lim && (r.0 >= 0 || matches!(op, SDiv | SRem)) {
                    if matches!(op, SRem | URem) {
                        return self.c(w, 0);
                    }
                    let k = self.c(w, (mv / d) as u128);
                    return self.bv(Mul, x, k);
                }
            }
        }
        let (a, b) = match op {
            Add | Or | Xor | And | Mul if cb.is_none() && a > b => (b, a),
            _ => (a, b),
        };
        self.mk(N::Bv(op, a, b), Sort::BV(w))
    }
    fn or_concat(&mut self, a: T, b: T) -> Option<T> {
        for (x, y) in [(a, b), (b, a)] {
            if let (N::ZExt(lo), N::Concat(hi, z)) = (self.n(x).clone(), self.n(y).clone()) {
                if self.as_c(z) == Some(0) && self.width(lo) <= self.width(z) {
                    let wz = self.width(z);
                    let l = self.zext(wz, lo);
                    return Some(self.concat(hi, l));
                }
            }
            if let (N::Concat(h1, l1), N::Concat(h2, z)) = (self.n(x).clone(), self.n(y).clone()) {
                if self.as_c(h1) == Some(0) && self.as_c(z) == Some(0) && self.width(h1) >= self.width(h2) && self.width(l1) <= self.width(z) {
                    let wz = self.width(z);
                    let l = self.zext(wz, l1);
                    return Some(self.concat(h2, l));
                }
            }
        }
        None
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.width(h), self.width(l));
        if let (Some(a), Some(b)) = (self.as_c(h), self.as_c(l)) {
            return self.c(wh + wl, (a << wl) | b);
        }
        if self.as_c(h) == Some(0) {
            return self.zext(wh + wl, l);
        }
        if let (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && l1 == h2 + 1 {
                return self.extract(h1, l2, x);
            }
        }
        // concat(h, concat(e, r)) with h,e adjacent extracts
        if let N::Concat(e, r) = self.n(l).clone() {
            if let (N::Extract(_, l1, x), N::Extract(h2, _, y)) = (self.n(h).clone(), self.n(e).clone()) {
                if x == y && l1 == h2 + 1 {
                    let m = self.concat(h, e);
                    return self.concat(m, r);
                }
            }
        }
        self.mk(N::Concat(h, l), Sort::BV(wh + wl))
    }
    pub fn extract(&mut self, hi: u16, lo: u16, a: T) -> T {
        let t = self.extract_(hi, lo, a);
        if lo == 0 && hi < 64 && self.width(a) <= 100 {
            let r = self.irange(a);
            self.bound(t, r);
        }
        t
    }
    fn extract_(&mut self, hi: u16, lo: u16, a: T) -> T {
        let w = self.width(a);
        if lo == 0 && hi == w - 1 {
            return a;
        }
        let nw = hi - lo + 1;
        match self.n(a).clone() {
            N::C(v) => self.c(nw, v >> lo),
            N::Extract(_, l2, x) => self.extract(hi + l2, lo + l2, x),
            N::ZExt(x) => {
                let wx = self.width(x);
                if hi < wx {
                    self.extract(hi, lo, x)
                } else if lo >= wx {
                    self.c(nw, 0)
                } else {
                    let e = self.extract(wx - 1, lo, x);
                    self.zext(nw, e)
                }
            }
            N::SExt(x) if hi < self.width(x) => self.extract(hi, lo, x),
            N::Concat(h, l) => {
                let wl = self.width(l);
                if hi < wl {
                    self.extract(hi, lo, l)
                } else if lo >= wl {
                    self.extract(hi - wl, lo - wl, h)
                } else {
                    let x = self.extract(hi - wl, 0, h);
                    let y = self.extract(wl - 1, lo, l);
                    self.concat(x, y)
                }
            }
            N::Ite(..) => {
                if let Some(r) = self.map_leaves(a, 24, &mut |cx, l| cx.extract(hi, lo, l)) {
                    return r;
                }
                self.mk(N::Extract(hi, lo, a), Sort::BV(nw))
            }
            N::Bv(op @ (BvOp::And | BvOp::Or | BvOp::Xor), x, y) => {
                let p = self.extract(hi, lo, x);
                let q = self.extract(hi, lo, y);
                self.bv(op, p, q)
            }
            N::Bv(op @ (BvOp::Add | BvOp::Mul), x, y) if lo == 0 => {
                let p = self.extract(hi, 0, x);
                let q = self.extract(hi, 0, y);
                self.bv(op, p, q)
            }
            _ => self.mk(N::Extract(hi, lo, a), Sort::BV(nw)),
        }
    }
    /// whether an operation stays within the signed (or non-negative) numbers of its width
    fn no_wrap(&mut self, op: BvOp, x: T, y: T, signed: bool) -> bool {
        let w = self.width(x);
        let (p, q) = (self.irange(x), self.irange(y));
        let (lo, hi) = match op {
            BvOp::Add => (p.0 + q.0, p.1 + q.1),
            BvOp::Sub => (p.0 - q.1, p.1 - q.0),
            _ => {
                let v = [p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1];
                (*v.iter().min().unwrap(), *v.iter().max().unwrap())
            }
        };
        if signed {
            lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1)
        } else {
            p.0 >= 0 && q.0 >= 0 && lo >= 0 && hi < 1i128 << (w - 1)
        }
    }
    pub fn zext(&mut self, w: u16, a: T) -> T {
        let t = self.zext_(w, a);
        if self.sort(a) != Sort::Bool && w <= 64 {
            let r = self.irange(a);
            if r.0 >= 0 {
                self.bound(t, r);
            }
        }
        t
    }
    fn zext_(&mut self, w: u16, a: T) -> T {
        let wa = self.width(a);
        if wa == w && self.sort(a) != Sort::Bool {
            return a;
        }
        if self.sort(a) == Sort::Bool {
            let x = self.c(w, 1);
            let y = self.c(w, 0);
            return self.ite(a, x, y);
        }
        match self.n(a).clone() {
            N::C(v) => self.c(w, v),
            N::ZExt(x) => self.zext(w, x),
            N::Extract(_, 0, x) if w <= 64 && self.width(x) == w && {
                let r = self.irange(x);
                r.0 >= 0 && r.1 <= mask(wa) as i128
            } =>
            {
                x
            }
            N::Bv(op @ (BvOp::Add | BvOp::Sub | BvOp::Mul), x, y) if w <= 64 && wa >= 16 && self.no_wrap(op, x, y, false) => {
                let (x, y) = (self.zext(w, x), self.zext(w, y));
                self.bv(op, x, y)
            }
            N::Ite(..) => {
                if let Some(r) = self.map_leaves(a, 24, &mut |cx, l| cx.zext(w, l)) {
                    return r;
                }
                self.mk(N::ZExt(a), Sort::BV(w))
            }
            _ => self.mk(N::ZExt(a), Sort::BV(w)),
        }
    }
    pub fn sext(&mut self, w: u16, a: T) -> T {
        let t = self.sext_(w, a);
        if self.sort(a) != Sort::Bool && w <= 64 {
            let r = self.irange(a);
            self.bound(t, r);
        }
        t
    }
    fn sext_(&mut self, w: u16, a: T) -> T {
        let wa = self.width(a);
        if self.sort(a) == Sort::Bool {
            let x = self.c(w, mask(w));
            let y = self.c(w, 0);
            return self.ite(a, x, y);
        }
        if wa == w {
            return a;
        }
        match self.n(a).clone() {
            N::C(v) => self.c(w, sext(v, wa) as u128),
            N::ZExt(x) => self.zext(w, x),
            N::SExt(x) => self.sext(w, x),
            N::Extract(_, 0, x) if w <= 64 && self.width(x) == w && {
                let r = self.irange(x);
                r.0 >= -(1i128 << (wa - 1)) && r.1 < 1i128 << (wa - 1)
            } =>
            {
                x
            }
            N::Bv(op @ (BvOp::Add | BvOp::Sub | BvOp::Mul), x, y) if w <= 64 && wa >= 16 && self.no_wrap(op, x, y, true) => {
                let (x, y) = (self.sext(w, x), self.sext(w, y));
                self.bv(op, x, y)
            }
            N::Ite(..) => {
                if let Some(r) = self.map_leaves(a, 24, &mut |cx, l| cx.sext(w, l)) {
                    return r;
                }
                self.mk(N::SExt(a), Sort::BV(w))
            }
            _ => self.mk(N::SExt(a), Sort::BV(w)),
        }
    }
    /// BV -> Bool by low bit
    pub fn to_bool(&mut self, a: T) -> T {
        if self.sort(a) == Sort::Bool {
            return a;
        }
        let e = self.extract(0, 0, a);
        let one = self.c(1, 1);
        self.eq(e, one)
    }
    // ---------- fp (bit precise)
    pub fn fbin(&mut self, op: FOp, a: T, b: T) -> T {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.c(w, fbin_c(op, w, x, y));
        }
        self.mk(N::FBin(op, a, b), Sort::BV(w))
    }
    pub fn fun(&mut self, op: FUn, a: T) -> T {
        let w = self.width(a);
        if let Some(x) = self.as_c(a) {
            return self.c(w, fun_c(op, w, x));
        }
        self.mk(N::FUn(op, a), Sort::BV(w))
    }
    pub fn frel(&mut self, op: FRel, a: T, b: T) -> T {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.b(frel_c(op, w, x, y));
        }
        if self.as_c(a).map_or(false, |v| fnan_c(w, v)) || self.as_c(b).map_or(false, |v| fnan_c(w, v)) {
            return self.ff;
        }
        if a == b {
            return match op {
                FRel::Lt => self.ff,
                _ => {
                    let n = self.fnan(a);
                    self.not(n)
                }
            };
        }
        let (a, b) = if op == FRel::Eq && a > b { (b, a) } else { (a, b) };
        self.mk(N::FRel(op, a, b), Sort::Bool)
    }
    pub fn fnan(&mut self, a: T) -> T {
        let w = self.width(a);
        if let Some(x) = self.as_c(a) {
            return self.b(fnan_c(w, x));
        }
        // sign manipulation does not change NaN-ness
        match self.n(a).clone() {
            N::FFromS(_) | N::FFromU(_) => return self.ff,
            _ => {}
        }
        self.mk(N::FNan(a), Sort::Bool)
    }
    // ---------- reals
    pub fn poly(&self, t: T) -> Poly {
        match self.n(t) {
            N::Poly(p) => (**p).clone(),
            _ => {
                debug_assert!(self.sort(t) == Sort::Real);
                Poly::atom(t)
            }
        }
    }
    pub fn rt(&mut self, p: Poly) -> T {
        if p.0.len() == 1 && p.0[0].1.is_one() && p.0[0].0.len() == 1 && p.0[0].0[0].1 == 1 {
            return p.0[0].0[0].0;
        }
        self.mk(N::Poly(Rc::new(p)), Sort::Real)
    }
    pub fn rconst(&mut self, r: Rat) -> T {
        self.rt(Poly::konst(r))
    }
    pub fn as_rat(&self, t: T) -> Option<Rat> {
        match self.n(t) {
            N::Poly(p) => p.as_const(),
            _ => None,
        }
    }
    pub fn pmul(&self, a: &Poly, b: &Poly) -> Poly {
        let r = a.mul_raw(b);
        self.reduce(r)
    }
    pub fn reduce(&self, mut p: Poly) -> Poly {
        if self.sq.is_empty() {
            return p;
        }
        loop {
            let mut found = None;
            for (i, (m, _)) in p.0.iter().enumerate() {
                for (a, e) in m {
                    if *e >= 2 && self.sq.contains_key(a) {
                        found = Some((i, *a, *e));
                        break;
                    }
                }
                if found.is_some() {
                    break;
                }
            }
            let (_, a, _) = match found {
                None => return p,
                Some(x) => x,
            };
            // rewrite every occurrence of a^e, e>=2
            let rule = self.sq[&a].clone();
            let mut keep = vec![];
            let mut add = Poly::default();
            for (m, c) in p.0.into_iter() {
                match m.iter().position(|x| x.0 == a && x.1 >= 2) {
                    None => keep.push((m, c)),
                    Some(k) => {
                        let e = m[k].1;
                        let mut m2 = m.clone();
                        if e % 2 == 0 {
                            m2.remove(k);
                        } else {
                            m2[k].1 = 1;
                        }
                        let mut q = Poly(vec![(m2, c)]);
                        for _ in 0..e / 2 {
                            q = q.mul_raw(&rule);
                        }
                        add = add.add(&q);
                    }
                }
            }
            p = Poly(keep).add(&add);
        }
    }
    pub fn radd(&mut self, a: T, b: T) -> T {
        let p = self.poly(a).add(&self.poly(b));
        self.rt(p)
    }
    pub fn rsub(&mut self, a: T, b: T) -> T {
        let p = self.poly(a).sub(&self.poly(b));
        self.rt(p)
    }
    pub fn rneg(&mut self, a: T) -> T {
        let p = self.poly(a).neg();
        self.rt(p)
    }
    pub fn rmul(&mut self, a: T, b: T) -> T {
        let p = self.pmul(&self.poly(a), &self.poly(b));
        self.rt(p)
    }
    /// 1/b for b known to be non-zero on the path
    pub fn rinv(&mut self, b: T) -> Poly {
        let p = self.poly(b);
        if let Some(c) = p.as_const() {
            return Poly::konst(c.inv());
        }
        if p.0.len() == 1 {
            let (m, c) = &p.0[0];
            let m: Mono = m.iter().map(|(a, e)| (*a, -e)).collect();
            return Poly(vec![(m, c.inv())]);
        }
        // normalise: divide by the leading coefficient
        let k = p.0[0].1.clone();
        let q = p.scale(&k.inv());
        let qt = self.rt(q);
        let at = self.mk(N::RFun(RFn::Inv, qt, 0), Sort::Real);
        Poly::atom(at).scale(&k.inv())
    }
    pub fn rdiv(&mut self, a: T, b: T) -> T {
        let pa = self.poly(a);
        let pb = self.poly(b);
        if let Some(q) = self.exact_div(&pa, &pb) {
            return self.rt(q);
        }
        let i = self.rinv(b);
        let p = self.pmul(&pa, &i);
        self.rt(p)
    }
    /// polynomial division when it is exact
    fn exact_div(&self, a: &Poly, b: &Poly) -> Option<Poly> {
        if b.0.len() < 2 || a.is_zero() {
            return None;
        }
        if a == b {
            return Some(Poly::konst(Rat::one()));
        }
        if a.0.iter().chain(b.0.iter()).any(|(m, _)| m.iter().any(|x| x.1 < 0)) {
            return None;
        }
        let lt = |p: &Poly| -> (Mono, Rat) { p.0.iter().max_by(|x, y| mono_lex(&x.0, &y.0)).unwrap().clone() };
        let (mb, cb) = lt(b);
        let mut r = a.clone();
        let mut q = Poly::default();
        for _ in 0..12 {
            if r.is_zero() {
                return if self.pmul(&q, b) == *a { Some(q) } else { None };
            }
            let (mr, cr) = lt(&r);
            let inv: Mono = mb.iter().map(|x| (x.0, -x.1)).collect();
            let m = mono_mul(&mr, &inv);
            if m.iter().any(|x| x.1 < 0) {
                return None;
            }
            let t = Poly(vec![(m, cr.div(&cb))]);
            r = r.sub(&t.mul_raw(b));
            q = q.add(&t);
        }
        None
    }
    /// Clears denominators: returns (p * d, d) with d a product of even powers (d > 0 given the atoms are non-zero)
    fn clear(&self, mut p: Poly, even: bool) -> Poly {
        for _ in 0..64 {
            // negative exponents of plain atoms
            let mut worst: Option<(T, i32)> = None;
            for (m, _) in &p.0 {
                for (a, e) in m {
                    if *e < 0 && worst.map_or(true, |w| w.0 != *a || *e < w.1) {
                        if worst.is_none() || worst.unwrap().0 == *a {
                            worst = Some((*a, *e));
                        }
                    }
                }
            }
            if let Some((a, e)) = worst {
                let mut k = -e;
                if even && k % 2 == 1 && !self.nonneg(a) {
                    k += 1;
                }
                p = self.pmul(&p, &Poly(vec![(vec![(a, k)], Rat::one())]));
                continue;
            }
            // inverse atoms
            let mut inv: Option<(T, T)> = None;
            for a in p.atoms() {
                if let N::RFun(RFn::Inv, q, _) = self.n(a) {
                    inv = Some((a, *q));
                    break;
                }
            }
            let (a, q) = match inv {
                None => return p,
                Some(x) => x,
            };
            let k = p.0.iter().flat_map(|(m, _)| m.iter().filter(|x| x.0 == a).map(|x| x.1)).max().unwrap_or(0);
            let kk = if even && k % 2 == 1 && !self.nonneg(q) { k + 1 } else { k };
            let qp = self.poly(q);
            let mut pw = vec![Poly::konst(Rat::one())];
            for i in 0..kk as usize {
                let n = self.pmul(&pw[i], &qp);
                pw.push(n);
            }
            let mut r = Poly::default();
            for (m, c) in &p.0 {
                let e = m.iter().find(|x| x.0 == a).map_or(0, |x| x.1);
                let m2: Mono = m.iter().filter(|x| x.0 != a).cloned().collect();
                r = r.add(&self.pmul(&Poly(vec![(m2, c.clone())]), &pw[(kk - e) as usize]));
            }
            p = r;
        }
        p
    }
    /// syntactic non-negativity
    fn nonneg(&self, t: T) -> bool {
        match self.n(t) {
            N::RFun(RFn::Sqrt, ..) => true,
            N::Var(_) => self.trig.iter().any(|p| p.c == t),
            N::Poly(p) => p.0.iter().all(|(m, c)| c.sign() > 0 && m.iter().all(|(a, e)| e % 2 == 0 || self.nonneg(*a))),
            _ => false,
        }
    }
    /// the same value as a signed 96-bit integer, if the polynomial is a sum of integers
    /// a real that is an integer (of 96 bits) over a constant
    pub fn int_frac(&mut self, r: T) -> Option<(T, u128)> {
        let mut p = self.poly(r);
        let mut den = 1u128;
        for (_, k) in &p.0 {
            match &k.d {
                Int::S(d) if *d >= 1 && *d <= 1_000_000 && den <= 1_000_000 => {
                    let (mut a, mut b) = (den, *d as u128);
                    while b != 0 {
                        (a, b) = (b, a % b);
                    }
                    den = den / a * *d as u128;
                }
                _ => return None,
            }
        }
        if den > 1 {
            p = p.scale(&Rat::int(den as i128));
        }
        self.int_bv(&p).map(|x| (x, den))
    }
    pub fn int_bv(&mut self, p: &Poly) -> Option<T> {
        if p.0.is_empty() || p.0.len() > 8 {
            return None;
        }
        let mut acc = self.c(96, 0);
        for (m, k) in &p.0 {
            let kv = match (&k.n, &k.d) {
                (Int::S(n), Int::S(1)) => *n as i128,
                _ => return None,
            };
            let t = if m.is_empty() {
                if kv.unsigned_abs() >= 1 << 80 {
                    return None;
                }
                self.c(96, kv as u128 & mask(96))
            } else {
                if m.len() != 1 || m[0].1 != 1 || kv.unsigned_abs() >= 1 << 24 {
                    return None;
                }
                let (sg, a) = match self.n(m[0].0) {
                    N::RFromInt(sg, a) => (*sg, *a),
                    _ => return None,
                };
                if self.width(a) > 64 {
                    return None;
                }
                let x = if sg { self.sext(96, a) } else { self.zext(96, a) };
                if kv == 1 {
                    x
                } else {
                    let kt = self.c(96, kv as u128 & mask(96));
                    self.bv(BvOp::Mul, x, kt)
                }
            };
            acc = self.bv(BvOp::Add, acc, t);
        }
        Some(acc)
    }
    pub fn rcmp(&mut self, r: RRel, a: T, b: T) -> T {
        let p = self.poly(a).sub(&self.poly(b));
        self.rrel0(r, p)
    }
    pub fn rrel0(&mut self, r: RRel, p: Poly) -> T {
        let p = self.clear(p, r != RRel::Eq);
        if let Some(c) = p.as_const() {
            let s = c.sign();
            return self.b(match r {
                RRel::Eq => s == 0,
                RRel::Lt => s < 0,
                RRel::Le => s <= 0,
            });
        }
        if let Some(x) = self.int_bv(&p) {
            let z = self.c(96, 0);
            return match r {
                RRel::Eq => self.eq(x, z),
                RRel::Lt => self.slt(x, z),
                RRel::Le => {
                    let n = self.slt(z, x);
                    self.not(n)
                }
            };
        }
        // isolated square roots
        let mut pick: Option<(T, Rat)> = None;
        for a in p.atoms() {
            if let N::RFun(RFn::Sqrt, ..) = self.n(a) {
                let occ: Vec<&(Mono, Rat)> = p.0.iter().filter(|(m, _)| m.iter().any(|x| x.0 == a)).collect();
                if occ.len() == 1 && occ[0].0.len() == 1 && occ[0].0[0].1 == 1 {
                    // avoid picking when a later sqrt is defined in terms of this one
                    pick = Some((a, occ[0].1.clone()));
                }
            }
        }
        if let Some((s, alpha)) = pick {
            let rest = Poly(p.0.iter().filter(|(m, _)| !m.iter().any(|x| x.0 == s)).cloned().collect());
            let others = rest.atoms().iter().filter(|a| matches!(self.n(**a), N::RFun(RFn::Sqrt, ..))).count();
            if others <= 1 {
                // alpha*s + rest R 0   <=>  s R' B,  B = -rest/alpha
                let b = rest.scale(&alpha.inv().neg());
                let ps = match self.n(s) {
                    N::RFun(RFn::Sqrt, p, _) => self.poly(*p),
                    _ => unreachable!(),
                };
                let b2 = self.pmul(&b, &b);
                let d = ps.sub(&b2); // s^2 - B^2
                let pos = alpha.sign() > 0;
                return match (r, pos) {
                    (RRel::Eq, _) => {
                        let x = self.rrel0(RRel::Le, b.neg());
                        let y = self.rrel0(RRel::Eq, d);
                        self.and(x, y)
                    }
                    (RRel::Lt, true) => {
                        let x = self.rrel0(RRel::Lt, b.neg());
                        let y = self.rrel0(RRel::Lt, d);
                        self.and(x, y)
                    }
                    (RRel::Le, true) => {
                        let x = self.rrel0(RRel::Le, b.neg());
                        let y = self.rrel0(RRel::Le, d);
                        self.and(x, y)
                    }
                    (RRel::Lt, false) => {
                        // s > B
                        let x = self.rrel0(RRel::Lt, b);
                        let y = self.rrel0(RRel::Lt, d.neg());
                        self.or(x, y)
                    }
                    (RRel::Le, false) => {
                        let x = self.rrel0(RRel::Le, b);
                        let y = self.rrel0(RRel::Le, d.neg());
                        self.or(x, y)
                    }
                };
            }
        }
        // single monomial: sign shortcuts
        let lead = p.0[0].1.clone();
        let k = if r == RRel::Eq { lead.inv() } else { lead.abs().inv() };
        let p = p.scale(&k);
        // sum of squares shortcut:  (all terms nonneg)  p < 0 is false
        let pt = self.rt(p.clone());
        if r == RRel::Lt && self.nonneg(pt) {
            return self.ff;
        }
        if r == RRel::Le {
            let np = p.neg();
            let npt = self.rt(np);
            if self.nonneg(npt) {
                return self.tt;
            }
        }
        self.mk(N::RRel(r, pt), Sort::Bool)
    }
    /// sqrt of a polynomial known non-negative. Ok(q): q*q == p exactly (sign of q undecided). Err(s): an atom.
    pub fn rsqrt(&mut self, t: T) -> Result<T, T> {
        let p = self.poly(t);
        if let Some(c) = p.as_const() {
            if let Some(s) = c.sqrt_exact() {
                return Ok(self.rconst(s));
            }
        }
        if let Some(q) = self.poly_sqrt(&p) {
            return Ok(self.rt(q));
        }
        // k^2 * rule(a)
        let rules: Vec<(T, Poly)> = {
            let mut v: Vec<_> = self.sq.iter().map(|(a, b)| (*a, b.clone())).collect();
            v.sort_by_key(|x| x.0);
            v
        };
        for (a, rule) in rules {
            if !rule.is_zero() && rule.0.len() == p.0.len() && rule.0[0].0 == p.0[0].0 {
                let k = p.0[0].1.div(&rule.0[0].1);
                if rule.scale(&k) == p {
                    if let Some(s) = k.sqrt_exact() {
                        return Ok(self.rt(Poly::atom(a).scale(&s)));
                    }
                }
            }
        }
        let at = self.mk(N::RFun(RFn::Sqrt, t, 0), Sort::Real);
        self.sq.entry(at).or_insert(p);
        Err(at)
    }
    fn poly_sqrt(&self, p: &Poly) -> Option<Poly> {
        if p.is_zero() {
            return Some(p.clone());
        }
        if p.0.iter().any(|(m, _)| m.iter().any(|x| x.1 < 0)) {
            // multiply by even power, take root, divide back
            let mut mul: Mono = vec![];
            for (m, _) in &p.0 {
                for (a, e) in m {
                    if *e < 0 {
                        let k = ((-e) + 1) / 2 * 2;
                        match mul.iter_mut().find(|x| x.0 == *a) {
                            Some(x) => x.1 = x.1.max(k),
                            None => mul.push((*a, k)),
                        }
                    }
                }
            }
            mul.sort();
            let q = self.pmul(p, &Poly(vec![(mul.clone(), Rat::one())]));
            if q.0.iter().any(|(m, _)| m.iter().any(|x| x.1 < 0)) {
                return None;
            }
            let r = self.poly_sqrt(&q)?;
            let inv: Mono = mul.iter().map(|x| (x.0, -x.1 / 2)).collect();
            let r = self.pmul(&r, &Poly(vec![(inv, Rat::one())]));
            return if self.pmul(&r, &r) == *p { Some(r) } else { None };
        }
        let lt = |p: &Poly| -> (Mono, Rat) { p.0.iter().max_by(|x, y| mono_lex(&x.0, &y.0)).unwrap().clone() };
        let (m, c) = lt(p);
        if m.iter().any(|x| x.1 % 2 != 0) {
            return None;
        }
        let cs = c.sqrt_exact()?;
        let hm: Mono = m.iter().map(|x| (x.0, x.1 / 2)).collect();
        let mut q = Poly(vec![(hm.clone(), cs.clone())]);
        let inv: Mono = hm.iter().map(|x| (x.0, -x.1)).collect();
        for _ in 0..8 {
            let r = p.sub(&self.pmul(&q, &q));
            if r.is_zero() {
                return Some(q);
            }
            let (mr, cr) = lt(&r);
            let nm = mono_mul(&mr, &inv);
            if nm.iter().any(|x| x.1 < 0) {
                return None;
            }
            let add = Poly(vec![(nm, cr.div(&cs.mul(&Rat::int(2))))]);
            let nq = q.add(&add);
            if nq.0.len() < q.0.len() {
                return None;
            }
            q = nq;
        }
        None
    }
    pub fn rfun(&mut self, f: RFn, a: T, b: T) -> T {
        self.mk(N::RFun(f, a, b), Sort::Real)
    }
    /// cos(k*phi), sin(k*phi) in terms of the pair's atoms
    pub fn trig_multiple(&mut self, i: usize, k: i32) -> (Poly, Poly) {
        let p = self.trig[i].clone();
        let (c, s) = (Poly::atom(p.c), Poly::atom(p.s));
        let (mut rc, mut rs) = (Poly::konst(Rat::one()), Poly::default());
        for _ in 0..k.abs() {
            let nc = self.pmul(&rc, &c).sub(&self.pmul(&rs, &s));
            let ns = self.pmul(&rs, &c).add(&self.pmul(&rc, &s));
            rc = nc;
            rs = ns;
        }
        if k < 0 {
            rs = rs.neg();
        }
        (rc, rs)
    }
}

/// Value of a variable in a model
#[derive(Clone, Debug, PartialEq)]
pub enum MV {
    I(u128),
    R(Rat),
    /// algebraic number, approximated
    F(f64),
}
pub type Model = HashMap<u32, MV>;

#[derive(Clone, Debug)]
pub enum EV {
    I(u128),
    R(Rat),
    F(f64),
    Unk,
}
impl EV {
    pub fn f(&self) -> Option<f64> {
        match self {
            EV::R(r) => Some(r.to_f64()),
            EV::F(f) => Some(*f),
            _ => None,
        }
    }
    pub fn bool(&self) -> Option<bool> {
        match self {
            EV::I(v) => Some(*v != 0),
            _ => None,
        }
    }
}

/// Evaluate a term under a (total by default-zero) model. `approx`: allow floating approximations of reals.
pub fn eval(t: T, m: &Model, memo: &mut HashMap<T, EV>, approx: bool) -> EV {
    if let Some(v) = memo.get(&t) {
        return v.clone();
    }
    let c = cx();
    let s = c.sort(t);
    let n = c.n(t).clone();
    let mut e = |x: T| eval(x, m, memo, approx);
    macro_rules! i {
        ($x:expr) => {
            match e($x) {
                EV::I(v) => v,
                _ => return EV::Unk,
            }
        };
    }
    let w = match s {
        Sort::BV(w) => w,
        _ => 1,
    };
    let r = match n {
        N::B(b) => EV::I(b as u128),
        N::C(v) => EV::I(v),
        N::Not(a) => match e(a) {
            EV::I(v) => EV::I(1 - v),
            _ => EV::Unk,
        },
        N::And(a, b) => match (e(a), e(b)) {
            (EV::I(0), _) | (_, EV::I(0)) => EV::I(0),
            (EV::I(_), EV::I(_)) => EV::I(1),
            _ => EV::Unk,
        },
        N::Or(a, b) => match (e(a), e(b)) {
            (EV::I(1), _) | (_, EV::I(1)) => EV::I(1),
            (EV::I(_), EV::I(_)) => EV::I(0),
            _ => EV::Unk,
        },
        N::Var(id) => match m.get(&id) {
            Some(MV::I(v)) => EV::I(*v),
            Some(MV::R(r)) => EV::R(r.clone()),
            Some(MV::F(f)) => {
                if approx {
                    EV::F(*f)
                } else {
                    EV::Unk
                }
            }
            None => {
                if s == Sort::Real {
                    EV::R(Rat::zero())
                } else {
                    EV::I(0)
                }
            }
        },
        N::Eq(a, b) => EV::I((i!(a) == i!(b)) as u128),
        N::Ult(a, b) => EV::I((i!(a) < i!(b)) as u128),
        N::Slt(a, b) => {
            let w = c.width(a);
            EV::I((sext(i!(a), w) < sext(i!(b), w)) as u128)
        }
        N::Bv(op, a, b) => {
            let (x, y) = (i!(a), i!(b));
            match bvop_c(op, w, x, y) {
                Some(v) => EV::I(v),
                // SMT-LIB semantics
                None => EV::I(match op {
                    BvOp::UDiv => mask(w),
                    BvOp::SDiv => {
                        if sext(x, w) >= 0 {
                            mask(w)
                        } else {
                            1
                        }
                    }
                    _ => x,
                }),
            }
        }
        N::Concat(a, b) => {
            let wl = c.width(b);
            EV::I((i!(a) << wl) | i!(b))
        }
        N::Extract(_, lo, a) => EV::I((i!(a) >> lo) & mask(w)),
        N::ZExt(a) => EV::I(i!(a)),
        N::SExt(a) => {
            let wa = c.width(a);
            EV::I(sext(i!(a), wa) as u128 & mask(w))
        }
        N::Ite(k, a, b) => match e(k) {
            EV::I(0) => e(b),
            EV::I(_) => e(a),
            _ => EV::Unk,
        },
        N::FBin(op, a, b) => EV::I(fbin_c(op, w, i!(a), i!(b))),
        N::FUn(op, a) => EV::I(fun_c(op, w, i!(a))),
        N::FRel(op, a, b) => {
            let wa = c.width(a);
            EV::I(frel_c(op, wa, i!(a), i!(b)) as u128)
        }
        N::FNan(a) => {
            let wa = c.width(a);
            EV::I(fnan_c(wa, i!(a)) as u128)
        }
        N::FFromS(a) => {
            let wa = c.width(a);
            let v = sext(i!(a), wa);
            EV::I(if w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 })
        }
        N::FFromU(a) => {
            let v = i!(a);
            EV::I(if w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 })
        }
        N::FToS(a) | N::FToU(a) => {
            let wa = c.width(a);
            let x = i!(a);
            let f = if wa == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
            EV::I((f as i128) as u128 & mask(w))
        }
        N::FCvt(a) => {
            let wa = c.width(a);
            let x = i!(a);
            EV::I(if wa == 64 { ((f64::from_bits(x as u64)) as f32).to_bits() as u128 } else { ((f32::from_bits(x as u32)) as f64).to_bits() as u128 })
        }
        N::RFromInt(sg, a) => {
            let wa = c.width(a);
            let x = i!(a);
            EV::R(if sg { Rat::int(sext(x, wa)) } else { Rat { n: Int::from_u128(x), d: Int::S(1) } })
        }
        N::RRel(op, p) => match e(p) {
            EV::R(r) => {
                let s = r.sign();
                EV::I(match op {
                    RRel::Eq => s == 0,
                    RRel::Lt => s < 0,
                    RRel::Le => s <= 0,
                } as u128)
            }
            EV::F(f) if approx => EV::I(match op {
                RRel::Eq => f == 0.0,
                RRel::Lt => f < 0.0,
                RRel::Le => f <= 0.0,
            } as u128),
            _ => EV::Unk,
        },
        N::Poly(p) => {
            let mut exact = Some(Rat::zero());
            let mut fl = 0.0f64;
            let mut bad = false;
            for (mo, co) in &p.0 {
                let mut te = Some(co.clone());
                let mut tf = co.to_f64();
                for (a, ex) in mo {
                    match e(*a) {
                        EV::R(v) => {
                            tf *= v.to_f64().powi(*ex);
                            if *ex < 0 && v.is_zero() {
                                bad = true;
                                te = None;
                            } else if let Some(mut x) = te.take() {
                                let b = if *ex < 0 { v.inv() } else { v.clone() };
                                for _ in 0..ex.abs() {
                                    x = x.mul(&b);
                                }
                                te = Some(x);
                            }
                        }
                        EV::F(f) => {
                            te = None;
                            tf *= f.powi(*ex);
                        }
                        _ => bad = true,
                    }
                }
                fl += tf;
                exact = match (exact, te) {
                    (Some(a), Some(b)) => Some(a.add(&b)),
                    _ => None,
                };
            }
            if bad {
                EV::Unk
            } else if let Some(x) = exact {
                EV::R(x)
            } else if approx {
                EV::F(fl)
            } else {
                EV::Unk
            }
        }
        N::RFun(f, a, b) => {
            let x = e(a);
            match f {
                RFn::Sqrt => {
                    if let EV::R(r) = &x {
                        if let Some(s) = r.sqrt_exact() {
                            let v = EV::R(s);
                            memo.insert(t, v.clone());
                            return v;
                        }
                    }
                    match (approx, x.f()) {
                        (true, Some(v)) => EV::F(v.max(0.0).sqrt()),
                        _ => EV::Unk,
                    }
                }
                RFn::Inv => match x {
                    EV::R(r) if !r.is_zero() => EV::R(r.inv()),
                    EV::F(f) => EV::F(1.0 / f),
                    _ => EV::Unk,
                },
                RFn::Atan2 => {
                    let y = e(b);
                    match (approx, x.f(), y.f()) {
                        (true, Some(p), Some(q)) => EV::F(p.atan2(q)),
                        _ => EV::Unk,
                    }
                }
                RFn::Cos | RFn::Sin => match (approx, x.f()) {
                    (true, Some(p)) => EV::F(if f == RFn::Cos { p.cos() } else { p.sin() }),
                    _ => EV::Unk,
                },
            }
        }
    };
    memo.insert(t, r.clone());
    r
}
