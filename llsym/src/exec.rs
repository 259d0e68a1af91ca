//! Symbolic executor over LLVM IR: states, memory, instruction semantics, path exploration.
use crate::bigrat::{Int, Rat};
use crate::ir::*;
use crate::smt::{Res, Smt};
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Default)]
pub struct Obj {
    pub b: Vec<u8>,
    pub sym: BTreeMap<u32, (T, u8, u8)>,
    pub freed: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: *const Func,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub mem: Obj,
    pub ret_dst: u32,
    pub ret_to: Option<u32>,
}

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Heap {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    n: u32,
}
impl Heap {
    fn push(&mut self, o: Obj) -> u32 {
        let i = self.n as usize;
        self.n += 1;
        if i / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(Some(Rc::new(o)));
        i as u32
    }
    fn get(&self, i: u32) -> Option<&Obj> {
        self.chunks.get(i as usize / CH)?.get(i as usize % CH)?.as_deref()
    }
    fn get_mut(&mut self, i: u32) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(i as usize / CH)?);
        c.get_mut(i as usize % CH)?.as_mut().map(Rc::make_mut)
    }
    fn drop_obj(&mut self, i: u32) {
        if let Some(c) = self.chunks.get_mut(i as usize / CH) {
            if let Some(s) = Rc::make_mut(c).get_mut(i as usize % CH) {
                *s = None;
            }
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Heap,
    pub globs: Rc<HashMap<u32, Rc<Obj>>>,
    pub pc: Vec<T>,
    pub obs: Vec<(u32, Val, bool)>,
    pub reach: Vec<u32>,
    pub files: Rc<Vec<(String, Rc<Obj>, u64)>>,
    pub fds: Vec<(usize, u64)>,
    pub expect_panic: bool,
    pub depth: u32,
    pub fork_log: Vec<u32>,
    pub steps: u64,
    pub in_lib: u32,
    pub sentinels: Rc<Vec<Val>>,
}

#[derive(Debug)]
pub enum Stop {
    Dead,
    Done,
    Panic(String),
    Unsup(String),
}
pub type R<X> = Result<X, Stop>;

#[derive(Debug, Clone)]
pub struct Violation {
    pub what: String,
    pub model: Model,
    pub kind: u8, // 0 assertion, 1 panic
    pub pc: Vec<T>,
    pub goal: Option<T>,
    pub obs: Vec<(u32, Val, bool)>,
    pub trace: Vec<String>,
}
pub struct PathEnd {
    pub pc: Vec<T>,
    pub obs: Vec<(u32, Val, bool)>,
    pub reach: Vec<u32>,
    pub panic: Option<String>,
}

pub struct Exec {
    pub m: Module,
    pub smt: Smt,
    pub work: Vec<State>,
    pub ginit: HashMap<u32, Rc<Obj>>,
    pub kinds: HashMap<u32, crate::hooks::Kind>,
    pub real_mode: bool,
    pub vars: BTreeMap<(u8, u32), Vec<T>>, // harness inputs: kind,id -> variables
    pub violations: Vec<Violation>,
    pub ends: Vec<PathEnd>,
    pub n_paths: u64,
    pub n_pruned: u64,
    pub n_forks: u64,
    pub n_steps: u64,
    pub n_asserts: u64,
    pub n_assert_const: u64,
    pub unknown_branch: u64,
    pub inconclusive: Vec<String>,
    pub reach: BTreeMap<u32, u64>,
    pub obligations: BTreeMap<u32, u64>,
    pub fns_seen: BTreeSet<u32>,
    pub deadline: Instant,
    pub max_paths: u64,
    pub max_path_steps: u64,
    pub shard: (u64, u64),
    pub choose_seen: HashSet<u32>,
    pub keep_ends: usize,
    pub trace_on: bool,
    pub max_viol: usize,
    pub hash_seed: u64,
    pub no_model: u64,
    pub unsup_ends: Vec<(String, Vec<T>)>,
}

#[derive(Clone, Debug)]
pub enum FV {
    K(f64),
    R(T),
    B(T),
}

pub fn is_real(v: &Val) -> Option<T> {
    match v {
        Val::T(t) if cx().sort(*t) == Sort::Real => Some(*t),
        _ => None,
    }
}
pub fn nv(t: T) -> Val {
    let c = cx();
    if let Some(v) = c.as_c(t) {
        return Val::C(v);
    }
    if c.sort(t) == Sort::BV(1) {
        return Val::T(c.to_bool(t));
    }
    Val::T(t)
}
pub fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsup(s.into()))
}
pub fn bt(v: &Val, w: u16) -> R<T> {
    let c = cx();
    match v {
        Val::C(x) => Ok(if w == 1 { c.b(*x & 1 != 0) } else { c.c(w, *x) }),
        Val::T(t) => {
            if c.sort(*t) == Sort::Real {
                return unsup("integer operation on a real value");
            }
            Ok(*t)
        }
        Val::A(_) => unsup("aggregate as scalar"),
    }
}
/// term as bit-vector (booleans widened to 1 bit are kept as Bool only for width 1)
pub fn boolean(v: &Val) -> R<T> {
    let t = bt(v, 1)?;
    let c = cx();
    if c.sort(t) == Sort::Bool {
        Ok(t)
    } else {
        Ok(c.to_bool(t))
    }
}

impl State {
    pub fn top(&mut self) -> &mut Frame {
        Rc::make_mut(self.frames.last_mut().unwrap())
    }
    pub fn topr(&self) -> &Frame {
        self.frames.last().unwrap()
    }
}

impl Exec {
    // ---------------------------------------------------------------- solver decisions
    pub fn possible(&mut self, st: &State, c: T) -> Option<bool> {
        match self.smt.check(&st.pc, &[c]) {
            Res::Sat(_) => Some(true),
            Res::Unsat => Some(false),
            Res::Unknown => None,
        }
    }
    pub fn known(&self, st: &State, c: T) -> Option<bool> {
        let x = cx();
        if let Some(v) = x.as_c(c) {
            return Some(v != 0);
        }
        let n = x.not(c);
        for p in st.pc.iter().rev() {
            if *p == c {
                return Some(true);
            }
            if *p == n {
                return Some(false);
            }
        }
        None
    }
    /// follow one side of `c`; the other side (when feasible) is queued as a copy of the state
    /// standing at the same instruction
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        let x = cx();
        // conjunctions / disjunctions: decide the parts, gives simpler path conditions
        let nc = x.not(c);
        let p = self.possible(st, c);
        if p == Some(false) {
            return Ok(false);
        }
        let q = self.possible(st, nc);
        if q == Some(false) {
            return Ok(true);
        }
        if p.is_none() || q.is_none() {
            self.unknown_branch += 1;
        }
        self.n_forks += 1;
        if self.trace_on {
            let bt = self.backtrace(st);
            eprintln!("FORK {:?}", &bt[..bt.len().min(6)]);
        }
        let mut o = st.clone();
        o.pc.push(nc);
        o.depth += 1;
        st.pc.push(c);
        st.depth += 1;
        self.work.push(o);
        Ok(true)
    }
    pub fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        match self.known(st, c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Dead),
            None => {}
        }
        if self.possible(st, c) == Some(false) {
            return Err(Stop::Dead);
        }
        st.pc.push(c);
        Ok(())
    }
    pub fn concretise(&mut self, st: &mut State, v: &Val, w: u16) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            Val::T(_) => {
                let t = bt(v, w)?;
                let r = self.smt.check(&st.pc, &[]);
                let mut sl = self.smt.slice(&st.pc, &[t]);
                if sl.is_empty() {
                    sl = vec![];
                }
                let m = match if sl.is_empty() { Res::Sat(Model::new()) } else { self.smt.solve(sl) } {
                    Res::Sat(m) => m,
                    Res::Unsat => return Err(Stop::Dead),
                    Res::Unknown => return unsup("concretise: solver unknown"),
                };
                let _ = r;
                let mut memo = HashMap::new();
                let val = match eval(t, &m, &mut memo, true) {
                    EV::I(v) => v,
                    _ => return unsup("concretise: no value"),
                };
                let c = cx();
                let k = if w == 1 { c.b(val != 0) } else { c.c(w, val) };
                let e = if w == 1 { c.iff(t, k) } else { c.eq(t, k) };
                if self.decide(st, e)? {
                    Ok(val)
                } else {
                    // the other side only: value excluded, try again
                    self.concretise(st, v, w)
                }
            }
            Val::A(_) => unsup("concretise aggregate"),
        }
    }

    // ---------------------------------------------------------------- memory
    fn glob_obj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = self.ginit.get(&g) {
            return o.clone();
        }
        let b = self.m.global_init(g);
        let o = Rc::new(Obj { b, sym: BTreeMap::new(), freed: false });
        self.ginit.insert(g, o.clone());
        o
    }
    pub fn with<X>(&mut self, st: &State, addr: u64, n: u64, f: impl FnOnce(&Obj, usize) -> X) -> R<X> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let tmp;
        let o: &Obj = if id >= HEAP_BASE {
            match st.heap.get((id - HEAP_BASE) as u32) {
                Some(o) => o,
                None => return unsup(format!("read of freed or unknown object {:#x}", addr)),
            }
        } else if id >= STACK_BASE {
            match st.frames.get((id - STACK_BASE) as usize) {
                Some(f) => &f.mem,
                None => return unsup("dangling stack read"),
            }
        } else if id >= GLOB_BASE {
            let g = (id - GLOB_BASE) as u32;
            match st.globs.get(&g) {
                Some(o) => o,
                None => {
                    tmp = self.glob_obj(g);
                    &tmp
                }
            }
        } else {
            return unsup(format!("read through invalid pointer {:#x}", addr));
        };
        if off + n > o.b.len() as u64 {
            return unsup(format!("out-of-bounds read {:#x}+{} of object size {}", addr, n, o.b.len()));
        }
        Ok(f(o, off as usize))
    }
    pub fn with_mut<X>(&mut self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> X) -> R<X> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let o: &mut Obj = if id >= HEAP_BASE {
            match st.heap.get_mut((id - HEAP_BASE) as u32) {
                Some(o) => o,
                None => return unsup(format!("write to freed or unknown object {:#x}", addr)),
            }
        } else if id >= STACK_BASE {
            match st.frames.get_mut((id - STACK_BASE) as usize) {
                Some(f) => &mut Rc::make_mut(f).mem,
                None => return unsup("dangling stack write"),
            }
        } else if id >= GLOB_BASE {
            let g = (id - GLOB_BASE) as u32;
            if !st.globs.contains_key(&g) {
                let o = self.glob_obj(g);
                Rc::make_mut(&mut st.globs).insert(g, o);
            }
            Rc::make_mut(Rc::make_mut(&mut st.globs).get_mut(&g).unwrap())
        } else {
            return unsup(format!("write through invalid pointer {:#x}", addr));
        };
        if off + n > o.b.len() as u64 {
            return unsup(format!("out-of-bounds write {:#x}+{} of object size {}", addr, n, o.b.len()));
        }
        Ok(f(o, off as usize))
    }
    pub fn alloc(&mut self, st: &mut State, n: u64) -> u64 {
        let i = st.heap.push(Obj { b: vec![0; n as usize], sym: BTreeMap::new(), freed: false });
        (HEAP_BASE + i as u64) << 32
    }
    pub fn free(&mut self, st: &mut State, a: u64) {
        let id = a >> 32;
        if id >= HEAP_BASE {
            st.heap.drop_obj((id - HEAP_BASE) as u32);
        }
    }
    pub fn obj_size(&mut self, st: &State, a: u64) -> R<u64> {
        self.with(st, a & !0xffff_ffff, 0, |o, _| o.b.len() as u64)
    }
    pub fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let r = self.with(st, addr, n, |o, off| if o.sym.is_empty() || o.sym.range(off as u32..(off as u64 + n) as u32).next().is_none() { Some(o.b[off..off + n as usize].to_vec()) } else { None })?;
        match r {
            Some(v) => Ok(v),
            None => unsup("symbolic bytes where concrete ones are needed"),
        }
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, d: &[u8]) -> R<()> {
        if d.is_empty() {
            return Ok(());
        }
        self.with_mut(st, addr, d.len() as u64, |o, off| {
            o.b[off..off + d.len()].copy_from_slice(d);
            clear_sym(o, off, d.len());
        })
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (bytes, sym) = self.with(st, src, n, |o, off| {
            let b = o.b[off..off + n as usize].to_vec();
            let s: Vec<(u32, (T, u8, u8))> = if o.sym.is_empty() { vec![] } else { o.sym.range(off as u32..off as u32 + n as u32).map(|(k, v)| (*k - off as u32, *v)).collect() };
            (b, s)
        })?;
        self.with_mut(st, dst, n, |o, off| {
            o.b[off..off + n as usize].copy_from_slice(&bytes);
            clear_sym(o, off, n as usize);
            for (k, v) in sym {
                o.sym.insert(off as u32 + k, v);
            }
        })
    }
    /// one byte as a value of width 8
    pub fn load_byte(&mut self, st: &State, addr: u64) -> R<Val> {
        self.load_int(st, addr, 1, 8)
    }
    pub fn load_int(&mut self, st: &State, addr: u64, n: usize, w: u16) -> R<Val> {
        enum L {
            C(u128),
            S(Vec<(Option<(T, u8, u8)>, u8)>),
        }
        let l = self.with(st, addr, n as u64, |o, off| {
            if o.sym.is_empty() || o.sym.range(off as u32..(off + n) as u32).next().is_none() {
                let mut v = 0u128;
                for i in (0..n).rev() {
                    v = v << 8 | o.b[off + i] as u128;
                }
                L::C(v)
            } else {
                L::S((0..n).map(|i| (o.sym.get(&((off + i) as u32)).cloned(), o.b[off + i])).collect())
            }
        })?;
        match l {
            L::C(v) => Ok(Val::C(v & mask(w))),
            L::S(v) => {
                let c = cx();
                if let Some((t, 0, k)) = v[0].0 {
                    if k as usize == n && v.iter().enumerate().all(|(i, x)| matches!(x.0, Some((u, j, _)) if u == t && j as usize == i)) {
                        if c.sort(t) == Sort::Real {
                            return Ok(Val::T(t));
                        }
                        let full = (n * 8) as u16;
                        if w < full {
                            return Ok(nv(c.extract(w - 1, 0, t)));
                        }
                        return Ok(nv(t));
                    }
                }
                let mut acc: Option<T> = None;
                let mut i = 0;
                while i < n {
                    let part = match v[i].0 {
                        None => {
                            i += 1;
                            c.c(8, v[i - 1].1 as u128)
                        }
                        Some((t, j, _)) => {
                            if c.sort(t) == Sort::Real {
                                return unsup("partial read of a real value");
                            }
                            let mut k = 1;
                            while i + k < n && matches!(v[i + k].0, Some((u, jj, _)) if u == t && jj as usize == j as usize + k) {
                                k += 1;
                            }
                            i += k;
                            c.extract((j as u16 + k as u16) * 8 - 1, j as u16 * 8, t)
                        }
                    };
                    acc = Some(match acc {
                        None => part,
                        Some(a) => c.concat(part, a),
                    });
                }
                let t = acc.unwrap();
                let full = (n * 8) as u16;
                if w < full {
                    return Ok(nv(c.extract(w - 1, 0, t)));
                }
                Ok(nv(t))
            }
        }
    }
    pub fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> R<Val> {
        match ty {
            Ty::I(_) | Ty::F32 | Ty::F64 | Ty::Ptr => {
                let n = ty.store_size() as usize;
                self.load_int(st, addr, n, ty.width())
            }
            Ty::Vec(n, e) => {
                if e.bits() % 8 != 0 {
                    return unsup("load of bit vector");
                }
                let s = e.bits() / 8;
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(st, e, addr + i * s)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, e, addr + i * e.size())?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::St(f, o, ..) => {
                let mut v = vec![];
                for (t, off) in f.iter().zip(o) {
                    v.push(self.load(st, t, addr + off)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => unsup(format!("load {:?}", t)),
        }
    }
    pub fn store_int(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        match v {
            Val::C(x) => {
                let x = *x;
                self.with_mut(st, addr, n as u64, |o, off| {
                    let mut x = x;
                    for i in 0..n {
                        o.b[off + i] = x as u8;
                        x >>= 8;
                    }
                    clear_sym(o, off, n);
                })
            }
            Val::T(t) => {
                let c = cx();
                let mut t = *t;
                match c.sort(t) {
                    Sort::Bool => {
                        let (a, b) = (c.c(n as u16 * 8, 1), c.c(n as u16 * 8, 0));
                        t = c.ite(t, a, b);
                    }
                    Sort::BV(w) => {
                        if w < n as u16 * 8 {
                            t = c.zext(n as u16 * 8, t);
                        }
                    }
                    Sort::Real => {}
                }
                self.with_mut(st, addr, n as u64, |o, off| {
                    for i in 0..n {
                        o.b[off + i] = 0xAA;
                        o.sym.insert((off + i) as u32, (t, i as u8, n as u8));
                    }
                })
            }
            _ => unsup("store aggregate as int"),
        }
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::I(_) | Ty::F32 | Ty::F64 | Ty::Ptr, v) => self.store_int(st, addr, ty.store_size() as usize, v),
            (Ty::Vec(n, e), Val::A(a)) => {
                if e.bits() % 8 != 0 {
                    return unsup("store of bit vector");
                }
                let s = e.bits() / 8;
                for i in 0..*n {
                    self.store(st, e, addr + i * s, &a[i as usize])?;
                }
                Ok(())
            }
            (Ty::Arr(n, e), Val::A(a)) => {
                for i in 0..*n {
                    self.store(st, e, addr + i * e.size(), &a[i as usize])?;
                }
                Ok(())
            }
            (Ty::St(f, o, ..), Val::A(a)) => {
                for ((t, off), x) in f.iter().zip(o).zip(a.iter()) {
                    self.store(st, t, addr + off, x)?;
                }
                Ok(())
            }
            (t, _) => unsup(format!("store {:?}", t)),
        }
    }

    // ---------------------------------------------------------------- floating point
    pub fn fv(&self, v: &Val, w: u16) -> R<FV> {
        Ok(match v {
            Val::C(x) => FV::K(if w == 64 { f64::from_bits(*x as u64) } else { f32::from_bits(*x as u32) as f64 }),
            Val::T(t) => {
                if cx().sort(*t) == Sort::Real {
                    FV::R(*t)
                } else {
                    FV::B(*t)
                }
            }
            _ => return unsup("fp aggregate"),
        })
    }
    fn kbits(k: f64, w: u16) -> u128 {
        if w == 64 {
            k.to_bits() as u128
        } else {
            (k as f32).to_bits() as u128
        }
    }
    pub fn kval(k: f64) -> Val {
        Val::C(k.to_bits() as u128)
    }
    pub fn rk(k: f64) -> T {
        cx().rconst(Rat::from_f64(k).unwrap())
    }
    pub fn rv(t: T) -> Val {
        // exact constants that are doubles go back to concrete bits
        if let Some(r) = cx().as_rat(t) {
            let f = r.to_f64();
            if Rat::from_f64(f).map_or(false, |q| q == r) {
                return Val::C(f.to_bits() as u128);
            }
        }
        Val::T(t)
    }
    pub fn rlt(&mut self, st: &mut State, a: T, b: T) -> R<bool> {
        let c = cx().rcmp(RRel::Lt, a, b);
        self.decide(st, c)
    }
    pub fn rsign(&mut self, st: &mut State, a: T) -> R<i32> {
        let z = Self::rk(0.0);
        let c = cx();
        let e = c.rcmp(RRel::Eq, a, z);
        if self.decide(st, e)? {
            return Ok(0);
        }
        Ok(if self.rlt(st, a, z)? { -1 } else { 1 })
    }
    pub fn fop(&mut self, st: &mut State, op: FOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        let (x, y) = (self.fv(a, w)?, self.fv(b, w)?);
        let c = cx();
        match (x, y) {
            (FV::K(_), FV::K(_)) => {
                let (Val::C(p), Val::C(q)) = (a, b) else { unreachable!() };
                let r = fbin_c(op, w, *p, *q);
                if op == FOp::Div && w == 64 && !st.sentinels.is_empty() {
                    let f = f64::from_bits(r as u64) - crate::hooks::SENTINEL as f64;
                    if f.fract() == 0.5 && f > 0.0 && (f as usize) < st.sentinels.len() {
                        return Ok(st.sentinels[f as usize].clone());
                    }
                }
                Ok(Val::C(r))
            }
            (FV::B(_), FV::R(_)) | (FV::R(_), FV::B(_)) => unsup("mixed bit-precise and real arithmetic"),
            (FV::B(_), _) | (_, FV::B(_)) => {
                let (p, q) = (bt(a, w)?, bt(b, w)?);
                if let (FOp::Add | FOp::Sub, true) = (op, false) {}
                Ok(nv(c.fbin(op, p, q)))
            }
            (FV::R(p), FV::R(q)) => self.rop(st, op, p, q),
            (FV::R(p), FV::K(k)) => {
                if k.is_finite() {
                    return self.rop(st, op, p, Self::rk(k));
                }
                if k.is_nan() {
                    return Ok(match op {
                        FOp::Min | FOp::Max => Val::T(p),
                        _ => Val::C(Self::kbits(f64::NAN, w)),
                    });
                }
                let r = match op {
                    FOp::Add => k,
                    FOp::Sub => -k,
                    FOp::Mul => {
                        let s = self.rsign(st, p)?;
                        if s == 0 {
                            f64::NAN
                        } else {
                            k * s as f64
                        }
                    }
                    FOp::Div => 0.0,
                    FOp::Min => {
                        if k > 0.0 {
                            return Ok(Val::T(p));
                        }
                        k
                    }
                    FOp::Max => {
                        if k < 0.0 {
                            return Ok(Val::T(p));
                        }
                        k
                    }
                };
                Ok(Val::C(Self::kbits(r, w)))
            }
            (FV::K(k), FV::R(q)) => {
                if k.is_finite() {
                    return self.rop(st, op, Self::rk(k), q);
                }
                if k.is_nan() {
                    return Ok(match op {
                        FOp::Min | FOp::Max => Val::T(q),
                        _ => Val::C(Self::kbits(f64::NAN, w)),
                    });
                }
                let r = match op {
                    FOp::Add | FOp::Sub => k,
                    FOp::Mul => {
                        let s = self.rsign(st, q)?;
                        if s == 0 {
                            f64::NAN
                        } else {
                            k * s as f64
                        }
                    }
                    FOp::Div => {
                        let s = self.rsign(st, q)?;
                        if s < 0 {
                            -k
                        } else {
                            k
                        }
                    }
                    FOp::Min => {
                        if k > 0.0 {
                            return Ok(Val::T(q));
                        }
                        k
                    }
                    FOp::Max => {
                        if k < 0.0 {
                            return Ok(Val::T(q));
                        }
                        k
                    }
                };
                Ok(Val::C(Self::kbits(r, w)))
            }
        }
    }
    fn rop(&mut self, st: &mut State, op: FOp, p: T, q: T) -> R<Val> {
        let c = cx();
        Ok(Self::rv(match op {
            FOp::Add => c.radd(p, q),
            FOp::Sub => c.rsub(p, q),
            FOp::Mul => c.rmul(p, q),
            FOp::Div => {
                let z = Self::rk(0.0);
                let e = c.rcmp(RRel::Eq, q, z);
                if self.decide(st, e)? {
                    let s = self.rsign(st, p)?;
                    return Ok(Self::kval(match s {
                        0 => f64::NAN,
                        1 => f64::INFINITY,
                        _ => f64::NEG_INFINITY,
                    }));
                }
                c.rdiv(p, q)
            }
            FOp::Min => {
                if self.rlt(st, q, p)? {
                    q
                } else {
                    p
                }
            }
            FOp::Max => {
                if self.rlt(st, p, q)? {
                    q
                } else {
                    p
                }
            }
        }))
    }
    /// comparison mask: 1 lt, 2 eq, 4 gt, 8 unordered
    pub fn fcmp(&mut self, m: u8, w: u16, a: &Val, b: &Val) -> R<T> {
        let c = cx();
        let (x, y) = (self.fv(a, w)?, self.fv(b, w)?);
        let kk = |x: f64, y: f64| -> bool {
            if x.is_nan() || y.is_nan() {
                m & 8 != 0
            } else if x < y {
                m & 1 != 0
            } else if x == y {
                m & 2 != 0
            } else {
                m & 4 != 0
            }
        };
        Ok(match (x, y) {
            (FV::K(x), FV::K(y)) => c.b(kk(x, y)),
            (FV::R(_), FV::B(_)) | (FV::B(_), FV::R(_)) => return unsup("mixed comparison"),
            (FV::B(_), _) | (_, FV::B(_)) => {
                let (p, q) = (bt(a, w)?, bt(b, w)?);
                let lt = c.frel(FRel::Lt, p, q);
                let gt = c.frel(FRel::Lt, q, p);
                let eq = c.frel(FRel::Eq, p, q);
                let (n1, n2) = (c.fnan(p), c.fnan(q));
                let un = c.or(n1, n2);
                match m {
                    0 => c.ff,
                    15 => c.tt,
                    1 => lt,
                    2 => eq,
                    4 => gt,
                    3 => c.frel(FRel::Le, p, q),
                    6 => c.frel(FRel::Le, q, p),
                    5 => c.or(lt, gt),
                    7 => c.not(un),
                    8 => un,
                    9 => {
                        let l = c.frel(FRel::Le, q, p);
                        c.not(l)
                    }
                    10 => c.or(eq, un),
                    11 => c.not(gt),
                    12 => {
                        let l = c.frel(FRel::Le, p, q);
                        c.not(l)
                    }
                    13 => c.not(eq),
                    14 => c.not(lt),
                    _ => unreachable!(),
                }
            }
            (FV::R(p), FV::K(k)) if !k.is_finite() => {
                let _ = p;
                c.b(kk(0.0, k))
            }
            (FV::K(k), FV::R(_)) if !k.is_finite() => c.b(kk(k, 0.0)),
            (x, y) => {
                let t = |v: FV| match v {
                    FV::R(t) => t,
                    FV::K(k) => Self::rk(k),
                    _ => unreachable!(),
                };
                let (p, q) = (t(x), t(y));
                match m & 7 {
                    0 => c.ff,
                    1 => c.rcmp(RRel::Lt, p, q),
                    2 => c.rcmp(RRel::Eq, p, q),
                    3 => c.rcmp(RRel::Le, p, q),
                    4 => c.rcmp(RRel::Lt, q, p),
                    5 => {
                        let e = c.rcmp(RRel::Eq, p, q);
                        c.not(e)
                    }
                    6 => c.rcmp(RRel::Le, q, p),
                    _ => c.tt,
                }
            }
        })
    }
    pub fn fneg(&mut self, w: u16, a: &Val) -> R<Val> {
        Ok(match self.fv(a, w)? {
            FV::K(_) => {
                let Val::C(x) = a else { unreachable!() };
                Val::C(x ^ (1u128 << (w - 1)))
            }
            FV::R(t) => Self::rv(cx().rneg(t)),
            FV::B(t) => {
                let c = cx();
                let k = c.c(w, 1u128 << (w - 1));
                nv(c.bv(BvOp::Xor, t, k))
            }
        })
    }
    pub fn fabs(&mut self, st: &mut State, w: u16, a: &Val) -> R<Val> {
        Ok(match self.fv(a, w)? {
            FV::K(_) => {
                let Val::C(x) = a else { unreachable!() };
                Val::C(x & !(1u128 << (w - 1)) & mask(w))
            }
            FV::R(t) => {
                if self.rlt(st, t, Self::rk(0.0))? {
                    Self::rv(cx().rneg(t))
                } else {
                    Val::T(t)
                }
            }
            FV::B(t) => {
                let c = cx();
                let k = c.c(w, mask(w - 1));
                nv(c.bv(BvOp::And, t, k))
            }
        })
    }
    pub fn rsqrt(&mut self, st: &mut State, t: T) -> R<Val> {
        let z = Self::rk(0.0);
        if self.rlt(st, t, z)? {
            return Ok(Self::kval(f64::NAN));
        }
        match cx().rsqrt(t) {
            Ok(q) => {
                if self.rlt(st, q, z)? {
                    Ok(Self::rv(cx().rneg(q)))
                } else {
                    Ok(Self::rv(q))
                }
            }
            Err(a) => Ok(Val::T(a)),
        }
    }
    pub fn fsqrt(&mut self, st: &mut State, w: u16, a: &Val) -> R<Val> {
        Ok(match self.fv(a, w)? {
            FV::K(_) => {
                let Val::C(x) = a else { unreachable!() };
                Val::C(fun_c(FUn::Sqrt, w, *x))
            }
            FV::R(t) => self.rsqrt(st, t)?,
            FV::B(t) => nv(cx().fun(FUn::Sqrt, t)),
        })
    }
    pub fn atan2(&mut self, st: &mut State, y: &Val, x: &Val) -> R<Val> {
        let (fy, fx) = (self.fv(y, 64)?, self.fv(x, 64)?);
        use std::f64::consts::PI;
        let t = |v: &FV| -> Option<T> {
            match v {
                FV::R(t) => Some(*t),
                FV::K(k) if k.is_finite() => Some(Self::rk(*k)),
                _ => None,
            }
        };
        if let (FV::K(a), FV::K(b)) = (&fy, &fx) {
            return Ok(Self::kval(a.atan2(*b)));
        }
        // infinities
        if let FV::K(k) = fy {
            if k.is_nan() {
                return Ok(Self::kval(k));
            }
            if k.is_infinite() {
                return Ok(Self::kval((PI / 2.0).copysign(k)));
            }
        }
        if let FV::K(k) = fx {
            if k.is_nan() {
                return Ok(Self::kval(k));
            }
        }
        let (ty, tx) = match (t(&fy), t(&fx)) {
            (Some(a), Some(b)) => (a, b),
            _ => return unsup("atan2 operands"),
        };
        let c = cx();
        for i in 0..c.trig.len() {
            for k in [1, 2, -1, -2] {
                let (cp, sp) = c.trig_multiple(i, k);
                let (py, px) = (c.poly(ty), c.poly(tx));
                let cross = c.pmul(&py, &cp).sub(&c.pmul(&px, &sp));
                if !c.reduce(cross).is_zero() {
                    continue;
                }
                let dot = c.pmul(&py, &sp).add(&c.pmul(&px, &cp));
                let dt = c.rt(c.reduce(dot));
                let s = self.rsign(st, dt)?;
                if s == 0 {
                    return Ok(Self::kval(0.0));
                }
                // angle = k*phi (+pi when s<0), wrapped to (-pi, pi]
                let phi = c.trig[i].phi;
                let kk = Self::rk(k as f64);
                let mut ang = c.rmul(phi, kk);
                let pi = Self::rk(PI);
                if s < 0 {
                    ang = c.radd(ang, pi);
                }
                // range of ang: k=±1: (-pi/2, pi/2]; ±2: (-pi, pi]; shifted by pi when s<0
                for _ in 0..2 {
                    if self.rlt(st, pi, ang)? {
                        let two = Self::rk(2.0 * PI);
                        ang = c.rsub(ang, two);
                    } else {
                        break;
                    }
                }
                let npi = Self::rk(-PI);
                let le = c.rcmp(RRel::Le, ang, npi);
                if self.decide(st, le)? {
                    let two = Self::rk(2.0 * PI);
                    ang = c.radd(ang, two);
                }
                return Ok(Self::rv(ang));
            }
        }
        let sy = self.rsign(st, ty)?;
        if sy == 0 {
            let neg = self.rlt(st, tx, Self::rk(0.0))?;
            return Ok(Self::kval(if neg { PI } else { 0.0 }));
        }
        Ok(Val::T(c.rfun(RFn::Atan2, ty, tx)))
    }
    pub fn powi(&mut self, st: &mut State, w: u16, a: &Val, n: i32) -> R<Val> {
        match self.fv(a, w)? {
            FV::K(k) => Ok(Val::C(Self::kbits(if w == 64 { k.powi(n) } else { (k as f32).powi(n) as f64 }, w))),
            FV::R(_) => {
                let mut r = Val::C(Self::kbits(1.0, w));
                for _ in 0..n.unsigned_abs() {
                    r = self.fop(st, FOp::Mul, w, &r, a)?;
                }
                if n < 0 {
                    r = self.fop(st, FOp::Div, w, &Val::C(Self::kbits(1.0, w)), &r)?;
                }
                Ok(r)
            }
            FV::B(t) => match n {
                2 => Ok(nv(cx().fbin(FOp::Mul, t, t))),
                1 => Ok(a.clone()),
                _ => unsup("powi"),
            },
        }
    }

    // ---------------------------------------------------------------- integer instructions
    pub fn ibin(&mut self, st: &mut State, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(_, e) = ty {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(self.ibin(st, op, e, &x[i], &y[i])?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
        }
        let w = ty.width();
        use BinOp::*;
        let f = match op {
            FAdd => Some(FOp::Add),
            FSub => Some(FOp::Sub),
            FMul => Some(FOp::Mul),
            FDiv => Some(FOp::Div),
            _ => None,
        };
        if let Some(f) = f {
            return self.fop(st, f, w, a, b);
        }
        if op == FRem {
            return self.frem(st, w, a, b);
        }
        let o = match op {
            Add => BvOp::Add,
            Sub => BvOp::Sub,
            Mul => BvOp::Mul,
            UDiv => BvOp::UDiv,
            SDiv => BvOp::SDiv,
            URem => BvOp::URem,
            SRem => BvOp::SRem,
            Shl => BvOp::Shl,
            LShr => BvOp::LShr,
            AShr => BvOp::AShr,
            And => BvOp::And,
            Or => BvOp::Or,
            Xor => BvOp::Xor,
            _ => unreachable!(),
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return match bvop_c(o, w, *x, *y) {
                Some(v) => Ok(Val::C(v)),
                None => unsup("division by zero in IR"),
            };
        }
        let c = cx();
        if w == 1 {
            let (x, y) = (boolean(a)?, boolean(b)?);
            return Ok(nv(match o {
                BvOp::And | BvOp::Mul => c.and(x, y),
                BvOp::Or => c.or(x, y),
                BvOp::Xor | BvOp::Add | BvOp::Sub => c.xor_b(x, y),
                _ => return unsup("i1 op"),
            }));
        }
        if let Some(r) = is_real(a) {
            // bit tricks on the representation of a double
            if let Val::C(k) = b {
                let k = *k;
                match o {
                    BvOp::And if k == mask(63) => return self.fabs(st, 64, a),
                    BvOp::And if k == 1u128 << 63 => {
                        let n = self.rlt(st, r, Self::rk(0.0))?;
                        return Ok(Val::C(if n { k } else { 0 }));
                    }
                    BvOp::Xor if k == 1u128 << 63 => return self.fneg(64, a),
                    BvOp::Xor if k == 0 => return Ok(a.clone()),
                    BvOp::AShr if k == 63 => {
                        let n = self.rlt(st, r, Self::rk(0.0))?;
                        return Ok(Val::C(if n { mask(64) } else { 0 }));
                    }
                    BvOp::LShr if k == 63 => {
                        let n = self.rlt(st, r, Self::rk(0.0))?;
                        return Ok(Val::C(n as u128));
                    }
                    _ => {}
                }
            }
            return unsup(format!("bit operation {:?} on a real value", o));
        }
        let (x, y) = (bt(a, w)?, bt(b, w)?);
        Ok(nv(c.bv(o, x, y)))
    }
    fn frem(&mut self, st: &mut State, w: u16, a: &Val, b: &Val) -> R<Val> {
        match (self.fv(a, w)?, self.fv(b, w)?) {
            (FV::K(x), FV::K(y)) => Ok(Val::C(Self::kbits(x % y, w))),
            (FV::R(p), FV::K(k)) if k.is_finite() && k != 0.0 => {
                // p - trunc(p/k)*k, quotient bounded by +-8
                let k = k.abs();
                let c = cx();
                let neg = self.rlt(st, p, Self::rk(0.0))?;
                let mut q = if neg { c.rneg(p) } else { p };
                let kt = Self::rk(k);
                for _ in 0..9 {
                    if self.rlt(st, q, kt)? {
                        let r = if neg { c.rneg(q) } else { q };
                        return Ok(Self::rv(r));
                    }
                    q = c.rsub(q, kt);
                }
                unsup("remainder quotient beyond bound")
            }
            _ => unsup("frem"),
        }
    }
    /// integer part functions on bounded reals: floor/ceil/trunc/round
    pub fn rround(&mut self, st: &mut State, f: FUn, a: &Val, w: u16) -> R<Val> {
        match self.fv(a, w)? {
            FV::K(_) => {
                let Val::C(x) = a else { unreachable!() };
                Ok(Val::C(fun_c(f, w, *x)))
            }
            FV::B(t) => Ok(nv(cx().fun(f, t))),
            FV::R(p) => {
                let c = cx();
                if let (Some((x, den)), FUn::Floor | FUn::Trunc) = (c.int_frac(p), f) {
                    let (lo, hi) = c.irange(x);
                    if lo >= 0 && hi > 16 * den as i128 && hi < 1 << 62 {
                        let y = c.extract(63, 0, x);
                        let d = c.c(64, den);
                        let q = if den == 1 { y } else { c.bv(BvOp::SDiv, y, d) };
                        return Ok(if let Some(k) = c.as_c(q) { Val::C(Self::kbits(k as f64, w)) } else { Val::T(c.mk(N::RFromInt(true, q), Sort::Real)) });
                    }
                }
                // fork over the integer values within +-16
                let c = cx();
                let half = Self::rk(0.5);
                for n in 0..=16i32 {
                    for s in [1i32, -1] {
                        if n == 0 && s < 0 {
                            continue;
                        }
                        let k = n * s;
                        let kt = Self::rk(k as f64);
                        let k1 = Self::rk(k as f64 + 1.0);
                        let km = Self::rk(k as f64 - 1.0);
                        let lo;
                        let hi;
                        match f {
                            FUn::Floor => {
                                lo = c.rcmp(RRel::Le, kt, p);
                                hi = c.rcmp(RRel::Lt, p, k1);
                            }
                            FUn::Ceil => {
                                lo = c.rcmp(RRel::Lt, km, p);
                                hi = c.rcmp(RRel::Le, p, kt);
                            }
                            FUn::Trunc => {
                                if k == 0 {
                                    lo = c.rcmp(RRel::Lt, km, p);
                                    hi = c.rcmp(RRel::Lt, p, k1);
                                } else if k > 0 {
                                    lo = c.rcmp(RRel::Le, kt, p);
                                    hi = c.rcmp(RRel::Lt, p, k1);
                                } else {
                                    lo = c.rcmp(RRel::Lt, km, p);
                                    hi = c.rcmp(RRel::Le, p, kt);
                                }
                            }
                            _ => {
                                let a1 = c.rsub(kt, half);
                                let b1 = c.radd(kt, half);
                                if k == 0 {
                                    lo = c.rcmp(RRel::Lt, a1, p);
                                    hi = c.rcmp(RRel::Lt, p, b1);
                                } else if k > 0 {
                                    lo = c.rcmp(RRel::Le, a1, p);
                                    hi = c.rcmp(RRel::Lt, p, b1);
                                } else {
                                    lo = c.rcmp(RRel::Lt, a1, p);
                                    hi = c.rcmp(RRel::Le, p, b1);
                                }
                            }
                        }
                        let both = c.and(lo, hi);
                        if self.decide(st, both)? {
                            return Ok(Val::C(Self::kbits(k as f64, w)));
                        }
                    }
                }
                unsup("rounding of a real outside +-16")
            }
        }
    }
    pub fn icmp(&mut self, st: &mut State, p: IP, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(_, e) = ty {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(self.icmp(st, p, e, &x[i], &y[i])?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
        }
        let w = ty.width();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return Ok(Val::C(match p {
                IP::Eq => x == y,
                IP::Ne => x != y,
                IP::Ult => x < y,
                IP::Ule => x <= y,
                IP::Ugt => x > y,
                IP::Uge => x >= y,
                IP::Slt => sx < sy,
                IP::Sle => sx <= sy,
                IP::Sgt => sx > sy,
                IP::Sge => sx >= sy,
            } as u128));
        }
        let c = cx();
        if is_real(a).is_some() || is_real(b).is_some() {
            // bits of doubles compared: sign test, or total order used by sorting
            let z = Val::C(0);
            if let (Some(r), Val::C(0)) = (is_real(a), b) {
                let lt = c.rcmp(RRel::Lt, r, Self::rk(0.0));
                match p {
                    IP::Slt => return Ok(nv(lt)),
                    IP::Sge => return Ok(nv(c.not(lt))),
                    IP::Sgt => return Ok(nv(c.rcmp(RRel::Lt, Self::rk(0.0), r))),
                    _ => {}
                }
            }
            let _ = z;
            match p {
                IP::Eq => return Ok(nv(self.fcmp(2, 64, a, b)?)),
                IP::Ne => return Ok(nv(self.fcmp(13, 64, a, b)?)),
                _ => {}
            }
            let _ = st;
            return unsup("integer comparison of real bits");
        }
        if w == 1 {
            let (x, y) = (boolean(a)?, boolean(b)?);
            let (nx, ny) = (c.not(x), c.not(y));
            return Ok(nv(match p {
                IP::Eq => c.iff(x, y),
                IP::Ne => c.xor_b(x, y),
                IP::Ult | IP::Sgt => c.and(nx, y),
                IP::Ugt | IP::Slt => c.and(x, ny),
                IP::Ule | IP::Sge => c.or(nx, y),
                IP::Uge | IP::Sle => c.or(x, ny),
            }));
        }
        let (x, y) = (bt(a, w)?, bt(b, w)?);
        Ok(nv(match p {
            IP::Eq => c.eq(x, y),
            IP::Ne => {
                let e = c.eq(x, y);
                c.not(e)
            }
            IP::Ult => c.ult(x, y),
            IP::Ugt => c.ult(y, x),
            IP::Ule => {
                let e = c.ult(y, x);
                c.not(e)
            }
            IP::Uge => {
                let e = c.ult(x, y);
                c.not(e)
            }
            IP::Slt => c.slt(x, y),
            IP::Sgt => c.slt(y, x),
            IP::Sle => {
                let e = c.slt(y, x);
                c.not(e)
            }
            IP::Sge => {
                let e = c.slt(x, y);
                c.not(e)
            }
        }))
    }
    fn flat(&self, ty: &Ty, v: &Val) -> R<Val> {
        match (ty, v) {
            (Ty::Vec(_, e), Val::A(a)) => {
                let ew = e.width();
                if a.iter().all(|x| matches!(x, Val::C(_))) {
                    let mut r = 0u128;
                    if a.len() as u32 * ew as u32 > 128 {
                        return unsup("bitcast over 128 bits");
                    }
                    for (i, x) in a.iter().enumerate() {
                        if let Val::C(x) = x {
                            r |= (*x & mask(ew)) << (i as u32 * ew as u32);
                        }
                    }
                    return Ok(Val::C(r));
                }
                let c = cx();
                let mut acc: Option<T> = None;
                for x in a.iter() {
                    let mut t = bt(x, ew)?;
                    if c.sort(t) == Sort::Bool {
                        let (p, q) = (c.c(1, 1), c.c(1, 0));
                        t = c.mk(N::Ite(t, p, q), Sort::BV(1));
                    }
                    acc = Some(match acc {
                        None => t,
                        Some(l) => c.concat(t, l),
                    });
                }
                Ok(nv(acc.unwrap()))
            }
            (_, v) => Ok(v.clone()),
        }
    }
    fn unflat(&self, ty: &Ty, v: Val) -> R<Val> {
        match ty {
            Ty::Vec(n, e) => {
                let ew = e.width();
                let mut out = vec![];
                for i in 0..*n as u16 {
                    out.push(match &v {
                        Val::C(x) => Val::C((*x >> (i as u32 * ew as u32)) & mask(ew)),
                        Val::T(t) => {
                            if *n == 1 {
                                v.clone()
                            } else if cx().sort(*t) == Sort::Real {
                                return unsup("bitcast of real to vector");
                            } else {
                                nv(cx().extract((i + 1) * ew - 1, i * ew, *t))
                            }
                        }
                        _ => return unsup("unflat"),
                    });
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => Ok(v),
        }
    }
    pub fn cast(&mut self, st: &mut State, op: CastOp, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if op == CastOp::BitCast {
            if let (Ty::Vec(n, e), Ty::Vec(m, g)) = (from, to) {
                if n == m && e.bits() == g.bits() {
                    return Ok(v.clone());
                }
            }
            let f = self.flat(from, v)?;
            return self.unflat(to, f);
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te), Val::A(a)) = (from, to, v) {
            let mut o = vec![];
            for x in a.iter() {
                o.push(self.cast(st, op, fe, te, x)?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let (fw, tw) = (from.width(), to.width());
        let c = cx();
        Ok(match op {
            CastOp::PtrInt | CastOp::BitCast => {
                if fw == tw {
                    v.clone()
                } else {
                    match v {
                        Val::C(x) => Val::C(*x & mask(tw)),
                        _ => return unsup("ptr cast"),
                    }
                }
            }
            CastOp::Trunc => match v {
                Val::C(x) => Val::C(*x & mask(tw)),
                v => {
                    if is_real(v).is_some() {
                        return unsup("truncation of real bits");
                    }
                    nv(c.extract(tw - 1, 0, bt(v, fw)?))
                }
            },
            CastOp::ZExt => match v {
                Val::C(x) => Val::C(*x),
                v => {
                    let t = bt(v, fw)?;
                    nv(if c.sort(t) == Sort::Bool {
                        let (p, q) = (c.c(tw, 1), c.c(tw, 0));
                        c.ite(t, p, q)
                    } else {
                        c.zext(tw, t)
                    })
                }
            },
            CastOp::SExt => match v {
                Val::C(x) => Val::C(sext(*x, fw) as u128 & mask(tw)),
                v => {
                    let t = bt(v, fw)?;
                    nv(if c.sort(t) == Sort::Bool {
                        let (p, q) = (c.c(tw, mask(tw)), c.c(tw, 0));
                        c.ite(t, p, q)
                    } else {
                        c.sext(tw, t)
                    })
                }
            },
            CastOp::FpTrunc | CastOp::FpExt => match self.fv(v, fw)? {
                FV::K(k) => Val::C(Self::kbits(k, tw)),
                FV::R(_) => v.clone(),
                FV::B(t) => nv(c.mk(N::FCvt(t), Sort::BV(tw))),
            },
            CastOp::UiToFp | CastOp::SiToFp => match v {
                Val::C(x) => {
                    let f = if op == CastOp::SiToFp {
                        let s = sext(*x, fw);
                        if tw == 64 {
                            (s as f64).to_bits() as u128
                        } else {
                            (s as f32).to_bits() as u128
                        }
                    } else if tw == 64 {
                        (*x as f64).to_bits() as u128
                    } else {
                        (*x as f32).to_bits() as u128
                    };
                    Val::C(f)
                }
                v => {
                    let t = bt(v, fw)?;
                    let t = if c.sort(t) == Sort::Bool {
                        let (p, q) = (c.c(8, 1), c.c(8, 0));
                        c.ite(t, p, q)
                    } else {
                        t
                    };
                    if self.real_mode {
                        Val::T(c.mk(N::RFromInt(op == CastOp::SiToFp, t), Sort::Real))
                    } else if op == CastOp::SiToFp {
                        nv(c.mk(N::FFromS(t), Sort::BV(tw)))
                    } else {
                        nv(c.mk(N::FFromU(t), Sort::BV(tw)))
                    }
                }
            },
            CastOp::FpToUi | CastOp::FpToSi => return self.fp_to_int(st, v, fw, tw, op == CastOp::FpToSi),
        })
    }
    /// saturating conversion (Rust `as`)
    pub fn fp_to_int(&mut self, st: &mut State, v: &Val, fw: u16, tw: u16, signed: bool) -> R<Val> {
        match self.fv(v, fw)? {
            FV::K(k) => {
                let (lo, hi) = if signed { (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1) } else { (0, mask(tw) as i128) };
                let x = if k.is_nan() {
                    0
                } else if tw > 64 {
                    return unsup("wide float to int");
                } else {
                    (k as i128).clamp(lo, hi)
                };
                Ok(Val::C(x as u128 & mask(tw)))
            }
            FV::B(t) => {
                let c = cx();
                // an integer that a double holds exactly comes back as it was
                if let (N::FFromS(x) | N::FFromU(x), true) = (c.n(t).clone(), fw == 64) {
                    let s = matches!(c.n(t), N::FFromS(_));
                    let wx = c.width(x);
                    let (mut l, mut h) = c.irange(x);
                    if !s && l < 0 {
                        (l, h) = (0, mask(wx) as i128);
                    }
                    let lim = 1i128 << 53;
                    let fits = if signed { l >= -(1i128 << (tw - 1)) && h < 1i128 << (tw - 1) } else { l >= 0 && h <= mask(tw) as i128 };
                    if l >= -lim && h <= lim && fits && tw <= 64 {
                        return Ok(nv(if wx >= tw {
                            c.extract(tw - 1, 0, x)
                        } else if s {
                            c.sext(tw, x)
                        } else {
                            c.zext(tw, x)
                        }));
                    }
                }
                let (lo, hi): (f64, f64) = if signed { (-((1u128 << (tw - 1)) as f64), (1u128 << (tw - 1)) as f64) } else { (0.0, (1u128 << tw) as f64) };
                let kb = |k: f64| Self::kbits(k, fw);
                let (lot, hit) = (c.c(fw, kb(lo)), c.c(fw, kb(hi)));
                let nan = c.fnan(t);
                if self.decide(st, nan)? {
                    return Ok(Val::C(0));
                }
                let ge = c.frel(FRel::Le, hit, t);
                if self.decide(st, ge)? {
                    return Ok(Val::C(if signed { mask(tw - 1) } else { mask(tw) }));
                }
                let lt = c.frel(FRel::Lt, t, lot);
                if self.decide(st, lt)? {
                    return Ok(Val::C(if signed { 1u128 << (tw - 1) } else { 0 }));
                }
                Ok(nv(c.mk(if signed { N::FToS(t) } else { N::FToU(t) }, Sort::BV(tw))))
            }
            FV::R(rt) => {
                let c = cx();
                let mut p = c.poly(rt);
                let mut den = 1u128;
                for (_, k) in &p.0 {
                    if let Int::S(d) = &k.d {
                        if *d > 1 && *d <= 1_000_000 && den <= 1_000_000 {
                            den = den / gcd_u128(den, *d as u128) * *d as u128;
                        }
                    }
                }
                if den > 1 {
                    p = p.scale(&Rat::int(den as i128));
                }
                if let (Some(x), true) = (c.int_bv(&p), fw == 64 && tw <= 64) {
                    let x = if den == 1 {
                        x
                    } else {
                        let (lo, hi) = c.irange(x);
                        if lo < -(1i128 << 62) || hi >= 1i128 << 62 {
                            return unsup("fraction with a large numerator as an integer");
                        }
                        let (y, d) = (c.extract(63, 0, x), c.c(64, den));
                        let q = c.bv(BvOp::SDiv, y, d);
                        c.sext(96, q)
                    };
                    // exact below 2^53
                    let lim = c.c(96, 1 << 53);
                    let nlim = c.c(96, (-(1i128 << 53)) as u128 & mask(96));
                    let (hi, lo) = (c.slt(lim, x), c.slt(x, nlim));
                    let out = c.or(hi, lo);
                    if self.decide(st, out)? {
                        return unsup("integer beyond 2^53 as a float");
                    }
                    let c = cx();
                    let (mn, mx) = if signed { (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1) } else { (0, mask(tw) as i128) };
                    let (mnt, mxt) = (c.c(96, mn as u128 & mask(96)), c.c(96, mx as u128 & mask(96)));
                    let (l, h) = (c.slt(x, mnt), c.slt(mxt, x));
                    if self.decide(st, l)? {
                        return Ok(Val::C(mn as u128 & mask(tw)));
                    }
                    if self.decide(st, h)? {
                        return Ok(Val::C(mx as u128 & mask(tw)));
                    }
                    return Ok(nv(cx().extract(tw - 1, 0, x)));
                }
                let r = self.rround(st, FUn::Trunc, v, fw)?;
                self.fp_to_int(st, &r, fw, tw, signed)
            }
        }
    }
    pub fn select(&mut self, st: &mut State, k: &Val, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        if let Val::A(ks) = k {
            if let (Val::A(x), Val::A(y), Ty::Vec(_, e)) = (a, b, ty) {
                let mut o = vec![];
                for i in 0..ks.len() {
                    o.push(self.select(st, &ks[i], &x[i], &y[i], e)?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        if let Val::C(x) = k {
            return Ok(if *x & 1 != 0 { a.clone() } else { b.clone() });
        }
        if a == b {
            return Ok(a.clone());
        }
        let c = boolean(k)?;
        if let Some(kb) = self.known(st, c) {
            return Ok(if kb { a.clone() } else { b.clone() });
        }
        let fork = match ty {
            Ty::Ptr => true,
            Ty::I(_) => is_real(a).is_some() || is_real(b).is_some(),
            Ty::F32 | Ty::F64 => self.real_mode || is_real(a).is_some() || is_real(b).is_some(),
            _ => true,
        };
        if fork {
            return Ok(if self.decide(st, c)? { a.clone() } else { b.clone() });
        }
        let w = ty.width();
        let (x, y) = (bt(a, w)?, bt(b, w)?);
        Ok(nv(cx().ite(c, x, y)))
    }

    // ---------------------------------------------------------------- main loop
    pub fn opd(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(i) => fr.regs[*i as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    pub fn push_call(&mut self, st: &mut State, f: &Rc<Func>, args: &[Val], dst: u32, to: Option<u32>) -> R<()> {
        if st.frames.len() > 2000 {
            return unsup("call depth");
        }
        let mut regs = Vec::with_capacity(f.nregs);
        regs.extend_from_slice(args);
        regs.resize(f.nregs, Val::C(0));
        let fr = Frame { f: &**f as *const Func, regs, block: 0, ip: 0, mem: Obj { b: vec![0; f.frame as usize], sym: BTreeMap::new(), freed: false }, ret_dst: dst, ret_to: to };
        st.frames.push(Rc::new(fr));
        if self.fns_seen.insert(f.id) {}
        Ok(())
    }
    fn jump(st: &mut State, to: u32) {
        let fr = st.top();
        let f = unsafe { &*fr.f };
        let from = fr.block;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = Self::opd(fr, o);
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, inc)| Self::opd(fr, &inc.iter().find(|x| x.0 == from).expect("phi").1)).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = to;
        fr.ip = 0;
    }
    /// finish a call instruction with a value
    pub fn finish(st: &mut State, dst: u32, v: Option<Val>, to: Option<u32>) {
        let fr = st.top();
        if dst != u32::MAX {
            fr.regs[dst as usize] = v.unwrap_or(Val::C(0));
        }
        match to {
            None => fr.ip += 1,
            Some(l) => Self::jump(st, l),
        }
    }
    fn addr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x as u64),
            v => {
                if is_real(v).is_some() {
                    return unsup("real value used as address");
                }
                Ok(self.concretise(st, v, 64)? as u64)
            }
        }
    }
    /// load at an address that depends on one variable of at most 8 bits (a table lookup): a case distinction over
    /// its values instead of a fork per value
    fn table_load(&mut self, st: &mut State, ty: &Ty, p: &Val) -> Option<Val> {
        let Val::T(t) = p else { return None };
        let w = match ty {
            Ty::I(w) if *w == 1 || (*w % 8 == 0 && *w <= 64) => *w,
            _ => return None,
        };
        if is_real(p).is_some() {
            return None;
        }
        let vs = self.smt.vars_of(*t);
        if vs.len() != 1 {
            return None;
        }
        let x = *vs.iter().next().unwrap();
        let xs = cx().vars[x as usize].sort;
        let Sort::BV(xw) = xs else { return None };
        let xt = cx().mk(crate::term::N::Var(x), xs);
        if xw > 8 {
            return None;
        }
        let mut only = vec![];
        for q in st.pc.iter() {
            let v = self.smt.vars_of(*q);
            if v.len() == 1 && v.contains(&x) {
                only.push(*q);
            }
        }
        let mut vals: Vec<(u128, Val)> = vec![];
        'v: for v in 0..(1u128 << xw) {
            let mut m = Model::new();
            m.insert(x, MV::I(v));
            let mut memo = HashMap::new();
            for q in &only {
                if eval(*q, &m, &mut memo, false).bool() == Some(false) {
                    continue 'v;
                }
            }
            let EV::I(a) = eval(*t, &m, &mut memo, false) else { return None };
            match self.load(st, ty, a as u64) {
                Ok(l) => vals.push((v, l)),
                Err(_) => return None,
            }
        }
        // runs of equal values; the most frequent value is the default
        let mut runs: Vec<(u128, u128, Val)> = vec![];
        for (v, l) in vals {
            if is_real(&l).is_some() {
                return None;
            }
            match (runs.last_mut(), &l) {
                (Some(r), _) if same(&r.2, &l) => r.1 = v,
                _ => runs.push((v, v, l)),
            }
        }
        let mut best = 0;
        let mut n = 0;
        for i in 0..runs.len() {
            let k = runs.iter().filter(|r| same(&r.2, &runs[i].2)).count();
            if k > n {
                n = k;
                best = i;
            }
        }
        if runs.is_empty() {
            return None;
        }
        let d = runs[best].2.clone();
        let c = cx();
        let mut r = if w == 1 { boolean(&d).ok()? } else { bt(&d, w).ok()? };
        for (lo, hi, l) in &runs {
            if same(l, &d) {
                continue;
            }
            let (a, b) = (c.c(xw, *lo), c.c(xw, *hi));
            let g = if lo == hi {
                c.eq(xt, a)
            } else {
                let (p, q) = (c.ult(xt, a), c.ult(b, xt));
                let (p, q) = (c.not(p), c.not(q));
                c.and(p, q)
            };
            let l = if w == 1 { boolean(l).ok()? } else { bt(l, w).ok()? };
            r = c.ite(g, l, r);
        }
        Some(nv(r))
    }
    pub fn step(&mut self, st: &mut State) -> R<()> {
        let fr: &Frame = st.topr();
        let f = unsafe { &*fr.f };
        let inst = &f.blocks[fr.block as usize].insts[fr.ip as usize];
        let dst = inst.dst;
        macro_rules! o {
            ($x:expr) => {
                Self::opd(st.topr(), $x)
            };
        }
        let val = match &inst.op {
            Op::Alloca(off) => Val::C((((STACK_BASE + st.frames.len() as u64 - 1) << 32) + off) as u128),
            Op::AllocaDyn(sz, n) => {
                let v = o!(n);
                let n = self.concretise(st, &v, 64)? as u64;
                Val::C(self.alloc(st, sz * n) as u128)
            }
            Op::Load(ty, p) => {
                let p = o!(p);
                match self.table_load(st, ty, &p) {
                    Some(v) => v,
                    None => {
                        let a = self.addr(st, &p)?;
                        self.load(st, ty, a)?
                    }
                }
            }
            Op::Store(ty, v, p) => {
                let p = o!(p);
                let a = self.addr(st, &p)?;
                let v = o!(v);
                self.store(st, ty, a, &v)?;
                st.top().ip += 1;
                return Ok(());
            }
            Op::Gep(base, off, dy) => {
                let b = o!(base);
                let mut sym: Option<T> = None;
                let mut a = match &b {
                    Val::C(x) => *x as u64,
                    Val::T(t) => {
                        sym = Some(*t);
                        0
                    }
                    Val::A(_) => return unsup("vector gep"),
                };
                a = a.wrapping_add(*off as u64);
                for (o, w, s) in dy {
                    match o!(o) {
                        Val::C(x) => a = a.wrapping_add((sext(x, *w) as i64).wrapping_mul(*s) as u64),
                        v => {
                            let c = cx();
                            let mut t = bt(&v, *w)?;
                            if c.sort(t) == Sort::Bool {
                                return unsup("gep bool");
                            }
                            if *w < 64 {
                                t = c.sext(64, t);
                            }
                            let k = c.c(64, *s as u64 as u128);
                            let t = c.bv(BvOp::Mul, t, k);
                            sym = Some(match sym {
                                None => t,
                                Some(u) => c.bv(BvOp::Add, u, t),
                            });
                        }
                    }
                }
                match sym {
                    None => Val::C(a as u128),
                    Some(t) => {
                        let c = cx();
                        let k = c.c(64, a as u128);
                        nv(c.bv(BvOp::Add, t, k))
                    }
                }
            }
            Op::Bin(op, ty, a, b) => {
                let (a, b) = (o!(a), o!(b));
                self.ibin(st, *op, ty, &a, &b)?
            }
            Op::ICmp(p, ty, a, b) => {
                let (a, b) = (o!(a), o!(b));
                self.icmp(st, *p, ty, &a, &b)?
            }
            Op::FCmp(m, ty, a, b) => {
                let (a, b) = (o!(a), o!(b));
                if let (Ty::Vec(_, e), Val::A(x), Val::A(y)) = (&**ty, &a, &b) {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(nv(self.fcmp(*m, e.width(), &x[i], &y[i])?));
                    }
                    Val::A(Rc::new(v))
                } else {
                    nv(self.fcmp(*m, ty.width(), &a, &b)?)
                }
            }
            Op::Cast(op, from, to, v) => {
                let v = o!(v);
                self.cast(st, *op, from, to, &v)?
            }
            Op::Select(k, a, b, ty) => {
                let (k, a, b) = (o!(k), o!(a), o!(b));
                self.select(st, &k, &a, &b, ty)?
            }
            Op::ExtractValue(a, ix) => {
                let mut v = o!(a);
                for i in ix {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                v
            }
            Op::InsertValue(a, b, ix) => {
                let mut v = o!(a);
                let b = o!(b);
                fn ins(v: &mut Val, ix: &[u32], b: Val) {
                    if ix.is_empty() {
                        *v = b;
                        return;
                    }
                    if let Val::A(x) = v {
                        ins(&mut Rc::make_mut(x)[ix[0] as usize], &ix[1..], b)
                    }
                }
                ins(&mut v, ix, b);
                v
            }
            Op::ExtractElement(a, i) => {
                let (a, i) = (o!(a), o!(i));
                let i = self.concretise(st, &i, 64)?;
                match a {
                    Val::A(x) => x[i as usize].clone(),
                    _ => return unsup("extractelement"),
                }
            }
            Op::InsertElement(a, b, i) => {
                let (a, b, i) = (o!(a), o!(b), o!(i));
                let i = self.concretise(st, &i, 64)?;
                match a {
                    Val::A(mut x) => {
                        Rc::make_mut(&mut x)[i as usize] = b;
                        Val::A(x)
                    }
                    _ => return unsup("insertelement"),
                }
            }
            Op::Shuffle(a, b, m) => {
                let (a, b, m) = (o!(a), o!(b), o!(m));
                match (a, b, m) {
                    (Val::A(a), Val::A(b), Val::A(m)) => Val::A(Rc::new(
                        m.iter()
                            .map(|i| match i {
                                Val::C(i) => {
                                    let i = *i as usize;
                                    if i < a.len() {
                                        a[i].clone()
                                    } else {
                                        b.get(i - a.len()).cloned().unwrap_or(Val::C(0))
                                    }
                                }
                                _ => Val::C(0),
                            })
                            .collect(),
                    )),
                    _ => return unsup("shuffle"),
                }
            }
            Op::Call(callee, args, rt, normal) => {
                let vals: Vec<Val> = args.iter().map(|a| o!(&a.1)).collect();
                let id = match callee {
                    Callee::Direct(i) => *i,
                    Callee::Indirect(p) => {
                        let p = o!(p);
                        let a = self.addr(st, &p)? >> 32;
                        if !(FN_BASE..GLOB_BASE).contains(&a) {
                            return unsup(format!("indirect call to {:#x}", a));
                        }
                        (a - FN_BASE) as u32
                    }
                    Callee::Asm(s) => {
                        let v = crate::hooks::asm(self, s, &vals, rt)?;
                        Self::finish(st, dst, v, *normal);
                        return Ok(());
                    }
                };
                return self.call(st, id, args, &vals, rt, dst, *normal);
            }
            Op::Br(l) => {
                Self::jump(st, *l);
                return Ok(());
            }
            Op::CondBr(k, a, b) => {
                let k = o!(k);
                let t = match k {
                    Val::C(x) => x & 1 != 0,
                    k => {
                        let c = boolean(&k)?;
                        self.decide(st, c)?
                    }
                };
                Self::jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Op::Switch(w, v, d, cases) => {
                let v = o!(v);
                let to = match &v {
                    Val::C(x) => cases.iter().find(|c| c.0 & mask(*w) == *x).map_or(*d, |c| c.1),
                    v => {
                        let t = bt(v, *w)?;
                        let c = cx();
                        let mut to = *d;
                        for (k, l) in cases {
                            let kt = if *w == 1 { c.b(*k & 1 != 0) } else { c.c(*w, *k) };
                            let e = if *w == 1 { c.iff(t, kt) } else { c.eq(t, kt) };
                            if self.decide(st, e)? {
                                to = *l;
                                break;
                            }
                        }
                        to
                    }
                };
                Self::jump(st, to);
                return Ok(());
            }
            Op::Ret(v) => {
                let v = v.as_ref().map(|v| o!(v));
                let fr = st.frames.pop().unwrap();
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let (d, to) = (fr.ret_dst, fr.ret_to);
                drop(fr);
                Self::finish(st, d, v, to);
                return Ok(());
            }
            Op::Unreachable => return unsup("unreachable executed"),
            Op::Copy(x) => o!(x),
            Op::FNeg(ty, x) => {
                let v = o!(x);
                if let (Ty::Vec(_, e), Val::A(x)) = (&**ty, &v) {
                    let mut o = vec![];
                    for i in x.iter() {
                        o.push(self.fneg(e.width(), i)?);
                    }
                    Val::A(Rc::new(o))
                } else {
                    self.fneg(ty.width(), &v)?
                }
            }
            Op::Rmw(op, ty, p, v) => {
                let p = o!(p);
                let a = self.addr(st, &p)?;
                let v = o!(v);
                let old = self.load(st, ty, a)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.ibin(st, BinOp::Add, ty, &old, &v)?,
                    "sub" => self.ibin(st, BinOp::Sub, ty, &old, &v)?,
                    "and" => self.ibin(st, BinOp::And, ty, &old, &v)?,
                    "or" => self.ibin(st, BinOp::Or, ty, &old, &v)?,
                    "xor" => self.ibin(st, BinOp::Xor, ty, &old, &v)?,
                    "umax" => {
                        let k = self.icmp(st, IP::Ult, ty, &old, &v)?;
                        self.select(st, &k, &v, &old, ty)?
                    }
                    "umin" => {
                        let k = self.icmp(st, IP::Ult, ty, &old, &v)?;
                        self.select(st, &k, &old, &v, ty)?
                    }
                    o => return unsup(format!("atomicrmw {}", o)),
                };
                self.store(st, ty, a, &new)?;
                old
            }
            Op::CmpXchg(ty, p, c, n) => {
                let p = o!(p);
                let a = self.addr(st, &p)?;
                let (c, n) = (o!(c), o!(n));
                let old = self.load(st, ty, a)?;
                let k = self.icmp(st, IP::Eq, ty, &old, &c)?;
                let ok = match k {
                    Val::C(x) => x != 0,
                    k => {
                        let b = boolean(&k)?;
                        self.decide(st, b)?
                    }
                };
                if ok {
                    self.store(st, ty, a, &n)?;
                }
                Val::A(Rc::new(vec![old, Val::C(ok as u128)]))
            }
            Op::Fence => Val::C(0),
            Op::Unsupported(s) => return unsup(format!("instruction {}", s)),
        };
        let fr = st.top();
        if dst != u32::MAX {
            fr.regs[dst as usize] = val;
        }
        fr.ip += 1;
        Ok(())
    }
    fn call(&mut self, st: &mut State, id: u32, args: &[(TyR, Opd)], vals: &[Val], rt: &TyR, dst: u32, to: Option<u32>) -> R<()> {
        let kind = match self.kinds.get(&id) {
            Some(k) => k.clone(),
            None => {
                let k = crate::hooks::classify(self, id);
                self.kinds.insert(id, k.clone());
                k
            }
        };
        match kind {
            crate::hooks::Kind::Body => {
                let f = match self.m.func(id) {
                    Some(f) => f,
                    None => return unsup(format!("external function {}", self.m.fns[id as usize].name)),
                };
                self.push_call(st, &f, vals, dst, to)
            }
            crate::hooks::Kind::Text => {
                let f = match self.m.func(id) {
                    Some(f) => f,
                    None => return unsup(format!("external function {}", self.m.fns[id as usize].name)),
                };
                let mut vals = vals.to_vec();
                crate::hooks::marker(st, &mut vals[1]);
                self.push_call(st, &f, &vals, dst, to)
            }
            crate::hooks::Kind::Hook(h) => {
                let tys: Vec<TyR> = args.iter().map(|a| a.0.clone()).collect();
                let v = crate::hooks::run(self, st, h, id, &tys, vals, rt)?;
                Self::finish(st, dst, v, to);
                Ok(())
            }
        }
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(60).map(|f| crate::hooks::demangle(unsafe { &(*f.f).name })).collect()
    }

    pub fn initial(&mut self, harness: &str) -> Option<State> {
        let id = *self.m.fn_ix.get(harness)?;
        let f = self.m.func(id)?;
        let mut st = State {
            frames: vec![],
            heap: Heap::default(),
            globs: Rc::new(HashMap::new()),
            pc: vec![],
            obs: vec![],
            reach: vec![],
            files: Rc::new(vec![]),
            fds: vec![],
            expect_panic: false,
            depth: 0,
            fork_log: vec![],
            steps: 0,
            in_lib: 0,
            sentinels: Rc::new(vec![]),
        };
        let _ = self.push_call(&mut st, &f, &[], u32::MAX, None);
        Some(st)
    }
    pub fn run(&mut self, harness: &str) -> bool {
        let st = match self.initial(harness) {
            Some(s) => s,
            None => {
                self.inconclusive.push(format!("harness {} not found in the module", harness));
                return false;
            }
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.violations.len() >= self.max_viol {
                break;
            }
            if Instant::now() > self.deadline {
                self.inconclusive.push(format!("time limit with {} states queued", self.work.len() + 1));
                break;
            }
            if self.n_paths >= self.max_paths {
                self.inconclusive.push(format!("path limit {} with {} states queued", self.max_paths, self.work.len() + 1));
                break;
            }
            let r = self.run_path(&mut st);
            match r {
                Stop::Dead => self.n_pruned += 1,
                Stop::Done => {
                    self.n_paths += 1;
                    self.end(&st, None);
                }
                Stop::Panic(msg) => {
                    self.n_paths += 1;
                    if st.expect_panic {
                        self.end(&st, Some(msg));
                    } else {
                        let bt = self.backtrace(&st);
                        let pc = st.pc.clone();
                        match self.smt.full_model(&pc) {
                            Res::Sat(m) => self.violations.push(Violation { what: format!("panic: {}", msg), model: m, kind: 1, pc, goal: None, obs: st.obs.clone(), trace: bt }),
                            Res::Unsat => self.n_pruned += 1,
                            Res::Unknown => self.inconclusive.push(format!("panic of undecided feasibility: {}", msg)),
                        }
                    }
                }
                Stop::Unsup(s) => {
                    // infeasible paths do not matter
                    let pc = st.pc.clone();
                    match self.smt.full_model(&pc) {
                        Res::Unsat => self.n_pruned += 1,
                        _ => {
                            let bt = self.backtrace(&st);
                            let b: Vec<String> = bt.into_iter().take(7).collect();
                            if self.unsup_ends.len() < 6 && !st.expect_panic {
                                self.unsup_ends.push((s.clone(), pc));
                            }
                            if self.inconclusive.len() < 20 {
                                self.inconclusive.push(format!("unsupported: {} in {}", s, b.join(" <- ")));
                            }
                            self.n_paths += 1;
                            if self.inconclusive.len() >= 20 {
                                break;
                            }
                        }
                    }
                }
            }
        }
        true
    }
    fn end(&mut self, st: &State, panic: Option<String>) {
        for r in &st.reach {
            *self.reach.entry(*r).or_insert(0) += 1;
        }
        if self.ends.len() < self.keep_ends {
            self.ends.push(PathEnd { pc: st.pc.clone(), obs: st.obs.clone(), reach: st.reach.clone(), panic });
        } else {
            // reservoir-like replacement, deterministic
            let n = self.n_paths;
            if n % 7 == 0 {
                let k = (n / 7) as usize % self.keep_ends.max(1);
                if self.keep_ends > 0 {
                    self.ends[k] = PathEnd { pc: st.pc.clone(), obs: st.obs.clone(), reach: st.reach.clone(), panic };
                }
            }
        }
    }
    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut k = 0u32;
        loop {
            st.steps += 1;
            self.n_steps += 1;
            k += 1;
            if k & 0xffff == 0 {
                if Instant::now() > self.deadline {
                    return Stop::Unsup("time limit inside a path".into());
                }
                if st.steps > self.max_path_steps {
                    return Stop::Unsup("step limit (possible non-termination)".into());
                }
            }
            if self.trace_on {
                let fr = st.topr();
                let f = unsafe { &*fr.f };
                eprintln!("{}{} b{} i{} {:?}", " ".repeat(st.frames.len().min(40)), crate::hooks::demangle(&f.name), fr.block, fr.ip, f.blocks[fr.block as usize].insts[fr.ip as usize].op);
            }
            if let Err(e) = self.step(st) {
                return e;
            }
        }
    }
}

fn clear_sym(o: &mut Obj, off: usize, n: usize) {
    if o.sym.is_empty() {
        return;
    }
    let ks: Vec<u32> = o.sym.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
    for k in ks {
        o.sym.remove(&k);
    }
}

pub fn new_exec(m: Module, timeout_ms: u64, secs: u64) -> Exec {
    Exec {
        m,
        smt: Smt::new(timeout_ms),
        work: vec![],
        ginit: HashMap::new(),
        kinds: HashMap::new(),
        real_mode: true,
        vars: BTreeMap::new(),
        violations: vec![],
        ends: vec![],
        n_paths: 0,
        n_pruned: 0,
        n_forks: 0,
        n_steps: 0,
        n_asserts: 0,
        n_assert_const: 0,
        unknown_branch: 0,
        inconclusive: vec![],
        reach: BTreeMap::new(),
        obligations: BTreeMap::new(),
        fns_seen: BTreeSet::new(),
        deadline: Instant::now() + Duration::from_secs(secs),
        max_paths: 1_000_000,
        max_path_steps: 400_000_000,
        shard: (0, 1),
        choose_seen: HashSet::new(),
        keep_ends: 40,
        trace_on: std::env::var("LLSYM_TRACE").is_ok(),
        max_viol: 1,
        hash_seed: 0,
        no_model: 0,
        unsup_ends: vec![],
    }
}
#[allow(dead_code)]
pub fn rat_i(v: i128) -> Rat {
    Rat { n: Int::S(v), d: Int::S(1) }
}

fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::T(x), Val::T(y)) => x == y,
        _ => false,
    }
}

fn gcd_u128(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd_u128(b, a % b)
    }
}
