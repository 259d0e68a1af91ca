//! Lazy reader for textual LLVM IR (opaque pointers).
use crate::term::T;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u128),
    T(T),
    A(Rc<Vec<Val>>),
}

#[derive(Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u16),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    St(Vec<Rc<Ty>>, Vec<u64>, u64, u64), // fields, offsets, size, align
    Other(String),
}
pub type TyR = Rc<Ty>;
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void => 1,
            Ty::I(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits() / 8).next_power_of_two().max(1),
            Ty::St(_, _, _, a) => *a,
            Ty::Other(_) => 16,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::I(w) => *w as u64,
            _ => self.size() * 8,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::I(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let b = (n * t.bits() + 7) / 8;
                b.next_power_of_two()
            }
            Ty::St(_, _, s, _) => *s,
            Ty::Other(_) => 16,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn st(f: Vec<TyR>, packed: bool) -> Ty {
        let mut off = 0;
        let mut al = 1;
        let mut offs = vec![];
        for t in &f {
            let a = if packed { 1 } else { t.align() };
            off = (off + a - 1) / a * a;
            offs.push(off);
            off += t.size();
            al = al.max(a);
        }
        let size = (off + al - 1) / al * al;
        Ty::St(f, offs, size, al)
    }
    pub fn is_fp(&self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
    pub fn width(&self) -> u16 {
        match self {
            Ty::I(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            t => panic!("width of {:?}", t),
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = t.zero();
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::St(f, ..) => Val::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Asm(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IP {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    BitCast,
    PtrInt,
}

#[derive(Clone, Debug)]
pub enum Op {
    Alloca(u64),
    AllocaDyn(u64, Opd),
    Load(TyR, Opd),
    Store(TyR, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u16, i64)>),
    Bin(BinOp, TyR, Opd, Opd),
    ICmp(IP, TyR, Opd, Opd),
    FCmp(u8, TyR, Opd, Opd), // bits: 1 lt, 2 eq, 4 gt, 8 unordered
    Cast(CastOp, TyR, TyR, Opd),
    Select(Opd, Opd, Opd, TyR),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Opd),
    Call(Callee, Vec<(TyR, Opd)>, TyR, Option<u32>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Copy(Opd),
    FNeg(TyR, Opd),
    Rmw(String, TyR, Opd, Opd),
    CmpXchg(TyR, Opd, Opd, Opd),
    Fence,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub op: Op,
}
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nargs: usize,
    pub nregs: usize,
    pub frame: u64,
    pub ret: TyR,
    pub blocks: Vec<Block>,
}

pub struct FnInfo {
    pub name: String,
    pub body: Option<usize>, // offset of the define line
    pub parsed: Option<Rc<Func>>,
}
pub struct GlobInfo {
    pub name: String,
    pub line: usize,
}

pub const FN_BASE: u64 = 1 << 20; // object ids
pub const GLOB_BASE: u64 = 1 << 22;
pub const STACK_BASE: u64 = 1 << 24;
pub const HEAP_BASE: u64 = 1 << 26;

pub struct Module {
    src: &'static [u8],
    types: HashMap<String, usize>,
    type_memo: HashMap<String, TyR>,
    pub fns: Vec<FnInfo>,
    pub fn_ix: HashMap<String, u32>,
    pub globs: Vec<GlobInfo>,
    pub glob_ix: HashMap<String, u32>,
    aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    W(String),
    L(String),
    G(String),
    Num(String),
    Fl(String),
    Str(Vec<u8>),
    P(u8),
    Meta,
}

fn unq(b: &[u8]) -> String {
    // LLVM escapes \xx
    String::from_utf8_lossy(&unesc(b)).into_owned()
}
fn unesc(b: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if b[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
                continue;
            }
            let h = |c: u8| (c as char).to_digit(16);
            if let (Some(x), Some(y)) = (h(b[i + 1]), h(b[i + 2])) {
                r.push((x * 16 + y) as u8);
                i += 3;
                continue;
            }
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            r.push(b'\\');
            i += 2;
            continue;
        }
        r.push(b[i]);
        i += 1;
    }
    r
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(l: &[u8]) -> Vec<Tk> {
    let mut v = vec![];
    let mut i = 0;
    while i < l.len() {
        let c = l[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => {
                // comment to end of line
                while i < l.len() && l[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (name, n);
                if i + 1 < l.len() && l[i + 1] == b'"' {
                    let s = i + 2;
                    let mut e = s;
                    while l[e] != b'"' {
                        e += 1;
                    }
                    name = unq(&l[s..e]);
                    n = e + 1;
                } else {
                    let s = i + 1;
                    let mut e = s;
                    while e < l.len() && idc(l[e]) {
                        e += 1;
                    }
                    name = String::from_utf8_lossy(&l[s..e]).into_owned();
                    n = e;
                }
                v.push(if c == b'%' { Tk::L(name) } else { Tk::G(name) });
                i = n;
            }
            b'"' => {
                let s = i + 1;
                let mut e = s;
                while l[e] != b'"' {
                    e += 1;
                }
                v.push(Tk::Str(unesc(&l[s..e])));
                i = e + 1;
            }
            b'c' if i + 1 < l.len() && l[i + 1] == b'"' => {
                let s = i + 2;
                let mut e = s;
                while l[e] != b'"' {
                    e += 1;
                }
                v.push(Tk::Str(unesc(&l[s..e])));
                i = e + 1;
            }
            b'!' => {
                // metadata reference or inline node: skip identifier, or braces
                i += 1;
                if i < l.len() && l[i] == b'{' {
                    let mut d = 0;
                    while i < l.len() {
                        if l[i] == b'{' {
                            d += 1
                        } else if l[i] == b'}' {
                            d -= 1;
                            if d == 0 {
                                i += 1;
                                break;
                            }
                        }
                        i += 1;
                    }
                } else {
                    while i < l.len() && idc(l[i]) {
                        i += 1;
                    }
                    if i < l.len() && l[i] == b'(' {
                        let mut d = 0;
                        while i < l.len() {
                            if l[i] == b'(' {
                                d += 1
                            } else if l[i] == b')' {
                                d -= 1;
                                if d == 0 {
                                    i += 1;
                                    break;
                                }
                            }
                            i += 1;
                        }
                    }
                }
                v.push(Tk::Meta);
            }
            b'#' => {
                i += 1;
                while i < l.len() && idc(l[i]) {
                    i += 1;
                }
                v.push(Tk::Meta);
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let s = i;
                i += 1;
                let hex = c == b'0' && i < l.len() && l[i] == b'x';
                while i < l.len() && (l[i].is_ascii_alphanumeric() || l[i] == b'.' || ((l[i] == b'+' || l[i] == b'-') && (l[i - 1] == b'e' || l[i - 1] == b'E') && !hex)) {
                    i += 1;
                }
                let t = String::from_utf8_lossy(&l[s..i]).into_owned();
                if hex || t.contains('.') || t.contains('e') {
                    v.push(Tk::Fl(t))
                } else {
                    v.push(Tk::Num(t))
                }
            }
            b'.' if l[i..].starts_with(b"...") => {
                v.push(Tk::W("...".into()));
                i += 3;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let s = i;
                while i < l.len() && (idc(l[i])) {
                    i += 1;
                }
                let t = String::from_utf8_lossy(&l[s..i]).into_owned();
                if t.starts_with("f0x") {
                    v.push(Tk::Fl(t))
                } else {
                    v.push(Tk::W(t))
                }
            }
            _ => {
                v.push(Tk::P(c));
                i += 1;
            }
        }
    }
    v
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

struct Ps<'a> {
    t: Vec<Tk>,
    i: usize,
    m: &'a mut Module,
}

impl Module {
    pub fn open(path: &str) -> std::io::Result<Module> {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::open(path)?;
        let len = f.metadata()?.len() as usize;
        let src: &'static [u8] = unsafe {
            let p = mmap(std::ptr::null_mut(), len, 1, 2, f.as_raw_fd(), 0);
            std::slice::from_raw_parts(p, len)
        };
        let mut m = Module { src, types: HashMap::new(), type_memo: HashMap::new(), fns: vec![], fn_ix: HashMap::new(), globs: vec![], glob_ix: HashMap::new(), aliases: HashMap::new() };
        let mut i = 0;
        while i < len {
            let e = match src[i..].iter().position(|c| *c == b'\n') {
                Some(k) => i + k,
                None => len,
            };
            let l = &src[i..e];
            if !l.is_empty() {
                match l[0] {
                    b'd' if l.starts_with(b"define ") || l.starts_with(b"declare ") => {
                        if let Some(name) = gname(l) {
                            let def = l.starts_with(b"define ");
                            let id = m.fn_id(&name);
                            if def {
                                m.fns[id as usize].body = Some(i);
                            }
                        }
                        if l.starts_with(b"define ") {
                            // skip to closing brace
                            let mut j = e + 1;
                            loop {
                                let k = src[j..].iter().position(|c| *c == b'\n').map_or(len, |k| j + k);
                                if src[j..k].starts_with(b"}") {
                                    i = k + 1;
                                    break;
                                }
                                j = k + 1;
                                if j >= len {
                                    i = len;
                                    break;
                                }
                            }
                            continue;
                        }
                    }
                    b'@' => {
                        if let Some(name) = gname(l) {
                            let s = String::from_utf8_lossy(&l[..l.len().min(400)]);
                            if s.contains(" alias ") && !s.contains(" c\"") {
                                let full = lex(l);
                                if let Some(Tk::G(target)) = full.iter().skip(1).find(|t| matches!(t, Tk::G(_))) {
                                    m.aliases.insert(name, target.clone());
                                }
                            } else {
                                let id = m.globs.len() as u32;
                                m.globs.push(GlobInfo { name: name.clone(), line: i });
                                m.glob_ix.insert(name, id);
                            }
                        }
                    }
                    b'%' => {
                        let t = lex(&l[..l.len().min(600)]);
                        if let Tk::L(n) = &t[0] {
                            m.types.insert(n.clone(), i);
                        }
                    }
                    _ => {}
                }
            }
            i = e + 1;
        }
        Ok(m)
    }
    fn line(&self, off: usize) -> (&'static [u8], usize) {
        let e = self.src[off..].iter().position(|c| *c == b'\n').map_or(self.src.len(), |k| off + k);
        (&self.src[off..e], e + 1)
    }
    pub fn fn_id(&mut self, name: &str) -> u32 {
        if let Some(i) = self.fn_ix.get(name) {
            return *i;
        }
        let id = self.fns.len() as u32;
        self.fns.push(FnInfo { name: name.to_string(), body: None, parsed: None });
        self.fn_ix.insert(name.to_string(), id);
        id
    }
    pub fn addr_of(&mut self, name: &str) -> u64 {
        let mut name = name;
        let a;
        if let Some(t) = self.aliases.get(name) {
            a = t.clone();
            name = &a;
        }
        if let Some(g) = self.glob_ix.get(name) {
            return (GLOB_BASE + *g as u64) << 32;
        }
        let f = self.fn_id(name);
        (FN_BASE + f as u64) << 32
    }
    fn named_type(&mut self, n: &str) -> TyR {
        if let Some(t) = self.type_memo.get(n) {
            return t.clone();
        }
        let off = match self.types.get(n) {
            Some(o) => *o,
            None => return Rc::new(Ty::Other(n.to_string())),
        };
        let (l, _) = self.line(off);
        let t = lex(l);
        let mut p = Ps { t, i: 3, m: self };
        let ty = p.ty();
        self.type_memo.insert(n.to_string(), ty.clone());
        ty
    }
    /// (size, constant?) and initial bytes of a global
    pub fn global_init(&mut self, g: u32) -> Vec<u8> {
        let (l, _) = self.line(self.globs[g as usize].line);
        let t = lex(l);
        let ext = t.iter().take(8).any(|x| matches!(x, Tk::W(w) if w == "external" || w == "extern_weak"));
        let mut p = Ps { t, i: 2, m: self };
        loop {
            match p.peek() {
                Some(Tk::W(w)) if w == "global" || w == "constant" => {
                    p.i += 1;
                    break;
                }
                Some(Tk::P(b'(')) => p.skip_parens(),
                None => panic!("global"),
                _ => p.i += 1,
            }
        }
        let ty = p.ty();
        let mut buf = vec![0u8; ty.size() as usize];
        if !ext {
            p.write_const(&ty, &mut buf, 0);
        }
        buf
    }
    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.fns[id as usize].parsed {
            return Some(f.clone());
        }
        let mut id2 = id;
        if self.fns[id as usize].body.is_none() {
            if let Some(t) = self.aliases.get(&self.fns[id as usize].name).cloned() {
                id2 = self.fn_id(&t);
            }
        }
        let off = self.fns[id2 as usize].body?;
        let f = Rc::new(self.parse_fn(id2, off));
        self.fns[id as usize].parsed = Some(f.clone());
        Some(f)
    }
    fn parse_fn(&mut self, id: u32, off: usize) -> Func {
        let (l, mut pos) = self.line(off);
        let head = lex(l);
        let name = self.fns[id as usize].name.clone();
        let gi = head.iter().position(|t| matches!(t, Tk::G(_))).unwrap();
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nargs = 0;
        let mut p = Ps { t: head, i: 1, m: self };
        // return type: last type before @name; skip attributes
        p.skip_to_type();
        let ret = p.ty();
        p.i = gi + 1;
        p.exp(b'(');
        let mut unnamed = 0;
        while p.peek() != Some(&Tk::P(b')')) {
            if p.eat(b',') {
                continue;
            }
            if p.word("...") {
                continue;
            }
            let _ = p.ty();
            p.skip_attrs();
            let nm = match p.peek() {
                Some(Tk::L(n)) => {
                    let n = n.clone();
                    p.i += 1;
                    n
                }
                _ => {
                    let n = unnamed.to_string();
                    n
                }
            };
            unnamed += 1;
            regs.insert(nm, nargs);
            nargs += 1;
        }
        // collect body lines
        let mut lines: Vec<&'static [u8]> = vec![];
        loop {
            let (l, n) = self.line(pos);
            pos = n;
            if l.starts_with(b"}") {
                break;
            }
            lines.push(l);
        }
        // pass 1: blocks and register names
        let mut blocks: Vec<(String, Vec<Vec<Tk>>)> = vec![];
        let mut i = 0;
        let mut implicit_first = true;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if l.is_empty() || l[0] == b';' {
                continue;
            }
            if l[0] != b' ' {
                // label
                let lab = if l[0] == b'"' {
                    let e = l[1..].iter().position(|c| *c == b'"').unwrap() + 1;
                    unq(&l[1..e])
                } else {
                    let e = l.iter().position(|c| *c == b':').unwrap();
                    String::from_utf8_lossy(&l[..e]).into_owned()
                };
                blocks.push((lab, vec![]));
                implicit_first = false;
                continue;
            }
            if implicit_first {
                // entry label is the next unnamed value number
                blocks.push((format!("{}", unnamed), vec![]));
                implicit_first = false;
            }
            let mut tk = lex(l);
            if tk.is_empty() {
                continue;
            }
            let opw = {
                let k = if matches!(tk.get(1), Some(Tk::P(b'='))) { 2 } else { 0 };
                match tk.get(k) {
                    Some(Tk::W(w)) => w.clone(),
                    _ => String::new(),
                }
            };
            if opw == "switch" && !tk.contains(&Tk::P(b']')) {
                loop {
                    let t2 = lex(lines[i]);
                    i += 1;
                    let end = t2.first() == Some(&Tk::P(b']'));
                    tk.extend(t2);
                    if end {
                        break;
                    }
                }
            } else if opw == "invoke" {
                tk.extend(lex(lines[i]));
                i += 1;
            } else if opw == "landingpad" {
                while i < lines.len() {
                    let t2 = lex(lines[i]);
                    match t2.first() {
                        Some(Tk::W(w)) if w == "cleanup" || w == "catch" || w == "filter" => i += 1,
                        _ => break,
                    }
                }
            }
            blocks.last_mut().unwrap().1.push(tk);
        }
        let mut bix: HashMap<String, u32> = HashMap::new();
        let mut nregs = nargs;
        for (k, (lab, ins)) in blocks.iter().enumerate() {
            bix.insert(lab.clone(), k as u32);
            for t in ins {
                if let (Tk::L(n), Some(Tk::P(b'='))) = (&t[0], t.get(1)) {
                    regs.insert(n.clone(), nregs);
                    nregs += 1;
                }
            }
        }
        let mut frame = 0u64;
        let mut out = vec![];
        for (lab, ins) in blocks {
            let mut b = Block { name: lab, phis: vec![], insts: vec![] };
            for t in ins {
                let mut dst = u32::MAX;
                let mut start = 0;
                if let (Tk::L(n), Some(Tk::P(b'='))) = (&t[0], t.get(1)) {
                    dst = regs[n];
                    start = 2;
                }
                let mut p = Ps { t, i: start, m: self };
                p.inst(dst, &regs, &bix, &mut frame, &mut b);
            }
            out.push(b);
        }
        Func { id, name, nargs: nargs as usize, nregs: nregs as usize, frame, ret, blocks: out }
    }
}

fn gname(l: &[u8]) -> Option<String> {
    let a = l.iter().position(|c| *c == b'@')?;
    if l.get(a + 1) == Some(&b'"') {
        let e = l[a + 2..].iter().position(|c| *c == b'"')? + a + 2;
        return Some(unq(&l[a + 2..e]));
    }
    let mut e = a + 1;
    while e < l.len() && idc(l[e]) {
        e += 1;
    }
    Some(String::from_utf8_lossy(&l[a + 1..e]).into_owned())
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "float" | "double" | "ptr" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token" | "bfloat") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&Tk> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tk {
        let t = self.t.get(self.i).cloned().unwrap_or(Tk::Meta);
        self.i += 1;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(&Tk::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {} at {} in {:?}", c as char, self.i, self.t);
        }
    }
    fn word(&mut self, w: &str) -> bool {
        if let Some(Tk::W(x)) = self.peek() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tk::P(b'(') => d += 1,
                Tk::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
            if self.i > self.t.len() {
                panic!("parens {:?}", self.t)
            }
        }
    }
    fn skip_to_type(&mut self) {
        loop {
            match self.peek() {
                Some(Tk::W(w)) if is_type_word(w) => return,
                Some(Tk::P(b'{')) | Some(Tk::P(b'[')) | Some(Tk::P(b'<')) | Some(Tk::L(_)) => return,
                Some(Tk::P(b'(')) => self.skip_parens(),
                None => panic!("no type {:?}", self.t),
                _ => self.i += 1,
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tk::W(w)) if !matches!(w.as_str(), "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "sub" | "add" | "trunc" | "asm" | "none") => {
                    let al = w == "align";
                    self.i += 1;
                    if self.peek() == Some(&Tk::P(b'(')) {
                        self.skip_parens();
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(Tk::Str(_)) if self.t.get(self.i + 1) == Some(&Tk::P(b'=')) => self.i += 3,
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> TyR {
        let t = match self.next() {
            Tk::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if self.word("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::I(w[1..].parse().unwrap()),
                _ => Ty::Other(w),
            },
            Tk::P(b'[') => {
                let n = self.num();
                self.word("x");
                let t = self.ty();
                self.exp(b']');
                Ty::Arr(n as u64, t)
            }
            Tk::P(b'<') => {
                if self.eat(b'{') {
                    let f = self.fields();
                    self.exp(b'>');
                    Ty::st(f, true)
                } else {
                    let n = self.num();
                    self.word("x");
                    let t = self.ty();
                    self.exp(b'>');
                    Ty::Vec(n as u64, t)
                }
            }
            Tk::P(b'{') => {
                let f = self.fields();
                Ty::st(f, false)
            }
            Tk::L(n) => return self.m.named_type(&n),
            t => panic!("type {:?} at {} in {:?}", t, self.i, self.t),
        };
        Rc::new(t)
    }
    fn fields(&mut self) -> Vec<TyR> {
        let mut v = vec![];
        while !self.eat(b'}') {
            if self.eat(b',') {
                continue;
            }
            v.push(self.ty());
        }
        v
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tk::Num(s) => {
                if let Ok(v) = s.parse::<i128>() {
                    v
                } else {
                    s.parse::<u128>().unwrap() as i128
                }
            }
            t => panic!("num {:?} in {:?}", t, self.t),
        }
    }
    fn fl(ty: &Ty, s: &str) -> u128 {
        let hex = s.strip_prefix("f0x").or_else(|| s.strip_prefix("0x"));
        if let Some(h) = hex {
            let v = u64::from_str_radix(h.trim_start_matches(|c| c == 'H' || c == 'K'), 16).unwrap();
            return match ty {
                Ty::F32 if h.len() > 8 || s.starts_with("0x") => (f64::from_bits(v) as f32).to_bits() as u128,
                _ => v as u128,
            };
        }
        let (neg, body) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        let f: f64 = match body {
            "qnan" | "nan" => f64::from_bits(0x7ff8_0000_0000_0000),
            "inf" => f64::INFINITY,
            _ => body.parse().unwrap(),
        };
        let f = if neg { -f } else { f };
        match ty {
            Ty::F32 => (f as f32).to_bits() as u128,
            _ => f.to_bits() as u128,
        }
    }
    /// a constant of type ty
    fn constant(&mut self, ty: &TyR) -> Val {
        match self.next() {
            Tk::Num(s) => {
                if ty.is_fp() {
                    return Val::C(Ps::fl(ty, &s));
                }
                let w = ty.width();
                let v = match s.parse::<i128>() {
                    Ok(v) => v as u128,
                    Err(_) => s.parse::<u128>().unwrap(),
                };
                Val::C(v & crate::term::mask(w))
            }
            Tk::Fl(s) => Val::C(Ps::fl(ty, &s)),
            Tk::G(n) => Val::C(self.m.addr_of(&n) as u128),
            Tk::Str(s) => Val::A(Rc::new(s.iter().map(|b| Val::C(*b as u128)).collect())),
            Tk::W(w) => match w.as_str() {
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => ty.zero(),
                "true" => Val::C(1),
                "false" => Val::C(0),
                "splat" => {
                    self.exp(b'(');
                    let t = self.ty();
                    let v = self.constant(&t);
                    self.exp(b')');
                    match &**ty {
                        Ty::Vec(n, _) => Val::A(Rc::new(vec![v; *n as usize])),
                        _ => panic!(),
                    }
                }
                "getelementptr" => {
                    while let Some(Tk::W(_)) = self.peek() {
                        self.i += 1;
                        if self.peek() == Some(&Tk::P(b'(')) && matches!(self.t[self.i - 1], Tk::W(ref w) if w == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.exp(b'(');
                    let bt = self.ty();
                    self.exp(b',');
                    let pt = self.ty();
                    let base = self.constant(&pt);
                    let mut addr = match base {
                        Val::C(v) => v as u64,
                        _ => panic!(),
                    };
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat(b',') {
                        let it = self.ty();
                        let ix = match self.constant(&it) {
                            Val::C(v) => crate::term::sext(v, it.width()),
                            _ => panic!(),
                        };
                        if first {
                            addr = addr.wrapping_add((ix as i64).wrapping_mul(cur.size() as i64) as u64);
                            first = false;
                        } else {
                            let (nt, o) = step(&cur, ix as i64);
                            addr = addr.wrapping_add(o as u64);
                            cur = nt;
                        }
                    }
                    self.exp(b')');
                    Val::C(addr as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.exp(b'(');
                    let t = self.ty();
                    let v = self.constant(&t);
                    self.word("to");
                    let t2 = self.ty();
                    self.exp(b')');
                    match v {
                        Val::C(v) => Val::C(v & crate::term::mask(t2.width())),
                        v => v,
                    }
                }
                "sub" | "add" => {
                    while let Some(Tk::W(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.exp(b'(');
                    let t = self.ty();
                    let a = self.constant(&t);
                    self.exp(b',');
                    let t = self.ty();
                    let b = self.constant(&t);
                    self.exp(b')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => Val::C(if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) } & crate::term::mask(t.width())),
                        _ => panic!(),
                    }
                }
                _ => panic!("const word {} in {:?}", w, self.t),
            },
            Tk::P(c) if c == b'{' || c == b'[' || c == b'<' => {
                let mut close = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' && self.eat(b'{') {
                    close = b'}';
                    packed = true;
                }
                let mut v = vec![];
                while !self.eat(close) {
                    if self.eat(b',') {
                        continue;
                    }
                    let t = self.ty();
                    v.push(self.constant(&t));
                }
                if packed {
                    self.exp(b'>');
                }
                Val::A(Rc::new(v))
            }
            t => panic!("constant {:?} in {:?}", t, self.t),
        }
    }
    fn write_const(&mut self, ty: &TyR, buf: &mut [u8], off: usize) {
        match self.peek() {
            Some(Tk::W(w)) if matches!(w.as_str(), "zeroinitializer" | "undef" | "poison" | "null") => {
                self.i += 1;
            }
            Some(Tk::Str(s)) => {
                let n = s.len().min(buf.len() - off);
                buf[off..off + n].copy_from_slice(&s[..n]);
                self.i += 1;
            }
            Some(Tk::P(b'{')) | Some(Tk::P(b'[')) | Some(Tk::P(b'<')) => {
                let c = match self.next() {
                    Tk::P(c) => c,
                    _ => unreachable!(),
                };
                let mut close = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' && self.eat(b'{') {
                    close = b'}';
                    packed = true;
                }
                let mut k = 0;
                while !self.eat(close) {
                    if self.eat(b',') {
                        continue;
                    }
                    let t = self.ty();
                    let o = match &**ty {
                        Ty::St(_, offs, ..) => offs[k],
                        Ty::Arr(_, e) | Ty::Vec(_, e) => k as u64 * e.size(),
                        _ => panic!(),
                    };
                    self.write_const(&t, buf, off + o as usize);
                    k += 1;
                }
                if packed {
                    self.exp(b'>');
                }
            }
            _ => match self.constant(ty) {
                Val::C(v) => {
                    let n = ty.store_size() as usize;
                    for k in 0..n {
                        buf[off + k] = if k < 16 { (v >> (8 * k)) as u8 } else { 0 };
                    }
                }
                _ => panic!("write_const"),
            },
        }
    }
    fn opd(&mut self, ty: &TyR, regs: &HashMap<String, u32>) -> Opd {
        if let Some(Tk::L(n)) = self.peek() {
            let r = *regs.get(n).unwrap_or_else(|| panic!("reg {}", n));
            self.i += 1;
            return Opd::R(r);
        }
        if let Ty::Other(w) = &**ty {
            if w == "metadata" {
                // metadata argument: skip
                self.i += 1;
                while self.peek().is_some() && self.peek() != Some(&Tk::P(b',')) && self.peek() != Some(&Tk::P(b')')) {
                    self.i += 1;
                }
                return Opd::C(Val::C(0));
            }
        }
        Opd::C(self.constant(ty))
    }
    fn tyopd(&mut self, regs: &HashMap<String, u32>) -> (TyR, Opd) {
        let t = self.ty();
        let o = self.opd(&t, regs);
        (t, o)
    }
    fn label(&mut self, bix: &HashMap<String, u32>) -> u32 {
        self.word("label");
        match self.next() {
            Tk::L(n) => *bix.get(&n).unwrap_or_else(|| panic!("label {}", n)),
            t => panic!("label {:?}", t),
        }
    }
    fn inst(&mut self, dst: u32, regs: &HashMap<String, u32>, bix: &HashMap<String, u32>, frame: &mut u64, b: &mut Block) {
        let mut w = match self.next() {
            Tk::W(w) => w,
            t => panic!("inst {:?}", t),
        };
        while matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = match self.next() {
                Tk::W(w) => w,
                _ => panic!(),
            };
        }
        let bin = match w.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        let op = if let Some(bo) = bin {
            self.skip_to_type();
            let (t, x) = self.tyopd(regs);
            self.exp(b',');
            let y = self.opd(&t, regs);
            Op::Bin(bo, t, x, y)
        } else {
            let cast = match w.as_str() {
                "trunc" => Some(CastOp::Trunc),
                "zext" => Some(CastOp::ZExt),
                "sext" => Some(CastOp::SExt),
                "fptrunc" => Some(CastOp::FpTrunc),
                "fpext" => Some(CastOp::FpExt),
                "fptoui" => Some(CastOp::FpToUi),
                "fptosi" => Some(CastOp::FpToSi),
                "uitofp" => Some(CastOp::UiToFp),
                "sitofp" => Some(CastOp::SiToFp),
                "bitcast" => Some(CastOp::BitCast),
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(CastOp::PtrInt),
                _ => None,
            };
            if let Some(c) = cast {
                self.skip_to_type();
                let (t, x) = self.tyopd(regs);
                self.word("to");
                let t2 = self.ty();
                Op::Cast(c, t, t2, x)
            } else {
                match w.as_str() {
                    "alloca" => {
                        self.skip_to_type();
                        let t = self.ty();
                        let mut n = 1u64;
                        let mut align = t.align();
                        let mut dynn = None;
                        while self.eat(b',') {
                            if self.word("align") {
                                align = self.num() as u64;
                            } else {
                                match self.peek() {
                                    Some(Tk::W(x)) if is_type_word(x) => {
                                        let (_, o) = self.tyopd(regs);
                                        match o {
                                            Opd::C(Val::C(v)) => n = v as u64,
                                            o => dynn = Some(o),
                                        }
                                    }
                                    _ => {
                                        self.i += 1;
                                    }
                                }
                            }
                        }
                        if let Some(d) = dynn {
                            Op::AllocaDyn(t.size(), d)
                        } else {
                            let a = align.max(1);
                            *frame = (*frame + a - 1) / a * a;
                            let o = *frame;
                            *frame += t.size() * n;
                            Op::Alloca(o)
                        }
                    }
                    "load" => {
                        while self.word("volatile") || self.word("atomic") {}
                        let t = self.ty();
                        self.exp(b',');
                        let (_, p) = self.tyopd(regs);
                        Op::Load(t, p)
                    }
                    "store" => {
                        while self.word("volatile") || self.word("atomic") {}
                        let (t, v) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, p) = self.tyopd(regs);
                        Op::Store(t, v, p)
                    }
                    "getelementptr" => {
                        while let Some(Tk::W(x)) = self.peek() {
                            if is_type_word(x) {
                                break;
                            }
                            self.i += 1;
                            if self.peek() == Some(&Tk::P(b'(')) {
                                self.skip_parens();
                            }
                        }
                        let bt = self.ty();
                        self.exp(b',');
                        let (_, base) = self.tyopd(regs);
                        let mut off = 0i64;
                        let mut dy = vec![];
                        let mut cur = bt;
                        let mut first = true;
                        while self.eat(b',') {
                            if let Some(Tk::Meta) = self.peek() {
                                break;
                            }
                            let (it, o) = self.tyopd(regs);
                            let scale;
                            if first {
                                scale = cur.size() as i64;
                                first = false;
                                match o {
                                    Opd::C(Val::C(v)) => off = off.wrapping_add((crate::term::sext(v, it.width()) as i64).wrapping_mul(scale)),
                                    o => dy.push((o, it.width(), scale)),
                                }
                            } else {
                                match o {
                                    Opd::C(Val::C(v)) => {
                                        let (nt, d) = step(&cur, crate::term::sext(v, it.width()) as i64);
                                        off += d;
                                        cur = nt;
                                    }
                                    o => {
                                        let (nt, _) = step(&cur, 0);
                                        scale = nt.size() as i64;
                                        dy.push((o, it.width(), scale));
                                        cur = nt;
                                    }
                                }
                            }
                        }
                        Op::Gep(base, off, dy)
                    }
                    "icmp" => {
                        self.word("samesign");
                        let p = match self.next() {
                            Tk::W(p) => p,
                            _ => panic!(),
                        };
                        let p = match p.as_str() {
                            "eq" => IP::Eq,
                            "ne" => IP::Ne,
                            "ult" => IP::Ult,
                            "ule" => IP::Ule,
                            "ugt" => IP::Ugt,
                            "uge" => IP::Uge,
                            "slt" => IP::Slt,
                            "sle" => IP::Sle,
                            "sgt" => IP::Sgt,
                            "sge" => IP::Sge,
                            _ => panic!("icmp {}", p),
                        };
                        let (t, x) = self.tyopd(regs);
                        self.exp(b',');
                        let y = self.opd(&t, regs);
                        Op::ICmp(p, t, x, y)
                    }
                    "fcmp" => {
                        let mut p;
                        loop {
                            p = match self.next() {
                                Tk::W(p) => p,
                                _ => panic!(),
                            };
                            if matches!(p.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                                continue;
                            }
                            break;
                        }
                        let m = match p.as_str() {
                            "false" => 0,
                            "oeq" => 2,
                            "ogt" => 4,
                            "oge" => 6,
                            "olt" => 1,
                            "ole" => 3,
                            "one" => 5,
                            "ord" => 7,
                            "ueq" => 10,
                            "ugt" => 12,
                            "uge" => 14,
                            "ult" => 9,
                            "ule" => 11,
                            "une" => 13,
                            "uno" => 8,
                            "true" => 15,
                            _ => panic!("fcmp {}", p),
                        };
                        let (t, x) = self.tyopd(regs);
                        self.exp(b',');
                        let y = self.opd(&t, regs);
                        Op::FCmp(m, t, x, y)
                    }
                    "select" => {
                        self.skip_to_type();
                        let (_, c) = self.tyopd(regs);
                        self.exp(b',');
                        let (t, x) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, y) = self.tyopd(regs);
                        Op::Select(c, x, y, t)
                    }
                    "phi" => {
                        self.skip_to_type();
                        let t = self.ty();
                        let mut v = vec![];
                        loop {
                            if !self.eat(b'[') {
                                break;
                            }
                            let o = self.opd(&t, regs);
                            self.exp(b',');
                            let l = self.label(bix);
                            self.exp(b']');
                            v.push((l, o));
                            if !self.eat(b',') {
                                break;
                            }
                        }
                        b.phis.push((dst, v));
                        return;
                    }
                    "extractvalue" => {
                        let (_, x) = self.tyopd(regs);
                        let mut ix = vec![];
                        while self.eat(b',') {
                            if let Some(Tk::Num(_)) = self.peek() {
                                ix.push(self.num() as u32);
                            } else {
                                break;
                            }
                        }
                        Op::ExtractValue(x, ix)
                    }
                    "insertvalue" => {
                        let (_, x) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, y) = self.tyopd(regs);
                        let mut ix = vec![];
                        while self.eat(b',') {
                            if let Some(Tk::Num(_)) = self.peek() {
                                ix.push(self.num() as u32);
                            } else {
                                break;
                            }
                        }
                        Op::InsertValue(x, y, ix)
                    }
                    "extractelement" => {
                        let (_, x) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, y) = self.tyopd(regs);
                        Op::ExtractElement(x, y)
                    }
                    "insertelement" => {
                        let (_, x) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, y) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, z) = self.tyopd(regs);
                        Op::InsertElement(x, y, z)
                    }
                    "shufflevector" => {
                        let (_, x) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, y) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, z) = self.tyopd(regs);
                        Op::Shuffle(x, y, z)
                    }
                    "call" | "invoke" => {
                        self.skip_to_type();
                        let mut rt = self.ty();
                        if self.peek() == Some(&Tk::P(b'(')) {
                            self.skip_parens(); // function type
                        }
                        if let Ty::Other(_) = &*rt {
                            rt = Rc::new(Ty::Void);
                        }
                        let callee = match self.next() {
                            Tk::G(n) => {
                                let n2 = self.m.aliases.get(&n).cloned().unwrap_or(n);
                                Callee::Direct(self.m.fn_id(&n2))
                            }
                            Tk::L(n) => Callee::Indirect(Opd::R(regs[&n])),
                            Tk::W(x) if x == "asm" => {
                                let mut s = String::new();
                                loop {
                                    match self.next() {
                                        Tk::Str(x) => {
                                            s = String::from_utf8_lossy(&x).into_owned();
                                            break;
                                        }
                                        Tk::W(_) => {}
                                        t => panic!("asm {:?}", t),
                                    }
                                }
                                self.exp(b',');
                                self.i += 1;
                                Callee::Asm(s)
                            }
                            Tk::W(x) if x == "inttoptr" || x == "null" || x == "undef" || x == "poison" => {
                                self.i -= 1;
                                let v = self.constant(&Rc::new(Ty::Ptr));
                                Callee::Indirect(Opd::C(v))
                            }
                            t => panic!("callee {:?} in {:?}", t, self.t),
                        };
                        self.exp(b'(');
                        let mut args = vec![];
                        while !self.eat(b')') {
                            if self.eat(b',') {
                                continue;
                            }
                            let t = self.ty();
                            if matches!(&*t, Ty::Other(x) if x == "metadata") {
                                let o = self.opd(&t, regs);
                                args.push((t, o));
                                continue;
                            }
                            self.skip_attrs();
                            let o = self.opd(&t, regs);
                            args.push((t, o));
                        }
                        let mut normal = None;
                        if w == "invoke" {
                            while !self.word("to") {
                                self.i += 1;
                            }
                            normal = Some(self.label(bix));
                        }
                        Op::Call(callee, args, rt, normal)
                    }
                    "br" => {
                        if let Some(Tk::W(x)) = self.peek() {
                            if x == "label" {
                                let l = self.label(bix);
                                b.insts.push(Inst { dst, op: Op::Br(l) });
                                return;
                            }
                        }
                        let (_, c) = self.tyopd(regs);
                        self.exp(b',');
                        let x = self.label(bix);
                        self.exp(b',');
                        let y = self.label(bix);
                        Op::CondBr(c, x, y)
                    }
                    "switch" => {
                        let (t, c) = self.tyopd(regs);
                        self.exp(b',');
                        let d = self.label(bix);
                        self.exp(b'[');
                        let mut v = vec![];
                        while !self.eat(b']') {
                            let t = self.ty();
                            let k = match self.constant(&t) {
                                Val::C(v) => v,
                                _ => panic!(),
                            };
                            self.exp(b',');
                            let l = self.label(bix);
                            v.push((k, l));
                        }
                        Op::Switch(t.width(), c, d, v)
                    }
                    "ret" => {
                        if self.word("void") {
                            Op::Ret(None)
                        } else {
                            let (_, x) = self.tyopd(regs);
                            Op::Ret(Some(x))
                        }
                    }
                    "unreachable" => Op::Unreachable,
                    "freeze" => {
                        let (_, x) = self.tyopd(regs);
                        Op::Copy(x)
                    }
                    "fneg" => {
                        self.skip_to_type();
                        let (t, x) = self.tyopd(regs);
                        Op::FNeg(t, x)
                    }
                    "atomicrmw" => {
                        self.word("volatile");
                        let o = match self.next() {
                            Tk::W(x) => x,
                            _ => panic!(),
                        };
                        let (_, p) = self.tyopd(regs);
                        self.exp(b',');
                        let (t, v) = self.tyopd(regs);
                        Op::Rmw(o, t, p, v)
                    }
                    "cmpxchg" => {
                        while self.word("weak") || self.word("volatile") {}
                        let (_, p) = self.tyopd(regs);
                        self.exp(b',');
                        let (t, c) = self.tyopd(regs);
                        self.exp(b',');
                        let (_, n) = self.tyopd(regs);
                        Op::CmpXchg(t, p, c, n)
                    }
                    "fence" => Op::Fence,
                    "landingpad" | "resume" => Op::Unsupported(w),
                    _ => Op::Unsupported(w),
                }
            }
        };
        b.insts.push(Inst { dst, op });
    }
}
fn step(t: &TyR, ix: i64) -> (TyR, i64) {
    match &**t {
        Ty::St(f, offs, ..) => (f[ix as usize].clone(), offs[ix as usize] as i64),
        Ty::Arr(_, e) | Ty::Vec(_, e) => (e.clone(), ix * e.size() as i64),
        t => panic!("gep step {:?}", t),
    }
}
