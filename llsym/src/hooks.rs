//! Intrinsics, libc stand-ins and the harness interface (`__sym_*`).
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::rc::Rc;

pub type HookFn = fn(&mut Exec, &mut State, &Call) -> R<Option<Val>>;
pub struct Call<'a> {
    pub name: &'a str,
    pub tys: &'a [TyR],
    pub a: &'a [Val],
    pub rt: &'a TyR,
}
#[derive(Clone)]
pub enum Kind {
    Body,
    Text,
    Hook(HookFn),
}

/// v0 mangling -> readable path (identifiers only)
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate disambiguator
            let mut j = i + 2;
            while j < b.len() && b[j] != b'_' {
                j += 1;
            }
            i = j + 1;
            continue;
        }
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 12 {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            // back reference
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() {
                parts.push(String::from_utf8_lossy(&b[j..j + n]).into_owned());
                i = j + n;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    parts.join("::")
}

pub fn asm(_e: &mut Exec, s: &str, _v: &[Val], rt: &TyR) -> R<Option<Val>> {
    if s.contains("cpuid") || s.trim().is_empty() {
        return Ok(Some(rt.zero()));
    }
    unsup(format!("inline asm {:?}", s))
}

fn cu(v: &Val) -> R<u64> {
    match v {
        Val::C(x) => Ok(*x as u64),
        _ => unsup("concrete argument expected"),
    }
}
fn none(_: &mut Exec, _: &mut State, _: &Call) -> R<Option<Val>> {
    Ok(None)
}
fn zero(_: &mut Exec, _: &mut State, c: &Call) -> R<Option<Val>> {
    Ok(Some(c.rt.zero()))
}
fn map1(c: &Call, f: &mut dyn FnMut(&Ty, &Val) -> R<Val>) -> R<Option<Val>> {
    if let (Ty::Vec(_, e), Val::A(x)) = (&*c.tys[0], &c.a[0]) {
        let mut o = vec![];
        for v in x.iter() {
            o.push(f(e, v)?);
        }
        return Ok(Some(Val::A(Rc::new(o))));
    }
    Ok(Some(f(&c.tys[0], &c.a[0])?))
}
fn map2(c: &Call, f: &mut dyn FnMut(&Ty, &Val, &Val) -> R<Val>) -> R<Option<Val>> {
    if let (Ty::Vec(_, e), Val::A(x), Val::A(y)) = (&*c.tys[0], &c.a[0], &c.a[1]) {
        let mut o = vec![];
        for i in 0..x.len() {
            o.push(f(e, &x[i], &y[i])?);
        }
        return Ok(Some(Val::A(Rc::new(o))));
    }
    Ok(Some(f(&c.tys[0], &c.a[0], &c.a[1])?))
}

fn with_overflow(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let signed = c.name.as_bytes()[5] == b's';
    let op = &c.name[6..9];
    let w = c.tys[0].width();
    let (a, b) = (&c.a[0], &c.a[1]);
    let _ = (&e, &st);
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (r, o) = if signed {
            let (sx, sy) = (sext(x, w), sext(y, w));
            let (r, o1) = match op {
                "add" => sx.overflowing_add(sy),
                "sub" => sx.overflowing_sub(sy),
                _ => sx.overflowing_mul(sy),
            };
            let t = r as u128 & mask(w);
            (t, o1 || sext(t, w) != r)
        } else {
            let (r, o1) = match op {
                "add" => x.overflowing_add(y),
                "sub" => x.overflowing_sub(y),
                _ => x.overflowing_mul(y),
            };
            (r & mask(w), o1 || r & mask(w) != r)
        };
        return Ok(Some(Val::A(Rc::new(vec![Val::C(r), Val::C(o as u128)]))));
    }
    let k = cx();
    let (x, y) = (bt(a, w)?, bt(b, w)?);
    if w <= 64 {
        // no overflow within the intervals of the operands
        let (p, q) = (k.irange(x), k.irange(y));
        let (lo, hi) = match op {
            "add" => (p.0 + q.0, p.1 + q.1),
            "sub" => (p.0 - q.1, p.1 - q.0),
            _ => {
                let v = [p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1];
                (*v.iter().min().unwrap(), *v.iter().max().unwrap())
            }
        };
        let ok = if signed { lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1) } else { p.0 >= 0 && q.0 >= 0 && lo >= 0 && hi <= mask(w) as i128 };
        if ok {
            let o = match op {
                "add" => BvOp::Add,
                "sub" => BvOp::Sub,
                _ => BvOp::Mul,
            };
            return Ok(Some(Val::A(Rc::new(vec![nv(k.bv(o, x, y)), Val::C(0)]))));
        }
    }
    let (r, o) = match (op, signed) {
        ("add", false) => {
            let s = k.bv(BvOp::Add, x, y);
            (s, k.ult(s, x))
        }
        ("sub", false) => {
            let s = k.bv(BvOp::Sub, x, y);
            (s, k.ult(x, y))
        }
        ("add", true) | ("sub", true) => {
            let (xe, ye) = (k.sext(w + 1, x), k.sext(w + 1, y));
            let o = if op == "add" { BvOp::Add } else { BvOp::Sub };
            let s = k.bv(o, xe, ye);
            let r = k.bv(o, x, y);
            let re = k.sext(w + 1, r);
            let eq = k.eq(s, re);
            (r, k.not(eq))
        }
        _ => {
            let r = k.bv(BvOp::Mul, x, y);
            let (xe, ye) = if signed { (k.sext(2 * w, x), k.sext(2 * w, y)) } else { (k.zext(2 * w, x), k.zext(2 * w, y)) };
            let s = k.bv(BvOp::Mul, xe, ye);
            let re = if signed { k.sext(2 * w, r) } else { k.zext(2 * w, r) };
            let eq = k.eq(s, re);
            (r, k.not(eq))
        }
    };
    Ok(Some(Val::A(Rc::new(vec![nv(r), nv(o)]))))
}
fn saturating(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let signed = c.name.as_bytes()[5] == b's';
    let add = &c.name[6..9] == "add";
    let base = if add { "add" } else { "sub" };
    let _ = base;
    if let Ty::Vec(..) = &*c.tys[0] {
        return unsup("vector saturating arithmetic");
    }
    let nm = format!("llvm.{}{}.with.overflow", if signed { "s" } else { "u" }, base);
    let r = with_overflow(e, st, &Call { name: &nm, tys: c.tys, a: c.a, rt: c.rt })?.unwrap();
    let Val::A(v) = r else { unreachable!() };
    let w = c.tys[0].width();
    let lim = |neg: bool| -> u128 {
        if signed {
            if neg {
                1u128 << (w - 1)
            } else {
                mask(w - 1)
            }
        } else if add {
            mask(w)
        } else {
            0
        }
    };
    match &v[1] {
        Val::C(0) => Ok(Some(v[0].clone())),
        o => {
            let neg = if signed {
                match &c.a[0] {
                    Val::C(x) => sext(*x, w) < 0,
                    x => {
                        let t = bt(x, w)?;
                        let k = cx();
                        let z = k.c(w, 0);
                        let lt = k.slt(t, z);
                        if let Val::C(_) = o {
                        } else {
                            let ob = boolean(o)?;
                            if !e.decide(st, ob)? {
                                return Ok(Some(v[0].clone()));
                            }
                        }
                        e.decide(st, lt)?
                    }
                }
            } else {
                false
            };
            let l = Val::C(lim(neg));
            Ok(Some(e.select(st, o, &l, &v[0], &c.tys[0])?))
        }
    }
}
fn minmax(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let p = match &c.name[5..9] {
        "umin" => IP::Ult,
        "umax" => IP::Ugt,
        "smin" => IP::Slt,
        _ => IP::Sgt,
    };
    map2(c, &mut |t, x, y| {
        let k = e.icmp(st, p, t, x, y)?;
        e.select(st, &k, x, y, t)
    })
}
fn cmp3(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let p = if c.name.starts_with("llvm.scmp") { IP::Slt } else { IP::Ult };
    let w = c.rt.width();
    let lt = e.icmp(st, p, &c.tys[0], &c.a[0], &c.a[1])?;
    let gt = e.icmp(st, p, &c.tys[0], &c.a[1], &c.a[0])?;
    let ty = Ty::I(w);
    let x = e.select(st, &gt, &Val::C(1), &Val::C(0), &ty)?;
    Ok(Some(e.select(st, &lt, &Val::C(mask(w)), &x, &ty)?))
}
fn bits1(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let nm = c.name;
    map1(c, &mut |t, v| {
        let w = t.width();
        let x = match v {
            Val::C(x) => *x,
            v => {
                if nm.starts_with("llvm.bswap") {
                    let t = bt(v, w)?;
                    let k = cx();
                    let mut acc: Option<T> = None;
                    for i in 0..w / 8 {
                        let p = k.extract(i * 8 + 7, i * 8, t);
                        acc = Some(match acc {
                            None => p,
                            Some(a) => k.concat(a, p),
                        });
                    }
                    return Ok(nv(acc.unwrap()));
                }
                if nm.starts_with("llvm.abs") {
                    let k = e.icmp(st, IP::Slt, t, v, &Val::C(0))?;
                    let n = e.ibin(st, BinOp::Sub, t, &Val::C(0), v)?;
                    return e.select(st, &k, &n, v, t);
                }
                // symbolic counts: case split over positions
                let t = bt(v, w)?;
                let k = cx();
                let zero = k.c(w, 0);
                if nm.starts_with("llvm.ctlz") || nm.starts_with("llvm.cttz") {
                    let mut r = k.c(w, w as u128);
                    for i in 0..w {
                        // last assignment wins: ctlz -> highest set bit
                        let j = if nm.starts_with("llvm.ctlz") { i } else { w - 1 - i };
                        let b = k.extract(j, j, t);
                        let bb = k.to_bool(b);
                        let n = if nm.starts_with("llvm.ctlz") { w - 1 - j } else { j };
                        let c = k.c(w, n as u128);
                        r = k.ite(bb, c, r);
                    }
                    let _ = zero;
                    return Ok(nv(r));
                }
                if nm.starts_with("llvm.ctpop") {
                    let mut r = zero;
                    for i in 0..w {
                        let b = k.extract(i, i, t);
                        let b = k.zext(w, b);
                        r = k.bv(BvOp::Add, r, b);
                    }
                    return Ok(nv(r));
                }
                return unsup(format!("{} of symbolic value", nm));
            }
        };
        let hi = 128 - w as u32;
        Ok(Val::C(if nm.starts_with("llvm.ctlz") {
            if x == 0 {
                w as u128
            } else {
                (x.leading_zeros() - hi) as u128
            }
        } else if nm.starts_with("llvm.cttz") {
            if x == 0 {
                w as u128
            } else {
                x.trailing_zeros() as u128
            }
        } else if nm.starts_with("llvm.ctpop") {
            x.count_ones() as u128
        } else if nm.starts_with("llvm.bswap") {
            x.swap_bytes() >> hi
        } else if nm.starts_with("llvm.bitreverse") {
            x.reverse_bits() >> hi
        } else {
            let s = sext(x, w);
            (if s < 0 { s.wrapping_neg() } else { s }) as u128 & mask(w)
        }))
    })
}
fn funnel(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let w = c.tys[0].width();
    let left = c.name.starts_with("llvm.fshl");
    let s = e.concretise(st, &c.a[2], w)? % w as u128;
    if s == 0 {
        return Ok(Some(if left { c.a[0].clone() } else { c.a[1].clone() }));
    }
    let (ls, rs) = if left { (s, w as u128 - s) } else { (w as u128 - s, s) };
    let t = &c.tys[0];
    let x = e.ibin(st, BinOp::Shl, t, &c.a[0], &Val::C(ls))?;
    let y = e.ibin(st, BinOp::LShr, t, &c.a[1], &Val::C(rs))?;
    Ok(Some(e.ibin(st, BinOp::Or, t, &x, &y)?))
}
fn memcpy(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let n = e.concretise(st, &c.a[2], 64)? as u64;
    let d = e.concretise(st, &c.a[0], 64)? as u64;
    let s = e.concretise(st, &c.a[1], 64)? as u64;
    e.copy(st, d, s, n)?;
    Ok(Some(c.a[0].clone()))
}
fn memset(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let n = e.concretise(st, &c.a[2], 64)? as u64;
    let d = e.concretise(st, &c.a[0], 64)? as u64;
    match &c.a[1] {
        Val::C(b) => e.write_bytes(st, d, &vec![*b as u8; n as usize])?,
        v => {
            let v = if c.tys[1].width() > 8 { nv(cx().extract(7, 0, bt(v, c.tys[1].width())?)) } else { v.clone() };
            for i in 0..n {
                e.store_int(st, d + i, 1, &v)?;
            }
        }
    }
    Ok(Some(c.a[0].clone()))
}
fn memcmp(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let n = e.concretise(st, &c.a[2], 64)? as u64;
    let p = e.concretise(st, &c.a[0], 64)? as u64;
    let q = e.concretise(st, &c.a[1], 64)? as u64;
    let k = cx();
    let bc = c.name == "bcmp";
    let mut r = k.c(32, 0);
    let mut all = k.tt;
    let mut i = n;
    while i > 0 {
        i -= 1;
        let x = e.load_byte(st, p + i)?;
        let y = e.load_byte(st, q + i)?;
        if let (Val::C(a), Val::C(b)) = (&x, &y) {
            if a == b {
                continue;
            }
            if bc {
                return Ok(Some(Val::C(1)));
            }
            r = k.c(32, if a < b { mask(32) } else { 1 });
            continue;
        }
        let (x, y) = (bt(&x, 8)?, bt(&y, 8)?);
        let eq = k.eq(x, y);
        if bc {
            all = k.and(all, eq);
        } else {
            let lt = k.ult(x, y);
            let (m, o) = (k.c(32, mask(32)), k.c(32, 1));
            let d = k.ite(lt, m, o);
            r = k.ite(eq, r, d);
        }
    }
    if bc {
        let (z, o) = (k.c(32, 0), k.c(32, 1));
        return Ok(Some(nv(k.ite(all, z, o))));
    }
    Ok(Some(nv(r)))
}
fn strlen(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let p = cu(&c.a[0])?;
    let mut n = 0;
    loop {
        match e.load_byte(st, p + n)? {
            Val::C(0) => return Ok(Some(Val::C(n as u128))),
            Val::C(_) => {}
            _ => return unsup("strlen of symbolic"),
        }
        n += 1;
    }
}
fn cstr(e: &mut Exec, st: &mut State, p: u64) -> R<String> {
    let mut v = vec![];
    let mut i = 0;
    loop {
        match e.load_byte(st, p + i)? {
            Val::C(0) => break,
            Val::C(b) => v.push(b as u8),
            _ => return unsup("symbolic C string"),
        }
        i += 1;
    }
    Ok(String::from_utf8_lossy(&v).into_owned())
}

fn malloc(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let n = e.concretise(st, &c.a[0], 64)? as u64;
    let n = if c.name == "calloc" { n * e.concretise(st, &c.a[1], 64)? as u64 } else { n };
    if n > 1 << 28 {
        return unsup(format!("allocation of {} bytes", n));
    }
    Ok(Some(Val::C(e.alloc(st, n) as u128)))
}
fn free(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let a = cu(&c.a[0])?;
    e.free(st, a);
    Ok(None)
}
fn realloc(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let n = e.concretise(st, &c.a[1], 64)? as u64;
    let p = cu(&c.a[0])?;
    if n > 1 << 28 {
        return unsup(format!("allocation of {} bytes", n));
    }
    let q = e.alloc(st, n);
    if p != 0 {
        let o = e.obj_size(st, p)?;
        e.copy(st, q, p, o.min(n))?;
        e.free(st, p);
    }
    Ok(Some(Val::C(q as u128)))
}
fn posix_memalign(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let n = e.concretise(st, &c.a[2], 64)? as u64;
    let p = e.alloc(st, n);
    e.store_int(st, cu(&c.a[0])?, 8, &Val::C(p as u128))?;
    Ok(Some(Val::C(0)))
}
fn errno_loc(e: &mut Exec, st: &mut State, _c: &Call) -> R<Option<Val>> {
    // kept in file slot 0's companion object: allocate once
    let a = errno_addr(e, st);
    Ok(Some(Val::C(a as u128)))
}
fn errno_addr(e: &mut Exec, st: &mut State) -> u64 {
    if st.in_lib == 0 {
        let a = e.alloc(st, 16);
        st.in_lib = (a >> 32) as u32;
    }
    (st.in_lib as u64) << 32
}
fn set_errno(e: &mut Exec, st: &mut State, v: u32) -> R<()> {
    let a = errno_addr(e, st);
    e.store_int(st, a, 4, &Val::C(v as u128))
}
/// is a proper ancestor of the path a file?
fn below_file(st: &State, p: &str) -> bool {
    st.files.iter().any(|f| p.len() > f.0.len() && p.starts_with(f.0.as_str()) && p.as_bytes()[f.0.len()] == b'/')
}
fn mkdir(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let p = cstr(e, st, cu(&c.a[0])?)?;
    let p = p.trim_end_matches('/').to_string();
    let err = if st.files.iter().any(|f| f.0 == p) { 17 } else if below_file(st, &p) { 20 } else { 0 };
    if err == 0 {
        return Ok(Some(Val::C(0)));
    }
    set_errno(e, st, err)?;
    Ok(Some(Val::C(mask(32))))
}
fn open(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let p = cstr(e, st, cu(&c.a[0])?)?;
    let flags = cu(&c.a[1])?;
    let at = st.files.iter().position(|f| f.0 == p);
    let (create, trunc) = (flags & 0x40 != 0, flags & 0x200 != 0);
    let at = if at.is_none() && create && !below_file(st, &p) || at.is_some() && trunc {
        let o = e.alloc(st, 0);
        let ob = e.with(st, o, 0, |o, _| o.clone())?;
        let fs = Rc::make_mut(&mut st.files);
        match at {
            Some(i) => {
                fs[i] = (p, Rc::new(ob), 0);
                Some(i)
            }
            None => {
                fs.push((p, Rc::new(ob), 0));
                Some(fs.len() - 1)
            }
        }
    } else {
        at
    };
    match at {
        Some(i) => {
            st.fds.push((i, 0));
            Ok(Some(Val::C(st.fds.len() as u128 + 99)))
        }
        None => {
            let p = cstr(e, st, cu(&c.a[0])?)?;
            let err = if below_file(st, &p) { 20 } else { 2 };
            set_errno(e, st, err)?;
            Ok(Some(Val::C(mask(32))))
        }
    }
}
fn read(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let fd = cu(&c.a[0])? as usize;
    let n = cu(&c.a[2])?;
    if fd < 100 || fd - 100 >= st.fds.len() {
        return Ok(Some(Val::C(0)));
    }
    let (fi, pos) = st.fds[fd - 100];
    let f = st.files[fi].clone();
    let k = n.min(f.2 - pos.min(f.2));
    if k > 0 {
        let dst = cu(&c.a[1])?;
        let o = f.1.clone();
        let bytes = o.b[pos as usize..(pos + k) as usize].to_vec();
        e.write_bytes(st, dst, &bytes)?;
        for (a, v) in o.sym.range(pos as u32..(pos + k) as u32) {
            let at = dst + (*a as u64 - pos);
            let v = *v;
            e.with_mut(st, at, 1, |ob, off| {
                ob.sym.insert(off as u32, v);
            })?;
        }
    }
    st.fds[fd - 100].1 = pos + k;
    Ok(Some(Val::C(k as u128)))
}
fn lseek(_e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let fd = cu(&c.a[0])? as usize;
    let off = cu(&c.a[1])? as i64;
    let wh = cu(&c.a[2])?;
    if fd < 100 || fd - 100 >= st.fds.len() {
        return Ok(Some(Val::C(mask(64))));
    }
    let (fi, pos) = st.fds[fd - 100];
    let len = st.files[fi].2 as i64;
    let p = match wh {
        0 => off,
        1 => pos as i64 + off,
        _ => len + off,
    };
    st.fds[fd - 100].1 = p as u64;
    Ok(Some(Val::C(p as u64 as u128)))
}
fn fail_enosys(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    set_errno(e, st, 38)?;
    Ok(Some(Val::C(mask(c.rt.width()))))
}
fn write(_e: &mut Exec, _st: &mut State, c: &Call) -> R<Option<Val>> {
    Ok(Some(c.a[2].clone()))
}
fn getrandom(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let n = cu(&c.a[1])?;
    let s = e.hash_seed;
    let d: Vec<u8> = (0..n).map(|i| (s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i * 31) >> 5) as u8).collect();
    e.write_bytes(st, cu(&c.a[0])?, &d)?;
    Ok(Some(Val::C(n as u128)))
}
fn clock(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    e.store_int(st, cu(&c.a[1])?, 8, &Val::C(1_700_000_000))?;
    e.store_int(st, cu(&c.a[1])? + 8, 8, &Val::C(0))?;
    Ok(Some(Val::C(0)))
}
fn one(_: &mut Exec, _: &mut State, _: &Call) -> R<Option<Val>> {
    Ok(Some(Val::C(1)))
}
fn arg0(_: &mut Exec, _: &mut State, c: &Call) -> R<Option<Val>> {
    Ok(Some(c.a[0].clone()))
}
fn exit(_: &mut Exec, _: &mut State, c: &Call) -> R<Option<Val>> {
    Err(Stop::Panic(format!("process terminated through {}", c.name)))
}
fn trap(_: &mut Exec, _: &mut State, _: &Call) -> R<Option<Val>> {
    Err(Stop::Panic("trap".into()))
}
fn is_const(_: &mut Exec, _: &mut State, c: &Call) -> R<Option<Val>> {
    Ok(Some(Val::C(matches!(c.a[0], Val::C(_)) as u128)))
}
fn panic_hook(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let mut loc = String::new();
    if let Some(Val::C(p)) = c.a.last() {
        let p = *p as u64;
        let r: R<String> = (|| {
            let fp = e.load_int(st, p, 8, 64)?;
            let fl = e.load_int(st, p + 8, 8, 64)?;
            let line = e.load_int(st, p + 16, 4, 32)?;
            let b = e.read_bytes(st, cu(&fp)?, cu(&fl)?)?;
            Ok(format!("{}:{}", String::from_utf8_lossy(&b), cu(&line)?))
        })();
        if let Ok(s) = r {
            loc = s;
        }
    }
    // nearest frame of the code under test
    let bt = e.backtrace(st);
    let near = bt.iter().find(|f| f.contains("perception_eval")).cloned().unwrap_or_default();
    let inner = bt.first().cloned().unwrap_or_default();
    Err(Stop::Panic(format!("at {} ({}) in {}", loc, inner, near)))
}

// ------------------------------------------------------------------ floating point intrinsics
fn f1(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let nm = c.name;
    map1(c, &mut |t, v| {
        let w = t.width();
        if nm.starts_with("llvm.fabs") {
            e.fabs(st, w, v)
        } else if nm.starts_with("llvm.sqrt") {
            e.fsqrt(st, w, v)
        } else {
            let f = if nm.starts_with("llvm.floor") {
                FUn::Floor
            } else if nm.starts_with("llvm.ceil") {
                FUn::Ceil
            } else if nm.starts_with("llvm.trunc") {
                FUn::Trunc
            } else if nm.starts_with("llvm.roundeven") || nm.starts_with("llvm.rint") {
                FUn::RoundEven
            } else {
                FUn::RoundAway
            };
            e.rround(st, f, v, w)
        }
    })
}
fn f2(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let op = if c.name.contains("min") { FOp::Min } else { FOp::Max };
    map2(c, &mut |t, x, y| e.fop(st, op, t.width(), x, y))
}
fn copysign(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    map2(c, &mut |t, x, y| {
        let w = t.width();
        let sb = 1u128 << (w - 1);
        match (e.fv(x, w)?, e.fv(y, w)?) {
            (FV::R(_), _) | (_, FV::R(_)) => {
                let ax = e.fabs(st, w, x)?;
                let neg = match e.fv(y, w)? {
                    FV::K(k) => k.is_sign_negative(),
                    FV::R(t) => e.rlt(st, t, Exec::rk(0.0))?,
                    FV::B(_) => return unsup("copysign mix"),
                };
                if neg {
                    e.fneg(w, &ax)
                } else {
                    Ok(ax)
                }
            }
            _ => {
                let k = cx();
                let (p, q) = (bt(x, w)?, bt(y, w)?);
                let (m, s) = (k.c(w, mask(w - 1)), k.c(w, sb));
                let p = k.bv(BvOp::And, p, m);
                let q = k.bv(BvOp::And, q, s);
                Ok(nv(k.bv(BvOp::Or, p, q)))
            }
        }
    })
}
fn powi(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let n = e.concretise(st, &c.a[1], 32)?;
    Ok(Some(e.powi(st, c.tys[0].width(), &c.a[0], n as u32 as i32)?))
}
fn fma(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let w = c.tys[0].width();
    if let (Val::C(a), Val::C(b), Val::C(d)) = (&c.a[0], &c.a[1], &c.a[2]) {
        if w == 64 {
            return Ok(Some(Exec::kval(f64::from_bits(*a as u64).mul_add(f64::from_bits(*b as u64), f64::from_bits(*d as u64)))));
        }
    }
    let m = e.fop(st, FOp::Mul, w, &c.a[0], &c.a[1])?;
    Ok(Some(e.fop(st, FOp::Add, w, &m, &c.a[2])?))
}
fn pow(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let w = c.tys[0].width();
    match (e.fv(&c.a[0], w)?, e.fv(&c.a[1], w)?) {
        (FV::K(a), FV::K(b)) => Ok(Some(Exec::kval(a.powf(b)))),
        (_, FV::K(b)) if b == b.trunc() && b.abs() <= 8.0 => Ok(Some(e.powi(st, w, &c.a[0], b as i32)?)),
        (_, FV::K(b)) if b == 0.5 => Ok(Some(e.fsqrt(st, w, &c.a[0])?)),
        _ => unsup("pow"),
    }
}
fn hypot(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    if let (FV::K(a), FV::K(b)) = (e.fv(&c.a[0], 64)?, e.fv(&c.a[1], 64)?) {
        return Ok(Some(Exec::kval(a.hypot(b))));
    }
    let x = e.fop(st, FOp::Mul, 64, &c.a[0], &c.a[0])?;
    let y = e.fop(st, FOp::Mul, 64, &c.a[1], &c.a[1])?;
    let s = e.fop(st, FOp::Add, 64, &x, &y)?;
    Ok(Some(e.fsqrt(st, 64, &s)?))
}
fn atan2(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    Ok(Some(e.atan2(st, &c.a[0], &c.a[1])?))
}
fn atan(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    if let FV::K(k) = e.fv(&c.a[0], 64)? {
        return Ok(Some(Exec::kval(k.atan())));
    }
    Ok(Some(e.atan2(st, &c.a[0], &Exec::kval(1.0))?))
}
fn trig(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let cos = c.name.contains("cos");
    match e.fv(&c.a[0], 64)? {
        FV::K(k) => Ok(Some(Exec::kval(if cos { k.cos() } else { k.sin() }))),
        FV::B(_) => unsup("bit-precise trigonometry"),
        FV::R(t) => {
            let k = cx();
            let p = k.poly(t);
            for i in 0..k.trig.len() {
                for m in [1, -1, 2, -2, 3, -3, 4, -4] {
                    let kk = Exec::rk(m as f64);
                    let phi = k.trig[i].phi;
                    let a = k.rmul(phi, kk);
                    let d = p.sub(&k.poly(a));
                    if let Some(off) = d.as_const() {
                        // offset must be a multiple of pi/2 (as a double)
                        let q = (off.to_f64() / std::f64::consts::FRAC_PI_2).round();
                        if (off.to_f64() - q * std::f64::consts::FRAC_PI_2).abs() < 1e-9 {
                            let (cp, sp) = k.trig_multiple(i, m);
                            let r = match (cos, (q as i64).rem_euclid(4)) {
                                (true, 0) => cp,
                                (true, 1) => sp.neg(),
                                (true, 2) => cp.neg(),
                                (true, _) => sp,
                                (false, 0) => sp,
                                (false, 1) => cp,
                                (false, 2) => sp.neg(),
                                (false, _) => cp.neg(),
                            };
                            return Ok(Some(Exec::rv(k.rt(r))));
                        }
                    }
                }
            }
            if let N::RFun(RFn::Atan2, y, x) = k.n(t).clone() {
                let xx = k.rmul(x, x);
                let yy = k.rmul(y, y);
                let s = k.radd(xx, yy);
                let h = e.rsqrt(st, s)?;
                let num = if cos { x } else { y };
                return Ok(Some(e.fop(st, FOp::Div, 64, &Val::T(num), &h)?));
            }
            Ok(Some(Val::T(k.rfun(if cos { RFn::Cos } else { RFn::Sin }, t, 0))))
        }
    }
}
fn fpto_sat(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let s = c.name.starts_with("llvm.fptosi");
    Ok(Some(e.fp_to_int(st, &c.a[0], c.tys[0].width(), c.rt.width(), s)?))
}
fn fpclass(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let w = c.tys[0].width();
    let m = cu(&c.a[1])? as u32;
    match e.fv(&c.a[0], w)? {
        FV::K(k) => {
            let neg = k.is_sign_negative();
            let cl = if k.is_nan() {
                3
            } else if k.is_infinite() {
                if neg {
                    4
                } else {
                    0x200
                }
            } else if k == 0.0 {
                if neg {
                    0x20
                } else {
                    0x40
                }
            } else if k.is_normal() {
                if neg {
                    8
                } else {
                    0x100
                }
            } else if neg {
                0x10
            } else {
                0x80
            };
            Ok(Some(Val::C((m & cl != 0) as u128)))
        }
        FV::R(t) => {
            let s = e.rsign(st, t)?;
            let cl = match s {
                0 => 0x40,
                1 => 0x100,
                _ => 8,
            };
            Ok(Some(Val::C((m & cl != 0) as u128)))
        }
        FV::B(t) => {
            let k = cx();
            let (eb, mb) = if w == 64 { (11u16, 52u16) } else { (8, 23) };
            let ex = k.extract(mb + eb - 1, mb, t);
            let mt = k.extract(mb - 1, 0, t);
            let sg = k.extract(w - 1, w - 1, t);
            let neg = k.to_bool(sg);
            let pos = k.not(neg);
            let (e1, e0) = (k.c(eb, mask(eb)), k.c(eb, 0));
            let m0 = k.c(mb, 0);
            let exm = k.eq(ex, e1);
            let exz = k.eq(ex, e0);
            let mz = k.eq(mt, m0);
            let nmz = k.not(mz);
            let nan = k.and(exm, nmz);
            let inf = k.and(exm, mz);
            let zero = k.and(exz, mz);
            let sub = k.and(exz, nmz);
            let (a, b) = (k.not(exm), k.not(exz));
            let norm = k.and(a, b);
            let mut r = k.ff;
            let mut add = |bit: u32, x: T| {
                if m & bit != 0 {
                    r = cx().or(r, x);
                }
            };
            add(3, nan);
            add(4, k.and(inf, neg));
            add(8, k.and(norm, neg));
            add(0x10, k.and(sub, neg));
            add(0x20, k.and(zero, neg));
            add(0x40, k.and(zero, pos));
            add(0x80, k.and(sub, pos));
            add(0x100, k.and(norm, pos));
            add(0x200, k.and(inf, pos));
            Ok(Some(nv(r)))
        }
    }
}
fn pmovmskb(_e: &mut Exec, _st: &mut State, c: &Call) -> R<Option<Val>> {
    if let Val::A(v) = &c.a[0] {
        let mut r = 0u128;
        for (i, x) in v.iter().enumerate() {
            match x {
                Val::C(x) => r |= (x >> 7 & 1) << i,
                _ => return unsup("movmsk of symbolic"),
            }
        }
        return Ok(Some(Val::C(r)));
    }
    unsup("pmovmskb")
}
fn vreduce(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let op = if c.name.contains(".and.") {
        BinOp::And
    } else if c.name.contains(".or.") {
        BinOp::Or
    } else if c.name.contains(".add.") {
        BinOp::Add
    } else {
        return unsup(c.name);
    };
    if let (Ty::Vec(_, t), Val::A(v)) = (&*c.tys[0], &c.a[0]) {
        let mut r = v[0].clone();
        for x in v.iter().skip(1) {
            r = e.ibin(st, op, t, &r, x)?;
        }
        return Ok(Some(r));
    }
    unsup("vector reduce")
}
fn assume_i(_e: &mut Exec, _st: &mut State, _c: &Call) -> R<Option<Val>> {
    Ok(None)
}

// ------------------------------------------------------------------ harness interface
fn var(e: &mut Exec, kind: u8, id: u32, n: usize, names: &[&str], s: Sort) -> Vec<T> {
    if let Some(v) = e.vars.get(&(kind, id)) {
        return v.clone();
    }
    let v: Vec<T> = (0..n).map(|i| cx().var(&format!("{}{}", names[i], id), s)).collect();
    e.vars.insert((kind, id), v.clone());
    v
}
fn sym_real(e: &mut Exec, _st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[0])? as u32;
    Ok(Some(Val::T(var(e, 0, id, 1, &["r"], Sort::Real)[0])))
}
fn sym_f64(e: &mut Exec, _st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[0])? as u32;
    Ok(Some(Val::T(var(e, 1, id, 1, &["d"], Sort::BV(64))[0])))
}
fn sym_u64(e: &mut Exec, _st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[0])? as u32;
    let bits = cu(&c.a[1])? as u16;
    let t = var(e, 2, id, 1, &["u"], Sort::BV(bits))[0];
    if cx().sort(t) != Sort::BV(bits) {
        return unsup(format!("input {} is used for two purposes", id));
    }
    Ok(Some(nv(if bits < 64 { cx().zext(64, t) } else { t })))
}
/// the exact rational n/d
fn sym_rat(_e: &mut Exec, _st: &mut State, c: &Call) -> R<Option<Val>> {
    let (n, d) = (cu(&c.a[0])? as i64, cu(&c.a[1])? as i64);
    let q = crate::bigrat::Rat::from_f64(n as f64).unwrap().mul(&crate::bigrat::Rat::from_f64(d as f64).unwrap().inv());
    Ok(Some(Exec::rv(cx().rt(Poly::konst(q)))))
}
/// unit quaternion [w,x,y,z]
fn sym_unit4(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[0])? as u32;
    let p = cu(&c.a[1])?;
    let fresh = !e.vars.contains_key(&(3, id));
    let v = var(e, 3, id, 4, &["qw", "qx", "qy", "qz"], Sort::Real);
    if fresh {
        let k = cx();
        let mut rule = Poly::konst(crate::bigrat::Rat::one());
        for x in &v[1..] {
            let a = Poly::atom(*x);
            rule = rule.sub(&k.pmul(&a, &a));
        }
        k.sq.insert(v[0], rule);
    }
    for (i, x) in v.iter().enumerate() {
        e.store_int(st, p + 8 * i as u64, 8, &Val::T(*x))?;
    }
    Ok(None)
}
/// half angle phi in (-pi/2, pi/2]: out = [cos phi, sin phi, phi]
fn sym_angle(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[0])? as u32;
    let p = cu(&c.a[1])?;
    let fresh = !e.vars.contains_key(&(4, id));
    let v = var(e, 4, id, 3, &["ac", "as", "aphi"], Sort::Real);
    if fresh {
        let k = cx();
        let a = Poly::atom(v[0]);
        let rule = Poly::konst(crate::bigrat::Rat::one()).sub(&k.pmul(&a, &a));
        k.sq.insert(v[1], rule);
        k.trig.push(TrigPair { c: v[0], s: v[1], phi: v[2] });
    }
    for (i, x) in v.iter().enumerate() {
        e.store_int(st, p + 8 * i as u64, 8, &Val::T(*x))?;
    }
    // make the range of the cosine part of every path condition that uses it
    let k = cx();
    let z = Exec::rk(0.0);
    let ge = k.rcmp(RRel::Le, z, v[0]);
    if e.known(st, ge).is_none() {
        st.pc.push(ge);
    }
    Ok(None)
}
fn sym_choose(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[0])? as u32;
    let n = cu(&c.a[1])?;
    let t = var(e, 2, id, 1, &["u"], Sort::BV(16))[0];
    if cx().sort(t) != Sort::BV(16) {
        return unsup(format!("input {} is used for two purposes", id));
    }
    let k = cx();
    let nt = k.c(16, n as u128);
    let lt = k.ult(t, nt);
    if e.known(st, lt).is_none() {
        e.assume(st, lt)?;
    }
    let first = c.name.ends_with("shard");
    for i in 0..n {
        let kt = k.c(16, i as u128);
        let eq = k.eq(t, kt);
        if first && e.shard.1 > 1 && i % e.shard.1 != e.shard.0 {
            continue;
        }
        if i + 1 == n && !first {
            e.assume(st, eq)?;
            return Ok(Some(Val::C(i as u128)));
        }
        if e.decide(st, eq)? {
            return Ok(Some(Val::C(i as u128)));
        }
    }
    Err(Stop::Dead)
}
fn cond(v: &Val) -> R<T> {
    boolean(v)
}
fn sym_assume(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let t = cond(&c.a[0])?;
    e.assume(st, t)?;
    Ok(None)
}
pub fn assert_term(e: &mut Exec, st: &mut State, t: T, id: u32, what: &str) -> R<()> {
    e.n_asserts += 1;
    *e.obligations.entry(id).or_insert(0) += 1;
    let k = cx();
    if t == k.tt {
        e.n_assert_const += 1;
        return Ok(());
    }
    let nt = k.not(t);
    match e.known(st, t) {
        Some(true) => return Ok(()),
        _ => {}
    }
    match e.smt.check(&st.pc, &[nt]) {
        crate::smt::Res::Unsat => Ok(()),
        crate::smt::Res::Unknown => {
            // may still be unsatisfiable together with the rest of the path
            let mut pc = st.pc.clone();
            pc.push(nt);
            match e.smt.solve(pc) {
                crate::smt::Res::Unsat => return Ok(()),
                crate::smt::Res::Unknown => {
                    let bt = e.backtrace(st);
                    if e.inconclusive.len() < 20 {
                        e.inconclusive.push(format!("assertion {} ({}): solver gave no answer in {}", id, what, bt.first().cloned().unwrap_or_default()));
                    }
                    if t == k.ff {
                        return Err(Stop::Dead);
                    }
                    Ok(())
                }
                crate::smt::Res::Sat(_) => violated(e, st, t, nt, id, what),
            }
        }
        crate::smt::Res::Sat(_) => violated(e, st, t, nt, id, what),
    }
}
fn violated(e: &mut Exec, st: &mut State, t: T, nt: T, id: u32, what: &str) -> R<()> {
    let mut pc = st.pc.clone();
    pc.push(nt);
    match e.smt.full_model(&pc) {
        crate::smt::Res::Sat(m) => {
            let bt = e.backtrace(st);
            e.violations.push(Violation { what: format!("assertion {} {}", id, what), model: m, kind: 0, pc, goal: Some(nt), obs: st.obs.clone(), trace: bt });
            if e.violations.len() >= e.max_viol || t == cx().ff {
                return Err(Stop::Dead);
            }
            st.pc.push(t);
            Ok(())
        }
        crate::smt::Res::Unsat => {
            if t == cx().ff {
                return Err(Stop::Dead);
            }
            Ok(())
        }
        crate::smt::Res::Unknown => {
            e.inconclusive.push(format!("assertion {} ({}): violated on a path whose feasibility is undecided", id, what));
            Err(Stop::Dead)
        }
    }
}
fn sym_assert(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let t = cond(&c.a[0])?;
    let id = cu(&c.a[1])? as u32;
    assert_term(e, st, t, id, "")?;
    Ok(None)
}
/// |a-b| <= tol, NaN pairs equal
fn sym_close(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[3])? as u32;
    let (a, b) = (&c.a[0], &c.a[1]);
    let k = cx();
    let t = match (e.fv(a, 64)?, e.fv(b, 64)?) {
        (FV::K(x), FV::K(y)) => {
            let tol = f64::from_bits(cu(&c.a[2])?);
            k.b(x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= tol)
        }
        (FV::B(_), _) | (_, FV::B(_)) => {
            let (x, y) = (bt(a, 64)?, bt(b, 64)?);
            let eq = k.frel(FRel::Eq, x, y);
            let (n1, n2) = (k.fnan(x), k.fnan(y));
            let nn = k.and(n1, n2);
            k.or(eq, nn)
        }
        (x, y) => {
            let g = |v: FV| match v {
                FV::R(t) => Some(t),
                FV::K(f) if f.is_finite() => Some(Exec::rk(f)),
                _ => None,
            };
            match (g(x), g(y)) {
                (Some(p), Some(q)) => {
                    let d = k.rsub(p, q);
                    let tol = Exec::rk(f64::from_bits(cu(&c.a[2])?));
                    let nt = k.rneg(tol);
                    let z = Exec::rk(0.0);
                    if d == z {
                        k.tt
                    } else {
                        let hi = k.rcmp(RRel::Le, d, tol);
                        let lo = k.rcmp(RRel::Le, nt, d);
                        // exact equality is tried first: it is the usual case and far cheaper to decide
                        let eq = k.rcmp(RRel::Eq, d, z);
                        let both = k.and(hi, lo);
                        let ne = k.not(eq);
                        if let crate::smt::Res::Unsat = e.smt.check(&st.pc, &[ne]) {
                            e.n_asserts += 1;
                            *e.obligations.entry(id).or_insert(0) += 1;
                            return Ok(None);
                        }
                        // a wide gap first: a counterexample of that kind survives rounding
                        let w = Exec::rk(0.05);
                        let nw = k.rneg(w);
                        let (h, l) = (k.rcmp(RRel::Lt, w, d), k.rcmp(RRel::Lt, d, nw));
                        let wide = k.or(h, l);
                        if let crate::smt::Res::Sat(_) = e.smt.check(&st.pc, &[wide]) {
                            e.n_asserts += 1;
                            *e.obligations.entry(id).or_insert(0) += 1;
                            violated(e, st, both, wide, id, "(values differ)")?;
                            return Ok(None);
                        }
                        both
                    }
                }
                _ => k.ff,
            }
        }
    };
    assert_term(e, st, t, id, "(values differ)")?;
    Ok(None)
}
/// decimal text of a real: a marker number, which the division by a power of ten that ends the decoding of a
/// decimal turns back into the term
fn sym_num(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let out = cu(&c.a[1])?;
    let i = st.sentinels.len();
    Rc::make_mut(&mut st.sentinels).push(c.a[0].clone());
    let text = format!("{}.5", SENTINEL + i as u64);
    e.write_bytes(st, out, text.as_bytes())?;
    Ok(Some(Val::C(text.len() as u128)))
}
/// a symbolic real about to be formatted: a marker number takes its place in the text
pub fn marker(st: &mut State, v: &mut Val) {
    if is_real(v).is_some() {
        let i = st.sentinels.len();
        Rc::make_mut(&mut st.sentinels).push(v.clone());
        *v = Val::C(((SENTINEL + i as u64) as f64 + 0.5).to_bits() as u128);
    }
}
/// zmij::Buffer::format_finite
fn zmij_format(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let out = cu(&c.a[0])?;
    let text = match e.fv(&c.a[1], 64)? {
        FV::K(k) => format!("{:?}", k),
        FV::R(_) => {
            let i = st.sentinels.len();
            Rc::make_mut(&mut st.sentinels).push(c.a[1].clone());
            format!("{}.5", SENTINEL + i as u64)
        }
        FV::B(_) => return unsup("text of a bit-precise double"),
    };
    e.write_bytes(st, out, text.as_bytes())?;
    Ok(Some(Val::A(Rc::new(vec![Val::C(out as u128), Val::C(text.len() as u128)]))))
}
/// f64::classify
fn f64_classify(e: &mut Exec, _st: &mut State, c: &Call) -> R<Option<Val>> {
    use std::num::FpCategory::*;
    match e.fv(&c.a[0], 64)? {
        FV::K(k) => Ok(Some(Val::C(match k.classify() {
            Nan => 0,
            Infinite => 1,
            Zero => 2,
            Subnormal => 3,
            Normal => 4,
        }))),
        FV::R(t) => {
            let k = cx();
            let p = k.poly(t);
            let z = k.rrel0(RRel::Eq, p);
            let (a, b) = (k.c(8, 2), k.c(8, 4));
            Ok(Some(nv(k.ite(z, a, b))))
        }
        FV::B(_) => unsup("class of a bit-precise double"),
    }
}
pub const SENTINEL: u64 = 9_000_000_000_000;
fn sym_obs(_e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[0])? as u32;
    st.obs.push((id, c.a[1].clone(), c.tys[1].is_fp()));
    Ok(None)
}
fn sym_reach(_e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let id = cu(&c.a[0])? as u32;
    st.reach.push(id);
    Ok(None)
}
fn sym_expect_panic(_e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    st.expect_panic = cu(&c.a[0])? != 0;
    Ok(None)
}
fn sym_fs_add(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    // (path ptr, path len, data ptr, data len)
    let p = e.read_bytes(st, cu(&c.a[0])?, cu(&c.a[1])?)?;
    let n = cu(&c.a[3])?;
    let o = e.alloc(st, n);
    if n > 0 {
        e.copy(st, o, cu(&c.a[2])?, n)?;
    }
    let ob = e.with(st, o, n, |o, _| o.clone())?;
    let path = String::from_utf8_lossy(&p).into_owned();
    let fs = Rc::make_mut(&mut st.files);
    fs.retain(|f| f.0 != path);
    fs.push((path, Rc::new(ob), n));
    Ok(None)
}
fn sym_and(_e: &mut Exec, _st: &mut State, c: &Call) -> R<Option<Val>> {
    let (a, b) = (boolean(&c.a[0])?, boolean(&c.a[1])?);
    let k = cx();
    Ok(Some(nv(if c.name.ends_with("_or") { k.or(a, b) } else { k.and(a, b) })))
}
/// concrete value of a small integer (forks)
fn sym_pick(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    Ok(Some(Val::C(e.concretise(st, &c.a[0], 64)?)))
}
/// true when running under the executor
fn hash_finish(_e: &mut Exec, _st: &mut State, _c: &Call) -> R<Option<Val>> {
    Ok(Some(Val::C(0)))
}
/// f64::total_cmp(&self, &other) -> Ordering
fn total_cmp(e: &mut Exec, st: &mut State, c: &Call) -> R<Option<Val>> {
    let p = e.load_int(st, cu(&c.a[0])?, 8, 64)?;
    let q = e.load_int(st, cu(&c.a[1])?, 8, 64)?;
    if let (Val::C(a), Val::C(b)) = (&p, &q) {
        let o = f64::from_bits(*a as u64).total_cmp(&f64::from_bits(*b as u64));
        return Ok(Some(Val::C(o as i8 as u8 as u128)));
    }
    if is_real(&p).is_none() && is_real(&q).is_none() {
        return unsup("total_cmp on bit-precise doubles");
    }
    for (v, neg) in [(&p, false), (&q, true)] {
        if let FV::K(k) = e.fv(v, 64)? {
            if !k.is_finite() {
                let pos = k.is_sign_positive() != neg;
                return Ok(Some(Val::C(if pos { 1 } else { 0xff })));
            }
        }
    }
    let lt = e.fcmp(1, 64, &p, &q)?;
    if e.decide(st, lt)? {
        return Ok(Some(Val::C(0xff)));
    }
    let gt = e.fcmp(4, 64, &p, &q)?;
    Ok(Some(Val::C(e.decide(st, gt)? as u128)))
}

pub fn classify(e: &mut Exec, id: u32) -> Kind {
    let name = e.m.fns[id as usize].name.clone();
    let n = name.as_str();
    let h: Option<HookFn> = if let Some(r) = n.strip_prefix("llvm.") {
        let base = r.split('.').next().unwrap_or("");
        match base {
            "memcpy" | "memmove" => Some(memcpy),
            "memset" => Some(memset),
            "lifetime" | "experimental" | "assume" | "dbg" | "prefetch" | "donothing" | "invariant" | "stackrestore" | "va_start" | "va_end" => Some(assume_i),
            "stacksave" => Some(zero),
            "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" => {
                if r.contains(".with.overflow") {
                    Some(with_overflow)
                } else if r.contains(".sat.") {
                    Some(saturating)
                } else {
                    None
                }
            }
            "umin" | "umax" | "smin" | "smax" => Some(minmax),
            "scmp" | "ucmp" => Some(cmp3),
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "abs" => Some(bits1),
            "fshl" | "fshr" => Some(funnel),
            "is" => {
                if r.starts_with("is.constant") {
                    Some(is_const)
                } else {
                    Some(fpclass)
                }
            }
            "trap" | "ubsantrap" => Some(trap),
            "expect" => Some(arg0),
            "threadlocal" => Some(arg0),
            "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" => Some(f1),
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => Some(f2),
            "copysign" => Some(copysign),
            "powi" => Some(powi),
            "pow" => Some(pow),
            "fma" | "fmuladd" => Some(fma),
            "sin" | "cos" => Some(trig),
            "fptosi" | "fptoui" => Some(fpto_sat),
            "vector" => Some(vreduce),
            "x86" => {
                if r.contains("pmovmskb") {
                    Some(pmovmskb)
                } else if r.contains("pause") {
                    Some(none)
                } else {
                    None
                }
            }
            _ => None,
        }
    } else if let Some(r) = n.strip_prefix("__sym_") {
        match r {
            "real" => Some(sym_real),
            "f64" => Some(sym_f64),
            "rat" => Some(sym_rat),
            "u64" => Some(sym_u64),
            "unit4" => Some(sym_unit4),
            "angle" => Some(sym_angle),
            "choose" | "shard" => Some(sym_choose),
            "assume" => Some(sym_assume),
            "assert" => Some(sym_assert),
            "close" => Some(sym_close),
            "obs_f64" | "obs_u64" => Some(sym_obs),
            "reach" => Some(sym_reach),
            "expect_panic" => Some(sym_expect_panic),
            "fs_add" => Some(sym_fs_add),
            "and" | "or" => Some(sym_and),
            "num" => Some(sym_num),
            "pick" => Some(sym_pick),
            "symbolic" => Some(one),
            _ => None,
        }
    } else {
        match n {
            "malloc" | "calloc" => Some(malloc),
            "free" => Some(free),
            "realloc" | "reallocarray" => Some(realloc),
            "posix_memalign" => Some(posix_memalign),
            "memcpy" | "memmove" => Some(memcpy),
            "memset" => Some(memset),
            "memcmp" | "bcmp" => Some(memcmp),
            "strlen" => Some(strlen),
            "__errno_location" => Some(errno_loc),
            "open64" | "open" => Some(open),
            "mkdir" => Some(mkdir),
            "read" => Some(read),
            "lseek64" | "lseek" => Some(lseek),
            "close" | "fcntl" | "flock" => Some(zero),
            "statx" | "fstat64" | "stat64" | "lstat64" | "ioctl" | "syscall" | "sysconf" | "readlink" | "getcwd" => Some(fail_enosys),
            "write" => Some(write),
            "getrandom" => Some(getrandom),
            "getenv" | "isatty" | "dlsym" | "getauxval" | "sched_yield" | "getpid" | "getuid" => Some(zero),
            "clock_gettime" => Some(clock),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => Some(zero),
            "pthread_self" | "gettid" => Some(one),
            "abort" | "exit" | "_exit" => Some(exit),
            "hypot" => Some(hypot),
            "atan2" => Some(atan2),
            "atan" => Some(atan),
            "sin" | "cos" => Some(trig),
            _ => {
                if n.starts_with("_RN") {
                    if n.contains("4core9panicking9panic_fmt") || n.contains("9panicking19panic_nounwind_fmt") || n.contains("9panicking18panic_nounwind_fmt") || n.contains("18handle_alloc_error") || n.contains("9panicking20panic_cannot_unwind") || n.contains("3std9panicking") && n.contains("begin_panic") {
                        Some(panic_hook)
                    } else if e.hash_seed == 0 && n.contains("13DefaultHasher") && n.contains("6Hasher6finish") {
                        Some(hash_finish)
                    } else if e.hash_seed == 0 && n.contains("13DefaultHasher") && (n.contains("6Hasher5write") || n.contains("6Hasher9write_str") || n.contains("6Hasher8write_") || n.contains("6Hasher10write_")) {
                        Some(none)
                    } else if n.contains("5stdio6__print") || n.contains("5stdio6_print") || n.contains("5stdio7__eprint") || n.contains("5stdio7_eprint") {
                        Some(none)
                    } else if n.contains("4core3f643") && n.contains("9total_cmp") || n.contains("5implsd9total_cmp") || n.contains("3f64") && n.contains("9total_cmp") {
                        Some(total_cmp)
                    } else if n.contains("4core3f64d8classify") {
                        Some(f64_classify)
                    } else {
                        None
                    }
                } else if n.starts_with("_RI") && n.contains("4zmij") && n.contains("6Buffer13format_finited") {
                    Some(zmij_format)
                } else {
                    None
                }
            }
        }
    };
    match h {
        Some(h) => Kind::Hook(h),
        None if n.starts_with("_RI") && n.contains("3fmt5float") && (n.contains("float_to_decimal_common_exactd") || n.contains("float_to_decimal_common_shortestd")) => Kind::Text,
        None => Kind::Body,
    }
}

pub fn run(e: &mut Exec, st: &mut State, h: HookFn, id: u32, tys: &[TyR], a: &[Val], rt: &TyR) -> R<Option<Val>> {
    // names are never removed from the module
    let name: &str = unsafe { &*(e.m.fns[id as usize].name.as_str() as *const str) };
    h(e, st, &Call { name, tys, a, rt })
}
