//! Exact integers and rationals (i128 fast path, limb vectors beyond).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Int {
    S(i128),
    B(bool, Vec<u32>), // negative?, little endian magnitude, only when it does not fit i128
}
use Int::*;

fn mag_of(v: i128) -> (bool, Vec<u32>) {
    let neg = v < 0;
    let mut m = v.unsigned_abs();
    let mut r = Vec::new();
    while m > 0 {
        r.push(m as u32);
        m >>= 32;
    }
    (neg, r)
}
fn trim(v: &mut Vec<u32>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}
fn mcmp(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn madd(a: &[u32], b: &[u32]) -> Vec<u32> {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u64;
    for i in 0..n {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn msub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - br - *b.get(i).unwrap_or(&0) as i64;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(s as u32);
    }
    trim(&mut r);
    r
}
fn mmul(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r);
    r
}
fn mdivrem(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if mcmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let c = (r << 32) | a[i] as u64;
            q[i] = (c / d) as u32;
            r = c % d;
        }
        trim(&mut q);
        let mut rv = vec![r as u32];
        trim(&mut rv);
        return (q, rv);
    }
    let s = b[b.len() - 1].leading_zeros();
    let shl = |v: &[u32]| -> Vec<u32> {
        let mut r = Vec::with_capacity(v.len() + 1);
        let mut c = 0u32;
        for &x in v {
            r.push(if s == 0 { x } else { (x << s) | c });
            c = if s == 0 { 0 } else { x >> (32 - s) };
        }
        r.push(c);
        r
    };
    let mut u = shl(a);
    let mut v = shl(b);
    trim(&mut v);
    if u.len() == a.len() {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    u.truncate(n);
    let mut r = vec![0u32; n];
    for i in 0..n {
        r[i] = if s == 0 { u[i] } else { (u[i] >> s) | if i + 1 < n { u[i + 1] << (32 - s) } else { 0 } };
    }
    trim(&mut r);
    (q, r)
}

impl Int {
    fn mk(neg: bool, mut m: Vec<u32>) -> Int {
        trim(&mut m);
        if m.len() <= 4 {
            let mut v = 0u128;
            for i in (0..m.len()).rev() {
                v = (v << 32) | m[i] as u128;
            }
            if v <= i128::MAX as u128 {
                return S(if neg { -(v as i128) } else { v as i128 });
            }
        }
        B(neg, m)
    }
    fn parts(&self) -> (bool, Vec<u32>) {
        match self {
            S(v) => mag_of(*v),
            B(n, m) => (*n, m.clone()),
        }
    }
    pub fn add(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(r) = a.checked_add(*b) {
                return S(r);
            }
        }
        let (an, am) = self.parts();
        let (bn, bm) = o.parts();
        if an == bn {
            Int::mk(an, madd(&am, &bm))
        } else {
            match mcmp(&am, &bm) {
                Ordering::Less => Int::mk(bn, msub(&bm, &am)),
                _ => Int::mk(an, msub(&am, &bm)),
            }
        }
    }
    pub fn neg(&self) -> Int {
        match self {
            S(v) if *v != i128::MIN => S(-v),
            _ => {
                let (n, m) = self.parts();
                Int::mk(!n, m)
            }
        }
    }
    pub fn mul(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(r) = a.checked_mul(*b) {
                return S(r);
            }
        }
        let (an, am) = self.parts();
        let (bn, bm) = o.parts();
        Int::mk(an != bn, mmul(&am, &bm))
    }
    /// truncated division
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        if let (S(a), S(b)) = (self, o) {
            if let Some(q) = a.checked_div(*b) {
                return (S(q), S(a % b));
            }
        }
        let (an, am) = self.parts();
        let (bn, bm) = o.parts();
        let (q, r) = mdivrem(&am, &bm);
        (Int::mk(an != bn, q), Int::mk(an, r))
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0))
    }
    pub fn sign(&self) -> i32 {
        match self {
            S(v) => v.signum() as i32,
            B(true, _) => -1,
            B(false, _) => 1,
        }
    }
    pub fn abs(&self) -> Int {
        if self.sign() < 0 {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn gcd(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
            // binary gcd when large, Euclid otherwise
            if a == 0 || b == 0 {
                return Int::from_u128(a | b);
            }
            if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
                let (mut x, mut y) = (a as u64, b as u64);
                while y != 0 {
                    let t = x % y;
                    x = y;
                    y = t;
                }
                return S(x as i128);
            }
            let sh = (a | b).trailing_zeros();
            a >>= a.trailing_zeros();
            loop {
                b >>= b.trailing_zeros();
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                b -= a;
                if b == 0 {
                    break;
                }
            }
            return Int::from_u128(a << sh);
        }
        let mut a = self.abs();
        let mut b = o.abs();
        while !b.is_zero() {
            let r = a.divrem(&b).1;
            a = b;
            b = r;
        }
        a
    }
    pub fn from_u128(v: u128) -> Int {
        if v <= i128::MAX as u128 {
            S(v as i128)
        } else {
            Int::mk(false, vec![v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32])
        }
    }
    pub fn pow2(n: u32) -> Int {
        let mut m = vec![0u32; (n / 32) as usize + 1];
        m[(n / 32) as usize] = 1 << (n % 32);
        Int::mk(false, m)
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        if let (S(a), S(b)) = (self, o) {
            return a.cmp(b);
        }
        self.add(&o.neg()).sign().cmp(&0)
    }
    pub fn bits(&self) -> u32 {
        match self {
            S(v) => 128 - v.unsigned_abs().leading_zeros(),
            B(_, m) => m.len() as u32 * 32 - m[m.len() - 1].leading_zeros(),
        }
    }
    pub fn sqrt_exact(&self) -> Option<Int> {
        if self.sign() < 0 {
            return None;
        }
        if self.is_zero() {
            return Some(S(0));
        }
        let mut x = Int::pow2((self.bits() + 1) / 2);
        loop {
            let y = x.add(&self.divrem(&x).0).divrem(&S(2)).0;
            if y.cmp(&x) != Ordering::Less {
                break;
            }
            x = y;
        }
        if x.mul(&x).cmp(self) == Ordering::Equal {
            Some(x)
        } else {
            None
        }
    }
    pub fn to_string(&self) -> String {
        match self {
            S(v) => v.to_string(),
            B(n, m) => {
                let mut m = m.clone();
                let mut digs: Vec<String> = vec![];
                while !m.is_empty() {
                    let (q, r) = mdivrem(&m, &[1_000_000_000]);
                    digs.push(r.first().copied().unwrap_or(0).to_string());
                    m = q;
                }
                let mut s = String::new();
                if *n {
                    s.push('-');
                }
                s.push_str(&digs[digs.len() - 1]);
                for d in digs.iter().rev().skip(1) {
                    s.push_str(&"0".repeat(9 - d.len()));
                    s.push_str(d);
                }
                s
            }
        }
    }
    pub fn parse(s: &str) -> Option<Int> {
        let (neg, s) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if s.is_empty() {
            return None;
        }
        let mut v = S(0);
        for c in s.bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            v = v.mul(&S(10)).add(&S((c - b'0') as i128));
        }
        Some(if neg { v.neg() } else { v })
    }
    /// (top 64 significant bits, exponent, sticky) with value = top * 2^exp (+sticky)
    fn top(&self) -> (u64, i32, bool) {
        let b = self.bits();
        if b <= 64 {
            if let S(v) = self {
                return (v.unsigned_abs() as u64, 0, false);
            }
        }
        let (q, r) = self.abs().divrem(&Int::pow2(b - 64));
        let v = match q {
            S(v) => v as u64,
            _ => unreachable!(),
        };
        (v, (b - 64) as i32, !r.is_zero())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: Int,
    pub d: Int,
}

impl Rat {
    pub fn new(n: Int, d: Int) -> Rat {
        let (n, d) = if d.sign() < 0 { (n.neg(), d.neg()) } else { (n, d) };
        if let S(1) = d {
            return Rat { n, d };
        }
        let g = n.gcd(&d);
        if let S(1) = g {
            return Rat { n, d };
        }
        Rat { n: n.divrem(&g).0, d: d.divrem(&g).0 }
    }
    pub fn int(v: i128) -> Rat {
        Rat { n: S(v), d: S(1) }
    }
    pub fn zero() -> Rat {
        Rat::int(0)
    }
    pub fn one() -> Rat {
        Rat::int(1)
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        self.n == S(1) && self.d == S(1)
    }
    pub fn sign(&self) -> i32 {
        self.n.sign()
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if self.d == S(1) && o.d == S(1) {
            return Rat { n: self.n.add(&o.n), d: S(1) };
        }
        Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        if self.is_one() {
            return o.clone();
        }
        if o.is_one() {
            return self.clone();
        }
        Rat::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn inv(&self) -> Rat {
        assert!(!self.is_zero());
        if self.n.sign() < 0 {
            Rat { n: self.d.neg(), d: self.n.neg() }
        } else {
            Rat { n: self.d.clone(), d: self.n.clone() }
        }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn abs(&self) -> Rat {
        Rat { n: self.n.abs(), d: self.d.clone() }
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        self.sub(o).sign().cmp(&0)
    }
    pub fn sqrt_exact(&self) -> Option<Rat> {
        Some(Rat { n: self.n.sqrt_exact()?, d: self.d.sqrt_exact()? })
    }
    pub fn from_f64(v: f64) -> Option<Rat> {
        if !v.is_finite() {
            return None;
        }
        let b = v.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let n = S(if b >> 63 == 1 { -(m as i128) } else { m as i128 });
        Some(if e >= 0 { Rat::new(n.mul(&Int::pow2(e as u32)), S(1)) } else { Rat::new(n, Int::pow2(-e as u32)) })
    }
    /// nearest double (ties are not treated exactly; good to 1 ulp)
    pub fn to_f64(&self) -> f64 {
        if self.is_zero() {
            return 0.0;
        }
        let neg = self.n.sign() < 0;
        let n = self.n.abs();
        // scale so that the quotient has 64+ bits
        let sh = 66 - (n.bits() as i32 - self.d.bits() as i32);
        let (a, b) = if sh >= 0 { (n.mul(&Int::pow2(sh as u32)), self.d.clone()) } else { (n, self.d.mul(&Int::pow2(-sh as u32))) };
        let (q, r) = a.divrem(&b);
        let (mut t, mut e, st) = q.top();
        let sticky = st || !r.is_zero();
        // normalise t to 64 bits
        let lz = t.leading_zeros();
        t <<= lz;
        e -= lz as i32;
        e -= sh;
        // round to 53 bits
        let low = t & 0x7ff;
        let mut m = t >> 11;
        let half = 0x400;
        if low > half || (low == half && (sticky || m & 1 == 1)) {
            m += 1;
        }
        let mut v = m as f64;
        let mut ex = e + 11;
        while ex > 0 {
            let s = ex.min(1000);
            v *= 2f64.powi(s);
            ex -= s;
            if v.is_infinite() {
                break;
            }
        }
        while ex < 0 {
            let s = (-ex).min(1000);
            v /= 2f64.powi(s);
            ex += s;
            if v == 0.0 {
                break;
            }
        }
        if neg {
            -v
        } else {
            v
        }
    }
    pub fn smt(&self) -> String {
        let neg = self.n.sign() < 0;
        let n = self.n.abs().to_string();
        let s = if self.d == S(1) { format!("{}.0", n) } else { format!("(/ {}.0 {}.0)", n, self.d.to_string()) };
        if neg {
            format!("(- {})", s)
        } else {
            s
        }
    }
    pub fn floor(&self) -> Int {
        let (q, r) = self.n.divrem(&self.d);
        if r.sign() < 0 {
            q.add(&S(-1))
        } else {
            q
        }
    }
}
