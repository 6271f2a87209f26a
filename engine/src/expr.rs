//! Hash-consed bit-vector / floating-point expressions with on-the-fly simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    // IEEE-754 on the bit pattern (w = 32 or 64)
    FAdd, FSub, FMul, FDiv, FSqrt, FRne, FFloor, FCeil, FTrunc, FRna,
    FEq, FLt, FLe, FNan,
    FToSI, FToUI, // saturating, NaN -> 0; result width = node width, source width from the child
    SIToF, UIToF, FToF,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub k: K, pub w: u8, pub a: E, pub b: E, pub c: E, pub v: u128 }
#[derive(Clone, Copy)]
pub struct Meta { pub mask: u128, pub cost: u32, pub fp: bool, pub lo: u64, pub hi: u64 }

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub type FxMap<A, B> = HashMap<A, B, BuildHasherDefault<Fx>>;

pub fn m128(w: u8) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn m64(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u128, w: u8) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn f2(v: u128, w: u8) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }
fn canon64(x: f64) -> u128 { if x.is_nan() { 0x7ff8000000000000 } else { x.to_bits() as u128 } }
fn canon32(x: f32) -> u128 { if x.is_nan() { 0x7fc00000 } else { x.to_bits() as u128 } }
fn fop(k: K, w: u8, a: u128, b: u128) -> u128 {
    macro_rules! go { ($t:ty, $from:expr, $canon:ident) => {{
        let (x, y): ($t, $t) = ($from(a), $from(b));
        $canon(match k { K::FAdd => x + y, K::FSub => x - y, K::FMul => x * y, K::FDiv => x / y,
            K::FSqrt => x.sqrt(), K::FRne => x.round_ties_even(), K::FFloor => x.floor(), K::FCeil => x.ceil(),
            K::FTrunc => x.trunc(), K::FRna => x.round(), _ => unreachable!() })
    }} }
    if w == 32 { go!(f32, |v: u128| f32::from_bits(v as u32), canon32) } else { go!(f64, |v: u128| f64::from_bits(v as u64), canon64) }
}

/// Concrete semantics of one node (shared by constant folding and model evaluation).
pub fn apply(k: K, w: u8, cw: u8, a: u128, b: u128, c: u128, v: u128) -> u128 {
    let m = m128(w);
    (match k {
        K::Const | K::Var => unreachable!(),
        K::Add => a.wrapping_add(b), K::Sub => a.wrapping_sub(b), K::Mul => a.wrapping_mul(b),
        K::UDiv => if b == 0 { m } else { a / b },
        K::URem => if b == 0 { a } else { a % b },
        K::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        K::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        K::Shl => if b >= w as u128 { 0 } else { a << b },
        K::LShr => if b >= w as u128 { 0 } else { a >> b },
        K::AShr => { let s = if b >= w as u128 { w as u128 - 1 } else { b }; (sx(a, w) >> s) as u128 }
        K::And => a & b, K::Or => a | b, K::Xor => a ^ b,
        K::Eq => (a == b) as u128, K::Ult => (a < b) as u128, K::Ule => (a <= b) as u128,
        K::Slt => (sx(a, cw) < sx(b, cw)) as u128, K::Sle => (sx(a, cw) <= sx(b, cw)) as u128,
        K::Ite => if a != 0 { b } else { c },
        K::Concat => unreachable!(),
        K::Extract => a >> v,
        K::ZExt => a, K::SExt => sx(a, cw) as u128,
        K::FAdd | K::FSub | K::FMul | K::FDiv | K::FSqrt | K::FRne | K::FFloor | K::FCeil | K::FTrunc | K::FRna => fop(k, w, a, b),
        K::FEq => (f2(a, cw) == f2(b, cw)) as u128, K::FLt => (f2(a, cw) < f2(b, cw)) as u128,
        K::FLe => (f2(a, cw) <= f2(b, cw)) as u128, K::FNan => f2(a, cw).is_nan() as u128,
        K::FToSI => { let x = f2(a, cw); if x.is_nan() { 0 } else { let lo = -(2f64.powi(w as i32 - 1)); let hi = 2f64.powi(w as i32 - 1);
            if x <= lo { 1u128 << (w - 1) } else if x >= hi { m >> 1 } else { (x as i128) as u128 } } }
        K::FToUI => { let x = f2(a, cw); if x.is_nan() || x <= 0.0 { 0 } else if x >= 2f64.powi(w as i32) { m } else { x as u128 } }
        K::SIToF => { let x = sx(a, cw); if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
        K::UIToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        K::FToF => if w == 32 { canon32(f64::from_bits(a as u64) as f32) } else { canon64(f32::from_bits(a as u32) as f64) },
    }) & m
}

pub struct Var { pub name: String, pub w: u8 }

pub struct Arena {
    pub n: Vec<Node>,
    pub m: Vec<Meta>,
    map: FxMap<Node, E>,
    pub vars: Vec<Var>,
    pub var_by_name: HashMap<(String, u8), E>,
    memo: Vec<u128>, stamp: Vec<u32>, cur: u32,
    /// double-valued expressions known to equal an integer: the 64-bit integer (zeros alike), its width in bits, and whether the double is never -0
    pub views: FxMap<E, (E, u8, bool)>,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { n: vec![], m: vec![], map: Default::default(), vars: vec![], var_by_name: HashMap::new(), memo: vec![], stamp: vec![], cur: 0, views: Default::default() };
        // id 0 is reserved: "no expression"
        a.n.push(Node { k: K::Const, w: 1, a: 0, b: 0, c: 0, v: 0 });
        a.m.push(Meta { mask: 0, cost: 0, fp: false, lo: 0, hi: 0 });
        a
    }
    pub fn w(&self, e: E) -> u8 { self.n[e as usize].w }
    pub fn mask(&self, e: E) -> u128 { self.m[e as usize].mask }
    pub fn cval(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.k == K::Const { Some(n.v) } else { None } }
    pub fn konst(&mut self, v: u128, w: u8) -> E { self.mk(Node { k: K::Const, w, a: 0, b: 0, c: 0, v: v & m128(w) }) }
    pub fn var(&mut self, name: &str, w: u8) -> E {
        if let Some(e) = self.var_by_name.get(&(name.to_string(), w)) { return *e; }
        let id = self.vars.len();
        assert!(id < 128, "more than 128 symbolic variables");
        self.vars.push(Var { name: name.to_string(), w });
        let e = self.mk(Node { k: K::Var, w, a: 0, b: 0, c: 0, v: id as u128 });
        self.var_by_name.insert((name.to_string(), w), e);
        e
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) { return *e; }
        let id = self.n.len() as E;
        if id == 0 || id == u32::MAX { panic!("arena") }
        let (mut mask, mut cost, mut fp) = (0u128, 1u32, matches!(n.k, K::FAdd | K::FSub | K::FMul | K::FDiv | K::FSqrt | K::FRne | K::FFloor | K::FCeil | K::FTrunc | K::FRna | K::FToSI | K::FToUI | K::SIToF | K::UIToF | K::FToF));
        match n.k {
            K::Const => { cost = 0; }
            K::Var => { mask = 1u128 << n.v; }
            _ => for x in [n.a, n.b, n.c] { if x != 0 { let m = &self.m[x as usize]; mask |= m.mask; cost = cost.saturating_add(m.cost); fp |= m.fp; } },
        }
        if n.k == K::Mul && n.w >= 64 { cost = cost.saturating_add(20); }
        if matches!(n.k, K::UDiv | K::URem | K::SDiv | K::SRem) { cost = cost.saturating_add(20); }
        let (lo, hi) = self.range(&n);
        self.n.push(n);
        self.m.push(Meta { mask, cost, fp, lo, hi });
        self.map.insert(n, id);
        id
    }
    fn range(&self, n: &Node) -> (u64, u64) {
        if n.w > 64 { return (0, u64::MAX); }
        let full = (0, m64(n.w));
        let r = |e: E| (self.m[e as usize].lo, self.m[e as usize].hi);
        match n.k {
            K::Const => (n.v as u64, n.v as u64),
            K::ZExt => r(n.a),
            K::Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            K::And => { let (a, b) = (r(n.a), r(n.b)); (0, a.1.min(b.1)) }
            K::Add => { let (a, b) = (r(n.a), r(n.b)); match a.1.checked_add(b.1) { Some(h) if h <= full.1 => (a.0 + b.0, h), _ => full } }
            K::Mul => { let (a, b) = (r(n.a), r(n.b)); match a.1.checked_mul(b.1) { Some(h) if h <= full.1 => (a.0 * b.0, h), _ => full } }
            K::Sub => { let (a, b) = (r(n.a), r(n.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
            K::LShr => { let (a, b) = (r(n.a), r(n.b)); if b.0 == b.1 && b.0 < 64 { (a.0 >> b.0, a.1 >> b.0) } else { (0, a.1) } }
            K::Shl => { let (a, b) = (r(n.a), r(n.b)); if b.0 == b.1 && b.0 < 64 && a.1 <= (full.1 >> b.0) { (a.0 << b.0, a.1 << b.0) } else { full } }
            K::Or => { let (a, b) = (r(n.a), r(n.b)); let top = 64 - (a.1 | b.1).leading_zeros(); (a.0.max(b.0), if top >= 64 { full.1 } else { ((1u64 << top) - 1).min(full.1) }) }
            K::UDiv => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
            K::URem => { let b = r(n.b); if b.0 > 0 { (0, b.1 - 1) } else { full } }
            K::Concat => { let wl = self.w(n.b); let (a, b) = (r(n.a), r(n.b)); ((a.0 << wl) | b.0, (a.1 << wl) | b.1) }
            K::Extract => { if self.w(n.a) <= 64 { let a = r(n.a); if n.v == 0 && a.1 <= full.1 { return a; } if (a.1 >> n.v) <= full.1 { return (a.0 >> n.v, a.1 >> n.v) } } full }
            _ => full,
        }
    }
    pub fn rng(&self, e: E) -> (u64, u64) { (self.m[e as usize].lo, self.m[e as usize].hi) }

    pub fn bin(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", k);
        let rw = if matches!(k, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::FEq | K::FLt | K::FLe) { 1 } else { w };
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = apply(k, rw, w, x, y, 0, 0); return self.konst(v, rw); }
        let ones = m128(w);
        if w == 64 && !self.views.is_empty() {
            // equality of two integer-valued doubles, neither of them -0, is equality of the integers; |x| of one is a view too
            let f = |s: &mut Self, e: E, c: Option<u128>| -> Option<Option<E>> {
                match c {
                    Some(v) => { let d = f64::from_bits(v as u64); Some(if d == d.trunc() && d.abs() < 9007199254740992.0 && (d != 0.0 || d.is_sign_positive()) { Some(s.konst(d as i64 as u64 as u128, 64)) } else { None }) }
                    None => match s.views.get(&e) { Some(&(v, _, true)) => Some(Some(v)), _ => None },
                }
            };
            if k == K::Eq && (ca.is_none() || cb.is_none()) {
                if let (Some(x), Some(y)) = (f(self, a, ca), f(self, b, cb)) { return match (x, y) { (Some(x), Some(y)) => self.bin(K::Eq, x, y), _ => self.konst(0, 1) } }
            }
            if k == K::And && cb == Some(m64(63) as u128) {
                if let Some(&(v, n, _)) = self.views.get(&a) {
                    let r = self.mk(Node { k, w, a, b, c: 0, v: 0 });
                    let z = self.konst(0, 64); let neg = self.bin(K::Slt, v, z); let nv = self.bin(K::Sub, z, v); let m = self.ite(neg, nv, v);
                    self.views.insert(r, (m, n, true));
                    return r
                }
            }
        }
        match k {
            K::Add => {
                if cb == Some(0) { return a } if ca == Some(0) { return b }
                if ca.is_some() { return self.bin(K::Add, b, a) }
                if let Some(y) = cb { let n = self.n[a as usize]; if n.k == K::Add { if let Some(z) = self.cval(n.b) { let c = self.konst(y.wrapping_add(z), w); return self.bin(K::Add, n.a, c) } } }
            }
            K::Sub => {
                if cb == Some(0) { return a } if a == b { return self.konst(0, w) }
                if let Some(y) = cb { let c = self.konst(y.wrapping_neg(), w); return self.bin(K::Add, a, c) }
            }
            K::Mul => {
                if ca.is_some() { return self.bin(K::Mul, b, a) }
                if cb == Some(0) { return b } if cb == Some(1) { return a }
                if let Some(y) = cb { if y.is_power_of_two() { let c = self.konst(y.trailing_zeros() as u128, w); return self.bin(K::Shl, a, c) } }
            }
            K::And => {
                if ca.is_some() { return self.bin(K::And, b, a) }
                if a == b { return a }
                if let Some(y) = cb {
                    if y == 0 { return b } if y == ones { return a }
                    let n = self.n[a as usize];
                    if n.k == K::And { if let Some(z) = self.cval(n.b) { let c = self.konst(y & z, w); return self.bin(K::And, n.a, c) } }
                    if n.k == K::ZExt { let cw = self.w(n.a); let yy = y & m128(cw); let c = self.konst(yy, cw); let t = self.bin(K::And, n.a, c); return self.zext(t, w) }
                    if (y + 1).is_power_of_two() { let k = (y + 1).trailing_zeros() as u8; let t = self.extract(a, 0, k); return self.zext(t, w) }
                    if n.k == K::Concat { let wl = self.w(n.b); let cl = self.konst(y, wl); let ch = self.konst(y >> wl, w - wl); let l = self.bin(K::And, n.b, cl); let h = self.bin(K::And, n.a, ch); return self.concat(h, l) }
                }
            }
            K::Or => {
                if ca.is_some() { return self.bin(K::Or, b, a) }
                if a == b { return a }
                if cb == Some(0) { return a } if cb == Some(ones) { return b }
                // (x << k) | zext(y): disjoint bits become a concatenation, so byte re-assembly folds away
                if let Some(r) = self.or_concat(a, b, w) { return r }
                if let Some(r) = self.or_concat(b, a, w) { return r }
            }
            K::Xor => {
                if ca.is_some() { return self.bin(K::Xor, b, a) }
                if a == b { return self.konst(0, w) }
                if cb == Some(0) { return a }
                if let Some(y) = cb { let n = self.n[a as usize]; if n.k == K::Xor { if let Some(z) = self.cval(n.b) { let c = self.konst(y ^ z, w); return self.bin(K::Xor, n.a, c) } }
                    if n.k == K::ZExt && y <= m128(self.w(n.a)) { let cw = self.w(n.a); let c = self.konst(y, cw); let t = self.bin(K::Xor, n.a, c); return self.zext(t, w) }
                    if w == 1 { // not
                        if n.k == K::Ult { return self.bin(K::Ule, n.b, n.a) }
                        if n.k == K::Ule { return self.bin(K::Ult, n.b, n.a) }
                        if n.k == K::Slt { return self.bin(K::Sle, n.b, n.a) }
                        if n.k == K::Sle { return self.bin(K::Slt, n.b, n.a) }
                    }
                }
            }
            K::Shl | K::LShr | K::AShr => {
                if cb == Some(0) { return a } if ca == Some(0) { return a }
                if let Some(s) = cb {
                    if s >= w as u128 { if k != K::AShr { return self.konst(0, w) } }
                    else {
                        let s = s as u8;
                        if k == K::LShr { let t = self.extract(a, s, w - s); return self.zext(t, w) }
                        if k == K::Shl { let t = self.extract(a, 0, w - s); let z = self.konst(0, s); return self.concat(t, z) }
                    }
                }
            }
            K::UDiv => { if cb == Some(1) { return a } if let Some(y) = cb { if y.is_power_of_two() { let c = self.konst(y.trailing_zeros() as u128, w); return self.bin(K::LShr, a, c) } } }
            K::URem => { if let Some(y) = cb { if y.is_power_of_two() { let c = self.konst(y - 1, w); return self.bin(K::And, a, c) } } }
            K::Eq => {
                if a == b { return self.konst(1, 1) }
                if ca.is_some() { return self.bin(K::Eq, b, a) }
                if w <= 64 { let (x, y) = (self.rng(a), self.rng(b)); if x.1 < y.0 || y.1 < x.0 { return self.konst(0, 1) } }
                if let Some(y) = cb {
                    let n = self.n[a as usize];
                    match n.k {
                        K::ZExt => { let cw = self.w(n.a); if y > m128(cw) { return self.konst(0, 1) } let c = self.konst(y, cw); return self.bin(K::Eq, n.a, c) }
                        K::SExt => { let cw = self.w(n.a); let t = y & m128(cw); if (sx(t, cw) as u128) & ones != y { return self.konst(0, 1) } let c = self.konst(t, cw); return self.bin(K::Eq, n.a, c) }
                        K::Concat => { let wl = self.w(n.b); let cl = self.konst(y, wl); let ch = self.konst(y >> wl, w - wl); let l = self.bin(K::Eq, n.b, cl); if self.cval(l) == Some(0) { return l } let h = self.bin(K::Eq, n.a, ch); return self.bin(K::And, h, l) }
                        K::Add => if let Some(z) = self.cval(n.b) { let c = self.konst(y.wrapping_sub(z), w); return self.bin(K::Eq, n.a, c) },
                        K::Xor => if let Some(z) = self.cval(n.b) { let c = self.konst(y ^ z, w); return self.bin(K::Eq, n.a, c) },
                        K::Or if y == 0 => { let z = self.konst(0, w); let l = self.bin(K::Eq, n.a, z); let r = self.bin(K::Eq, n.b, z); return self.bin(K::And, l, r) }
                        K::Sub if y == 0 => { return self.bin(K::Eq, n.a, n.b) }
                        K::Ite => {
                            let l = self.bin(K::Eq, n.b, b); let r = self.bin(K::Eq, n.c, b);
                            if self.cval(l).is_some() || self.cval(r).is_some() || self.m[a as usize].cost < 64 { return self.ite(n.a, l, r) }
                        }
                        _ => {}
                    }
                    if w == 1 { return if y == 1 { a } else { self.not(a) } }
                } else {
                    let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                    if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(K::Eq, na.a, nb.a) }
                    if a > b { return self.bin_raw(K::Eq, b, a, 1) }
                }
            }
            K::Ult => {
                if a == b { return self.konst(0, 1) }
                if cb == Some(0) { return self.konst(0, 1) }
                if w <= 64 { let (x, y) = (self.rng(a), self.rng(b)); if x.1 < y.0 { return self.konst(1, 1) } if x.0 >= y.1 { return self.konst(0, 1) } }
                if cb == Some(1) { let z = self.konst(0, w); return self.bin(K::Eq, a, z) }
                let n = self.n[a as usize];
                if let Some(y) = cb { if n.k == K::ZExt { let cw = self.w(n.a); if y <= m128(cw) { let c = self.konst(y, cw); return self.bin(K::Ult, n.a, c) } } 
                    if n.k == K::Concat && self.cval(n.a) == Some(0) { let cw = self.w(n.b); if y <= m128(cw) { let c = self.konst(y, cw); return self.bin(K::Ult, n.b, c) } } }
                if let Some(x) = ca { let n = self.n[b as usize]; if n.k == K::ZExt { let cw = self.w(n.a); if x <= m128(cw) { let c = self.konst(x, cw); return self.bin(K::Ult, c, n.a) } } }
            }
            K::Ule => { let t = self.bin(K::Ult, b, a); return self.not_raw(t) }
            K::Slt => {
                if a == b { return self.konst(0, 1) }
                if w <= 64 { let half = 1u64 << (w - 1); let (x, y) = (self.rng(a), self.rng(b)); if x.1 < half && y.1 < half { return self.bin(K::Ult, a, b) }
                    if x.1 < half && y.0 >= half { return self.konst(0, 1) } if x.0 >= half && y.1 < half { return self.konst(1, 1) } }
            }
            K::Sle => { let t = self.bin(K::Slt, b, a); return self.not_raw(t) }
            K::FEq if a > b => { return self.bin_raw(k, b, a, 1) }
            _ => {}
        }
        self.bin_raw(k, a, b, rw)
    }
    fn bin_raw(&mut self, k: K, a: E, b: E, w: u8) -> E { self.mk(Node { k, w, a, b, c: 0, v: 0 }) }
    /// or of `hi` (low k bits known zero through a concat with zero) and `lo` (range below 2^k)
    fn or_concat(&mut self, hi: E, lo: E, w: u8) -> Option<E> {
        let n = self.n[hi as usize];
        if n.k != K::Concat || self.cval(n.b) != Some(0) { return None }
        let k = self.w(n.b);
        let nl = self.n[lo as usize];
        if nl.k == K::ZExt && self.w(nl.a) <= k { let l = self.zext(nl.a, k); return Some(self.concat(n.a, l)) }
        if nl.k == K::Const && nl.v <= m128(k) { let l = self.konst(nl.v, k); return Some(self.concat(n.a, l)) }
        if nl.k == K::Concat { let hw = self.w(nl.a); if self.cval(nl.a) == Some(0) && w - hw <= k { let l0 = nl.b; let l = self.zext(l0, k); return Some(self.concat(n.a, l)) } }
        None
    }
    fn not_raw(&mut self, e: E) -> E { self.not(e) }
    pub fn not(&mut self, e: E) -> E {
        debug_assert_eq!(self.w(e), 1);
        let n = self.n[e as usize];
        if n.k == K::Const { return self.konst(1 - n.v, 1) }
        if n.k == K::Xor && self.cval(n.b) == Some(1) { return n.a }
        let one = self.konst(1, 1);
        self.mk(Node { k: K::Xor, w: 1, a: e, b: one, c: 0, v: 0 })
    }
    pub fn and1(&mut self, a: E, b: E) -> E { self.bin(K::And, a, b) }
    pub fn or1(&mut self, a: E, b: E) -> E { self.bin(K::Or, a, b) }
    pub fn un(&mut self, k: K, a: E, w: u8) -> E {
        let cw = self.w(a);
        if let Some(x) = self.cval(a) { let v = apply(k, w, cw, x, 0, 0, 0); return self.konst(v, w) }
        self.mk(Node { k, w, a, b: 0, c: 0, v: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.cval(c) { return if x != 0 { a } else { b } }
        if a == b { return a }
        let w = self.w(a);
        let n = self.n[c as usize];
        if n.k == K::Xor && n.w == 1 && self.cval(n.b) == Some(1) { return self.ite(n.a, b, a) }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(K::Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.bin(K::And, nc, b) }
                (None, Some(0)) => return self.bin(K::And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(K::Or, nc, a) }
                _ => {}
            }
        }
        let nb = self.n[b as usize];
        if nb.k == K::Ite && nb.a == c { return self.ite(c, a, nb.c) }
        let na = self.n[a as usize];
        if na.k == K::Ite && na.a == c { return self.ite(c, na.b, b) }
        if nb.k == K::Ite && nb.b == a { let cc = self.bin(K::Or, c, nb.a); return self.ite(cc, a, nb.c) }
        self.mk(Node { k: K::Ite, w, a: c, b: a, c: b, v: 0 })
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a }
        if aw > w { return self.extract(a, 0, w) }
        let n = self.n[a as usize];
        if n.k == K::Const { return self.konst(n.v, w) }
        if n.k == K::ZExt { return self.zext(n.a, w) }
        if n.k == K::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() { let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y) }
        self.mk(Node { k: K::ZExt, w, a, b: 0, c: 0, v: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a }
        let n = self.n[a as usize];
        if n.k == K::Const { return self.konst(sx(n.v, aw) as u128, w) }
        if n.k == K::ZExt { return self.zext(a, w) }
        self.mk(Node { k: K::SExt, w, a, b: 0, c: 0, v: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a }
        debug_assert!(lo as u32 + w as u32 <= aw as u32);
        let n = self.n[a as usize];
        match n.k {
            K::Const => return self.konst(n.v >> lo, w),
            K::Extract => return self.extract(n.a, lo + n.v as u8, w),
            K::ZExt | K::SExt => {
                let cw = self.w(n.a);
                if lo + w <= cw { return self.extract(n.a, lo, w) }
                if n.k == K::ZExt { if lo >= cw { return self.konst(0, w) } let t = self.extract(n.a, lo, cw - lo); return self.zext(t, w) }
            }
            K::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl { return self.extract(n.b, lo, w) }
                if lo >= wl { return self.extract(n.a, lo - wl, w) }
                let l = self.extract(n.b, lo, wl - lo); let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            K::And | K::Or | K::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.k, x, y) }
            K::Add | K::Sub | K::Mul if lo == 0 && self.m[a as usize].cost < 200 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.k, x, y) }
            K::Ite => { if (self.cval(n.b).is_some() && self.cval(n.c).is_some()) || self.m[a as usize].cost < 200 { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y) } }
            _ => {}
        }
        self.mk(Node { k: K::Extract, w, a, b: 0, c: 0, v: lo as u128 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.k == K::Const && nl.k == K::Const { return self.konst((nh.v << wl) | nl.v, w) }
        if nh.k == K::Const && nh.v == 0 { return self.zext(l, w) }
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.v == nl.v + wl as u128 { return self.extract(nh.a, nl.v as u8, w) }
        // extract of the top / x itself when the low part is an extract from 0 of a value whose rest is `h`
        if nl.k == K::Concat { // right-assoc -> keep left-assoc for folding
            let t = self.concat(h, nl.a); return self.concat(t, nl.b)
        }
        if nh.k == K::Concat && nl.k == K::Extract {
            let t = self.n[nh.b as usize];
            if t.k == K::Extract && t.a == nl.a && t.v == nl.v + wl as u128 { let m = self.extract(nl.a, nl.v as u8, t.w + wl); return self.concat(nh.a, m) }
        }
        if nh.k == K::ZExt { // zext(x) ++ l = zext(x ++ l)
            let t = self.concat(nh.a, l); return self.zext(t, w)
        }
        if nh.k == K::Ite && nl.k == K::Ite && nh.a == nl.a { let x = self.concat(nh.b, nl.b); let y = self.concat(nh.c, nl.c); return self.ite(nh.a, x, y) }
        if nh.k == K::Ite && nl.k == K::Const && self.cval(nh.b).is_some() && self.cval(nh.c).is_some() { let x = self.concat(nh.b, l); let y = self.concat(nh.c, l); return self.ite(nh.a, x, y) }
        self.mk(Node { k: K::Concat, w, a: h, b: l, c: 0, v: 0 })
    }

    /// Value of `e` when variable i has value model[i].
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        if let Some(v) = self.cval(e) { return v }
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 { self.stamp.iter_mut().for_each(|x| *x = 0); self.cur = 1; }
        if self.memo.len() < self.n.len() { let n = self.n.len() * 2; self.memo.resize(n, 0); self.stamp.resize(n, 0); }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.n[e as usize];
        match n.k {
            K::Const => return n.v,
            K::Var => return model.get(n.v as usize).copied().unwrap_or(0) as u128 & m128(n.w),
            _ => {}
        }
        if self.stamp[e as usize] == self.cur { return self.memo[e as usize] }
        let v = match n.k {
            K::Ite => { let c = self.ev(n.a, model); if c != 0 { self.ev(n.b, model) } else { self.ev(n.c, model) } }
            K::Concat => { let h = self.ev(n.a, model); let l = self.ev(n.b, model); (h << self.w(n.b)) | l }
            _ => {
                let a = self.ev(n.a, model);
                let b = if n.b != 0 { self.ev(n.b, model) } else { 0 };
                apply(n.k, n.w, self.w(n.a), a, b, 0, n.v)
            }
        };
        self.memo[e as usize] = v; self.stamp[e as usize] = self.cur;
        v
    }
    pub fn vars_of(&self, e: E) -> Vec<usize> { let mut m = self.mask(e); let mut v = vec![]; while m != 0 { v.push(m.trailing_zeros() as usize); m &= m - 1; } v }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n[e as usize];
        match n.k {
            K::Const => format!("{:#x}:{}", n.v, n.w),
            K::Var => self.vars[n.v as usize].name.clone(),
            _ if d == 0 => "..".into(),
            K::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.v, n.w),
            _ => { let mut s = format!("({:?}/{}", n.k, n.w); for x in [n.a, n.b, n.c] { if x != 0 { s += " "; s += &self.show(x, d - 1) } } s + ")" }
        }
    }
}
