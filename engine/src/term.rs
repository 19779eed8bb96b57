//! Hash-consed term graph.
//!
//! Every term is a bit-vector of a stated width.  Width 1 doubles as the
//! Boolean sort.  IEEE floats are bit-vectors of width 32/64 that are built by
//! the `F*` nodes; min/max/compare/neg/abs on floats are interpreted exactly
//! (through an order-preserving integer key), add/mul/div/sqrt/... are kept
//! symbolic and get their meaning from the solver back end (`smt.rs`): either
//! as uninterpreted values with sound facts about rounding, or bit-exactly.
use crate::fx::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u8, u128),
    Var(u8, u32),
    FVar(u8, u32),
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    Udiv(T, T),
    Sdiv(T, T),
    Urem(T, T),
    Srem(T, T),
    Shl(T, T),
    Lshr(T, T),
    Ashr(T, T),
    Concat(T, T),
    Extract(u8, u8, T),
    Zext(u8, T),
    Sext(u8, T),
    FMin(Rc<Vec<T>>),
    FMax(Rc<Vec<T>>),
    FNeg(T),
    FAbs(T),
    FAdd(T, T),
    FMul(T, T),
    FDiv(T, T),
    FRem(T, T),
    FSqrt(T),
    FRound(u8, T),
    FExt(T),
    FTrunc(T),
    FLt(T, T),
    FLe(T, T),
    FEq(T, T),
    FNan(T),
    F2U(u8, T),
    F2S(u8, T),
    U2F(u8, T),
    S2F(u8, T),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
}
pub const FULL: Iv = Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true };

pub struct Meta {
    pub h: u64,
    pub w: u8,
    pub fl: bool,
    pub iv: Iv,
    pub ur: (u64, u64),
}

pub struct VarInfo {
    /// position in the harness' draw order (or a unique internal number)
    pub key: u64,
    pub w: u8,
    pub float: bool,
    pub lo: f64,
    pub hi: f64,
    pub ulo: u64,
    pub uhi: u64,
}

pub struct Store {
    pub nodes: Vec<N>,
    pub meta: Vec<Meta>,
    map: HashMap<N, T>,
    pub vars: Vec<VarInfo>,
    vs: HashMap<T, Option<Rc<Vec<u64>>>>,
    /// float arithmetic nodes by operation, for pairwise facts
    pub facts_seen: usize,
    negmemo: HashMap<T, T>,
    /// values a previous run drew, by position
    pub seed: Vec<u128>,
}

impl Store {
    /// debugging aid
    pub fn show(&self, t: T, d: usize) -> String {
        if d == 0 { return format!("#{}", t); }
        match self.n(t) {
            N::C(w, v) => if self.is_fl(t) || *w == 32 && *v > 0x30000000 { format!("{}", fval(*w, *v)) } else { format!("{}", v) },
            N::FMin(v) | N::FMax(v) => { let n = if let N::FMin(_) = self.n(t) { "min" } else { "max" }; format!("{}({})", n, v.iter().map(|x| self.show(*x, d - 1)).collect::<Vec<_>>().join(",")) }
            N::FVar(_, v) => format!("v{}", v),
            n => { let mut k = vec![]; self.kids(t, |x| k.push(self.show(x, d - 1))); let s = format!("{:?}", n); format!("{}#{}({})", s.split('(').next().unwrap(), t, k.join(",")) }
        }
    }
}
pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
fn umax(w: u8) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
pub fn sx(v: u128, w: u8) -> i128 {
    let sh = 128 - w as u32;
    ((v << sh) as i128) >> sh
}
pub fn fval(w: u8, v: u128) -> f64 {
    if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }
}
fn fbits(w: u8, v: f64) -> u128 {
    if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
}
/// Concrete semantics of the rounding operations (same hardware the code runs on).
pub fn fop2(op: u8, w: u8, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op { 0 => x + y, 1 => x * y, 2 => x / y, _ => x % y };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op { 0 => x + y, 1 => x * y, 2 => x / y, _ => x % y };
        r.to_bits() as u128
    }
}
fn rnd(w: u8, v: f64) -> f64 { if w == 32 { (v as f32) as f64 } else { v } }

impl Store {
    pub fn new() -> Self {
        let mut s = Store { nodes: vec![], meta: vec![], map: HashMap::default(), vars: vec![], vs: HashMap::default(), facts_seen: 0, negmemo: HashMap::default(), seed: vec![] };
        s.c(1, 0);
        s.c(1, 1);
        s
    }
    pub const FALSE: T = 0;
    pub const TRUE: T = 1;

    pub fn w(&self, t: T) -> u8 { self.meta[t as usize].w }
    pub fn n(&self, t: T) -> &N { &self.nodes[t as usize] }
    pub fn konst(&self, t: T) -> Option<u128> { if let N::C(_, v) = self.nodes[t as usize] { Some(v) } else { None } }
    pub fn iv(&self, t: T) -> Iv { self.meta[t as usize].iv }
    pub fn ur(&self, t: T) -> (u64, u64) { self.meta[t as usize].ur }
    pub fn is_fl(&self, t: T) -> bool { self.meta[t as usize].fl }

    fn mk(&mut self, n: N) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let m = self.mkmeta(&n);
        if !matches!(n, N::C(..) | N::Var(..) | N::FVar(..)) {
            // only one value left
            let k = if m.fl && (m.w == 32 || m.w == 64) && !m.iv.nan && m.iv.lo == m.iv.hi && m.iv.lo != 0.0 {
                Some(if m.w == 32 { (m.iv.lo as f32).to_bits() as u128 } else { m.iv.lo.to_bits() as u128 })
            } else if !m.fl && m.w <= 64 && m.ur.0 == m.ur.1 { Some(m.ur.0 as u128) } else { None };
            if let Some(k) = k { let t = self.c(m.w, k); self.map.insert(n, t); return t; }
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.meta.push(m);
        self.map.insert(n, t);
        t
    }

    fn mkmeta(&self, n: &N) -> Meta {
        use N::*;
        let w = match n {
            C(w, _) | Var(w, _) | FVar(w, _) => *w,
            Not(a) | And(a, _) | Or(a, _) | Xor(a, _) | Add(a, _) | Sub(a, _) | Mul(a, _) | Udiv(a, _) | Sdiv(a, _)
            | Urem(a, _) | Srem(a, _) | Shl(a, _) | Lshr(a, _) | Ashr(a, _) => self.w(*a),
            Ite(_, a, _) => self.w(*a),
            Eq(..) | Ult(..) | Slt(..) | FLt(..) | FLe(..) | FEq(..) | FNan(..) => 1,
            Concat(a, b) => self.w(*a) + self.w(*b),
            Extract(h, l, _) => h - l + 1,
            Zext(w, _) | Sext(w, _) => *w,
            FMin(v) | FMax(v) => self.w(v[0]),
            FNeg(a) | FAbs(a) | FAdd(a, _) | FMul(a, _) | FDiv(a, _) | FRem(a, _) | FSqrt(a) | FRound(_, a) => self.w(*a),
            FExt(_) => 64,
            FTrunc(_) => 32,
            F2U(w, _) | F2S(w, _) | U2F(w, _) | S2F(w, _) => *w,
        };
        let fl = match n {
            FVar(..) | FMin(..) | FMax(..) | FNeg(..) | FAbs(..) | FAdd(..) | FMul(..) | FDiv(..) | FRem(..) | FSqrt(..)
            | FRound(..) | FExt(..) | FTrunc(..) | U2F(..) | S2F(..) => true,
            Ite(_, a, b) => {
                (self.is_fl(*a) && (self.is_fl(*b) || self.konst(*b).is_some())) || (self.is_fl(*b) && self.konst(*a).is_some())
            }
            _ => false,
        };
        let iv = self.mkiv(n, w);
        let mut ur = self.mkur(n, w);
        if fl && !iv.nan && (iv.lo > 0.0 || iv.hi < 0.0) && iv.lo <= iv.hi && !matches!(n, C(..)) && (w == 32 || w == 64) {
            // a float of known sign: its bits lie in a range too
            let bits = |x: f64| if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
            let (a, b) = (bits(iv.lo), bits(iv.hi));
            let r = if iv.lo > 0.0 { (a.saturating_sub(1), b + 1) } else { (b - 1, a.saturating_add(1).min(umax(w))) };
            if iv.lo > 0.0 && r.0 == 0 { /* keep */ } else { ur = (ur.0.max(r.0), ur.1.min(r.1)); }
        }
        let h = self.mkhash(n);
        Meta { h, w, fl, iv, ur }
    }

    pub fn h(&self, t: T) -> u64 { self.meta[t as usize].h }
    /// structural hash, independent of creation order
    fn mkhash(&self, n: &N) -> u64 {
        use N::*;
        fn mx(a: u64, b: u64) -> u64 {
            let mut x = (a ^ b.rotate_left(25)).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(b);
            x ^= x >> 29;
            x = x.wrapping_mul(0xBF58476D1CE4E5B9);
            x ^ (x >> 32)
        }
        let d = |k: u64, v: &[u64]| v.iter().fold(mx(0x1234567, k), |a, &b| mx(a, b));
        let h = |t: &T| self.h(*t);
        match n {
            C(w, v) => d(1, &[*w as u64, *v as u64, (*v >> 64) as u64]),
            Var(w, i) | FVar(w, i) => { let v = &self.vars[*i as usize]; d(2, &[*w as u64, v.key, v.float as u64, v.lo.to_bits(), v.hi.to_bits(), v.ulo, v.uhi]) }
            Not(a) => d(4, &[h(a)]), And(a, b) => d(5, &[h(a), h(b)]), Or(a, b) => d(6, &[h(a), h(b)]), Xor(a, b) => d(7, &[h(a), h(b)]),
            Ite(c, a, b) => d(8, &[h(c), h(a), h(b)]), Eq(a, b) => d(9, &[h(a), h(b)]), Ult(a, b) => d(10, &[h(a), h(b)]), Slt(a, b) => d(11, &[h(a), h(b)]),
            Add(a, b) => d(12, &[h(a), h(b)]), Sub(a, b) => d(13, &[h(a), h(b)]), Mul(a, b) => d(14, &[h(a), h(b)]), Udiv(a, b) => d(15, &[h(a), h(b)]),
            Sdiv(a, b) => d(16, &[h(a), h(b)]), Urem(a, b) => d(17, &[h(a), h(b)]), Srem(a, b) => d(18, &[h(a), h(b)]), Shl(a, b) => d(19, &[h(a), h(b)]),
            Lshr(a, b) => d(20, &[h(a), h(b)]), Ashr(a, b) => d(21, &[h(a), h(b)]), Concat(a, b) => d(22, &[h(a), h(b)]),
            Extract(x, y, a) => d(23, &[*x as u64, *y as u64, h(a)]), Zext(w, a) => d(24, &[*w as u64, h(a)]), Sext(w, a) => d(25, &[*w as u64, h(a)]),
            FMin(v) => d(26, &v.iter().map(h).collect::<Vec<_>>()), FMax(v) => d(27, &v.iter().map(h).collect::<Vec<_>>()),
            FNeg(a) => d(28, &[h(a)]), FAbs(a) => d(29, &[h(a)]), FAdd(a, b) => d(30, &[h(a), h(b)]), FMul(a, b) => d(31, &[h(a), h(b)]), FDiv(a, b) => d(32, &[h(a), h(b)]),
            FRem(a, b) => d(33, &[h(a), h(b)]), FSqrt(a) => d(34, &[h(a)]), FRound(m, a) => d(35, &[*m as u64, h(a)]), FExt(a) => d(36, &[h(a)]), FTrunc(a) => d(37, &[h(a)]),
            FLt(a, b) => d(38, &[h(a), h(b)]), FLe(a, b) => d(39, &[h(a), h(b)]), FEq(a, b) => d(40, &[h(a), h(b)]), FNan(a) => d(41, &[h(a)]),
            F2U(w, a) => d(42, &[*w as u64, h(a)]), F2S(w, a) => d(43, &[*w as u64, h(a)]), U2F(w, a) => d(44, &[*w as u64, h(a)]), S2F(w, a) => d(45, &[*w as u64, h(a)]),
        }
    }

    fn mkiv(&self, n: &N, w: u8) -> Iv {
        use N::*;
        if w != 32 && w != 64 { return FULL; }
        let pt = |v: f64| if v.is_nan() { Iv { lo: f64::INFINITY, hi: f64::NEG_INFINITY, nan: true } } else { Iv { lo: v, hi: v, nan: false } };
        let hull = |a: Iv, b: Iv| Iv { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), nan: a.nan || b.nan };
        match n {
            C(w, v) => pt(fval(*w, *v)),
            FVar(_, i) => { let v = &self.vars[*i as usize]; Iv { lo: v.lo, hi: v.hi, nan: false } }
            Ite(_, a, b) => hull(self.iv(*a), self.iv(*b)),
            FMin(v) => {
                let mut r = self.iv(v[0]);
                for x in v.iter() { let y = self.iv(*x); r = Iv { lo: r.lo.min(y.lo), hi: r.hi.min(y.hi), nan: false }; }
                r
            }
            FMax(v) => {
                let mut r = self.iv(v[0]);
                for x in v.iter() { let y = self.iv(*x); r = Iv { lo: r.lo.max(y.lo), hi: r.hi.max(y.hi), nan: false }; }
                r
            }
            FNeg(a) => { let a = self.iv(*a); Iv { lo: -a.hi, hi: -a.lo, nan: a.nan } }
            FAbs(a) => {
                let a = self.iv(*a);
                let lo = if a.lo > 0.0 { a.lo } else if a.hi < 0.0 { -a.hi } else { 0.0 };
                Iv { lo, hi: a.lo.abs().max(a.hi.abs()), nan: a.nan }
            }
            FAdd(a, b) => {
                let (a, b) = (self.iv(*a), self.iv(*b));
                if a.lo > a.hi || b.lo > b.hi { return FULL; }
                let add = |x: f64, y: f64, d: f64| { let r = rnd(w, x + y); if r.is_nan() { d } else { r } };
                let nan = a.nan || b.nan || (a.hi == f64::INFINITY && b.lo == f64::NEG_INFINITY) || (b.hi == f64::INFINITY && a.lo == f64::NEG_INFINITY);
                Iv { lo: add(a.lo, b.lo, f64::NEG_INFINITY), hi: add(a.hi, b.hi, f64::INFINITY), nan }
            }
            FMul(x, y) => {
                let (a, b) = (self.iv(*x), self.iv(*y));
                if a.lo > a.hi || b.lo > b.hi { return FULL; }
                let mut lo = f64::INFINITY;
                let mut hi = f64::NEG_INFINITY;
                for p in [a.lo, a.hi] { for q in [b.lo, b.hi] {
                    let r = rnd(w, p * q);
                    let r = if r.is_nan() { 0.0 } else { r };
                    lo = lo.min(r); hi = hi.max(r);
                } }
                if x == y { lo = lo.max(0.0); }
                let hz = |i: Iv| i.lo <= 0.0 && i.hi >= 0.0;
                let hi_ = |i: Iv| i.lo == f64::NEG_INFINITY || i.hi == f64::INFINITY;
                Iv { lo, hi, nan: a.nan || b.nan || (x != y && ((hz(a) && hi_(b)) || (hz(b) && hi_(a)))) }
            }
            FDiv(x, y) => {
                let (a, b) = (self.iv(*x), self.iv(*y));
                if a.lo > a.hi || b.lo > b.hi { return FULL; }
                let hi_ = |i: Iv| i.lo == f64::NEG_INFINITY || i.hi == f64::INFINITY;
                let bz = b.lo <= 0.0 && b.hi >= 0.0;
                let az = a.lo <= 0.0 && a.hi >= 0.0;
                let nan = a.nan || b.nan || (az && bz) || (hi_(a) && hi_(b));
                if bz { return Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan }; }
                let mut lo = f64::INFINITY;
                let mut hi = f64::NEG_INFINITY;
                for p in [a.lo, a.hi] { for q in [b.lo, b.hi] {
                    let r = if w == 32 { (p as f32 / q as f32) as f64 } else { p / q };
                    let r = if r.is_nan() { 0.0 } else { r };
                    lo = lo.min(r); hi = hi.max(r);
                } }
                Iv { lo, hi, nan }
            }
            FSqrt(a) => {
                let a = self.iv(*a);
                let s = |v: f64| if w == 32 { (v as f32).sqrt() as f64 } else { v.sqrt() };
                Iv { lo: s(a.lo.max(0.0)), hi: s(a.hi.max(0.0)), nan: a.nan || a.lo < 0.0 }
            }
            FRound(m, a) => {
                let a = self.iv(*a);
                let f = |v: f64| match m { 0 => v.floor(), 1 => v.ceil(), 2 => v.trunc(), 3 => v.round(), _ => v.round_ties_even() };
                Iv { lo: f(a.lo), hi: f(a.hi), nan: a.nan }
            }
            FExt(a) => self.iv(*a),
            FTrunc(a) => { let a = self.iv(*a); Iv { lo: (a.lo as f32) as f64, hi: (a.hi as f32) as f64, nan: a.nan } }
            U2F(w, a) => { let (l, h) = self.ur(*a); let c = |v: u64| if *w == 32 { (v as f32) as f64 } else { v as f64 }; Iv { lo: c(l), hi: c(h), nan: false } }
            S2F(w, a) => {
                let (l, h) = self.ur(*a);
                let aw = self.w(*a);
                let half = umax(aw) >> 1;
                let c = |v: i64| if *w == 32 { (v as f32) as f64 } else { v as f64 };
                if h <= half { Iv { lo: c(l as i64), hi: c(h as i64), nan: false } } else { Iv { lo: c(-(half as i64) - 1), hi: c(half as i64), nan: false } }
            }
            _ => FULL,
        }
    }

    fn mkur(&self, n: &N, w: u8) -> (u64, u64) {
        use N::*;
        let full = (0, umax(w));
        if w > 64 { return (0, u64::MAX); }
        let m = umax(w);
        match n {
            C(_, v) => (*v as u64, *v as u64),
            Var(_, i) => { let v = &self.vars[*i as usize]; (v.ulo, v.uhi) }
            Ite(_, a, b) => { let (a, b) = (self.ur(*a), self.ur(*b)); (a.0.min(b.0), a.1.max(b.1)) }
            Zext(_, a) => if self.w(*a) <= 64 { self.ur(*a) } else { full },
            Sext(_, a) => { let r = self.ur(*a); if r.1 <= umax(self.w(*a)) >> 1 { r } else { full } }
            And(a, b) => (0, self.ur(*a).1.min(self.ur(*b).1)),
            Add(a, b) => {
                let (a, b) = (self.ur(*a), self.ur(*b));
                match (a.0.checked_add(b.0), a.1.checked_add(b.1)) { (Some(l), Some(h)) if h <= m => (l, h), _ => full }
            }
            Sub(a, b) => { let (a, b) = (self.ur(*a), self.ur(*b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
            Mul(a, b) => {
                let (a, b) = (self.ur(*a), self.ur(*b));
                match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => full }
            }
            Shl(a, b) => {
                let (a, b) = (self.ur(*a), self.ur(*b));
                if b.1 < 64 && (a.1 as u128) << b.1 <= m as u128 { (a.0 << b.0, a.1 << b.1) } else { full }
            }
            Lshr(a, b) => { let (a, b) = (self.ur(*a), self.ur(*b)); if b.1 < 64 { (a.0 >> b.1, a.1 >> b.0) } else { (0, a.1) } }
            Urem(_, b) => { let b = self.ur(*b); if b.0 > 0 { (0, b.1 - 1) } else { full } }
            Udiv(a, b) => { let (a, b) = (self.ur(*a), self.ur(*b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
            Extract(h, 0, a) if self.w(*a) <= 64 => { let r = self.ur(*a); if r.1 <= umax(h + 1) { r } else { full } }
            Or(a, b) => { let (a, b) = (self.ur(*a), self.ur(*b)); let h = a.1 | b.1; let bits = 64 - h.leading_zeros(); (a.0.max(b.0), if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 }) }
            F2U(w, a) => {
                let i = self.iv(*a);
                let cl = |v: f64| -> u64 { let x = if v.is_nan() { 0.0 } else { v.trunc() }; let mx = umax(*w); if x <= 0.0 { 0 } else if x >= mx as f64 { mx } else { x as u64 } };
                (if i.nan { 0 } else { cl(i.lo) }, if i.lo > i.hi { 0 } else { cl(i.hi) })
            }
            F2S(w, a) => {
                let i = self.iv(*a);
                if i.lo >= 0.0 || (i.lo > -1.0) {
                    let mx = umax(*w) >> 1;
                    let cl = |v: f64| -> u64 { let x = v.trunc(); if x <= 0.0 { 0 } else if x >= mx as f64 { mx } else { x as u64 } };
                    (if i.nan { 0 } else { cl(i.lo) }, cl(i.hi))
                } else { full }
            }
            _ => full,
        }
    }

    pub fn c(&mut self, w: u8, v: u128) -> T { let v = v & mask(w); self.mk(N::C(w, v)) }
    pub fn b(&self, v: bool) -> T { v as T }

    pub fn new_var(&mut self, key: u64, w: u8, float: bool, lo: f64, hi: f64, ulo: u64, uhi: u64) -> u32 {
        self.vars.push(VarInfo { key, w, float, lo, hi, ulo, uhi });
        self.vars.len() as u32 - 1
    }
    pub fn var(&mut self, id: u32) -> T {
        let v = &self.vars[id as usize];
        let n = if v.float { N::FVar(v.w, id) } else { N::Var(v.w, id) };
        self.mk(n)
    }

    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(v) = self.konst(a) { return self.c(w, !v); }
        if let N::Not(x) = *self.n(a) { return x; }
        self.mk(N::Not(a))
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(w, x & y),
            (_, Some(y)) => {
                if y == 0 { return b; }
                if y == mask(w) { return a; }
                // low mask: zext(extract)
                if (y + 1).is_power_of_two() {
                    let k = (y + 1).trailing_zeros() as u8;
                    if self.w(a) <= 64 && self.ur(a).1 as u128 <= y { return a; }
                    let e = self.extract(k - 1, 0, a);
                    return self.zext(w, e);
                }
            }
            _ => {}
        }
        if w == 1 {
            let na = self.not(a);
            if na == b { return Self::FALSE; }
        }
        let (a, b) = if self.h(a) < self.h(b) { (a, b) } else { (b, a) };
        self.mk(N::And(a, b))
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(w, x | y),
            (_, Some(y)) => {
                if y == 0 { return a; }
                if y == mask(w) { return b; }
            }
            _ => {}
        }
        if w == 1 {
            let na = self.not(a);
            if na == b { return Self::TRUE; }
        } else if let Some(r) = self.or_concat(a, b) { return r; }
        let (a, b) = if self.h(a) < self.h(b) { (a, b) } else { (b, a) };
        self.mk(N::Or(a, b))
    }
    /// (zext lo) | (zext hi << k)  ->  concat
    fn or_concat(&mut self, a: T, b: T) -> Option<T> {
        for (x, y) in [(a, b), (b, a)] {
            if let N::Shl(h, k) = *self.n(x) {
                if let (N::Zext(w, hi), Some(k)) = (self.n(h).clone(), self.konst(k)) {
                    let lo = match *self.n(y) { N::Zext(_, lo) => lo, _ => continue };
                    let k = k as u8;
                    if self.w(lo) <= k && self.w(hi) + k <= w {
                        let lo = self.zext(k, lo);
                        let c = self.concat(hi, lo);
                        return Some(self.zext(w, c));
                    }
                }
            }
        }
        None
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.c(w, 0); }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        match (self.konst(a), self.konst(b)) {
            (Some(x), Some(y)) => return self.c(w, x ^ y),
            (_, Some(y)) => {
                if y == 0 { return a; }
                if y == mask(w) { return self.not(a); }
                if (w == 32 || w == 64) && y == 1u128 << (w - 1) && self.is_fl(a) { return self.fneg(a); }
            }
            _ => {}
        }
        let (a, b) = if self.h(a) < self.h(b) { (a, b) } else { (b, a) };
        self.mk(N::Xor(a, b))
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == Self::TRUE || a == b { return a; }
        if c == Self::FALSE { return b; }
        if let N::Not(x) = *self.n(c) { return self.ite(x, b, a); }
        if self.w(a) == 1 {
            if a == Self::TRUE { return self.or(c, b); }
            if a == Self::FALSE { let nc = self.not(c); return self.and(nc, b); }
            if b == Self::FALSE { return self.and(c, a); }
            if b == Self::TRUE { let nc = self.not(c); return self.or(nc, a); }
        }
        if let N::Ite(c2, x, _) = *self.n(a) { if c2 == c { return self.ite(c, x, b); } }
        if let N::Ite(c2, _, y) = *self.n(b) { if c2 == c { return self.ite(c, a, y); } }
        // float min / max
        match *self.n(c) {
            N::FLt(x, y) | N::FLe(x, y) => {
                let strict_nan = !self.iv(x).nan && !self.iv(y).nan;
                if strict_nan {
                    if x == a && y == b { return self.fminmax(false, &[a, b]); }
                    if x == b && y == a { return self.fminmax(true, &[a, b]); }
                }
            }
            // unsigned/signed min stay as ite
            _ => {}
        }
        if let N::Eq(x, y) = *self.n(c) {
            // ite(x==k, k, x) = x
            if (x == a && y == b) || (x == b && y == a) { return b; }
        }
        if let (N::Zext(w1, x), Some(k)) = (self.n(a).clone(), self.konst(b)) {
            let xw = self.w(x);
            if k <= mask(xw) { let kk = self.c(xw, k); let r = self.ite(c, x, kk); return self.zext(w1, r); }
        }
        if let (N::Zext(w1, x), Some(k)) = (self.n(b).clone(), self.konst(a)) {
            let xw = self.w(x);
            if k <= mask(xw) { let kk = self.c(xw, k); let r = self.ite(c, kk, x); return self.zext(w1, r); }
        }
        if let (N::Zext(w1, x), N::Zext(_, y)) = (self.n(a).clone(), self.n(b).clone()) {
            if self.w(x) == self.w(y) { let r = self.ite(c, x, y); return self.zext(w1, r); }
        }
        self.mk(N::Ite(c, a, b))
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return Self::TRUE; }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.b(x == y); }
        if w == 1 {
            if b == Self::TRUE { return a; }
            if b == Self::FALSE { return self.not(a); }
            let na = self.not(a);
            if na == b { return Self::FALSE; }
        }
        if let Some(y) = self.konst(b) {
            if w <= 64 { let r = self.ur(a); if (y as u64) < r.0 || (y as u64) > r.1 { return Self::FALSE; } }
            match self.n(a).clone() {
                N::Zext(_, x) => {
                    let xw = self.w(x);
                    if y > mask(xw) { return Self::FALSE; }
                    let k = self.c(xw, y);
                    return self.eq(x, k);
                }
                N::Add(x, k) => if let Some(k) = self.konst(k) { let kk = self.c(w, y.wrapping_sub(k)); return self.eq(x, kk); },
                N::Not(x) => { let kk = self.c(w, !y); return self.eq(x, kk); }
                N::Ite(c, p, q) => {
                    let (kp, kq) = (self.konst(p), self.konst(q));
                    if kp.is_some() || kq.is_some() {
                        let e1 = self.eq(p, b);
                        let e2 = self.eq(q, b);
                        return self.ite(c, e1, e2);
                    }
                }
                N::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kl = self.c(lw, y);
                    let kh = self.c(hw, y >> lw);
                    let e1 = self.eq(h, kh);
                    let e2 = self.eq(l, kl);
                    return self.and(e1, e2);
                }
                _ => {}
            }
        } else if w <= 64 {
            let (r, s) = (self.ur(a), self.ur(b));
            if r.1 < s.0 || s.1 < r.0 { return Self::FALSE; }
            if let (N::Zext(_, x), N::Zext(_, y)) = (self.n(a).clone(), self.n(b).clone()) { if self.w(x) == self.w(y) { return self.eq(x, y); } }
            if let (N::Add(x, k), N::Add(y, l)) = (self.n(a).clone(), self.n(b).clone()) { if k == l { return self.eq(x, y); } }
        }
        let (a, b) = if self.h(a) < self.h(b) { (a, b) } else { (b, a) };
        self.mk(N::Eq(a, b))
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return Self::FALSE; }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.b(x < y); }
        let w = self.w(a);
        if w <= 64 {
            let (r, s) = (self.ur(a), self.ur(b));
            if r.1 < s.0 { return Self::TRUE; }
            if r.0 >= s.1 { return Self::FALSE; }
            // a + b < a only on overflow
            if let N::Add(x, y) = *self.n(a) {
                if x == b || y == b { let (p, q) = (self.ur(x), self.ur(y)); if p.1.checked_add(q.1).map_or(false, |h| h <= umax(w)) { return Self::FALSE; } }
            }
        }
        if let (N::Zext(_, x), N::Zext(_, y)) = (self.n(a).clone(), self.n(b).clone()) { if self.w(x) == self.w(y) { return self.ult(x, y); } }
        if let (N::Zext(_, x), Some(k)) = (self.n(a).clone(), self.konst(b)) {
            let xw = self.w(x);
            if k > mask(xw) { return Self::TRUE; }
            let kk = self.c(xw, k);
            return self.ult(x, kk);
        }
        if let (Some(k), N::Zext(_, x)) = (self.konst(a), self.n(b).clone()) {
            let xw = self.w(x);
            if k >= mask(xw) { return Self::FALSE; }
            let kk = self.c(xw, k);
            return self.ult(kk, x);
        }
        if self.konst(b).is_some() {
            if let N::Ite(c, p, q) = *self.n(a) { if self.konst(p).is_some() || self.konst(q).is_some() {
                let e1 = self.ult(p, b); let e2 = self.ult(q, b); return self.ite(c, e1, e2); } }
        }
        if self.konst(a).is_some() {
            if let N::Ite(c, p, q) = *self.n(b) { if self.konst(p).is_some() || self.konst(q).is_some() {
                let e1 = self.ult(a, p); let e2 = self.ult(a, q); return self.ite(c, e1, e2); } }
        }
        self.mk(N::Ult(a, b))
    }
    pub fn ule(&mut self, a: T, b: T) -> T { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return Self::FALSE; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.b(sx(x, w) < sx(y, w)); }
        if w <= 64 {
            let half = umax(w) >> 1;
            let (r, s) = (self.ur(a), self.ur(b));
            let (rn, sn) = (r.1 <= half, s.1 <= half);
            if rn && sn { return self.ult(a, b); }
            let (rneg, sneg) = (r.0 > half, s.0 > half);
            if rneg && sn { return Self::TRUE; }
            if rn && sneg { return Self::FALSE; }
        }
        if let (N::Sext(_, x), N::Sext(_, y)) = (self.n(a).clone(), self.n(b).clone()) { if self.w(x) == self.w(y) { return self.slt(x, y); } }
        if self.konst(b).is_some() {
            if let N::Ite(c, p, q) = *self.n(a) { if self.konst(p).is_some() || self.konst(q).is_some() {
                let e1 = self.slt(p, b); let e2 = self.slt(q, b); return self.ite(c, e1, e2); } }
        }
        if self.konst(a).is_some() {
            if let N::Ite(c, p, q) = *self.n(b) { if self.konst(p).is_some() || self.konst(q).is_some() {
                let e1 = self.slt(a, p); let e2 = self.slt(a, q); return self.ite(c, e1, e2); } }
        }
        self.mk(N::Slt(a, b))
    }
    pub fn sle(&mut self, a: T, b: T) -> T { let x = self.slt(b, a); self.not(x) }

    /// apply a binary function to constants hidden under a small ite tree
    fn push_ite2(&mut self, a: T, b: T, f: fn(&mut Store, T, T) -> T) -> Option<T> {
        if self.konst(b).is_some() {
            if let N::Ite(c, p, q) = *self.n(a) {
                if self.konst(p).is_some() && (self.konst(q).is_some() || matches!(self.n(q), N::Ite(..))) || self.konst(q).is_some() && matches!(self.n(p), N::Ite(..)) {
                    let x = f(self, p, b);
                    let y = f(self, q, b);
                    return Some(self.ite(c, x, y));
                }
            }
        }
        None
    }

    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.konst(b) {
            if let Some(x) = self.konst(a) { return self.c(w, x.wrapping_add(y)); }
            if y == 0 { return a; }
            if let N::Add(p, k) = *self.n(a) { if let Some(k) = self.konst(k) { let kk = self.c(w, k.wrapping_add(y)); return self.add(p, kk); } }
            if let Some(r) = self.push_ite2(a, b, Store::add) { return r; }
        }
        if let N::Add(p, k) = *self.n(a) { if self.konst(k).is_some() && self.konst(b).is_none() { let s = self.add(p, b); return self.add(s, k); } }
        if let N::Add(p, k) = *self.n(b) { if self.konst(k).is_some() { let s = self.add(a, p); return self.add(s, k); } }
        let (a, b) = if self.konst(b).is_none() && self.h(b) < self.h(a) { (b, a) } else { (a, b) };
        self.mk(N::Add(a, b))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.c(w, 0); }
        if let Some(y) = self.konst(b) { let k = self.c(w, 0u128.wrapping_sub(y)); return self.add(a, k); }
        if let N::Add(p, k) = *self.n(a) {
            if p == b { return k; }
            if k == b { return p; }
            if let N::Add(q, l) = *self.n(b) { if p == q { return self.sub(k, l); } }
        }
        self.mk(N::Sub(a, b))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.konst(b) {
            if let Some(x) = self.konst(a) { return self.c(w, x.wrapping_mul(y)); }
            if y == 0 { return b; }
            if y == 1 { return a; }
            if let Some(r) = self.push_ite2(a, b, Store::mul) { return r; }
        }
        let (a, b) = if self.konst(b).is_none() && self.h(b) < self.h(a) { (b, a) } else { (a, b) };
        self.mk(N::Mul(a, b))
    }
    pub fn div(&mut self, op: u8, a: T, b: T) -> T {
        // 0 udiv 1 sdiv 2 urem 3 srem
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            if y != 0 {
                let v = match op {
                    0 => x / y,
                    2 => x % y,
                    1 => sx(x, w).wrapping_div(sx(y, w)) as u128,
                    _ => sx(x, w).wrapping_rem(sx(y, w)) as u128,
                };
                return self.c(w, v);
            }
        }
        if let Some(y) = self.konst(b) {
            if y.is_power_of_two() {
                let k = y.trailing_zeros() as u128;
                if op == 0 { let kk = self.c(w, k); return self.lshr(a, kk); }
                if op == 2 { let m = self.c(w, y - 1); return self.and(a, m); }
            }
        }
        self.mk(match op { 0 => N::Udiv(a, b), 1 => N::Sdiv(a, b), 2 => N::Urem(a, b), _ => N::Srem(a, b) })
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k >= w as u128 { return self.c(w, 0); }
            if k == 0 { return a; }
            if let Some(x) = self.konst(a) { return self.c(w, x << k); }
            if let Some(r) = self.push_ite2(a, b, Store::shl) { return r; }
        }
        self.mk(N::Shl(a, b))
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k >= w as u128 { return self.c(w, 0); }
            if k == 0 { return a; }
            if let Some(x) = self.konst(a) { return self.c(w, x >> k); }
            let e = self.extract(w - 1, k as u8, a);
            return self.zext(w, e);
        }
        self.mk(N::Lshr(a, b))
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k == 0 { return a; }
            if let Some(x) = self.konst(a) { return self.c(w, (sx(x, w) >> (k.min(127) as u32)) as u128); }
            if w <= 64 && self.ur(a).1 <= umax(w) >> 1 { return self.lshr(a, b); }
        }
        self.mk(N::Ashr(a, b))
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.konst(h), self.konst(l)) { return self.c(hw + lw, x << lw | y); }
        if self.konst(h) == Some(0) { return self.zext(hw + lw, l); }
        if let (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && l1 == h2 + 1 { return self.extract(h1, l2, x); }
        }
        if let N::Concat(hh, hl) = *self.n(h) {
            // try to join hl with l
            if let (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) = (self.n(hl).clone(), self.n(l).clone()) {
                if x == y && l1 == h2 + 1 { let j = self.extract(h1, l2, x); return self.concat(hh, j); }
            }
        }
        self.mk(N::Concat(h, l))
    }
    pub fn extract(&mut self, hi: u8, lo: u8, a: T) -> T {
        let w = self.w(a);
        if lo == 0 && hi == w - 1 { return a; }
        if let Some(x) = self.konst(a) { return self.c(hi - lo + 1, x >> lo); }
        match *self.n(a) {
            N::Extract(_, l2, x) => return self.extract(hi + l2, lo + l2, x),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if hi < lw { return self.extract(hi, lo, l); }
                if lo >= lw { return self.extract(hi - lw, lo - lw, h); }
                let x = self.extract(hi - lw, 0, h);
                let y = self.extract(lw - 1, lo, l);
                return self.concat(x, y);
            }
            N::Zext(_, x) => {
                let xw = self.w(x);
                if hi < xw { return self.extract(hi, lo, x); }
                if lo >= xw { return self.c(hi - lo + 1, 0); }
                let e = self.extract(xw - 1, lo, x);
                return self.zext(hi - lo + 1, e);
            }
            N::Sext(_, x) => {
                let xw = self.w(x);
                if hi < xw { return self.extract(hi, lo, x); }
                if lo == 0 { return self.sext(hi + 1, x); }
            }
            N::Ite(c, x, y) => {
                if self.konst(x).is_some() || self.konst(y).is_some() || matches!(self.n(x), N::Concat(..) | N::Zext(..)) || matches!(self.n(y), N::Concat(..) | N::Zext(..)) {
                    let p = self.extract(hi, lo, x);
                    let q = self.extract(hi, lo, y);
                    return self.ite(c, p, q);
                }
            }
            N::And(x, y) | N::Or(x, y) | N::Xor(x, y) if lo == 0 || self.konst(y).is_some() || self.konst(x).is_some() => {
                let n = self.n(a).clone();
                let p = self.extract(hi, lo, x);
                let q = self.extract(hi, lo, y);
                return match n { N::And(..) => self.and(p, q), N::Or(..) => self.or(p, q), _ => self.xor(p, q) };
            }
            N::Shl(x, k) => if let Some(k) = self.konst(k) {
                let k = k as u8;
                if lo >= k { return self.extract(hi - k, lo - k, x); }
                if hi < k { return self.c(hi - lo + 1, 0); }
            },
            N::Add(x, y) if lo == 0 && hi <= 63 => {
                let p = self.extract(hi, 0, x);
                let q = self.extract(hi, 0, y);
                return self.add(p, q);
            }
            N::Mul(x, y) if lo == 0 && hi <= 63 => {
                let p = self.extract(hi, 0, x);
                let q = self.extract(hi, 0, y);
                return self.mul(p, q);
            }
            _ => {}
        }
        self.mk(N::Extract(hi, lo, a))
    }
    pub fn zext(&mut self, w: u8, a: T) -> T {
        if self.w(a) == w { return a; }
        if let Some(x) = self.konst(a) { return self.c(w, x); }
        if let N::Zext(_, x) = *self.n(a) { return self.zext(w, x); }
        self.mk(N::Zext(w, a))
    }
    pub fn sext(&mut self, w: u8, a: T) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.konst(a) { return self.c(w, sx(x, aw) as u128); }
        if let N::Sext(_, x) = *self.n(a) { return self.sext(w, x); }
        if aw <= 64 && self.ur(a).1 <= umax(aw) >> 1 { return self.zext(w, a); }
        self.mk(N::Sext(w, a))
    }

    // ---- floats ----
    pub fn fneg(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.konst(a) { return self.c(w, x ^ (1u128 << (w - 1))); }
        if let Some(&r) = self.negmemo.get(&a) { return r; }
        let r = self.fneg1(a, w);
        self.negmemo.insert(a, r);
        r
    }
    fn fneg1(&mut self, a: T, _w: u8) -> T {
        match self.n(a).clone() {
            N::FNeg(x) => return x,
            N::FMin(v) => { let v: Vec<T> = v.iter().map(|&x| self.fneg(x)).collect(); return self.fminmax(true, &v); }
            N::FMax(v) => { let v: Vec<T> = v.iter().map(|&x| self.fneg(x)).collect(); return self.fminmax(false, &v); }
            N::Ite(c, x, y) if self.is_fl(a) => { let p = self.fneg(x); let q = self.fneg(y); return self.ite(c, p, q); }
            _ => {}
        }
        self.mk(N::FNeg(a))
    }
    pub fn fabs(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.konst(a) { return self.c(w, x & mask(w - 1)); }
        match *self.n(a) { N::FAbs(_) => return a, N::FNeg(x) => return self.fabs(x), _ => {} }
        self.mk(N::FAbs(a))
    }
    /// min/max of non-NaN values, as a set of leaves
    pub fn fminmax(&mut self, max: bool, xs: &[T]) -> T {
        let w = self.w(xs[0]);
        let mut v: Vec<T> = vec![];
        let mut k: Option<u128> = None;
        for &x in xs {
            let sub: Vec<T> = match self.n(x) { N::FMin(s) if !max => s.to_vec(), N::FMax(s) if max => s.to_vec(), _ => vec![x] };
            for y in sub {
                if let Some(c) = self.konst(y) {
                    k = Some(match k { None => c, Some(o) => { let (a, b) = (fval(w, o), fval(w, c)); if (b < a) != max && b != a { c } else { o } } });
                } else { v.push(y); }
            }
        }
        v.sort_by_key(|&t| self.h(t));
        v.dedup();
        // interval pruning
        let mut best = if max { f64::NEG_INFINITY } else { f64::INFINITY };
        if let Some(c) = k { best = fval(w, c); }
        for &x in &v { let i = self.iv(x); best = if max { best.max(i.lo) } else { best.min(i.hi) }; }
        let kv = k.map(|c| fval(w, c));
        let vv: Vec<T> = v.iter().cloned().filter(|&x| { let i = self.iv(x); if max { !(i.hi < best) } else { !(i.lo > best) } }).collect();
        v = vv;
        if let Some(c) = kv {
            let useless = !v.is_empty() && v.iter().any(|&x| { let i = self.iv(x); if max { i.lo >= c } else { i.hi <= c } });
            if !useless { let c = self.c(w, k.unwrap()); v.push(c); v.sort_by_key(|&t| self.h(t)); }
        }
        if v.len() == 1 { return v[0]; }
        let v = Rc::new(v);
        self.mk(if max { N::FMax(v) } else { N::FMin(v) })
    }
    pub fn fadd(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { let r = fop2(0, w, x, y); return self.c(w, r); }
        // x + (-0.0) = x exactly
        for (x, y) in [(a, b), (b, a)] { if self.konst(y) == Some(1u128 << (w - 1)) { return x; } }
        if let (N::FNeg(x), N::FNeg(y)) = (self.n(a).clone(), self.n(b).clone()) { let s = self.fadd(x, y); return self.fneg(s); }
        let (a, b) = if self.h(b) < self.h(a) { (b, a) } else { (a, b) };
        self.mk(N::FAdd(a, b))
    }
    pub fn fsub(&mut self, a: T, b: T) -> T { let n = self.fneg(b); self.fadd(a, n) }
    pub fn fmul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { let r = fop2(1, w, x, y); return self.c(w, r); }
        let one = fbits(w, 1.0);
        for (x, y) in [(a, b), (b, a)] {
            if self.konst(y) == Some(one) { return x; }
            if self.konst(y) == Some(one | 1u128 << (w - 1)) { return self.fneg(x); }
        }
        if let N::FNeg(x) = *self.n(a) { let s = self.fmul(x, b); return self.fneg(s); }
        if let N::FNeg(y) = *self.n(b) { let s = self.fmul(a, y); return self.fneg(s); }
        let (a, b) = if self.h(b) < self.h(a) { (b, a) } else { (a, b) };
        self.mk(N::FMul(a, b))
    }
    pub fn fdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { let r = fop2(2, w, x, y); return self.c(w, r); }
        let one = fbits(w, 1.0);
        if self.konst(b) == Some(one) { return a; }
        if let Some(k) = self.konst(b) {
            // division by a power of two is multiplication by its exact reciprocal
            let v = fval(w, k);
            if v.abs() >= 1e-30 && v.abs() <= 1e30 && v.abs().log2().fract() == 0.0 && (2f64.powi(v.abs().log2() as i32)) == v.abs() {
                let r = self.c(w, fbits(w, 1.0 / v));
                return self.fmul(a, r);
            }
        }
        if let N::FNeg(x) = *self.n(a) { let s = self.fdiv(x, b); return self.fneg(s); }
        if let N::FNeg(y) = *self.n(b) { let s = self.fdiv(a, y); return self.fneg(s); }
        self.mk(N::FDiv(a, b))
    }
    pub fn frem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { let r = fop2(3, w, x, y); return self.c(w, r); }
        self.mk(N::FRem(a, b))
    }
    pub fn fsqrt(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.konst(a) {
            let r = if w == 32 { f32::from_bits(x as u32).sqrt().to_bits() as u128 } else { f64::from_bits(x as u64).sqrt().to_bits() as u128 };
            return self.c(w, r);
        }
        self.mk(N::FSqrt(a))
    }
    pub fn fround(&mut self, m: u8, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.konst(a) {
            let v = fval(w, x);
            let r = match m { 0 => v.floor(), 1 => v.ceil(), 2 => v.trunc(), 3 => v.round(), _ => v.round_ties_even() };
            let b = fbits(w, r);
            return self.c(w, b);
        }
        self.mk(N::FRound(m, a))
    }
    pub fn fext(&mut self, a: T) -> T {
        if let Some(x) = self.konst(a) { return self.c(64, (f32::from_bits(x as u32) as f64).to_bits() as u128); }
        self.mk(N::FExt(a))
    }
    pub fn ftrunc(&mut self, a: T) -> T {
        if let Some(x) = self.konst(a) { return self.c(32, (f64::from_bits(x as u64) as f32).to_bits() as u128); }
        if let N::FExt(x) = *self.n(a) { return x; }
        self.mk(N::FTrunc(a))
    }
    pub fn fnan(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.konst(a) { return self.b(fval(w, x).is_nan()); }
        if !self.iv(a).nan { return Self::FALSE; }
        if let N::FNeg(x) | N::FAbs(x) = *self.n(a) { return self.fnan(x); }
        if let N::Ite(c, x, y) = *self.n(a) { let p = self.fnan(x); let q = self.fnan(y); return self.ite(c, p, q); }
        self.mk(N::FNan(a))
    }
    fn fset<'a>(&self, a: &'a N, max: bool) -> Option<&'a Vec<T>> {
        match a { N::FMin(v) if !max => Some(v), N::FMax(v) if max => Some(v), _ => None }
    }
    /// syntactic proof of a <= b (both non-NaN)
    fn syn_le(&self, a: T, b: T) -> bool {
        if a == b { return true; }
        let (na, nb) = (self.n(a), self.n(b));
        let (ia, ib) = (self.iv(a), self.iv(b));
        if ia.hi <= ib.lo { return true; }
        if let Some(v) = self.fset(na, false) {
            if v.contains(&b) { return true; }
            if let Some(u) = self.fset(nb, false) { return u.iter().all(|y| v.iter().any(|&x| self.syn_le(x, *y))); }
            if v.iter().any(|&x| self.syn_le(x, b)) { return true; }
        }
        if let Some(v) = self.fset(nb, true) {
            if v.contains(&a) { return true; }
            if let Some(u) = self.fset(na, true) { return u.iter().all(|y| v.iter().any(|&x| self.syn_le(*y, x))); }
            if v.iter().any(|&x| self.syn_le(a, x)) { return true; }
        }
        // a = x + c with c <= 0 and x <= b ; b = x + c with c >= 0 and a <= x
        if let N::FAdd(x, y) = *na {
            if !self.iv(a).nan {
                if self.iv(y).hi <= 0.0 && self.syn_le(x, b) { return true; }
                if self.iv(x).hi <= 0.0 && self.syn_le(y, b) { return true; }
                if let N::FAdd(p, q) = *nb {
                    if x == p && self.syn_le(y, q) || y == q && self.syn_le(x, p) || x == q && self.syn_le(y, p) || y == p && self.syn_le(x, q) { return true; }
                }
            }
        }
        if let N::FAdd(x, y) = *nb {
            if self.iv(y).lo >= 0.0 && self.syn_le(a, x) { return true; }
            if self.iv(x).lo >= 0.0 && self.syn_le(a, y) { return true; }
        }
        if let (N::FNeg(x), N::FNeg(y)) = (na, nb) { return self.syn_le(*y, *x); }
        false
    }
    pub fn flt(&mut self, a: T, b: T) -> T {
        if a == b { return Self::FALSE; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.b(fval(w, x) < fval(w, y)); }
        let (ia, ib) = (self.iv(a), self.iv(b));
        if ia.lo >= ib.hi { return Self::FALSE; }
        if !ia.nan && !ib.nan {
            if ia.hi < ib.lo { return Self::TRUE; }
            if self.syn_le(b, a) { return Self::FALSE; }
            // canonical form: a < b  ==  !(b <= a)
            let x = self.fle_raw(b, a);
            return self.not(x);
        }
        self.fcmp_push(a, b, true)
    }
    fn fcmp_push(&mut self, a: T, b: T, lt: bool) -> T {
        if let (N::FNeg(x), N::FNeg(y)) = (self.n(a).clone(), self.n(b).clone()) { return if lt { self.flt(y, x) } else { self.fle(y, x) }; }
        self.mk(if lt { N::FLt(a, b) } else { N::FLe(a, b) })
    }
    fn fle_raw(&mut self, a: T, b: T) -> T {
        if self.syn_le(a, b) { return Self::TRUE; }
        // distribute over min/max sets:  a <= min(S) == all a <= s ;  max(S) <= b == all
        if let N::FMin(v) = self.n(b).clone() {
            let mut r = Self::TRUE;
            for &x in v.iter() { let e = self.fle_raw(a, x); r = self.and(r, e); }
            return r;
        }
        if let N::FMax(v) = self.n(a).clone() {
            let mut r = Self::TRUE;
            for &x in v.iter() { let e = self.fle_raw(x, b); r = self.and(r, e); }
            return r;
        }
        if self.iv(a).lo > self.iv(b).hi { return Self::FALSE; }
        if let (N::FNeg(x), N::FNeg(y)) = (self.n(a).clone(), self.n(b).clone()) { return self.fle_raw(y, x); }
        self.mk(N::FLe(a, b))
    }
    pub fn fle(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.b(fval(w, x) <= fval(w, y)); }
        let (ia, ib) = (self.iv(a), self.iv(b));
        if ia.lo > ib.hi { return Self::FALSE; }
        if !ia.nan && !ib.nan {
            return self.fle_raw(a, b);
        }
        if a == b { let n = self.fnan(a); return self.not(n); }
        self.fcmp_push(a, b, false)
    }
    pub fn feq(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.b(fval(w, x) == fval(w, y)); }
        if a == b { let n = self.fnan(a); return self.not(n); }
        let (ia, ib) = (self.iv(a), self.iv(b));
        if ia.hi < ib.lo || ib.hi < ia.lo { return Self::FALSE; }
        let (a, b) = if self.h(a) < self.h(b) { (a, b) } else { (b, a) };
        self.mk(N::FEq(a, b))
    }
    pub fn f2i(&mut self, signed: bool, w: u8, a: T) -> T {
        let fw = self.w(a);
        if let Some(x) = self.konst(a) { let v = fval(fw, x); let r = Self::f2i_c(signed, w, v); return self.c(w, r); }
        let n = if signed { N::F2S(w, a) } else { N::F2U(w, a) };
        if let N::Ite(c, x, y) = *self.n(a) {
            if self.konst(x).is_some() || self.konst(y).is_some() { let p = self.f2i(signed, w, x); let q = self.f2i(signed, w, y); return self.ite(c, p, q); }
        }
        // exact inverse of a small int-to-float conversion
        if let N::U2F(_, i) = *self.n(a) {
            let lim = if fw == 32 { 1u64 << 24 } else { 1u64 << 53 };
            if self.ur(i).1 <= lim && (self.ur(i).1 as u128) <= mask(w) >> (signed as u8) {
                let iw = self.w(i);
                return if iw < w { self.zext(w, i) } else { self.extract(w - 1, 0, i) };
            }
        }
        self.mk(n)
    }
    pub fn f2i_c(signed: bool, w: u8, v: f64) -> u128 {
        let v = if v.is_nan() { 0.0 } else { v.trunc() };
        if signed {
            let hi = (mask(w) >> 1) as f64;
            let lo = -(hi) - 1.0;
            let r: i128 = if v >= hi { (mask(w) >> 1) as i128 } else if v <= lo { -((mask(w) >> 1) as i128) - 1 } else { v as i128 };
            (r as u128) & mask(w)
        } else if v <= 0.0 { 0 } else if v >= mask(w) as f64 { mask(w) } else { v as u128 }
    }
    pub fn i2f(&mut self, signed: bool, fw: u8, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.konst(a) { let r = Self::i2f_c(signed, fw, w, x); return self.c(fw, r); }
        if let N::Ite(c, x, y) = *self.n(a) { let p = self.i2f(signed, fw, x); let q = self.i2f(signed, fw, y); return self.ite(c, p, q); }
        if let N::Zext(_, x) = *self.n(a) { return self.i2f(false, fw, x); }
        let signed = signed && !(w <= 64 && self.ur(a).1 <= umax(w) >> 1);
        self.mk(if signed { N::S2F(fw, a) } else { N::U2F(fw, a) })
    }
    pub fn i2f_c(signed: bool, fw: u8, w: u8, x: u128) -> u128 {
        if fw == 32 {
            (if signed { sx(x, w) as f32 } else { x as f32 }).to_bits() as u128
        } else {
            (if signed { sx(x, w) as f64 } else { x as f64 }).to_bits() as u128
        }
    }

    /// small set of possible values (over-approximation), for address resolution
    pub fn valset(&mut self, t: T, lim: usize) -> Option<Rc<Vec<u64>>> {
        if self.w(t) > 64 { return None; }
        if let Some(v) = self.konst(t) { return Some(Rc::new(vec![v as u64])); }
        if let Some(r) = self.vs.get(&t) { return r.clone(); }
        let (lo, hi) = self.ur(t);
        let w = self.w(t);
        let small = hi - lo < lim as u64;
        let m = mask(w) as u64;
        let r: Option<Vec<u64>> = match self.n(t).clone() {
            N::Ite(_, a, b) => match (self.valset(a, lim), self.valset(b, lim)) {
                (Some(x), Some(y)) => { let mut v: Vec<u64> = x.iter().chain(y.iter()).cloned().collect(); v.sort(); v.dedup(); Some(v) }
                _ => None,
            },
            N::Zext(_, a) => self.valset(a, lim).map(|v| v.to_vec()),
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::Shl(a, b) | N::And(a, b) | N::Or(a, b) | N::Lshr(a, b) => {
                let n = self.n(t).clone();
                match (self.valset(a, lim), self.valset(b, lim)) {
                    (Some(x), Some(y)) if x.len() * y.len() <= lim * 4 => {
                        let mut v = vec![];
                        for &p in x.iter() { for &q in y.iter() {
                            v.push(match n { N::Add(..) => p.wrapping_add(q), N::Sub(..) => p.wrapping_sub(q), N::Mul(..) => p.wrapping_mul(q), N::And(..) => p & q, N::Or(..) => p | q,
                                N::Shl(..) => if q < 64 { p << q } else { 0 }, _ => if q < 64 { p >> q } else { 0 } } & m);
                        } }
                        v.sort(); v.dedup();
                        Some(v)
                    }
                    _ => None,
                }
            }
            N::Extract(h, 0, a) => self.valset(a, lim).map(|v| { let mm = mask(h + 1) as u64; let mut v: Vec<u64> = v.iter().map(|x| x & mm).collect(); v.sort(); v.dedup(); v }),
            _ => None,
        };
        let r = match r { Some(v) => Some(v), None if small => Some((lo..=hi).collect()), None => None };
        let r = r.filter(|v| v.len() <= lim).map(Rc::new);
        self.vs.insert(t, r.clone());
        r
    }

    /// concrete value of `t` for an assignment of the input variables, with the
    /// real IEEE semantics of every operation
    pub fn eval(&self, root: T, env: &dyn Fn(u32) -> u128, memo: &mut HashMap<T, u128>) -> u128 {
        let mut stack = vec![(root, false)];
        while let Some((t, ready)) = stack.pop() {
            if memo.contains_key(&t) { continue; }
            if let N::C(_, v) = self.n(t) { memo.insert(t, *v); continue; }
            if !ready {
                stack.push((t, true));
                self.kids(t, |k| stack.push((k, false)));
                continue;
            }
            let v = self.eval1(t, env, memo);
            memo.insert(t, v);
        }
        memo[&root]
    }
    pub fn kids(&self, t: T, mut f: impl FnMut(T)) {
        use N::*;
        match self.n(t) {
            C(..) | Var(..) | FVar(..) => {}
            Not(a) | Extract(_, _, a) | Zext(_, a) | Sext(_, a) | FNeg(a) | FAbs(a) | FNan(a) | FSqrt(a) | FRound(_, a) | FExt(a) | FTrunc(a)
            | F2U(_, a) | F2S(_, a) | U2F(_, a) | S2F(_, a) => f(*a),
            And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b) | Add(a, b) | Sub(a, b) | Mul(a, b) | Udiv(a, b) | Sdiv(a, b)
            | Urem(a, b) | Srem(a, b) | Shl(a, b) | Lshr(a, b) | Ashr(a, b) | Concat(a, b) | FLt(a, b) | FLe(a, b) | FEq(a, b)
            | FAdd(a, b) | FMul(a, b) | FDiv(a, b) | FRem(a, b) => { f(*a); f(*b); }
            Ite(c, a, b) => { f(*c); f(*a); f(*b); }
            FMin(v) | FMax(v) => for x in v.iter() { f(*x) },
        }
    }
    pub fn eval1(&self, t: T, env: &dyn Fn(u32) -> u128, memo: &HashMap<T, u128>) -> u128 {
        use N::*;
        let w = self.w(t);
        let m = mask(w);
        let g = |x: &T| memo[x];
        let fw = |x: &T, v: u128| fval(self.w(*x), v);
        match self.n(t) {
            C(_, v) => *v,
            Var(_, i) | FVar(_, i) => env(*i) & m,
            Not(a) => !g(a) & m,
            And(a, b) => g(a) & g(b),
            Or(a, b) => g(a) | g(b),
            Xor(a, b) => g(a) ^ g(b),
            Ite(c, a, b) => if g(c) == 1 { g(a) } else { g(b) },
            Eq(a, b) => (g(a) == g(b)) as u128,
            Ult(a, b) => (g(a) < g(b)) as u128,
            Slt(a, b) => (sx(g(a), self.w(*a)) < sx(g(b), self.w(*b))) as u128,
            Add(a, b) => g(a).wrapping_add(g(b)) & m,
            Sub(a, b) => g(a).wrapping_sub(g(b)) & m,
            Mul(a, b) => g(a).wrapping_mul(g(b)) & m,
            Udiv(a, b) => if g(b) == 0 { m } else { g(a) / g(b) },
            Urem(a, b) => if g(b) == 0 { g(a) } else { g(a) % g(b) },
            Sdiv(a, b) => if g(b) == 0 { m } else { sx(g(a), w).wrapping_div(sx(g(b), w)) as u128 & m },
            Srem(a, b) => if g(b) == 0 { g(a) } else { sx(g(a), w).wrapping_rem(sx(g(b), w)) as u128 & m },
            Shl(a, b) => if g(b) >= w as u128 { 0 } else { g(a) << g(b) & m },
            Lshr(a, b) => if g(b) >= w as u128 { 0 } else { g(a) >> g(b) },
            Ashr(a, b) => (sx(g(a), w) >> (g(b).min(127) as u32)) as u128 & m,
            Concat(a, b) => g(a) << self.w(*b) | g(b),
            Extract(h, l, a) => g(a) >> l & mask(h - l + 1),
            Zext(_, a) => g(a),
            Sext(_, a) => sx(g(a), self.w(*a)) as u128 & m,
            FMin(v) => { let mut r = g(&v[0]); for x in v.iter() { let y = g(x); if fval(w, y) < fval(w, r) { r = y; } } r }
            FMax(v) => { let mut r = g(&v[0]); for x in v.iter() { let y = g(x); if fval(w, y) > fval(w, r) { r = y; } } r }
            FNeg(a) => g(a) ^ 1u128 << (w - 1),
            FAbs(a) => g(a) & mask(w - 1),
            FAdd(a, b) => fop2(0, w, g(a), g(b)),
            FMul(a, b) => fop2(1, w, g(a), g(b)),
            FDiv(a, b) => fop2(2, w, g(a), g(b)),
            FRem(a, b) => fop2(3, w, g(a), g(b)),
            FSqrt(a) => if w == 32 { f32::from_bits(g(a) as u32).sqrt().to_bits() as u128 } else { f64::from_bits(g(a) as u64).sqrt().to_bits() as u128 },
            FRound(k, a) => { let v = fval(w, g(a)); fbits(w, match k { 0 => v.floor(), 1 => v.ceil(), 2 => v.trunc(), 3 => v.round(), _ => v.round_ties_even() }) }
            FExt(a) => (f32::from_bits(g(a) as u32) as f64).to_bits() as u128,
            FTrunc(a) => (f64::from_bits(g(a) as u64) as f32).to_bits() as u128,
            FLt(a, b) => (fw(a, g(a)) < fw(b, g(b))) as u128,
            FLe(a, b) => (fw(a, g(a)) <= fw(b, g(b))) as u128,
            FEq(a, b) => (fw(a, g(a)) == fw(b, g(b))) as u128,
            FNan(a) => fw(a, g(a)).is_nan() as u128,
            F2U(w, a) => Self::f2i_c(false, *w, fw(a, g(a))),
            F2S(w, a) => Self::f2i_c(true, *w, fw(a, g(a))),
            U2F(w, a) => Self::i2f_c(false, *w, self.w(*a), g(a)),
            S2F(w, a) => Self::i2f_c(true, *w, self.w(*a), g(a)),
        }
    }
}
