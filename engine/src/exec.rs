//! Symbolic interpreter for the parsed LLVM IR.
use crate::ll::*;
use crate::term::*;
use crate::fx::HashMap;
use std::rc::Rc;

/// a first-class value: concrete bits (width <= 64), a term, undef, or an aggregate
#[derive(Clone, Debug)]
pub enum V { I(u64), T(T), U, A(Rc<Vec<V>>) }

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub base: u64,
    pub data: Vec<u8>,
    /// 0 uninitialised, 1 concrete, 2 symbolic
    pub tag: Vec<u8>,
    pub sym: Option<Vec<(T, u8)>>,
    pub ro: bool,
    pub heap: bool,
}
impl Obj {
    pub fn new(size: u64, align: u64, heap: bool) -> Obj {
        Obj { size, base: align.max(1), data: vec![0; size as usize], tag: vec![0; size as usize], sym: None, ro: false, heap }
    }
    fn setb(&mut self, o: usize, b: u8) { self.data[o] = b; self.tag[o] = 1; }
    fn sets(&mut self, o: usize, t: T, k: u8) {
        if self.sym.is_none() { self.sym = Some(vec![(0, 0); self.size as usize]); }
        self.sym.as_mut().unwrap()[o] = (t, k);
        self.tag[o] = 2;
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<CFunc>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub next: Option<u32>,
}

/// a function ready to run
pub struct CFunc { pub f: Func, pub idx: u32 }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec { B(bool), I(bool), V(u64) }

#[derive(Clone, Debug)]
pub enum End { Ok, Dead, Panic(String), Mem(String), Err(String) }

pub enum Stop { Fork(T), Conc(T), Assume(T), End(End) }
type R<X> = Result<X, Stop>;

pub struct Wit { pub vals: HashMap<u32, u128>, pub memo: std::cell::RefCell<HashMap<T, u128>> }

/// one thread of the program; the running one keeps its frames in the state
#[derive(Clone)]
pub struct Thr {
    pub frames: Vec<Rc<Frame>>,
    pub done: bool,
    /// blocked until this thread has ended
    pub wait: Option<u32>,
    /// task (unit of the happens-before relation) it runs
    pub task: u32,
    /// the preemption decision of the coming operation is taken
    pub passed: bool,
}
/// who touched a byte: epochs (task << 16 | clock) of the last plain write, two plain
/// reads, two atomic writes and an atomic read
#[derive(Clone, Copy, Default)]
pub struct Cell { w: u32, r: [u32; 2], a: [u32; 2], ar: u32 }

/// fork/join order of tasks and who touched what while tasks are concurrent
#[derive(Clone, Default)]
pub struct Race {
    /// vector clocks
    pub vc: Vec<Rc<Vec<u16>>>,
    pub cur: u32,
    /// tasks that run concurrently to another and are not joined
    pub open: Vec<u32>,
    pub groups: Vec<(u32, Vec<u32>)>,
    pub outer: Vec<u32>,
    pub sh: HashMap<u32, Rc<Vec<Cell>>>,
}

#[derive(Clone)]
pub struct State {
    pub thr: Vec<Thr>,
    pub cur: u32,
    pub npre: u64,
    pub budget: u32,
    pub race: Option<Box<Race>>,
    pub frames: Vec<Rc<Frame>>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub pc: Vec<T>,
    pub facts: HashMap<T, bool>,
    pub cz: HashMap<T, u64>,
    pub log: Vec<Dec>,
    pub replay: usize,
    pub checks: Vec<(T, u32)>,
    pub draws: Vec<u32>,
    pub notes: Vec<(u32, V)>,
    pub wit: Option<Rc<Wit>>,
    pub steps: u64,
    pub nint: u64,
    pub allow_panic: bool,
    pub cov: Vec<u32>,
    /// feasibility of the path condition not decided yet: 1 to do, 2 undecided
    pub todo: u8,
    /// a model of all but the last literal
    pub near: Option<Rc<Wit>>,
}

pub struct Machine {
    pub st: Store,
    pub m: Module,
    pub funcs: HashMap<String, Rc<CFunc>>,
    pub gaddr: HashMap<String, u64>,
    pub fnames: Vec<String>,
    pub faddr: HashMap<String, u64>,
    kc: Vec<Option<V>>,
    pub varmemo: HashMap<(u64, u8, bool, u64, u64, u64, u64), u32>,
    pub fcount: HashMap<u32, u64>,
    pub fidx: Vec<String>,
    pub max_steps: u64,
    pub verbose: bool,
    /// case-split on symbolic addresses and integer selections instead of merging
    pub concrete: bool,
    pub csel: bool,
    pub race: bool,
    pub params: Vec<u64>,
}

const FBASE: u64 = 0x7000_0000;

fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn s64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
fn merr<X>(s: String) -> R<X> { Err(Stop::End(End::Mem(s))) }
fn ierr<X>(s: String) -> R<X> { Err(Stop::End(End::Err(s))) }

impl State {
    pub fn top(&mut self) -> &mut Frame { Rc::make_mut(self.frames.last_mut().unwrap()) }
    pub fn site(&self) -> String { match self.frames.last() { Some(f) => format!("{}:{}:{}", f.f.f.name, f.blk, f.ip), None => String::new() } }
    pub fn stack(&self) -> Vec<String> { self.frames.iter().rev().map(|f| f.f.f.name.clone()).collect() }
    fn newobj(&mut self, o: Obj) -> u64 {
        let base = o.base;
        if !o.heap { if let Some(i) = self.free.pop() { if let Some(r) = &mut self.race { if !r.sh.is_empty() { r.sh.remove(&i); } } self.mem[i as usize] = Some(Rc::new(o)); return ((i as u64) << 32) + base; } }
        self.mem.push(Some(Rc::new(o)));
        ((self.mem.len() as u64 - 1) << 32) + base
    }
    pub fn add_fact(&mut self, st: &Store, c: T, v: bool) {
        if st.konst(c).is_some() { return; }
        if self.facts.insert(c, v) == Some(v) { return; }
        match *st.n(c) {
            N::Not(a) => self.add_fact(st, a, !v),
            N::And(a, b) if v => { self.add_fact(st, a, true); self.add_fact(st, b, true); }
            N::Or(a, b) if !v => { self.add_fact(st, a, false); self.add_fact(st, b, false); }
            N::Eq(a, b) if v => {
                if let Some(k) = st.konst(b) { self.cz.insert(a, k as u64); }
                else if let Some(k) = st.konst(a) { self.cz.insert(b, k as u64); }
            }
            _ => {}
        }
    }
    /// truth value already implied syntactically by the path condition
    pub fn known(&self, st: &Store, c: T) -> Option<bool> { self.known_d(st, c, 10) }
    fn known_d(&self, st: &Store, c: T, d: u32) -> Option<bool> {
        if let Some(k) = st.konst(c) { return Some(k == 1); }
        if let Some(&v) = self.facts.get(&c) { return Some(v); }
        if d == 0 { return None; }
        match *st.n(c) {
            N::Not(a) => self.known_d(st, a, d - 1).map(|v| !v),
            N::And(a, b) => match (self.known_d(st, a, d - 1), self.known_d(st, b, d - 1)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            N::Or(a, b) => match (self.known_d(st, a, d - 1), self.known_d(st, b, d - 1)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            N::Ite(c, a, b) => match self.known_d(st, c, d - 1) { Some(true) => self.known_d(st, a, d - 1), Some(false) => self.known_d(st, b, d - 1), None => None },
            _ => None,
        }
    }
}

impl Race {
    fn boot(&mut self) {
        // task 0 is no task
        if self.vc.is_empty() { self.vc = vec![Rc::new(vec![]), Rc::new(vec![0, 1])]; self.cur = 1; }
    }
    fn child(&mut self, of: u32) -> u32 {
        let k = self.vc.len();
        let mut v = (*self.vc[of as usize]).clone();
        v.resize(k + 1, 0);
        v[k] = 1;
        self.vc.push(Rc::new(v));
        Rc::make_mut(&mut self.vc[of as usize])[of as usize] += 1;
        self.open.push(k as u32);
        k as u32
    }
    fn join(&mut self, into: u32, k: u32) {
        let Some(i) = self.open.iter().position(|&x| x == k) else { return };
        self.open.remove(i);
        let o = self.vc[k as usize].clone();
        let v = Rc::make_mut(&mut self.vc[into as usize]);
        if v.len() < o.len() { v.resize(o.len(), 0); }
        for (a, b) in v.iter_mut().zip(o.iter()) { *a = (*a).max(*b); }
        if self.open.is_empty() { self.sh.clear(); }
    }
}
/// variables that choose the schedule
pub const SCHED: u64 = 1 << 41;

impl Machine {
    pub fn new(m: Module) -> Machine {
        let mut x = Machine { st: Store::new(), m, funcs: HashMap::default(), gaddr: HashMap::default(), fnames: vec![], faddr: HashMap::default(), kc: vec![],
            varmemo: HashMap::default(), fcount: HashMap::default(), fidx: vec![], max_steps: 30_000_000, verbose: false, concrete: false, csel: false, race: false, params: vec![] };
        for n in x.m.fdecl.clone() {
            let a = (FBASE + x.fnames.len() as u64) << 32;
            x.faddr.insert(n.clone(), a);
            x.fnames.push(n);
        }
        for (i, n) in x.m.gorder.clone().iter().enumerate() {
            let al = x.m.globals[n].align.max(1);
            x.gaddr.insert(n.clone(), ((i as u64 + 1) << 32) + al);
        }
        x
    }
    pub fn func(&mut self, name: &str) -> R<Rc<CFunc>> {
        if let Some(f) = self.funcs.get(name) { return Ok(f.clone()); }
        match self.m.func(name) {
            Ok(f) => {
                let r = Rc::new(CFunc { f, idx: self.fidx.len() as u32 });
                self.fidx.push(name.to_string());
                self.funcs.insert(name.to_string(), r.clone());
                Ok(r)
            }
            Err(e) => ierr(format!("parse: {}", e)),
        }
    }
    pub fn init(&mut self, entry: &str) -> Result<State, String> {
        let pre = self.params.get(904).cloned().filter(|v| *v != u64::MAX).unwrap_or(2) as u32;
        let mut s = State { thr: vec![], cur: 0, npre: 0, budget: pre, race: if self.race { Some(Box::default()) } else { None }, frames: vec![], mem: vec![None], free: vec![], pc: vec![], facts: HashMap::default(), cz: HashMap::default(), log: vec![], replay: 0, checks: vec![],
            draws: vec![], notes: vec![], wit: None, steps: 0, nint: 0, allow_panic: false, todo: 0, near: None, cov: vec![] };
        for n in self.m.gorder.clone() {
            let g = self.m.globals[&n].clone();
            let mut o = Obj::new(g.ty.alloc(), g.align, false);
            o.ro = g.constant;
            if let Some(k) = &g.init { self.fill(&mut o, 0, &g.ty, k)?; }
            s.mem.push(Some(Rc::new(o)));
        }
        let f = match self.func(entry) { Ok(f) => f, Err(Stop::End(e)) => return Err(format!("{:?}", e)), _ => return Err("?".into()) };
        s.frames.push(Rc::new(Frame { regs: vec![V::U; f.f.nregs as usize], f, blk: 0, ip: 0, allocas: vec![], dst: None, next: None }));
        s.wit = Some(Rc::new(Wit { vals: HashMap::default(), memo: Default::default() }));
        Ok(s)
    }
    fn fill(&mut self, o: &mut Obj, off: u64, ty: &Ty, k: &K) -> Result<(), String> {
        match k {
            K::Undef => {}
            K::Zero => for i in 0..ty.alloc() { o.setb((off + i) as usize, 0) },
            K::Str(b) => for (i, x) in b.iter().enumerate() { o.setb(off as usize + i, *x) },
            K::Agg(v) => for (i, (t, k)) in v.iter().enumerate() { let (p, _) = ty.offset(i as u64); self.fill(o, off + p, t, k)?; },
            K::Splat(t, k) => { let n = match ty { Ty::Arr(n, _) => *n, Ty::Vec(n, _) => *n as u64, _ => 0 }; for i in 0..n { self.fill(o, off + i * t.alloc(), t, k)?; } }
            _ => {
                let v = self.kval(ty, k)?;
                if let V::I(v) = v { for i in 0..ty.size() { o.setb((off + i) as usize, (v >> (8 * i)) as u8) } }
                else if let V::T(t) = v { if let Some(c) = self.st.konst(t) { for i in 0..ty.size() { o.setb((off + i) as usize, (c >> (8 * i)) as u8) } } }
            }
        }
        Ok(())
    }
    fn kval(&mut self, ty: &Ty, k: &K) -> Result<V, String> {
        Ok(match k {
            K::Int(v) => if ty.bits() <= 64 { V::I(*v as u64) } else { V::T(self.st.c(ty.bits() as u8, *v)) },
            K::Undef => match ty {
                Ty::Vec(n, _) => V::A(Rc::new(vec![V::U; *n as usize])),
                Ty::Arr(n, t) => { let e = self.kval(t, k)?; V::A(Rc::new(vec![e; *n as usize])) }
                Ty::St(v, _) => { let mut r = vec![]; for t in v.iter() { r.push(self.kval(t, k)?); } V::A(Rc::new(r)) }
                _ => V::U,
            },
            K::Zero => match ty {
                Ty::Vec(n, t) => { let e = self.kval(t, k)?; V::A(Rc::new(vec![e; *n as usize])) }
                Ty::Arr(n, t) => { let e = self.kval(t, k)?; V::A(Rc::new(vec![e; *n as usize])) }
                Ty::St(v, _) => { let mut r = vec![]; for t in v.iter() { r.push(self.kval(t, k)?); } V::A(Rc::new(r)) }
                _ => if ty.bits() <= 64 { V::I(0) } else { V::T(self.st.c(ty.bits() as u8, 0)) },
            },
            K::Agg(v) => { let mut r = vec![]; for (t, k) in v { r.push(self.kval(t, k)?); } V::A(Rc::new(r)) }
            K::Splat(t, k) => { let e = self.kval(t, k)?; let n = match ty { Ty::Vec(n, _) => *n as usize, Ty::Arr(n, _) => *n as usize, _ => return Err("splat".into()) }; V::A(Rc::new(vec![e; n])) }
            K::Str(b) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            K::Glob(n) => V::I(*self.gaddr.get(n).or_else(|| self.faddr.get(n)).ok_or(format!("unknown global {}", n))?),
            K::Gep(b, off) => match self.kval(&Ty::Ptr, b)? { V::I(a) => V::I(a.wrapping_add(*off as u64)), v => v },
            K::Cast(_, w, k) => match self.kval(&Ty::I(64), k)? { V::I(a) => V::I(a & m64(*w)), v => v },
            K::Bin(op, w, a, b) => match (self.kval(&Ty::I(*w), a)?, self.kval(&Ty::I(*w), b)?) {
                (V::I(a), V::I(b)) => V::I(match op.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "and" => a & b, "mul" => a.wrapping_mul(b), _ => a.wrapping_shl(b as u32) } & m64(*w)),
                _ => V::U,
            },
            K::BlockAddr => V::I(0),
        })
    }

    // ---- value helpers ----
    pub fn tm(&mut self, v: &V, w: u16) -> T {
        match v { V::I(x) => self.st.c(w as u8, *x as u128), V::T(t) => *t, V::U => self.st.c(w as u8, 0), V::A(_) => panic!("aggregate as scalar") }
    }
    pub fn vt(&self, t: T) -> V {
        if self.st.w(t) <= 64 { if let Some(k) = self.st.konst(t) { return V::I(k as u64); } }
        V::T(t)
    }
    fn op(&mut self, s: &State, o: &Op) -> R<V> {
        match o {
            Op::R(r) => Ok(s.frames.last().unwrap().regs[*r as usize].clone()),
            Op::K(ty, k, id) => {
                let id = *id as usize;
                if self.kc.len() <= id { self.kc.resize(id + 4096, None); }
                if let Some(v) = &self.kc[id] { return Ok(v.clone()); }
                let v = match self.kval(ty, k) { Ok(v) => v, Err(e) => return ierr(e) };
                self.kc[id] = Some(v.clone());
                Ok(v)
            }
        }
    }
    fn decide(&mut self, s: &mut State, c: T) -> R<bool> {
        match s.known(&self.st, c) { Some(b) => Ok(b), None => Err(Stop::Fork(c)) }
    }

    // ---- memory ----
    /// candidate concrete values of an address / length
    fn cands(&mut self, s: &State, t: T, d: u32) -> Option<Vec<u64>> {
        if let Some(&v) = s.cz.get(&t) { return Some(vec![v]); }
        if let N::Ite(c, a, b) = *self.st.n(t) {
            match s.known(&self.st, c) { Some(true) => return self.cands(s, a, d), Some(false) => return self.cands(s, b, d), None => {} }
            if d < 40 {
                let (mut x, y) = (self.cands(s, a, d + 1)?, self.cands(s, b, d + 1)?);
                x.extend(y);
                x.sort(); x.dedup();
                return if x.len() <= 48 { Some(x) } else { None };
            }
        }
        if let N::Add(a, b) = *self.st.n(t) {
            if let Some(k) = self.st.konst(b) { return self.cands(s, a, d).map(|v| v.into_iter().map(|x| x.wrapping_add(k as u64)).collect()); }
        }
        let v = self.st.valset(t, 48)?;
        Some(v.to_vec())
    }
    /// resolve an address to the list of (guard, address)
    fn addrs(&mut self, s: &mut State, v: &V) -> R<Vec<(T, u64)>> {
        let t = match v { V::I(a) => return Ok(vec![(Store::TRUE, *a)]), V::T(t) => *t, V::U => return merr("use of an uninitialised pointer".into()), V::A(_) => return ierr("aggregate pointer".into()) };
        if let Some(&k) = s.cz.get(&t) { return Ok(vec![(Store::TRUE, k)]); }
        match self.cands(s, t, 0) {
            None => Err(Stop::Conc(t)),
            Some(c) => {
                let mut r = vec![];
                for a in c {
                    let k = self.st.c(64, a as u128);
                    let e = self.st.eq(t, k);
                    match s.known(&self.st, e) { Some(true) => return Ok(vec![(Store::TRUE, a)]), Some(false) => {} None => r.push((e, a)) }
                }
                if r.is_empty() { return Err(Stop::End(End::Dead)); }
                if r.len() == 1 { r[0].0 = Store::TRUE; }
                if self.concrete && r.len() > 1 { return Err(Stop::Conc(t)); }
                Ok(r)
            }
        }
    }
    fn conc(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::T(t) => { if let Some(&k) = s.cz.get(t) { return Ok(k); } Err(Stop::Conc(*t)) }
            V::U => merr("use of an uninitialised length".into()),
            V::A(_) => ierr("aggregate".into()),
        }
    }
    fn locate(&self, s: &State, a: u64, n: u64, wr: bool) -> Result<(usize, usize), String> {
        let id = (a >> 32) as usize;
        if a < 4096 { return Err(format!("null or dangling pointer access at {:#x} ({} bytes)", a, n)); }
        if id >= s.mem.len() { return Err(format!("wild pointer access at {:#x}", a)); }
        match &s.mem[id] {
            None => Err(format!("access to a freed or invalid object {}", id)),
            Some(o) => {
                let off = (a & 0xffff_ffff).wrapping_sub(o.base);
                if off > o.size || off + n > o.size { return Err(format!("{} of {} bytes at offset {} outside an object of {} bytes", if wr { "write" } else { "read" }, n, off as i64, o.size)); }
                if wr && o.ro { return Err("write to read-only memory".into()); }
                Ok((id, off as usize))
            }
        }
    }
    /// pick the valid candidates; fork when an invalid one may be reachable
    fn access(&mut self, s: &mut State, v: &V, n: u64, wr: bool, al: u32) -> R<Vec<(T, usize, usize)>> {
        let c = self.addrs(s, v)?;
        let mut r = vec![];
        for (g, a) in &c {
            match self.locate(s, *a, n, wr) {
                Ok((id, off)) => {
                    if al > 1 && a % al as u64 != 0 {
                        if *g != Store::TRUE { return Err(Stop::Fork(*g)); }
                        return merr(format!("misaligned access: {}-byte alignment required", al));
                    }
                    r.push((*g, id, off));
                }
                Err(e) => { if *g == Store::TRUE { return merr(e); } return Err(Stop::Fork(*g)); }
            }
        }
        Ok(r)
    }
    fn rd(&mut self, s: &State, id: usize, off: usize, n: usize) -> V {
        let o = s.mem[id].as_ref().unwrap().clone();
        let tag = &o.tag[off..off + n];
        if tag.iter().all(|&x| x == 1) {
            if n <= 8 {
                let mut v = 0u64;
                for i in (0..n).rev() { v = v << 8 | o.data[off + i] as u64; }
                return V::I(v);
            }
            let mut v = 0u128;
            for i in (0..n).rev() { v = v << 8 | o.data[off + i] as u128; }
            return V::T(self.st.c(n as u8 * 8, v));
        }
        if tag.iter().all(|&x| x == 0) { return V::U; }
        let mut acc: Option<T> = None;
        let mut i = n;
        while i > 0 {
            // longest run of consecutive bytes of one term
            let piece;
            let last = off + i - 1;
            if o.tag[last] == 2 {
                let (t, k) = o.sym.as_ref().unwrap()[last];
                let mut len = 1usize;
                while len < i && o.tag[last - len] == 2 { let (t2, k2) = o.sym.as_ref().unwrap()[last - len]; if t2 != t || k2 as usize + len != k as usize { break; } len += 1; }
                let hi = (k as u16 * 8 + 7).min(self.st.w(t) as u16 - 1) as u8;
                let lo = (k as usize + 1 - len) as u8 * 8;
                let e = self.st.extract(hi, lo, t);
                piece = self.st.zext((len * 8) as u8, e);
                i -= len;
            } else {
                let b = if o.tag[last] == 1 { o.data[last] } else { 0 };
                piece = self.st.c(8, b as u128);
                i -= 1;
            }
            acc = Some(match acc { None => piece, Some(h) => self.st.concat(h, piece) });
        }
        self.vt(acc.unwrap())
    }
    fn wr(&mut self, s: &mut State, id: usize, off: usize, n: usize, v: &V) {
        let o = Rc::make_mut(s.mem[id].as_mut().unwrap());
        match v {
            V::I(x) => for i in 0..n { o.setb(off + i, (*x >> (8 * i)) as u8) },
            V::T(t) => {
                if let Some(k) = self.st.konst(*t) { for i in 0..n { o.setb(off + i, (k >> (8 * i)) as u8) } }
                else {
                    let w = self.st.w(*t) as usize;
                    for i in 0..n { if i * 8 < w { o.sets(off + i, *t, i as u8) } else { o.setb(off + i, 0) } }
                }
            }
            V::U => for i in 0..n { o.tag[off + i] = 0 },
            V::A(_) => panic!("aggregate store"),
        }
    }
    fn load(&mut self, s: &mut State, p: &V, ty: &Ty, al: u32) -> R<V> { self.load_a(s, p, ty, al, false) }
    fn store(&mut self, s: &mut State, p: &V, ty: &Ty, v: &V, al: u32) -> R<()> { self.store_a(s, p, ty, v, al, false) }
    fn load_a(&mut self, s: &mut State, p: &V, ty: &Ty, al: u32, at: bool) -> R<V> {
        let n = ty.size();
        let locs = self.access(s, p, n, false, al)?;
        if s.race.is_some() { for &(g, id, off) in &locs { self.touch(s, g, id, off, n as usize, false, at)?; } }
        if locs.len() == 1 { let (_, id, off) = locs[0]; return Ok(self.load_at(s, id, off, ty)); }
        let mut acc: Option<V> = None;
        for (g, id, off) in locs {
            let v = self.load_at(s, id, off, ty);
            acc = Some(match acc { None => v, Some(a) => self.sel(g, &v, &a, ty) });
        }
        Ok(acc.unwrap())
    }
    fn load_at(&mut self, s: &State, id: usize, off: usize, ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) => { let v = (0..*n).map(|i| self.load_at(s, id, off + (i * t.alloc()) as usize, t)).collect(); V::A(Rc::new(v)) }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    let v = self.rd(s, id, off, ty.size() as usize);
                    return self.from_bits(&v, ty);
                }
                let v = (0..*n as u64).map(|i| self.load_at(s, id, off + (i * t.size()) as usize, t)).collect();
                V::A(Rc::new(v))
            }
            Ty::St(f, _) => { let v = (0..f.len()).map(|i| { let (p, t) = ty.offset(i as u64); let t = t.clone(); self.load_at(s, id, off + p as usize, &t) }).collect(); V::A(Rc::new(v)) }
            _ => {
                let n = ty.size() as usize;
                let v = self.rd(s, id, off, n);
                let w = ty.bits();
                if w as usize == n * 8 { return v; }
                match v { V::I(x) => V::I(x & m64(w)), V::T(t) => { let e = self.st.extract(w as u8 - 1, 0, t); self.vt(e) } v => v }
            }
        }
    }
    fn store_a(&mut self, s: &mut State, p: &V, ty: &Ty, v: &V, al: u32, at: bool) -> R<()> {
        let n = ty.size();
        let locs = self.access(s, p, n, true, al)?;
        if s.race.is_some() { for &(g, id, off) in &locs { self.touch(s, g, id, off, n as usize, true, at)?; } }
        if locs.len() == 1 { let (_, id, off) = locs[0]; self.store_at(s, id, off, ty, v); return Ok(()); }
        for (g, id, off) in locs {
            let old = self.load_at(s, id, off, ty);
            let nv = self.sel(g, v, &old, ty);
            self.store_at(s, id, off, ty, &nv);
        }
        Ok(())
    }
    fn store_at(&mut self, s: &mut State, id: usize, off: usize, ty: &Ty, v: &V) {
        match ty {
            Ty::Arr(n, t) => for i in 0..*n { let e = elt(v, i as usize); self.store_at(s, id, off + (i * t.alloc()) as usize, t, &e) },
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 { let b = self.to_bits(v, ty); self.wr(s, id, off, ty.size() as usize, &b); return; }
                for i in 0..*n as u64 { let e = elt(v, i as usize); self.store_at(s, id, off + (i * t.size()) as usize, t, &e) }
            }
            Ty::St(f, _) => for i in 0..f.len() { let (p, t) = ty.offset(i as u64); let t = t.clone(); let e = elt(v, i); self.store_at(s, id, off + p as usize, &t, &e) },
            _ => self.wr(s, id, off, ty.size() as usize, v),
        }
    }
    fn copy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = match self.locate(s, src, n, false) { Ok(x) => x, Err(e) => return merr(format!("memcpy: {}", e)) };
        let (di, dof) = match self.locate(s, d, n, true) { Ok(x) => x, Err(e) => return merr(format!("memcpy: {}", e)) };
        let n = n as usize;
        if s.race.is_some() { self.touch(s, Store::TRUE, si, so, n, false, false)?; self.touch(s, Store::TRUE, di, dof, n, true, false)?; }
        let so_ = s.mem[si].as_ref().unwrap().clone();
        let o = Rc::make_mut(s.mem[di].as_mut().unwrap());
        o.data[dof..dof + n].copy_from_slice(&so_.data[so..so + n]);
        o.tag[dof..dof + n].copy_from_slice(&so_.tag[so..so + n]);
        if let Some(sy) = &so_.sym {
            if o.sym.is_none() { o.sym = Some(vec![(0, 0); o.size as usize]); }
            o.sym.as_mut().unwrap()[dof..dof + n].copy_from_slice(&sy[so..so + n]);
        }
        Ok(())
    }

    fn to_bits(&mut self, v: &V, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let total = *n as u16 * w;
                let l: Vec<V> = (0..*n as usize).map(|i| elt(v, i)).collect();
                if total <= 64 && l.iter().all(|x| matches!(x, V::I(_))) {
                    let mut r = 0u64;
                    for x in l.iter().rev() { if let V::I(k) = x { r = if w >= 64 { *k } else { r << w | *k }; } }
                    return V::I(r);
                }
                let mut acc = self.tm(&l[0], w);
                for x in &l[1..] { let h = self.tm(x, w); acc = self.st.concat(h, acc); }
                self.vt(acc)
            }
            _ => v.clone(),
        }
    }
    fn from_bits(&mut self, v: &V, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let r: Vec<V> = (0..*n as u16).map(|i| match v {
                    V::I(x) => V::I(if i * w >= 64 { 0 } else { *x >> (i * w) & m64(w) }),
                    V::T(x) => { let e = self.st.extract((i * w + w - 1) as u8, (i * w) as u8, *x); self.vt(e) }
                    _ => V::U,
                }).collect();
                V::A(Rc::new(r))
            }
            _ => v.clone(),
        }
    }
    fn sel(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> V {
        match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::A(x), V::A(y)) => {
                let r = (0..x.len()).map(|i| { let t = match ty { Ty::Vec(_, t) | Ty::Arr(_, t) => (**t).clone(), Ty::St(v, _) => v[i].clone(), t => t.clone() }; self.sel(c, &x[i], &y[i], &t) }).collect();
                V::A(Rc::new(r))
            }
            (V::I(x), V::I(y)) if x == y => a.clone(),
            _ => {
                let w = ty.bits();
                let (x, y) = (self.tm(a, w), self.tm(b, w));
                let r = self.st.ite(c, x, y);
                self.vt(r)
            }
        }
    }

    // ---- scalar ops ----
    fn bin(&mut self, op: u8, w: u16, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y, m) = (*x, *y, m64(w));
            if (3..=6).contains(&op) && y == 0 { return merr("division by zero".into()); }
            return Ok(V::I(match op {
                0 => x.wrapping_add(y) & m,
                1 => x.wrapping_sub(y) & m,
                2 => x.wrapping_mul(y) & m,
                3 => x / y,
                4 => s64(x, w).wrapping_div(s64(y, w)) as u64 & m,
                5 => x % y,
                6 => s64(x, w).wrapping_rem(s64(y, w)) as u64 & m,
                7 => if y >= w as u64 { 0 } else { x << y & m },
                8 => if y >= w as u64 { 0 } else { x >> y },
                9 => (s64(x, w) >> y.min(63)) as u64 & m,
                10 => x & y,
                11 => x | y,
                _ => x ^ y,
            }));
        }
        match (a, b) { (V::U, V::U) => return Ok(V::U), (V::U, V::I(_)) | (V::I(_), V::U) => return Ok(V::U), _ => {} }
        let (x, y) = (self.tm(a, w), self.tm(b, w));
        let st = &mut self.st;
        let r = match op {
            0 => st.add(x, y),
            1 => st.sub(x, y),
            2 => st.mul(x, y),
            3..=6 => st.div(op - 3, x, y),
            7 => st.shl(x, y),
            8 => st.lshr(x, y),
            9 => st.ashr(x, y),
            10 => st.and(x, y),
            11 => st.or(x, y),
            _ => st.xor(x, y),
        };
        Ok(self.vt(r))
    }
    fn fbin(&mut self, op: u8, w: u16, a: &V, b: &V) -> V {
        let w8 = w as u8;
        if let (V::I(x), V::I(y)) = (a, b) {
            let sg = 1u128 << (w - 1);
            return V::I(match op { 0 => fop2(0, w8, *x as u128, *y as u128), 1 => fop2(0, w8, *x as u128, *y as u128 ^ sg), 2 => fop2(1, w8, *x as u128, *y as u128), 3 => fop2(2, w8, *x as u128, *y as u128), _ => fop2(3, w8, *x as u128, *y as u128) } as u64);
        }
        if matches!(a, V::U) || matches!(b, V::U) { return V::U; }
        let (x, y) = (self.tm(a, w), self.tm(b, w));
        let st = &mut self.st;
        let r = match op { 0 => st.fadd(x, y), 1 => st.fsub(x, y), 2 => st.fmul(x, y), 3 => st.fdiv(x, y), _ => st.frem(x, y) };
        self.vt(r)
    }
    fn icmp(&mut self, p: u8, w: u16, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (sxx, syy) = (s64(*x, w), s64(*y, w));
            return V::I(match p { 0 => x == y, 1 => x != y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => sxx > syy, 7 => sxx >= syy, 8 => sxx < syy, _ => sxx <= syy } as u64);
        }
        if matches!(a, V::U) || matches!(b, V::U) { return V::U; }
        let (x, y) = (self.tm(a, w), self.tm(b, w));
        let st = &mut self.st;
        let r = match p {
            0 => st.eq(x, y),
            1 => { let e = st.eq(x, y); st.not(e) }
            2 => st.ult(y, x),
            3 => st.ule(y, x),
            4 => st.ult(x, y),
            5 => st.ule(x, y),
            6 => st.slt(y, x),
            7 => st.sle(y, x),
            8 => st.slt(x, y),
            _ => st.sle(x, y),
        };
        self.vt(r)
    }
    fn fcmp(&mut self, p: u8, w: u16, a: &V, b: &V) -> V {
        if matches!(a, V::U) || matches!(b, V::U) { return V::U; }
        let (x, y) = (self.tm(a, w), self.tm(b, w));
        let st = &mut self.st;
        let uno = |st: &mut Store| { let (p, q) = (st.fnan(x), st.fnan(y)); st.or(p, q) };
        let r = match p {
            0 => Store::FALSE,
            1 => st.feq(x, y),
            2 => st.flt(y, x),
            3 => st.fle(y, x),
            4 => st.flt(x, y),
            5 => st.fle(x, y),
            6 => { let u = uno(st); let e = st.feq(x, y); let o = st.or(u, e); st.not(o) }
            7 => { let u = uno(st); st.not(u) }
            8 => { let u = uno(st); let e = st.feq(x, y); st.or(u, e) }
            9 => { let e = st.fle(x, y); st.not(e) }
            10 => { let e = st.flt(x, y); st.not(e) }
            11 => { let e = st.fle(y, x); st.not(e) }
            12 => { let e = st.flt(y, x); st.not(e) }
            13 => { let e = st.feq(x, y); st.not(e) }
            14 => uno(st),
            _ => Store::TRUE,
        };
        self.vt(r)
    }
    fn cast(&mut self, op: u8, f: &Ty, t: &Ty, v: &V) -> R<V> {
        if op == 11 {
            if f == t { return Ok(v.clone()); }
            let b = self.to_bits(v, f);
            return Ok(self.from_bits(&b, t));
        }
        if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (f, t) {
            let mut r = vec![];
            for i in 0..*n as usize { let e = elt(v, i); r.push(self.cast(op, fe, te, &e)?); }
            return Ok(V::A(Rc::new(r)));
        }
        let (fw, tw) = (f.bits(), t.bits());
        if let V::U = v { return Ok(V::U); }
        if let V::I(x) = v {
            if tw <= 64 {
                match op {
                    0 => return Ok(V::I(x & m64(tw))),
                    1 | 9 | 10 | 12 => return Ok(V::I(x & m64(tw))),
                    2 => return Ok(V::I(s64(*x, fw) as u64 & m64(tw))),
                    _ => {}
                }
            }
        }
        let x = self.tm(v, fw);
        let st = &mut self.st;
        let r = match op {
            0 => st.extract(tw as u8 - 1, 0, x),
            1 => st.zext(tw as u8, x),
            2 => st.sext(tw as u8, x),
            3 => st.ftrunc(x),
            4 => st.fext(x),
            5 => st.f2i(false, tw as u8, x),
            6 => st.f2i(true, tw as u8, x),
            7 => st.i2f(false, tw as u8, x),
            8 => st.i2f(true, tw as u8, x),
            9 | 10 | 12 => if tw == fw { x } else if tw < fw { st.extract(tw as u8 - 1, 0, x) } else { st.zext(tw as u8, x) },
            _ => return ierr(format!("cast {}", op)),
        };
        Ok(self.vt(r))
    }

    fn set(&mut self, s: &mut State, d: Option<u32>, v: V) { if let Some(d) = d { s.top().regs[d as usize] = v; } }

    fn jump(&mut self, s: &mut State, to: u32) -> R<()> {
        let f = s.frames.last().unwrap().f.clone();
        let from = s.frames.last().unwrap().blk;
        let b = &f.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = match p.inc.iter().find(|(k, _)| *k == from) { Some((_, o)) => o, None => return ierr(format!("phi without edge in {}", f.f.name)) };
                vals.push((p.dst, self.op(s, o)?));
            }
            let fr = s.top();
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = s.top();
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }

    /// run until something needs the explorer's attention
    pub fn run(&mut self, s: &mut State) -> Stop {
        loop {
            if s.steps > self.max_steps { return Stop::End(End::Err(format!("step limit in {}", s.stack()[0]))); }
            // inner loop over one block
            if let Err(e) = self.step(s) { return e; }
        }
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        s.steps += 1;
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let blk = &f.f.blocks[fr.blk as usize];
        if fr.ip as usize >= blk.code.len() { return ierr(format!("fell off a block in {}", f.f.name)); }
        let (dst, ins) = &blk.code[fr.ip as usize];
        let dst = *dst;
        match ins {
            Inst::Bin { op, ty, a, b } => {
                let (x, y) = (self.op(s, a)?, self.op(s, b)?);
                let v = match ty {
                    Ty::Vec(n, t) => {
                        let w = t.bits();
                        let mut r = Vec::with_capacity(*n as usize);
                        for i in 0..*n as usize { let (p, q) = (elt(&x, i), elt(&y, i)); r.push(self.bin(*op, w, &p, &q)?); }
                        V::A(Rc::new(r))
                    }
                    t => self.bin(*op, t.bits(), &x, &y)?,
                };
                self.set(s, dst, v);
            }
            Inst::FBin { op, ty, a, b } => {
                let (x, y) = (self.op(s, a)?, self.op(s, b)?);
                let v = match ty {
                    Ty::Vec(n, t) => { let w = t.bits(); V::A(Rc::new((0..*n as usize).map(|i| { let (p, q) = (elt(&x, i), elt(&y, i)); self.fbin(*op, w, &p, &q) }).collect())) }
                    t => self.fbin(*op, t.bits(), &x, &y),
                };
                self.set(s, dst, v);
            }
            Inst::FNeg { ty, a } => {
                let x = self.op(s, a)?;
                let v = self.map1(ty, &x, &mut |m, t, v| { if let V::U = v { return Ok(V::U); } let x = m.tm(v, t.bits()); let r = m.st.fneg(x); Ok(m.vt(r)) })?;
                self.set(s, dst, v);
            }
            Inst::Icmp { p, ty, a, b } => {
                let (x, y) = (self.op(s, a)?, self.op(s, b)?);
                let v = match ty {
                    Ty::Vec(n, t) => { let w = t.bits(); V::A(Rc::new((0..*n as usize).map(|i| { let (e, f) = (elt(&x, i), elt(&y, i)); self.icmp(*p, w, &e, &f) }).collect())) }
                    t => self.icmp(*p, t.bits(), &x, &y),
                };
                self.set(s, dst, v);
            }
            Inst::Fcmp { p, ty, a, b } => {
                let (x, y) = (self.op(s, a)?, self.op(s, b)?);
                let v = match ty {
                    Ty::Vec(n, t) => { let w = t.bits(); V::A(Rc::new((0..*n as usize).map(|i| { let (e, f) = (elt(&x, i), elt(&y, i)); self.fcmp(*p, w, &e, &f) }).collect())) }
                    t => self.fcmp(*p, t.bits(), &x, &y),
                };
                self.set(s, dst, v);
            }
            Inst::Cast { op, from, to, a } => { let x = self.op(s, a)?; let v = self.cast(*op, from, to, &x)?; self.set(s, dst, v); }
            Inst::Gep { base, off, idx } => {
                let b = self.op(s, base)?;
                let mut acc = match b { V::I(x) => V::I(x.wrapping_add(*off as u64)), V::T(t) => { let k = self.st.c(64, *off as u64 as u128); let r = self.st.add(t, k); self.vt(r) } v => v };
                for (o, w, sc) in idx {
                    let i = self.op(s, o)?;
                    acc = match (&acc, &i) {
                        (V::I(a), V::I(i)) => V::I(a.wrapping_add((s64(*i, *w) as u64).wrapping_mul(*sc))),
                        (V::U, _) => V::U,
                        (_, V::U) => V::U,
                        _ => {
                            let at = self.tm(&acc, 64);
                            let it = self.tm(&i, *w);
                            let it = self.st.sext(64, it);
                            let k = self.st.c(64, *sc as u128);
                            let p = self.st.mul(it, k);
                            let r = self.st.add(at, p);
                            self.vt(r)
                        }
                    };
                }
                self.set(s, dst, acc);
            }
            Inst::Load { ty, p, al, at } => {
                if *at && self.preempt(s)? { return Ok(()); }
                let p = self.op(s, p)?;
                let v = self.load_a(s, &p, ty, *al, *at)?;
                self.set(s, dst, v);
                if *at { self.passed(s); }
            }
            Inst::Store { ty, v, p, al, at } => {
                if *at && self.preempt(s)? { return Ok(()); }
                let v = self.op(s, v)?;
                let p = self.op(s, p)?;
                self.store_a(s, &p, ty, &v, *al, *at)?;
                if *at { self.passed(s); }
            }
            Inst::Alloca { size, al, n } => {
                let mut sz = *size;
                if let Some((o, _)) = n { let k = self.op(s, o)?; sz *= self.conc(s, &k)?; }
                let a = s.newobj(Obj::new(sz, *al, false));
                let fr = s.top();
                fr.allocas.push((a >> 32) as u32);
                fr.regs[dst.unwrap() as usize] = V::I(a);
            }
            Inst::Select { cty, ty, c, a, b } => {
                let cv = self.op(s, c)?;
                let v = match cty {
                    Ty::Vec(n, _) => {
                        let (x, y) = (self.op(s, a)?, self.op(s, b)?);
                        let et = match ty { Ty::Vec(_, t) => (**t).clone(), t => t.clone() };
                        let mut r = vec![];
                        for i in 0..*n as usize {
                            let ci = elt(&cv, i);
                            let (p, q) = (elt(&x, i), elt(&y, i));
                            r.push(match ci { V::I(1) => p, V::I(_) => q, V::U => q, ci => { let t = self.tm(&ci, 1); self.sel(t, &p, &q, &et) } });
                        }
                        V::A(Rc::new(r))
                    }
                    _ => match cv {
                        V::I(1) => self.op(s, a)?,
                        V::I(_) => self.op(s, b)?,
                        V::U => return merr("select on an uninitialised value".into()),
                        cv => {
                            let t = self.tm(&cv, 1);
                            match s.known(&self.st, t) {
                                Some(true) => self.op(s, a)?,
                                Some(false) => self.op(s, b)?,
                                None if self.csel && matches!(ty, Ty::I(n) if *n > 1) => return Err(Stop::Fork(t)),
                                None if self.csel && matches!(ty, Ty::Ptr) => return Err(Stop::Fork(t)),
                                None => { let (x, y) = (self.op(s, a)?, self.op(s, b)?); self.sel(t, &x, &y, ty) }
                            }
                        }
                    },
                };
                self.set(s, dst, v);
            }
            Inst::Br(b) => { let b = *b; return self.jump(s, b); }
            Inst::CBr { c, t, f: e } => {
                let cv = self.op(s, c)?;
                let b = match cv { V::I(x) => x == 1, V::T(x) => self.decide(s, x)?, _ => return merr("branch on an uninitialised value".into()) };
                let to = if b { *t } else { *e };
                return self.jump(s, to);
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.op(s, v)?;
                let mut to = *def;
                match x {
                    V::I(k) => { for (c, b) in cases { if *c as u64 == k { to = *b; break; } } }
                    V::T(t) => {
                        if let Some(&k) = s.cz.get(&t) { for (c, b) in cases { if *c as u64 == k { to = *b; break; } } }
                        else { for (c, b) in cases {
                            let k = self.st.c(*w as u8, *c);
                            let e = self.st.eq(t, k);
                            if self.decide(s, e)? { to = *b; break; }
                        } }
                    }
                    _ => return merr("switch on an uninitialised value".into()),
                }
                return self.jump(s, to);
            }
            Inst::Ret(_) if s.frames.len() == 1 && s.cur != 0 => {
                let c = s.cur as usize;
                s.thr[c].done = true;
                self.resume_other(s)?;
                for fr in std::mem::take(&mut s.thr[c].frames) { for a in fr.allocas.iter() { s.mem[*a as usize] = None; s.free.push(*a); } }
                return Ok(());
            }
            Inst::Ret(r) => {
                let v = match r { None => None, Some((_, o)) => Some(self.op(s, o)?) };
                let fr = s.frames.pop().unwrap();
                for a in fr.allocas.iter() { s.mem[*a as usize] = None; s.free.push(*a); }
                if s.frames.is_empty() { return Err(Stop::End(End::Ok)); }
                let (d, n) = (fr.dst, fr.next);
                if let (Some(d), Some(v)) = (d, v) { s.top().regs[d as usize] = v; }
                match n { Some(b) => return self.jump(s, b), None => { s.top().ip += 1; return Ok(()); } }
            }
            Inst::Unreachable => return merr(format!("unreachable code reached in {}", f.f.name)),
            Inst::Call { callee, ret, args, next } => {
                let name = match callee {
                    Callee::Fn(n) => n.clone(),
                    Callee::Asm(_) => { self.set(s, dst, V::I(0)); s.top().ip += 1; return Ok(()); }
                    Callee::Op(o) => {
                        let v = self.op(s, o)?;
                        let c = self.addrs(s, &v)?;
                        if c.len() > 1 { return Err(Stop::Fork(c[0].0)); }
                        let k = (c[0].1 >> 32).wrapping_sub(FBASE) as usize;
                        if k >= self.fnames.len() { return merr(format!("call through an invalid pointer {:#x}", c[0].1)); }
                        self.fnames[k].clone()
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args { av.push(self.op(s, o)?); }
                if name.starts_with("vx_thread_") && !self.threads(s, &name, &av, dst)? { return Ok(()); }
                match self.builtin(s, &name, &av, args, ret)? {
                    Some(v) => {
                        self.set(s, dst, v);
                        if let Some(b) = next { let b = *b; return self.jump(s, b); }
                    }
                    None => {
                        let cf = self.func(&name)?;
                        *self.fcount.entry(cf.idx).or_insert(0) += 1;
                        if s.frames.len() > 3000 { return merr("stack overflow (recursion deeper than 3000 frames)".into()); }
                        let mut regs = vec![V::U; cf.f.nregs as usize];
                        for ((r, _), v) in cf.f.params.iter().zip(av) { regs[*r as usize] = v; }
                        s.frames.push(Rc::new(Frame { f: cf, blk: 0, ip: 0, regs, allocas: vec![], dst, next: *next }));
                        return Ok(());
                    }
                }
            }
            Inst::Extract { a, path } => {
                let mut v = self.op(s, a)?;
                for p in path { v = elt(&v, *p as usize); }
                self.set(s, dst, v);
            }
            Inst::Insert { ty, a, v, path, .. } => {
                let x = self.op(s, a)?;
                let y = self.op(s, v)?;
                let r = insert(&x, ty, path, y);
                self.set(s, dst, r);
            }
            Inst::ExtElt { a, i, .. } => {
                let x = self.op(s, a)?;
                let i = self.op(s, i)?;
                let k = self.conc(s, &i)?;
                let v = elt(&x, k as usize);
                self.set(s, dst, v);
            }
            Inst::InsElt { n, a, v, i } => {
                let x = self.op(s, a)?;
                let i = self.op(s, i)?;
                let k = self.conc(s, &i)? as usize;
                let y = self.op(s, v)?;
                let mut l: Vec<V> = (0..*n as usize).map(|i| elt(&x, i)).collect();
                if k < l.len() { l[k] = y; }
                self.set(s, dst, V::A(Rc::new(l)));
            }
            Inst::Shuf { n, a, b, m } => {
                let (x, y) = (self.op(s, a)?, self.op(s, b)?);
                let r = m.iter().map(|&k| if k < 0 { V::U } else if (k as u32) < *n { elt(&x, k as usize) } else { elt(&y, (k as u32 - n) as usize) }).collect();
                self.set(s, dst, V::A(Rc::new(r)));
            }
            Inst::Rmw { op, ty, p, v } => {
                if self.preempt(s)? { return Ok(()); }
                let p = self.op(s, p)?;
                let v = self.op(s, v)?;
                let w = ty.bits();
                let old = self.load_a(s, &p, ty, 1, true)?;
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(0, w, &old, &v)?,
                    "sub" => self.bin(1, w, &old, &v)?,
                    "and" => self.bin(10, w, &old, &v)?,
                    "or" => self.bin(11, w, &old, &v)?,
                    "xor" => self.bin(12, w, &old, &v)?,
                    "max" | "min" | "umax" | "umin" => {
                        let p = match op.as_str() { "max" => 6, "min" => 8, "umax" => 2, _ => 4 };
                        let c = self.icmp(p, w, &old, &v);
                        let c = self.tm(&c, 1);
                        self.sel(c, &old, &v, ty)
                    }
                    o => return ierr(format!("atomicrmw {}", o)),
                };
                self.store_a(s, &p, ty, &nv, 1, true)?;
                self.set(s, dst, old);
                self.passed(s);
            }
            Inst::CmpX { ty, p, e, n } => {
                if self.preempt(s)? { return Ok(()); }
                let p = self.op(s, p)?;
                let e = self.op(s, e)?;
                let n = self.op(s, n)?;
                let old = self.load_a(s, &p, ty, 1, true)?;
                let c = self.icmp(0, ty.bits(), &old, &e);
                let c = self.tm(&c, 1);
                let nv = self.sel(c, &n, &old, ty);
                self.store_a(s, &p, ty, &nv, 1, true)?;
                self.passed(s);
                let cv = self.vt(c);
                self.set(s, dst, V::A(Rc::new(vec![old, cv])));
            }
            Inst::Freeze { ty, a } => {
                let v = self.op(s, a)?;
                let v = match v {
                    V::U => { s.nint += 1; let k = (1u64 << 40) + s.nint; let id = self.mkvar(k, ty.bits() as u8, false, 0.0, 0.0, 0, m64(ty.bits())); let t = self.st.var(id); self.vt(t) }
                    v => v,
                };
                self.set(s, dst, v);
            }
            Inst::Nop => { self.set(s, dst, V::U); }
        }
        s.top().ip += 1;
        Ok(())
    }

    fn map1(&mut self, ty: &Ty, x: &V, f: &mut dyn FnMut(&mut Machine, &Ty, &V) -> R<V>) -> R<V> {
        match ty {
            Ty::Vec(n, t) => { let mut r = vec![]; for i in 0..*n as usize { let e = elt(x, i); r.push(f(self, t, &e)?); } Ok(V::A(Rc::new(r))) }
            t => f(self, t, x),
        }
    }
    pub fn mkvar(&mut self, key: u64, w: u8, fl: bool, lo: f64, hi: f64, ulo: u64, uhi: u64) -> u32 {
        let k = (key, w, fl, lo.to_bits(), hi.to_bits(), ulo, uhi);
        if let Some(&i) = self.varmemo.get(&k) { return i; }
        let i = self.st.new_var(key, w, fl, lo, hi, ulo, uhi);
        self.varmemo.insert(k, i);
        i
    }

    fn builtin(&mut self, s: &mut State, name: &str, a: &[V], ar: &[(Ty, Op)], ret: &Ty) -> R<Option<V>> {
        let unit = Ok(Some(V::I(0)));
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(s, n, a, ar, ret); }
        if let Some(n) = name.strip_prefix("vx_") { return self.harness(s, n, a); }
        match name {
            "malloc" => {
                let n = self.conc(s, &a[0])?;
                if n > 1 << 28 { return ierr(format!("allocation of {} bytes", n)); }
                return Ok(Some(V::I(s.newobj(Obj::new(n, 16, true)))));
            }
            "calloc" => {
                let n = self.conc(s, &a[0])?.wrapping_mul(self.conc(s, &a[1])?);
                if n > 1 << 28 { return ierr(format!("allocation of {} bytes", n)); }
                let mut o = Obj::new(n, 16, true);
                for t in o.tag.iter_mut() { *t = 1; }
                return Ok(Some(V::I(s.newobj(o))));
            }
            "posix_memalign" => {
                let al = self.conc(s, &a[1])?;
                let n = self.conc(s, &a[2])?;
                let p = s.newobj(Obj::new(n, al, true));
                self.store(s, &a[0], &Ty::Ptr, &V::I(p), 1)?;
                return unit;
            }
            "aligned_alloc" => {
                let al = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[1])?;
                return Ok(Some(V::I(s.newobj(Obj::new(n, al, true)))));
            }
            "free" => {
                let p = self.conc(s, &a[0])?;
                if p == 0 { return unit; }
                self.free(s, p)?;
                return unit;
            }
            "realloc" => {
                let p = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[1])?;
                let q = s.newobj(Obj::new(n, 16, true));
                if p != 0 {
                    let old = match self.locate(s, p, 0, false) { Ok((i, _)) => s.mem[i].as_ref().unwrap().size, Err(e) => return merr(format!("realloc: {}", e)) };
                    self.copy(s, q, p, old.min(n))?;
                    self.free(s, p)?;
                }
                return Ok(Some(V::I(q)));
            }
            "memcmp" | "bcmp" => {
                let n = self.conc(s, &a[2])?;
                if n == 0 { return Ok(Some(V::I(0))); }
                let (p, q) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let (pi, po) = match self.locate(s, p, n, false) { Ok(x) => x, Err(e) => return merr(format!("memcmp: {}", e)) };
                let (qi, qo) = match self.locate(s, q, n, false) { Ok(x) => x, Err(e) => return merr(format!("memcmp: {}", e)) };
                let mut acc = self.st.c(32, 0);
                for i in (0..n as usize).rev() {
                    let x = self.rd(s, pi, po + i, 1);
                    let y = self.rd(s, qi, qo + i, 1);
                    let (x, y) = (self.tm(&x, 8), self.tm(&y, 8));
                    let e = self.st.eq(x, y);
                    let l = self.st.ult(x, y);
                    let (m1, p1) = (self.st.c(32, 0xffff_ffff), self.st.c(32, 1));
                    let d = self.st.ite(l, m1, p1);
                    acc = self.st.ite(e, acc, d);
                }
                return Ok(Some(self.vt(acc)));
            }
            "memcpy" | "memmove" => { let (d, q, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?, self.conc(s, &a[2])?); self.copy(s, d, q, n)?; return Ok(Some(V::I(d))); }
            "memset" => { self.memset(s, &a[0], &a[1], &a[2])?; return Ok(Some(a[0].clone())); }
            "strlen" => {
                let p = self.conc(s, &a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load(s, &V::I(p + n), &Ty::I(8), 1)?;
                    if self.conc(s, &v)? == 0 { return Ok(Some(V::I(n))); }
                    n += 1;
                }
            }
            "fmaf" | "fma" => return self.fma(ret.bits(), &a[0], &a[1], &a[2]).map(Some),
            // keys of hash maps: any value will do
            "getrandom" | "getentropy" => {
                let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                for i in 0..n { self.store(s, &V::I(p + i), &Ty::I(8), &V::I((i * 37 + 11) & 255), 1)?; }
                return Ok(Some(V::I(if name == "getrandom" { n } else { 0 })));
            }
            "sqrtf" | "sqrt" => { let w = ret.bits(); let t = self.tm(&a[0], w); let r = self.st.fsqrt(t); return Ok(Some(self.vt(r))); }
            "floorf" | "floor" => { let t = self.tm(&a[0], ret.bits()); let r = self.st.fround(0, t); return Ok(Some(self.vt(r))); }
            "ceilf" | "ceil" => { let t = self.tm(&a[0], ret.bits()); let r = self.st.fround(1, t); return Ok(Some(self.vt(r))); }
            "truncf" | "trunc" => { let t = self.tm(&a[0], ret.bits()); let r = self.st.fround(2, t); return Ok(Some(self.vt(r))); }
            "fminf" | "fmin" => return self.minmax(false, true, a, ret).map(Some),
            "fmaxf" | "fmax" => return self.minmax(true, true, a, ret).map(Some),
            "abort" | "__assert_fail" | "exit" | "_exit" => return Err(Stop::End(End::Panic(format!("{} in {}", name, s.stack()[0])))),
            "getenv" => return Ok(Some(V::I(0))),
            // messages: accepted and dropped
            "write" => return Ok(Some(a[2].clone())),
            "sched_yield" => return unit,
            _ => {}
        }
        let panicky = (name.contains("4core9panicking") || name.contains("3std9panicking") || name.contains("rust_begin_unwind") || name.contains("rust_panic") || name.contains("4core6option13expect_failed") || name.contains("4core6option13unwrap_failed") || name.contains("4core6result13unwrap_failed") || name.contains("18handle_alloc_error"))
            && !name.contains("panic_count");
        if panicky {
            let st: Vec<String> = s.stack();
            return Err(Stop::End(End::Panic(format!("{} called from {}", name, st.iter().take(3).cloned().collect::<Vec<_>>().join(" < ")))));
        }
        if name.contains("no_alloc_shim_is_unstable") { return unit; }
        if !self.m.funcs.contains_key(name) { return ierr(format!("call to unmodelled external function {}", name)); }
        Ok(None)
    }
    /// single precision through double precision (the two roundings are those of the
    /// hardware but for ties)
    fn fma(&mut self, w: u16, x: &V, y: &V, z: &V) -> R<V> {
        if w != 32 { return ierr("fma".into()); }
        let (x, y, z) = (self.tm(x, w), self.tm(y, w), self.tm(z, w));
        let (x, y, z) = (self.st.fext(x), self.st.fext(y), self.st.fext(z));
        let p = self.st.fmul(x, y);
        let q = self.st.fadd(p, z);
        let r = self.st.ftrunc(q);
        Ok(self.vt(r))
    }
    fn free(&mut self, s: &mut State, p: u64) -> R<()> {
        let i = match self.locate(s, p, 0, false) { Ok((i, 0)) => i, Ok(_) => return merr("free of an interior pointer".into()), Err(e) => return merr(format!("free: {}", e)) };
        if !s.mem[i].as_ref().unwrap().heap { return merr("free of a non-heap object".into()); }
        s.mem[i] = None;
        Ok(())
    }
    fn memset(&mut self, s: &mut State, d: &V, v: &V, n: &V) -> R<()> {
        let n = self.conc(s, n)?;
        if n == 0 { return Ok(()); }
        let d = self.conc(s, d)?;
        let (i, o) = match self.locate(s, d, n, true) { Ok(x) => x, Err(e) => return merr(format!("memset: {}", e)) };
        let v = match v { V::I(x) => V::I(x & 0xff), V::T(t) => { let e = self.st.extract(7, 0, *t); V::T(e) } v => v.clone() };
        if s.race.is_some() { self.touch(s, Store::TRUE, i, o, n as usize, true, false)?; }
        for k in 0..n as usize { self.wr(s, i, o + k, 1, &v); }
        Ok(())
    }
    fn minmax(&mut self, max: bool, num: bool, a: &[V], ret: &Ty) -> R<V> {
        let n = match ret { Ty::Vec(n, _) => Some(*n), _ => None };
        let et = match ret { Ty::Vec(_, t) => (**t).clone(), t => t.clone() };
        let w = et.bits();
        let mut one = |m: &mut Machine, x: &V, y: &V| -> V {
            if let V::U = x { return y.clone(); }
            if let V::U = y { return x.clone(); }
            let (x, y) = (m.tm(x, w), m.tm(y, w));
            let st = &mut m.st;
            let (nx, ny) = (st.fnan(x), st.fnan(y));
            let c = if max { st.flt(x, y) } else { st.flt(y, x) };
            // c: y is the better one
            let core = if nx == Store::FALSE && ny == Store::FALSE { st.fminmax(max, &[x, y]) } else { st.ite(c, y, x) };
            let r = if num { let r = st.ite(ny, x, core); st.ite(nx, y, r) } else { let q = st.ite(ny, y, core); st.ite(nx, x, q) };
            m.vt(r)
        };
        Ok(match n {
            None => one(self, &a[0], &a[1]),
            Some(n) => V::A(Rc::new((0..n as usize).map(|i| { let (x, y) = (elt(&a[0], i), elt(&a[1], i)); one(self, &x, &y) }).collect())),
        })
    }

    fn intrinsic(&mut self, s: &mut State, n: &str, a: &[V], ar: &[(Ty, Op)], ret: &Ty) -> R<Option<V>> {
        let unit = Ok(Some(V::I(0)));
        let base = n.split('.').next().unwrap();
        match base {
            "memcpy" | "memmove" => {
                if n.contains("element") { return ierr(format!("llvm.{}", n)); }
                let l = self.conc(s, &a[2])?;
                let (d, q) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                self.copy(s, d, q, l)?;
                return unit;
            }
            "memset" => { self.memset(s, &a[0], &a[1], &a[2])?; return unit; }
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" | "sideeffect" | "va_start" | "va_end" => return unit,
            "expect" | "ssa" | "launder" | "strip" | "annotation" | "ptr" | "arithmetic" => return Ok(Some(a[0].clone())),
            "threadlocal" => return Ok(Some(a[0].clone())),
            "is" => return Ok(Some(V::I(0))),
            "objectsize" => return Ok(Some(V::I(u64::MAX))),
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::End(End::Panic(format!("trap in {}", s.stack()[0])))),
            "stacksave" => return Ok(Some(V::I(0))),
            "stackrestore" => return unit,
            _ => {}
        }
        let two = n.split('.').take(3).collect::<Vec<_>>();
        // with.overflow
        if n.contains(".with.overflow") {
            let w = ar[0].0.bits();
            let op = base;
            if let (V::I(x), V::I(y)) = (&a[0], &a[1]) {
                let (r, o): (i128, bool);
                let (ux, uy, sxx, syy) = (*x as i128, *y as i128, s64(*x, w) as i128, s64(*y, w) as i128);
                let m = m64(w) as i128;
                match op {
                    "uadd" => { r = ux + uy; o = r > m; }
                    "usub" => { r = ux - uy; o = r < 0; }
                    "umul" => { r = (ux as u128).wrapping_mul(uy as u128) as i128; o = (ux as u128 * uy as u128) > m as u128; }
                    _ => {
                        r = match op { "sadd" => sxx + syy, "ssub" => sxx - syy, _ => sxx * syy };
                        let h = 1i128 << (w - 1);
                        o = r >= h || r < -h;
                    }
                }
                return Ok(Some(V::A(Rc::new(vec![V::I(r as u64 & m64(w)), V::I(o as u64)]))));
            }
            let (x, y) = (self.tm(&a[0], w), self.tm(&a[1], w));
            let w8 = w as u8;
            let st = &mut self.st;
            let (r, o) = match op {
                "uadd" => {
                    let r = st.add(x, y);
                    let (p, q) = (st.ur(x), st.ur(y));
                    let o = if p.1.checked_add(q.1).map_or(false, |v| v <= m64(w)) { Store::FALSE } else { st.ult(r, x) };
                    (r, o)
                }
                "usub" => { let r = st.sub(x, y); let o = st.ult(x, y); (r, o) }
                "umul" => {
                    let r = st.mul(x, y);
                    let (p, q) = (st.ur(x), st.ur(y));
                    let o = if p.1.checked_mul(q.1).map_or(false, |v| v <= m64(w)) { Store::FALSE } else {
                        let (xx, yy) = (st.zext(2 * w8, x), st.zext(2 * w8, y));
                        let p = st.mul(xx, yy);
                        let h = st.extract(2 * w8 - 1, w8, p);
                        let z = st.c(w8, 0);
                        let e = st.eq(h, z);
                        st.not(e)
                    };
                    (r, o)
                }
                _ => {
                    let (xx, yy) = (st.sext(2 * w8, x), st.sext(2 * w8, y));
                    let f = match op { "sadd" => st.add(xx, yy), "ssub" => st.sub(xx, yy), _ => st.mul(xx, yy) };
                    let r = st.extract(w8 - 1, 0, f);
                    let b = st.sext(2 * w8, r);
                    let e = st.eq(b, f);
                    let half = m64(w) >> 1;
                    let (p, q) = (st.ur(x), st.ur(y));
                    let fits = p.1 <= half && q.1 <= half && match op { "sadd" => p.1 + q.1 <= half, "ssub" => true, _ => p.1.checked_mul(q.1).map_or(false, |v| v <= half) };
                    (r, if fits { Store::FALSE } else { st.not(e) })
                }
            };
            let (rv, ov) = (self.vt(r), self.vt(o));
            return Ok(Some(V::A(Rc::new(vec![rv, ov]))));
        }
        // SSE intrinsics
        if n.starts_with("x86.") {
            let f = &n[4..];
            return match f {
                "sse.min.ps" | "sse.max.ps" | "sse2.min.pd" | "sse2.max.pd" => {
                    let max = f.contains("max");
                    let (nl, et) = match ret { Ty::Vec(n, t) => (*n as usize, (**t).clone()), _ => return ierr(n.into()) };
                    let w = et.bits();
                    let mut r = vec![];
                    for i in 0..nl {
                        let (x, y) = (elt(&a[0], i), elt(&a[1], i));
                        if matches!(x, V::U) || matches!(y, V::U) { r.push(V::U); continue; }
                        let (x, y) = (self.tm(&x, w), self.tm(&y, w));
                        let c = if max { self.st.flt(y, x) } else { self.st.flt(x, y) };
                        let t = self.st.ite(c, x, y);
                        r.push(self.vt(t));
                    }
                    Ok(Some(V::A(Rc::new(r))))
                }
                "sse.min.ss" | "sse.max.ss" => {
                    let max = f.contains("max");
                    let (x, y) = (elt(&a[0], 0), elt(&a[1], 0));
                    let (x, y) = (self.tm(&x, 32), self.tm(&y, 32));
                    let c = if max { self.st.flt(y, x) } else { self.st.flt(x, y) };
                    let t = self.st.ite(c, x, y);
                    let mut r: Vec<V> = (0..4).map(|i| elt(&a[0], i)).collect();
                    r[0] = self.vt(t);
                    Ok(Some(V::A(Rc::new(r))))
                }
                "sse.movmsk.ps" | "sse2.movmsk.pd" => {
                    let (nl, w) = if f.starts_with("sse2") { (2, 64u16) } else { (4, 32u16) };
                    let mut acc = self.st.c(32, 0);
                    for i in 0..nl {
                        let x = elt(&a[0], i);
                        let x = self.tm(&x, w);
                        let b = self.st.extract(w as u8 - 1, w as u8 - 1, x);
                        let z = self.st.zext(32, b);
                        let k = self.st.c(32, i as u128);
                        let sh = self.st.shl(z, k);
                        acc = self.st.or(acc, sh);
                    }
                    Ok(Some(self.vt(acc)))
                }
                "sse.cmp.ps" => {
                    let p = match &a[2] { V::I(k) => *k & 7, _ => return ierr(n.into()) };
                    let pp = [1u8, 4, 5, 14, 13, 10, 12, 7][p as usize];
                    // 4=neq(une=13) 5=nlt(uge=10?) 6=nle
                    let pp = match p { 5 => 10, 6 => 9, _ => pp };
                    let mut r = vec![];
                    for i in 0..4 {
                        let (x, y) = (elt(&a[0], i), elt(&a[1], i));
                        let c = self.fcmp(pp, 32, &x, &y);
                        let c = self.tm(&c, 1);
                        let e = self.st.sext(32, c);
                        r.push(self.vt(e));
                    }
                    Ok(Some(V::A(Rc::new(r))))
                }
                "sse.rcp.ps" | "sse.rcp.ss" | "sse.rsqrt.ps" | "sse.rsqrt.ss" => {
                    // approximate instructions: any value (hardware dependent)
                    ierr(format!("approximate instruction llvm.{}", n))
                }
                _ => ierr(format!("llvm.{}", n)),
            };
        }
        // reductions
        if base == "vector" {
            let (nl, et) = match &ar[ar.len() - 1].0 { Ty::Vec(n, t) => (*n as usize, (**t).clone()), _ => return ierr(format!("llvm.{}", n)) };
            let src = &a[a.len() - 1];
            let k = n.split('.').nth(2).unwrap_or("").to_string();
            let w = et.bits();
            let mut acc = elt(src, 0);
            match k.as_str() {
                "fmin" | "fmax" | "fminimum" | "fmaximum" => { for i in 1..nl { let e = elt(src, i); acc = self.minmax(k.contains("max"), true, &[acc, e], &et)?; } return Ok(Some(acc)); }
                "fadd" | "fmul" => {
                    acc = a[0].clone();
                    for i in 0..nl { let e = elt(src, i); acc = self.fbin(if k == "fadd" { 0 } else { 2 }, w, &acc, &e); }
                    return Ok(Some(acc));
                }
                _ => {}
            }
            for i in 1..nl {
                let e = elt(src, i);
                acc = match k.as_str() {
                    "and" => self.bin(10, w, &acc, &e)?,
                    "or" => self.bin(11, w, &acc, &e)?,
                    "xor" => self.bin(12, w, &acc, &e)?,
                    "add" => self.bin(0, w, &acc, &e)?,
                    "mul" => self.bin(2, w, &acc, &e)?,
                    "umin" | "umax" | "smin" | "smax" => {
                        let p = match k.as_str() { "umin" => 4, "umax" => 2, "smin" => 8, _ => 6 };
                        let c = self.icmp(p, w, &acc, &e);
                        let c = self.tm(&c, 1);
                        self.sel(c, &acc, &e, &et)
                    }
                    _ => return ierr(format!("llvm.{}", n)),
                };
            }
            return Ok(Some(acc));
        }
        let _ = two;
        // elementwise
        match n.split('.').take(2).collect::<Vec<_>>().join(".").as_str() {
            "fptosi.sat" | "fptoui.sat" => {
                let sg = base == "fptosi";
                let ft = ar[0].0.clone();
                let rt = ret.clone();
                let v = self.map1(&ft, &a[0], &mut |m, t, v| {
                    if let V::U = v { return Ok(V::U); }
                    let x = m.tm(v, t.bits());
                    let w = match &rt { Ty::Vec(_, t) => t.bits(), t => t.bits() };
                    let r = m.st.f2i(sg, w as u8, x);
                    Ok(m.vt(r))
                })?;
                return Ok(Some(v));
            }
            _ => {}
        }
        match base {
            "sqrt" | "fabs" | "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => {
                let b = base.to_string();
                let v = self.map1(ret, &a[0], &mut |m, t, v| {
                    if let V::U = v { return Ok(V::U); }
                    let x = m.tm(v, t.bits());
                    let r = match b.as_str() { "sqrt" => m.st.fsqrt(x), "fabs" => m.st.fabs(x), "floor" => m.st.fround(0, x), "ceil" => m.st.fround(1, x), "trunc" => m.st.fround(2, x), "round" => m.st.fround(3, x), _ => m.st.fround(4, x) };
                    Ok(m.vt(r))
                })?;
                return Ok(Some(v));
            }
            "minnum" | "minimumnum" => return self.minmax(false, true, a, ret).map(Some),
            "maxnum" | "maximumnum" => return self.minmax(true, true, a, ret).map(Some),
            "minimum" => return self.minmax(false, false, a, ret).map(Some),
            "maximum" => return self.minmax(true, false, a, ret).map(Some),
            "fmuladd" => {
                let et = match ret { Ty::Vec(_, t) => (**t).clone(), t => t.clone() };
                let w = et.bits();
                let n = match ret { Ty::Vec(n, _) => *n as usize, _ => 0 };
                if n == 0 { let p = self.fbin(2, w, &a[0], &a[1]); return Ok(Some(self.fbin(0, w, &p, &a[2]))); }
                let r = (0..n).map(|i| { let (x, y, z) = (elt(&a[0], i), elt(&a[1], i), elt(&a[2], i)); let p = self.fbin(2, w, &x, &y); self.fbin(0, w, &p, &z) }).collect();
                return Ok(Some(V::A(Rc::new(r))));
            }
            "copysign" => {
                let et = match ret { Ty::Vec(_, t) => (**t).clone(), t => t.clone() };
                let w = et.bits();
                let n = match ret { Ty::Vec(n, _) => *n as usize, _ => 0 };
                let mut one = |m: &mut Machine, x: &V, y: &V| {
                    let (x, y) = (m.tm(x, w), m.tm(y, w));
                    let sgn = m.st.extract(w as u8 - 1, w as u8 - 1, y);
                    let p = m.st.fabs(x);
                    let q = m.st.fneg(p);
                    let r = m.st.ite(sgn, q, p);
                    m.vt(r)
                };
                if n == 0 { let r = one(self, &a[0], &a[1]); return Ok(Some(r)); }
                let r = (0..n).map(|i| { let (x, y) = (elt(&a[0], i), elt(&a[1], i)); one(self, &x, &y) }).collect();
                return Ok(Some(V::A(Rc::new(r))));
            }
            "fma" => {
                let w = (match ret { Ty::Vec(_, t) => (**t).clone(), t => t.clone() }).bits();
                let n = match ret { Ty::Vec(n, _) => *n as usize, _ => 0 };
                if n == 0 { return self.fma(w, &a[0], &a[1], &a[2]).map(Some); }
                let mut r = vec![];
                for i in 0..n { r.push(self.fma(w, &elt(&a[0], i), &elt(&a[1], i), &elt(&a[2], i))?); }
                return Ok(Some(V::A(Rc::new(r))));
            }
            "powi" => {
                let mut e = self.conc(s, &a[1])? as u32 as i32;
                let neg = e < 0;
                let mut x = self.tm(&a[0], ret.bits());
                let one = self.tm(&V::I(if ret.bits() == 32 { 1f32.to_bits() as u64 } else { 1f64.to_bits() }), ret.bits());
                let mut r = one;
                loop {
                    if e & 1 != 0 { r = self.st.fmul(r, x); }
                    e /= 2;
                    if e == 0 { break; }
                    x = self.st.fmul(x, x);
                }
                if neg { r = self.st.fdiv(one, r); }
                return Ok(Some(self.vt(r)));
            }
            _ => {}
        }
        // integer, elementwise
        let et = match ret { Ty::Vec(_, t) => (**t).clone(), t => t.clone() };
        let w = et.bits();
        let nl = match ret { Ty::Vec(n, _) => Some(*n as usize), _ => None };
        let aw = match &ar.get(0).map(|x| x.0.clone()) { Some(Ty::Vec(_, t)) => t.bits(), Some(t) => t.bits(), None => 0 };
        let isv = |i: usize| ar.get(i).map_or(false, |x| matches!(x.0, Ty::Vec(..)));
        let mut out = vec![];
        for l in 0..nl.unwrap_or(1) {
            let g = |i: usize| if isv(i) { elt(&a[i], l) } else { a[i].clone() };
            let x = g(0);
            let y = if a.len() > 1 { g(1) } else { V::I(0) };
            if matches!(x, V::U) { out.push(V::U); continue; }
            let v = match base {
                "umin" | "umax" | "smin" | "smax" => {
                    let p = match base { "umin" => 4, "umax" => 2, "smin" => 8, _ => 6 };
                    let c = self.icmp(p, w, &x, &y);
                    if let V::U = c { V::U } else { let c = self.tm(&c, 1); self.sel(c, &x, &y, &et) }
                }
                "usub" => { let d = self.bin(1, w, &x, &y)?; let c = self.icmp(4, w, &x, &y); let c = self.tm(&c, 1); self.sel(c, &V::I(0), &d, &et) }
                "uadd" => { let d = self.bin(0, w, &x, &y)?; let c = self.icmp(4, w, &d, &x); let c = self.tm(&c, 1); self.sel(c, &V::I(m64(w)), &d, &et) }
                "abs" => { let z = V::I(0); let d = self.bin(1, w, &z, &x)?; let c = self.icmp(8, w, &x, &z); let c = self.tm(&c, 1); self.sel(c, &d, &x, &et) }
                "ucmp" | "scmp" => {
                    let sg = base == "scmp";
                    let lt = self.icmp(if sg { 8 } else { 4 }, aw, &x, &y);
                    let gt = self.icmp(if sg { 6 } else { 2 }, aw, &x, &y);
                    let (lt, gt) = (self.tm(&lt, 1), self.tm(&gt, 1));
                    let r = self.sel(gt, &V::I(1), &V::I(0), &et);
                    self.sel(lt, &V::I(m64(w)), &r, &et)
                }
                "fshl" | "fshr" => {
                    let z = g(2);
                    let k = self.conc(s, &z)? % w as u64;
                    let (hx, ly) = (self.tm(&x, w), self.tm(&y, w));
                    if w > 64 { return ierr("wide fshl".into()); }
                    let c = self.st.concat(hx, ly);
                    let w8 = w as u8;
                    let k = k as u8;
                    let r = if base == "fshl" { self.st.extract(2 * w8 - 1 - k, w8 - k, c) } else { self.st.extract(w8 - 1 + k, k, c) };
                    self.vt(r)
                }
                "ctlz" | "cttz" => {
                    if let V::I(k) = x {
                        let n = if base == "ctlz" { (k << (64 - w)).leading_zeros().min(w as u32) } else { k.trailing_zeros().min(w as u32) };
                        V::I(n as u64)
                    } else {
                        let t = self.tm(&x, w);
                        let mut r = self.st.c(w as u8, w as u128);
                        for i in 0..w as u8 {
                            // last assignment wins: scan from the far end
                            let bit = if base == "ctlz" { i } else { w as u8 - 1 - i };
                            let b = self.st.extract(bit, bit, t);
                            let k = self.st.c(w as u8, if base == "ctlz" { (w as u8 - 1 - bit) as u128 } else { bit as u128 });
                            r = self.st.ite(b, k, r);
                        }
                        self.vt(r)
                    }
                }
                "ctpop" => {
                    if let V::I(k) = x { V::I(k.count_ones() as u64) } else {
                        let t = self.tm(&x, w);
                        let mut r = self.st.c(w as u8, 0);
                        for i in 0..w as u8 { let b = self.st.extract(i, i, t); let z = self.st.zext(w as u8, b); r = self.st.add(r, z); }
                        self.vt(r)
                    }
                }
                "bswap" => {
                    let t = self.tm(&x, w);
                    let mut r = self.st.extract(7, 0, t);
                    for i in 1..(w / 8) as u8 { let b = self.st.extract(i * 8 + 7, i * 8, t); r = self.st.concat(r, b); }
                    self.vt(r)
                }
                "bitreverse" => {
                    let t = self.tm(&x, w);
                    let mut r = self.st.extract(0, 0, t);
                    for i in 1..w as u8 { let b = self.st.extract(i, i, t); r = self.st.concat(r, b); }
                    self.vt(r)
                }
                _ => return ierr(format!("intrinsic llvm.{}", n)),
            };
            out.push(v);
        }
        Ok(Some(if nl.is_some() { V::A(Rc::new(out)) } else { out.pop().unwrap() }))
    }

    // ---------------------------------------------------------------- threads
    pub fn sched_var(&self, c: T) -> Option<u32> {
        match *self.st.n(c) { N::Var(_, id) if self.st.vars[id as usize].key >= SCHED => Some(id), _ => None }
    }
    fn symbool(&mut self, s: &mut State) -> R<bool> {
        let key = SCHED + s.npre;
        let id = self.mkvar(key, 1, false, 0.0, 0.0, 0, 1);
        let t = self.st.var(id);
        match s.known(&self.st, t) { Some(b) => { s.npre += 1; Ok(b) } None => Err(Stop::Fork(t)) }
    }
    fn runnable(s: &State) -> Vec<u32> {
        (0..s.thr.len() as u32).filter(|&i| i != s.cur && !s.thr[i as usize].done && s.thr[i as usize].wait.map_or(true, |w| s.thr[w as usize].done)).collect()
    }
    fn choose(&mut self, s: &mut State, l: &[u32]) -> R<u32> {
        // the choices are remembered in case a later one has to fork
        let n0 = s.npre;
        for &t in &l[..l.len() - 1] {
            match self.symbool(s) { Ok(true) => return Ok(t), Ok(false) => {} Err(e) => { s.npre = n0; return Err(e); } }
        }
        Ok(l[l.len() - 1])
    }
    fn switch(&mut self, s: &mut State, to: u32) {
        let c = s.cur as usize;
        s.thr[c].frames = std::mem::take(&mut s.frames);
        s.frames = std::mem::take(&mut s.thr[to as usize].frames);
        s.cur = to;
        s.thr[to as usize].wait = None;
        if let Some(r) = &mut s.race { s.thr[c].task = r.cur; r.cur = s.thr[to as usize].task; }
    }
    /// may another thread run before the coming operation?
    fn preempt(&mut self, s: &mut State) -> R<bool> {
        if s.thr.len() < 2 || s.budget == 0 || s.thr[s.cur as usize].passed { return Ok(false); }
        let l = Machine::runnable(s);
        if l.is_empty() { return Ok(false); }
        let n0 = s.npre;
        if !self.symbool(s)? { let c = s.cur as usize; s.thr[c].passed = true; return Ok(false); }
        let to = match self.choose(s, &l) { Ok(t) => t, Err(e) => { s.npre = n0; return Err(e); } };
        let c = s.cur as usize;
        s.thr[c].passed = true;
        s.budget -= 1;
        self.switch(s, to);
        Ok(true)
    }
    fn passed(&mut self, s: &mut State) { if !s.thr.is_empty() { let c = s.cur as usize; s.thr[c].passed = false; } }
    /// the running thread cannot go on
    fn resume_other(&mut self, s: &mut State) -> R<()> {
        let l = Machine::runnable(s);
        if l.is_empty() { return merr("deadlock: every thread waits".into()); }
        let to = self.choose(s, &l)?;
        self.switch(s, to);
        Ok(())
    }
    /// operations on threads; true: go on behind the call
    fn threads(&mut self, s: &mut State, name: &str, a: &[V], dst: Option<u32>) -> R<bool> {
        let _ = dst;
        match name {
            "vx_thread_spawn" => {
                let fp = self.conc(s, &a[0])?;
                let k = (fp >> 32).wrapping_sub(FBASE) as usize;
                if k >= self.fnames.len() { return merr("thread start at an invalid address".into()); }
                let n = self.fnames[k].clone();
                let f = self.func(&n)?;
                *self.fcount.entry(f.idx).or_insert(0) += 1;
                let mut regs = vec![V::U; f.f.nregs as usize];
                if let Some((r, _)) = f.f.params.get(0) { regs[*r as usize] = a[1].clone(); }
                let fr = Rc::new(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst: None, next: None });
                if s.thr.is_empty() { s.thr.push(Thr { frames: vec![], done: false, wait: None, task: 0, passed: false }); }
                let mut task = 0;
                if let Some(r) = &mut s.race { r.boot(); let c = r.cur; task = r.child(c); }
                s.thr.push(Thr { frames: vec![fr], done: false, wait: None, task, passed: false });
                Ok(true)
            }
            "vx_thread_yield" => {
                if self.preempt(s)? { return Ok(false); }
                self.passed(s);
                Ok(true)
            }
            // wait for one thread / for all that were started from a given one on
            "vx_thread_join" | "vx_thread_join_from" => {
                let k = self.conc(s, &a[0])? as u32;
                let last = if name == "vx_thread_join" { k + 1 } else { s.thr.len() as u32 };
                for t in k..last.min(s.thr.len() as u32) {
                    if t == s.cur || t == 0 { continue; }
                    if !s.thr[t as usize].done {
                        let c = s.cur as usize;
                        s.thr[c].wait = Some(t);
                        self.resume_other(s)?;
                        return Ok(false);
                    }
                }
                for t in k..last.min(s.thr.len() as u32) {
                    if t == s.cur || t == 0 { continue; }
                    if let Some(r) = &mut s.race { let c = r.cur; r.join(c, s.thr[t as usize].task); }
                }
                Ok(true)
            }
            _ => Ok(true),
        }
    }
    /// record an access; a conflict with an unordered one is a data race
    fn touch(&mut self, s: &mut State, g: T, id: usize, off: usize, n: usize, wr: bool, at: bool) -> R<()> {
        let Some(r) = &mut s.race else { return Ok(()) };
        if r.open.is_empty() || n == 0 { return Ok(()); }
        let Some(o) = &s.mem[id] else { return Ok(()) };
        if o.ro { return Ok(()); }
        let size = o.size as usize;
        let me = r.cur;
        let vc = r.vc[me as usize].clone();
        let now = me << 16 | vc[me as usize] as u32;
        let before = |e: u32| e == 0 || vc.get((e >> 16) as usize).map_or(false, |&c| c as u32 >= e & 0xffff);
        let cells = Rc::make_mut(r.sh.entry(id as u32).or_insert_with(|| Rc::new(vec![Cell::default(); size])));
        let mut bad = false;
        for c in cells[off..off + n].iter_mut() {
            bad |= !before(c.w);
            if wr { bad |= !before(c.r[0]) | !before(c.r[1]); }
            if !at { bad |= !before(c.a[0]) | !before(c.a[1]); if wr { bad |= !before(c.ar); } }
            if at && wr { if !before(c.a[0]) && c.a[0] >> 16 != me { c.a[1] = c.a[0]; } c.a[0] = now; }
            else if at { c.ar = now; }
            else if wr { c.w = now; }
            else if before(c.r[0]) || c.r[0] >> 16 == me { c.r[0] = now; }
            else { c.r[1] = now; }
        }
        if bad {
            if g == Store::TRUE { return merr(format!("data race ({}{})", if at { "atomic " } else { "" }, if wr { "write" } else { "read" })); }
            let ng = self.st.not(g);
            s.checks.push((ng, 990));
        }
        Ok(())
    }

    fn harness(&mut self, s: &mut State, n: &str, a: &[V]) -> R<Option<V>> {
        let unit = Ok(Some(V::I(0)));
        match n {
            "f32" => {
                let (lo, hi) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let (lo, hi) = (f32::from_bits(lo as u32), f32::from_bits(hi as u32));
                let key = s.draws.len() as u64;
                let id = self.mkvar(key, 32, true, lo as f64, hi as f64, 0, u32::MAX as u64);
                s.draws.push(id);
                let t = self.st.var(id);
                Ok(Some(self.vt(t)))
            }
            "f32_bits" => {
                let key = s.draws.len() as u64;
                let id = self.mkvar(key, 32, false, 0.0, 0.0, 0, u32::MAX as u64);
                s.draws.push(id);
                let t = self.st.var(id);
                Ok(Some(self.vt(t)))
            }
            "u32" | "u64" => {
                let (lo, hi) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let key = s.draws.len() as u64;
                let id = self.mkvar(key, if n == "u32" { 32 } else { 64 }, false, 0.0, 0.0, lo, hi);
                s.draws.push(id);
                let t = self.st.var(id);
                Ok(Some(self.vt(t)))
            }
            "bool" => {
                let key = s.draws.len() as u64;
                let id = self.mkvar(key, 1, false, 0.0, 0.0, 0, 1);
                s.draws.push(id);
                let t = self.st.var(id);
                Ok(Some(self.vt(t)))
            }
            "param" => { let k = self.conc(s, &a[0])? as usize; let d = self.conc(s, &a[1])?; Ok(Some(V::I(self.params.get(k).cloned().filter(|v| *v != u64::MAX).unwrap_or(d)))) }
            "assume" => {
                match &a[0] {
                    V::I(1) => unit,
                    V::I(_) => Err(Stop::End(End::Dead)),
                    V::T(t) => match s.known(&self.st, *t) { Some(true) => unit, Some(false) => Err(Stop::End(End::Dead)), None => Err(Stop::Assume(*t)) },
                    _ => merr("assume on an uninitialised value".into()),
                }
            }
            "check" => {
                let id = self.conc(s, &a[1])? as u32;
                let c = match &a[0] { V::U => return merr(format!("check {} on an uninitialised value", id)), v => self.tm(v, 1) };
                if s.known(&self.st, c) != Some(true) { s.checks.push((c, id)); } else { s.checks.push((Store::TRUE, id)); }
                if s.known(&self.st, c) == Some(false) { return Err(Stop::End(End::Ok)); }
                unit
            }
            "cover" => {
                let id = self.conc(s, &a[0])? as u32;
                if !s.cov.contains(&id) { s.cov.push(id); }
                unit
            }
            "note" => { let id = self.conc(s, &a[0])? as u32; s.notes.push((id, a[1].clone())); unit }
            "allow_panic" => { s.allow_panic = self.conc(s, &a[0])? == 1; unit }
            "conc" => { let v = self.conc(s, &a[0])?; Ok(Some(V::I(v))) }
            "is_native" => Ok(Some(V::I(0))),
            "stop" => Err(Stop::End(End::Ok)),
            // done by `threads`
            "thread_spawn" => { let r = s.thr.len() as u64 - 1; Ok(Some(V::I(r))) }
            "thread_count" => Ok(Some(V::I(s.thr.len().max(1) as u64))),
            x if x.starts_with("thread_") => unit,
            "par_begin" => { if let Some(r) = &mut s.race { r.boot(); let c = r.cur; r.groups.push((c, vec![])); } unit }
            "par_item" => {
                if let Some(r) = &mut s.race {
                    if r.groups.is_empty() { return ierr("item outside a group".into()); }
                    let c = r.cur;
                    let k = r.child(c);
                    r.groups.last_mut().unwrap().1.push(k);
                    r.outer.push(c);
                    r.cur = k;
                }
                unit
            }
            "par_leave" => { if let Some(r) = &mut s.race { if let Some(c) = r.outer.pop() { r.cur = c; } } unit }
            "par_end" => { if let Some(r) = &mut s.race { if let Some((c, l)) = r.groups.pop() { for k in l { r.join(c, k); } r.cur = c; } } unit }
            _ => ierr(format!("vx_{}", n)),
        }
    }
}

pub fn elt(v: &V, i: usize) -> V { match v { V::A(l) => l[i].clone(), V::U => V::U, _ => V::U } }
fn insert(x: &V, ty: &Ty, path: &[u32], y: V) -> V {
    if path.is_empty() { return y; }
    let n = match ty { Ty::St(v, _) => v.len(), Ty::Arr(n, _) => *n as usize, _ => 0 };
    let mut l: Vec<V> = (0..n).map(|i| elt(x, i)).collect();
    let k = path[0] as usize;
    let et = match ty { Ty::St(v, _) => v[k].clone(), Ty::Arr(_, t) => (**t).clone(), t => t.clone() };
    l[k] = insert(&l[k].clone(), &et, &path[1..], y);
    V::A(Rc::new(l))
}
