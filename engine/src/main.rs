//! symex: bounded symbolic execution of LLVM IR with an SMT solver.
//!
//! usage: symex --ll FILE --entry NAME [--out FILE] [--threads N] [--time S]
//!              [--z3 PATH] [--param K=V]... [--max-steps N] [--keep-going]
mod exec;
mod fx;
mod ll;
mod smt;
mod term;
use exec::*;
use smt::*;
use fx::HashMap;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use term::*;

#[derive(Clone)]
struct Cfg {
    ll: String,
    entry: String,
    out: String,
    threads: usize,
    time: f64,
    z3: String,
    params: Vec<u64>,
    max_steps: u64,
    keep: bool,
    t_free: u32,
    b_fork: u32,
    b_check: u32,
    t_exact: u32,
    t_probe: u32,
    t_fork: u32,
    random: bool,
    concrete: bool,
    csel: bool,
    race: bool,
    defer: bool,
    seed: Vec<u128>,
    verbose: bool,
}

#[derive(Default)]
struct Agg {
    paths: u64,
    ok: u64,
    dead: u64,
    panics_allowed: u64,
    witnessed: u64,
    forks: u64,
    steps: u64,
    checks: BTreeMap<u32, u64>,
    checks_trivial: u64,
    discharged_free: u64,
    discharged_exact: u64,
    queries: [u64; 2],
    time: [f64; 2],
    maxq: [f64; 2],
    unknown: [u64; 2],
    lemmas: u64,
    refinements: u64,
    funcs: BTreeMap<String, u64>,
    covers: BTreeMap<u32, (u64, u64)>,
    viols: Vec<Viol>,
    undecided: Vec<Viol>,
    errors: BTreeMap<String, (u64, String)>,
    samples: Vec<String>,
    sites: BTreeMap<String, u64>,
    spurious: u64,
    pruned: u64,
    hard: u64,
    open: u64,
}

#[derive(Clone)]
struct Viol { kind: String, id: u32, what: String, inputs: String, stack: Vec<String> }

struct Shared {
    queue: Mutex<Vec<Vec<Dec>>>,
    cv: Condvar,
    idle: AtomicUsize,
    done: AtomicBool,
    stop: AtomicBool,
    timeout: AtomicBool,
    nviol: AtomicU64,
    agg: Mutex<Agg>,
}

enum Res { No, Yes(Rc<Wit>), Maybe(Rc<Wit>) }

struct Worker<'a> {
    m: Machine,
    sol: [Solver; 2],
    free: Solver,
    valid: HashMap<T, bool>,
    cfg: &'a Cfg,
    sh: &'a Shared,
    a: Agg,
    deadline: Instant,
    per_kind: HashMap<String, u32>,
    rng: u64,
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
fn default_val(st: &Store, id: u32) -> u128 {
    let v = &st.vars[id as usize];
    if let Some(&x) = st.seed.get(v.key as usize) {
        if v.float { let f = fval(v.w, x); if f >= v.lo && f <= v.hi { return x; } } else if x as u64 >= v.ulo && x as u64 <= v.uhi { return x; }
    }
    if v.float {
        let r = (mix(v.key) >> 11) as f64 / (1u64 << 53) as f64;
        let (lo, hi) = (v.lo.max(-100.0), v.hi.min(100.0));
        let (lo, hi) = if lo <= hi { (lo, hi) } else { (v.lo, v.hi) };
        let x = (lo + (hi - lo) * r).clamp(v.lo, v.hi);
        if v.w == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 }
    } else { v.ulo as u128 }
}

impl<'a> Worker<'a> {
    fn weval(&self, w: &Wit, t: T) -> bool {
        let st = &self.m.st;
        let env = |i: u32| w.vals.get(&i).cloned().unwrap_or_else(|| default_val(st, i));
        st.eval(t, &env, &mut w.memo.borrow_mut()) == 1
    }
    fn wval(&self, w: &Wit, t: T) -> u64 {
        let st = &self.m.st;
        let env = |i: u32| w.vals.get(&i).cloned().unwrap_or_else(|| default_val(st, i));
        st.eval(t, &env, &mut w.memo.borrow_mut()) as u64
    }
    fn holds(&self, w: &Wit, pc: &[T], extra: T) -> bool { self.weval(w, extra) && pc.iter().all(|&t| self.weval(w, t)) }

    fn ask(&mut self, s: &State, c: T, budget: u32) -> Ans { self.ask_for(s, c, budget, 20_000, 120.0) }
    /// `cap`: limit per solver call (ms), `total`: limit of the whole refinement (s)
    fn ask_for(&mut self, s: &State, c: T, budget: u32, cap: u32, total: f64) -> Ans {
        self.sol[0].cap_ms = cap;
        self.sol[0].until = Some(Instant::now() + Duration::from_secs_f64(total));
        let st = &self.m.st;
        let w = s.wit.clone();
        let base = |i: u32| w.as_ref().and_then(|w| w.vals.get(&i).cloned()).unwrap_or_else(|| default_val(st, i));
        let r = self.sol[0].query(st, &s.pc, c, budget, &base);
        self.sol[0].until = None;
        self.sol[0].cap_ms = 20_000;
        r
    }
    fn wit_of(&self, mut vals: HashMap<u32, u128>, s: &State) -> Rc<Wit> {
        if let Some(b) = &s.wit { for (i, v) in &b.vals { vals.entry(*i).or_insert(*v); } }
        Rc::new(Wit { vals, memo: Default::default() })
    }
    /// feasibility for exploration: undecided counts as feasible
    fn feasible(&mut self, s: &State, c: T) -> (bool, Option<Rc<Wit>>) {
        match self.ask_for(s, c, self.cfg.b_fork, self.cfg.t_fork, self.cfg.t_fork as f64 / 400.0) {
            Ans::No => (false, None),
            Ans::Yes(v) => (true, Some(self.wit_of(v, s))),
            Ans::Maybe(v) => {
                self.a.spurious += 1;
                let w = self.wit_of(v, s);
                let r = self.search(&w, s, c);
                (true, r)
            }
        }
    }
    /// decide pc & c under the real semantics
    fn resolve(&mut self, s: &State, c: T) -> Res {
        if c != Store::TRUE {
            // many checks hold without any path condition
            let v = match self.valid.get(&c) {
                Some(v) => *v,
                None => { let v = self.free.check(&self.m.st, &[], c) == Sat::Unsat; self.valid.insert(c, v); v }
            };
            if v { self.a.discharged_free += 1; return Res::No; }
        }
        let w = match self.ask(s, c, self.cfg.b_check) {
            Ans::No => { self.a.discharged_free += 1; return Res::No; }
            Ans::Yes(v) => return Res::Yes(self.wit_of(v, s)),
            Ans::Maybe(v) => self.wit_of(v, s),
        };
        if let Some(w2) = self.search(&w, s, c) { return Res::Yes(w2); }
        match self.sol[1].check_once(&self.m.st, &s.pc, c) {
            Sat::Unsat => { self.a.discharged_exact += 1; Res::No }
            Sat::Sat => {
                let vars = s.draws.clone();
                let vals = self.sol[1].model(&self.m.st, &vars);
                let w2 = self.wit_of(vals, s);
                if self.holds(&w2, &s.pc, c) { Res::Yes(w2) } else { Res::Maybe(w2) }
            }
            Sat::Unknown => Res::Maybe(w),
        }
    }
    /// cheap repair of a near-miss model: rescale / round the float inputs
    fn search(&mut self, w: &Rc<Wit>, s: &State, c: T) -> Option<Rc<Wit>> {
        for k in 0..6u64 {
            let mut vals = w.vals.clone();
            for &d in &s.draws {
                let v = &self.m.st.vars[d as usize];
                if !v.float || v.w != 32 { continue; }
                let x = f32::from_bits(*vals.get(&d).unwrap_or(&default_val(&self.m.st, d)) as u32);
                let y = match k {
                    0 => x.round(),
                    1 => (x * 16.0).round() / 16.0,
                    2 => x * (1.0 + ((mix(d as u64) % 1000) as f32 - 500.0) * 1e-4),
                    3 => x.clamp(-1000.0, 1000.0),
                    4 => f32::from_bits((x.to_bits() as i64 + (mix(d as u64 + 77) % 5) as i64 - 2).clamp(0, u32::MAX as i64) as u32),
                    _ => x.clamp(-10.0, 10.0).round(),
                };
                let y = (y as f64).clamp(v.lo, v.hi) as f32;
                vals.insert(d, y.to_bits() as u128);
            }
            let w2 = Wit { vals, memo: Default::default() };
            if self.holds(&w2, &s.pc, c) { return Some(Rc::new(w2)); }
        }
        None
    }

    /// across the boundary of the last literal, starting from a model of the others
    fn cross(&mut self, pc: &[T], c: T, all: &[u32], near: &Rc<Wit>, tries: u32) -> Option<Rc<Wit>> {
        let t0 = Instant::now();
        let draws: Vec<u32> = all.iter().cloned().filter(|&d| { let v = &self.m.st.vars[d as usize]; (v.float && v.w == 32) || !v.float }).collect();
        if draws.is_empty() { return None; }
        let base: Vec<u128> = draws.iter().map(|d| near.vals.get(d).cloned().unwrap_or_else(|| default_val(&self.m.st, *d))).collect();
        let mut rng = mix(c as u64 ^ (pc.len() as u64) << 32 ^ tries as u64);
        let mk = |x: &Vec<u128>| -> Wit { let mut vals = near.vals.clone(); for (d, v) in draws.iter().zip(x) { vals.insert(*d, *v); } Wit { vals, memo: Default::default() } };
        for k in 0..tries {
            if t0.elapsed().as_millis() > if self.cfg.defer { 40 } else { 400 } { break; }
            let mut tgt = base.clone();
            let moved = match k % 4 { 0 | 1 => 1, 2 => 2, _ => draws.len() };
            for _ in 0..moved {
                rng = mix(rng);
                let i = (rng >> 20) as usize % draws.len();
                let i = if moved == draws.len() { (i + 1) % draws.len() } else { i };
                let v = &self.m.st.vars[draws[i] as usize];
                rng = mix(rng);
                let u = (rng >> 11) as f64 / (1u64 << 53) as f64;
                tgt[i] = if v.float {
                    let cur = f32::from_bits(base[i] as u32) as f64;
                    let x = match (rng & 7) as u32 {
                        0 => v.lo, 1 => v.hi,
                        2 => cur + (u - 0.5) * 2.0, 3 => cur * (0.5 + u), 4 => cur + (u - 0.5) * 100.0,
                        5 => { let j = (rng >> 8) as usize % draws.len(); f32::from_bits(base[j] as u32) as f64 }
                        _ => v.lo + (v.hi - v.lo) * u,
                    };
                    let x = if x.is_nan() { v.lo } else { x };
                    ((x.clamp(v.lo, v.hi)) as f32).to_bits() as u128
                } else {
                    let (l, h) = (v.ulo as u128, v.uhi as u128);
                    l + (rng as u128) % (h - l + 1)
                };
            }
            if !self.weval(&mk(&tgt), c) { continue; }
            // bisect towards the model
            let (mut lo, mut hi) = (base.clone(), tgt);
            let w = mk(&hi);
            if self.holds(&w, pc, c) { return Some(Rc::new(w)); }
            for _ in 0..30 {
                let mut mid = hi.clone();
                let mut same = true;
                for i in 0..draws.len() {
                    let v = &self.m.st.vars[draws[i] as usize];
                    if lo[i] == hi[i] { continue; }
                    mid[i] = if v.float { let (a, b) = (f32::from_bits(lo[i] as u32) as f64, f32::from_bits(hi[i] as u32) as f64); ((a * 0.5 + b * 0.5) as f32).to_bits() as u128 } else { (lo[i] + hi[i]) / 2 };
                    if mid[i] != lo[i] && mid[i] != hi[i] { same = false; }
                }
                if same { break; }
                if self.weval(&mk(&mid), c) { hi = mid } else { lo = mid }
            }
            let w = mk(&hi);
            if self.holds(&w, pc, c) { return Some(Rc::new(w)); }
        }
        None
    }

    fn inputs(&self, s: &State, w: &Wit) -> String {
        let st = &self.m.st;
        let mut v = vec![];
        for &d in &s.draws {
            let i = &st.vars[d as usize];
            let b = w.vals.get(&d).cloned().unwrap_or_else(|| default_val(st, d));
            v.push(if i.float { format!("f{:#010x}={:?}", b, f32::from_bits(b as u32)) } else { format!("u{}", b) });
        }
        v.join(" ")
    }

    fn report(&mut self, s: &State, kind: &str, id: u32, what: &str, w: &Wit, sure: bool) {
        let key = format!("{}:{}:{}:{}", kind, id, what, sure);
        let n = self.per_kind.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 { return; }
        let v = Viol { kind: kind.into(), id, what: what.into(), inputs: self.inputs(s, w), stack: s.stack().into_iter().take(12).collect() };
        if self.cfg.verbose { eprintln!("{} {} {} {} [{}]", if sure { "VIOL" } else { "MAYBE" }, kind, id, what, v.inputs); }
        if sure {
            self.a.viols.push(v);
            self.sh.nviol.fetch_add(1, Ordering::SeqCst);
            if !self.cfg.keep { self.sh.stop.store(true, Ordering::SeqCst); self.sh.cv.notify_all(); }
        } else { self.a.undecided.push(v); }
    }

    fn finish(&mut self, s: &mut State, e: End) {
        self.a.paths += 1;
        self.a.steps += s.steps;
        if let End::Dead = e { self.a.dead += 1; return; }
        for c in &s.cov { let x = self.a.covers.entry(*c).or_insert((0, 0)); x.0 += 1; if s.wit.is_some() { x.1 += 1; } }
        if s.wit.is_some() { self.a.witnessed += 1; }
        // pending checks
        let mut conj = Store::TRUE;
        let checks = std::mem::take(&mut s.checks);
        for &(c, id) in &checks {
            *self.a.checks.entry(id).or_insert(0) += 1;
            if s.known(&self.m.st, c) == Some(true) { self.a.checks_trivial += 1; continue; }
            if let Some(w) = s.wit.clone() {
                if !self.weval(&w, c) { self.report(s, "check", id, "", &w, true); return; }
            }
            conj = self.m.st.and(conj, c);
        }
        if conj != Store::TRUE {
            let bad = self.m.st.not(conj);
            let first = if self.cfg.defer { self.ask_for(s, bad, self.cfg.b_check, 1_000, if self.a.open > 0 { 0.6 } else { 2.0 }) } else { self.ask(s, bad, self.cfg.b_check) };
            match first {
                Ans::No => self.a.discharged_free += 1,
                Ans::Yes(v) if self.cfg.defer => {
                    let w = self.wit_of(v, s);
                    for &(c, id) in &checks { if !self.weval(&w, c) { self.report(s, "check", id, "", &w, true); break; } }
                }
                Ans::Maybe(v) if self.cfg.defer => {
                    let w = self.wit_of(v, s);
                    match self.search(&w, s, bad) {
                        Some(w) => for &(c, id) in &checks { if !self.weval(&w, c) { self.report(s, "check", id, "", &w, true); break; } },
                        None => self.a.open += 1,
                    }
                }
                _ => {
                    for &(c, id) in &checks {
                        if s.known(&self.m.st, c) == Some(true) { continue; }
                        if Instant::now() > self.deadline { self.sh.timeout.store(true, Ordering::SeqCst); break; }
                        let bad = self.m.st.not(c);
                        match self.resolve(s, bad) {
                            Res::No => {}
                            Res::Yes(w) => { self.report(s, "check", id, "", &w, true); break; }
                            Res::Maybe(w) => self.report(s, "check", id, "", &w, false),
                        }
                    }
                }
            }
        }
        match e {
            End::Ok => self.a.ok += 1,
            End::Dead => {}
            End::Panic(m) if s.allow_panic => { let _ = m; self.a.panics_allowed += 1; }
            End::Panic(_) | End::Mem(_) => {
                let (k, m) = match e { End::Panic(m) => ("panic", m), End::Mem(m) => ("memory", m), _ => unreachable!() };
                if s.wit.is_none() && Instant::now() > self.deadline { self.sh.timeout.store(true, Ordering::SeqCst); return; }
                let r = match s.wit.clone() { Some(w) => Res::Yes(w), None => self.resolve(s, Store::TRUE) };
                match r {
                    Res::No => self.a.dead += 1,
                    Res::Yes(w) => self.report(s, k, 0, &m, &w, true),
                    Res::Maybe(w) => self.report(s, k, 0, &m, &w, false),
                }
            }
            End::Err(m) => {
                let inp = s.wit.clone().map(|w| self.inputs(s, &w)).unwrap_or_default();
                if self.cfg.verbose { eprintln!("ERR {} [{}] {:?}", m, inp, s.stack()); }
                let x = self.a.errors.entry(m).or_insert((0, inp));
                x.0 += 1;
            }
        }
        if self.a.samples.len() < 2 { if let Some(w) = &s.wit { let i = self.inputs(s, w); if !i.is_empty() { self.a.samples.push(i); } } }
    }

    fn apply(&mut self, s: &mut State, c: T, b: bool, implied: bool) {
        let t = if b { c } else { self.m.st.not(c) };
        if !implied { s.pc.push(t); }
        s.add_fact(&self.m.st, c, b);
        if b == false { let n = self.m.st.not(c); s.add_fact(&self.m.st, n, true); }
    }

    fn fork(&mut self, s: &mut State, c: T, stack: &mut Vec<State>) -> bool {
        if s.replay < s.log.len() {
            let d = s.log[s.replay];
            s.replay += 1;
            match d { Dec::B(b) => self.apply(s, c, b, false), Dec::I(b) => self.apply(s, c, b, true), Dec::V(_) => panic!("replay mismatch") }
            if s.replay == s.log.len() { self.revive(s); }
            return true;
        }
        let nc = self.m.st.not(c);
        let mut todo = 0;
        let (side, other, w) = match s.wit.clone() {
            Some(w) => {
                // a quick look at the other side; undecided ones are refined when taken up
                let b = self.weval(&w, c);
                let lit = if b { nc } else { c };
                if let Some(v) = self.m.sched_var(c) {
                    // free to choose
                    let mut vals = w.vals.clone();
                    vals.insert(v, !b as u128);
                    (b, !b, Some(Rc::new(Wit { vals, memo: Default::default() })))
                } else if self.cfg.defer { (b, !b, None) } else {
                let a = match self.cross(&s.pc, lit, &s.draws, &w, 12) {
                    Some(w2) => Ans::Yes(w2.vals.clone()),
                    None => self.ask_for(s, lit, 0, self.cfg.t_probe, 60.0),
                };
                let w2 = match a {
                    Ans::No => { s.log.push(Dec::I(b)); s.replay += 1; self.apply(s, c, b, true); return true; }
                    Ans::Yes(v) => Some(self.wit_of(v, s)),
                    Ans::Maybe(v) => { let w = self.wit_of(v, s); let r = self.search(&w, s, if b { nc } else { c }); if r.is_none() { todo = 1; } r }
                };
                (b, !b, w2)
                }
            }
            None => {
                let (f1, w1) = self.feasible(s, c);
                if !f1 { s.log.push(Dec::I(false)); s.replay += 1; self.apply(s, c, false, true); return true; }
                let (f2, w2) = self.feasible(s, nc);
                if !f2 { s.log.push(Dec::I(true)); s.replay += 1; s.wit = w1; self.apply(s, c, true, true); return true; }
                s.wit = w1;
                (true, false, w2)
            }
        };
        if self.cfg.defer && w.is_none() && s.wit.is_some() { todo = 1; }
        self.a.forks += 1;
        *self.a.sites.entry(s.site()).or_insert(0) += 1;
        // long paths keep a sample of their branches
        if self.cfg.defer && s.log.len() > 1200 {
            self.rng = mix(self.rng);
            if (self.rng >> 16) as usize % s.log.len() > 1200 {
                self.sh.timeout.store(true, Ordering::SeqCst);
                s.log.push(Dec::B(side));
                s.replay += 1;
                self.apply(s, c, side, false);
                return true;
            }
        }
        let mut o = s.clone();
        o.wit = w;
        o.todo = todo;
        o.near = if todo == 1 { s.wit.clone() } else { None };
        o.log.push(Dec::B(other));
        o.replay += 1;
        self.apply(&mut o, c, other, false);
        // bounded memory: beyond the cap a postponed branch is dropped and the run is partial
        if self.cfg.defer && stack.len() >= 8000 { self.rng = mix(self.rng); let i = (self.rng >> 16) as usize % stack.len(); stack[i] = o; self.sh.timeout.store(true, Ordering::SeqCst); } else { stack.push(o); }
        s.log.push(Dec::B(side));
        s.replay += 1;
        self.apply(s, c, side, false);
        true
    }
    /// after a replayed prefix: find an initial witness
    fn revive(&mut self, s: &mut State) {
        let w = Rc::new(Wit { vals: HashMap::default(), memo: Default::default() });
        if self.holds(&w, &s.pc, Store::TRUE) { s.wit = Some(w); return; }
        s.wit = None;
        s.todo = 1;
    }

    fn explore(&mut self, init: &State, prefix: Vec<Dec>) {
        let mut s0 = init.clone();
        if !prefix.is_empty() { s0.wit = None; }
        s0.log = prefix;
        let mut stack = vec![s0];
        let mut hard: Vec<State> = vec![];
        let (t0, mut spent) = (Instant::now(), 0.0);
        loop {
            if self.cfg.random && stack.len() > 1 { self.rng = mix(self.rng); let (i, n) = ((self.rng >> 16) as usize % stack.len(), stack.len()); stack.swap(i, n - 1); }
            // part of the time goes to the branches that need the solver
            let turn = self.cfg.defer && hard.last().map_or(false, |h| h.todo == 3) && spent < 0.4 * t0.elapsed().as_secs_f64();
            if turn { let h = hard.pop().unwrap(); stack.push(h); }
            let Some(mut s) = (match stack.pop() { Some(s) => Some(s), None => hard.pop() }) else { return };
            loop {
                if self.sh.stop.load(Ordering::Relaxed) { return; }
                if Instant::now() > self.deadline { self.sh.timeout.store(true, Ordering::SeqCst); self.sh.stop.store(true, Ordering::SeqCst); self.sh.cv.notify_all(); return; }
                if s.todo == 1 {
                    let near = s.near.take();
                    let w = match (near, s.pc.last().cloned()) { (Some(n), Some(c)) => { let pc = s.pc.clone(); self.cross(&pc, c, &s.draws.clone(), &n, if self.cfg.defer { 16 } else { 80 }) } _ => None };
                    // flips that are easy to reach first, the solver decides the others later
                    if w.is_none() && self.cfg.defer { s.todo = 3; if hard.len() >= 8000 { self.rng = mix(self.rng); let i = (self.rng >> 16) as usize % hard.len(); hard[i] = s; self.sh.timeout.store(true, Ordering::SeqCst); } else { hard.push(s); } break; }
                    let (f, w) = if w.is_some() { (true, w) } else { self.feasible(&s, Store::TRUE) };
                    if !f { self.a.pruned += 1; break; }
                    s.wit = w;
                    s.todo = 0;
                    if s.wit.is_none() { s.todo = 2; self.a.hard += 1; hard.insert(0, s); break; }
                }
                if s.todo == 3 {
                    let t1 = Instant::now();
                    let (f, w) = self.feasible(&s, Store::TRUE);
                    spent += t1.elapsed().as_secs_f64();
                    if !f { self.a.pruned += 1; break; }
                    s.wit = w;
                    s.todo = 0;
                    if s.wit.is_none() { s.todo = 2; self.a.hard += 1; hard.insert(0, s); break; }
                }
                match self.m.run(&mut s) {
                    Stop::Fork(c) => { self.fork(&mut s, c, &mut stack); }
                    Stop::Conc(t) => {
                        let v;
                        if s.replay < s.log.len() {
                            v = match s.log[s.replay] { Dec::V(v) => v, _ => panic!("replay mismatch") };
                            s.replay += 1;
                        } else {
                            v = match s.wit.clone() { Some(w) => self.wval(&w, t), None => {
                                let mut pc = s.pc.clone();
                                let w = self.m.st.w(t);
                                let mut r = None;
                                while let Some(x) = self.sol[0].value(&self.m.st, &pc, t) {
                                    let k = self.m.st.c(w, x);
                                    let c = self.m.st.eq(t, k);
                                    // refuted before (by refinement, so the plain query may still propose it)
                                    if s.known(&self.m.st, c) == Some(false) { let nc = self.m.st.not(c); if pc.contains(&nc) { break; } pc.push(nc); continue; }
                                    r = Some(x as u64);
                                    break;
                                }
                                match r { Some(v) => v, None => { let e = if self.sol[0].check(&self.m.st, &pc, Store::TRUE) == Sat::Unsat { End::Dead } else { End::Err("concretisation undecided".into()) }; self.finish(&mut s, e); break; } }
                            } };
                            s.log.push(Dec::V(v));
                            s.replay += 1;
                        }
                        let w = self.m.st.w(t);
                        let k = self.m.st.c(w, v as u128);
                        let c = self.m.st.eq(t, k);
                        if c == Store::TRUE { self.finish(&mut s, End::Err("concretisation loop".into())); break; }
                        if s.known(&self.m.st, c) == Some(true) { s.cz.insert(t, v); continue; }
                        self.fork(&mut s, c, &mut stack);
                        if s.known(&self.m.st, c) == Some(true) { s.cz.insert(t, v); }
                        for o in stack.iter_mut().rev().take(1) { if o.known(&self.m.st, c) == Some(true) { o.cz.insert(t, v); } }
                    }
                    Stop::Assume(c) => {
                        if s.replay < s.log.len() {
                            s.replay += 1;
                            self.apply(&mut s, c, true, false);
                            if s.replay == s.log.len() { self.revive(&mut s); }
                            continue;
                        }
                        let ok = match &s.wit { Some(w) => self.weval(w, c), None => false };
                        if !ok {
                            let (f, w) = self.feasible(&s, c);
                            if !f { self.finish(&mut s, End::Dead); break; }
                            s.wit = w;
                        }
                        s.log.push(Dec::B(true));
                        s.replay += 1;
                        self.apply(&mut s, c, true, false);
                    }
                    Stop::End(e) => { self.finish(&mut s, e); break; }
                }
                if (stack.len() > 1 || (!hard.is_empty() && stack.len() + hard.len() > 1)) && self.sh.idle.load(Ordering::Relaxed) > 0 {
                    let mut q = self.sh.queue.lock().unwrap();
                    if q.len() < self.sh.idle.load(Ordering::Relaxed) {
                        let o = if stack.len() > 1 { stack.remove(0) } else { hard.remove(0) };
                        q.push(o.log);
                        self.sh.cv.notify_one();
                    }
                }
            }
        }
    }
}

fn worker(cfg: &Cfg, sh: &Shared, deadline: Instant, tid: usize) {
    let m = match ll::Module::load(&cfg.ll) { Ok(m) => m, Err(e) => { sh.agg.lock().unwrap().errors.insert(e, (1, String::new())); sh.stop.store(true, Ordering::SeqCst); sh.done.store(true, Ordering::SeqCst); sh.cv.notify_all(); return; } };
    let mut mach = Machine::new(m);
    mach.max_steps = cfg.max_steps;
    mach.params = cfg.params.clone();
    mach.concrete = cfg.concrete;
    mach.csel = cfg.csel;
    mach.race = cfg.race;
    mach.st.seed = cfg.seed.clone();
    let init = match mach.init(&cfg.entry) { Ok(s) => s, Err(e) => { sh.agg.lock().unwrap().errors.insert(e, (1, String::new())); sh.stop.store(true, Ordering::SeqCst); sh.done.store(true, Ordering::SeqCst); sh.cv.notify_all(); return; } };
    let z = format!("{} -in", cfg.z3);
    let mut sol = [Solver::new(Mode::Lazy, &z, cfg.t_free, tid as u64), Solver::new(Mode::Exact, &z, cfg.t_exact, tid as u64)];
    for s in sol.iter_mut() { s.deadline = Some(deadline); }
    let mut free = Solver::new(Mode::Lazy, &z, cfg.t_free, tid as u64);
    free.deadline = Some(deadline);
    let mut w = Worker { m: mach, sol, free, valid: HashMap::default(), cfg, sh, a: Agg::default(), deadline, per_kind: HashMap::default(), rng: tid as u64 };
    loop {
        let job;
        {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.done.load(Ordering::SeqCst) || sh.stop.load(Ordering::SeqCst) { job = None; break; }
                if let Some(j) = q.pop() { job = Some(j); break; }
                let n = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                if n == cfg.threads { sh.done.store(true, Ordering::SeqCst); sh.cv.notify_all(); job = None; break; }
                q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                sh.idle.fetch_sub(1, Ordering::SeqCst);
            }
        }
        match job { None => break, Some(j) => w.explore(&init, j) }
    }
    let mut g = sh.agg.lock().unwrap();
    let a = w.a;
    g.paths += a.paths; g.ok += a.ok; g.dead += a.dead; g.panics_allowed += a.panics_allowed; g.witnessed += a.witnessed; g.forks += a.forks; g.steps += a.steps;
    g.checks_trivial += a.checks_trivial; g.pruned += a.pruned; g.hard += a.hard; g.open += a.open; g.discharged_free += a.discharged_free; g.discharged_exact += a.discharged_exact; g.spurious += a.spurious;
    for (k, v) in a.checks { *g.checks.entry(k).or_insert(0) += v; }
    g.lemmas += w.sol[0].nlemmas; g.refinements += w.sol[0].refinements;
    g.queries[0] += w.free.queries; g.time[0] += w.free.time;
    for k in 0..2 { g.queries[k] += w.sol[k].queries; g.time[k] += w.sol[k].time; g.unknown[k] += w.sol[k].unknowns; g.maxq[k] = g.maxq[k].max(w.sol[k].max_time); }
    for (i, n) in &w.m.fcount { *g.funcs.entry(w.m.fidx[*i as usize].clone()).or_insert(0) += n; }
    for (k, v) in a.covers { let e = g.covers.entry(k).or_insert((0, 0)); e.0 += v.0; e.1 += v.1; }
    g.viols.extend(a.viols);
    g.undecided.extend(a.undecided);
    for (k, v) in a.errors { let e = g.errors.entry(k).or_insert((0, v.1)); e.0 += v.0; }
    g.samples.extend(a.samples);
    for (k, v) in a.sites { *g.sites.entry(k).or_insert(0) += v; }
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)), c => r.push(c) } }
    r.push('"');
    r
}

fn main() {
    let mut cfg = Cfg { ll: String::new(), entry: String::new(), out: String::new(), threads: 8, time: 600.0, z3: "z3-new".into(), params: vec![], max_steps: 30_000_000, keep: false, t_free: 20_000, b_fork: 4, b_check: 60, t_exact: 10_000, t_probe: 150, t_fork: 4_000, random: false, concrete: false, csel: false, race: false, defer: false, seed: vec![], verbose: false };
    let av: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < av.len() {
        let nx = || av.get(i + 1).cloned().unwrap_or_default();
        match av[i].as_str() {
            "--ll" => { cfg.ll = nx(); i += 1; }
            "--entry" => { cfg.entry = nx(); i += 1; }
            "--out" => { cfg.out = nx(); i += 1; }
            "--threads" => { cfg.threads = nx().parse().unwrap(); i += 1; }
            "--time" => { cfg.time = nx().parse().unwrap(); i += 1; }
            "--z3" => { cfg.z3 = nx(); i += 1; }
            "--max-steps" => { cfg.max_steps = nx().parse().unwrap(); i += 1; }
            "--t-free" => { cfg.t_free = nx().parse().unwrap(); i += 1; }
            "--b-fork" => { cfg.b_fork = nx().parse().unwrap(); i += 1; }
            "--b-check" => { cfg.b_check = nx().parse().unwrap(); i += 1; }
            "--t-probe" => { cfg.t_probe = nx().parse().unwrap(); i += 1; }
            "--t-fork" => { cfg.t_fork = nx().parse().unwrap(); i += 1; }
            "--concrete-select" => cfg.csel = true,
            "--race" => cfg.race = true,
            "--defer" => cfg.defer = true,
            "--concrete" => cfg.concrete = true,
            "--random" => cfg.random = true,
            "--seed-values" => { cfg.seed = nx().split_whitespace().map(|x| { let x = x.split('=').next().unwrap(); if let Some(h) = x.strip_prefix("f0x") { u128::from_str_radix(h, 16).unwrap() } else { x.trim_start_matches('u').parse().unwrap() } }).collect(); i += 1; }
            "--t-exact" => { cfg.t_exact = nx().parse().unwrap(); i += 1; }
            "--param" => { let p = nx(); let (k, v) = p.split_once('=').unwrap(); let k: usize = k.parse().unwrap(); while cfg.params.len() <= k { cfg.params.push(u64::MAX); } cfg.params[k] = v.parse().unwrap(); i += 1; }
            "--keep-going" => cfg.keep = true,
            "-v" => cfg.verbose = true,
            x => { eprintln!("unknown option {}", x); std::process::exit(2); }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(cfg.time);
    let sh = Arc::new(Shared { queue: Mutex::new(vec![vec![]]), cv: Condvar::new(), idle: AtomicUsize::new(0), done: AtomicBool::new(false), stop: AtomicBool::new(false), timeout: AtomicBool::new(false), nviol: AtomicU64::new(0), agg: Mutex::new(Agg::default()) });
    let mut hs = vec![];
    for t in 0..cfg.threads {
        let (c, s) = (cfg.clone(), sh.clone());
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || worker(&c, &s, deadline, t)).unwrap());
    }
    let mut crashed = false;
    for h in hs { if h.join().is_err() { crashed = true; sh.stop.store(true, Ordering::SeqCst); sh.cv.notify_all(); } }
    let a = sh.agg.lock().unwrap();
    let complete = !crashed && !sh.timeout.load(Ordering::SeqCst) && a.errors.is_empty() && (a.viols.is_empty() || cfg.keep) && a.undecided.is_empty() && a.open == 0;
    let vj = |v: &Viol| format!("{{\"kind\":{},\"id\":{},\"what\":{},\"inputs\":{},\"stack\":[{}]}}", js(&v.kind), v.id, js(&v.what), js(&v.inputs), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let mut o = String::new();
    o.push_str(&format!("{{\"entry\":{},\"params\":{:?},\"complete\":{},\"timeout\":{},\"crashed\":{},\"wall_s\":{:.3},\n", js(&cfg.entry), cfg.params, complete, sh.timeout.load(Ordering::SeqCst), crashed, t0.elapsed().as_secs_f64()));
    o.push_str(&format!("\"paths\":{},\"paths_ok\":{},\"paths_infeasible\":{},\"paths_allowed_panic\":{},\"paths_witnessed\":{},\"pruned\":{},\"postponed\":{},\"open\":{},\"forks\":{},\"instructions\":{},\n", a.paths, a.ok, a.dead, a.panics_allowed, a.witnessed, a.pruned, a.hard, a.open, a.forks, a.steps));
    o.push_str(&format!("\"checks\":{{{}}},\"checks_syntactic\":{},\"discharged\":{{\"lazy\":{},\"exact\":{}}},\"unconfirmed_models\":{},\n", a.checks.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), a.checks_trivial, a.discharged_free, a.discharged_exact, a.spurious));
    o.push_str(&format!("\"queries\":{:?},\"solver_s\":[{:.2},{:.2}],\"max_query_s\":[{:.2},{:.2}],\"unknown\":{:?},\"lemmas\":{},\"refinements\":{},\n", a.queries, a.time[0], a.time[1], a.maxq[0], a.maxq[1], a.unknown, a.lemmas, a.refinements));
    o.push_str(&format!("\"covers\":{{{}}},\n", a.covers.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"violations\":[{}],\n\"undecided\":[{}],\n", a.viols.iter().map(vj).collect::<Vec<_>>().join(",\n"), a.undecided.iter().take(20).map(vj).collect::<Vec<_>>().join(",\n")));
    o.push_str(&format!("\"errors\":{{{}}},\n", a.errors.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(&v.1))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"samples\":[{}],\n", a.samples.iter().take(4).map(|s| js(s)).collect::<Vec<_>>().join(",")));
    let mut si: Vec<_> = a.sites.iter().collect();
    si.sort_by_key(|x| std::cmp::Reverse(*x.1));
    o.push_str(&format!("\"fork_sites\":{{{}}},\n", si.iter().take(25).map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"functions\":{{{}}}}}\n", a.funcs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    if !cfg.out.is_empty() { std::fs::write(&cfg.out, &o).unwrap(); } else { println!("{}", o); }
    let _: BTreeSet<u8> = BTreeSet::new();
    std::process::exit(if !a.viols.is_empty() { 1 } else if complete { 0 } else { 2 });
}
