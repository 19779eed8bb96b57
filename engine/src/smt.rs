//! SMT back end: prints terms as SMT-LIB2, keeps one incremental solver process
//! per mode and asks it for feasibility / models.
//!
//! Modes
//!  Lazy : add/mul/div/... start as arbitrary values inside their sound interval;
//!         models that disagree with IEEE-754 are refuted by lemmas that hold for
//!         round-to-nearest arithmetic (sign, magnitude, monotonicity, and
//!         monotonicity at a concrete point), added on demand
//!  Exact: bit-exact IEEE-754 through the solver's floating-point theory
use crate::term::*;
use crate::fx::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Lazy, Exact }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

struct Scope { t: T, facts: Vec<T>, lems: Vec<usize> }
/// a valid fact about rounding arithmetic, asserted while all `need` nodes are in use
struct Lemma { need: Vec<T>, args: Vec<T>, text: String }

pub enum Ans { No, Yes(HashMap<u32, u128>), Maybe(HashMap<u32, u128>) }

pub struct Solver {
    pub mode: Mode,
    cmd: Vec<String>,
    proc_: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    buf: String,
    stack: Vec<Scope>,
    fact_on: HashSet<T>,
    lemmas: Vec<Lemma>,
    by_node: HashMap<T, Vec<usize>>,
    lem_seen: HashSet<(T, T, u64)>,
    lem_on: HashSet<usize>,
    pub nlemmas: u64,
    pub refinements: u64,
    emitted: HashSet<(T, u8)>,
    pub queries: u64,
    pub unknowns: u64,
    pub time: f64,
    pub max_time: f64,
    timeout_ms: u32,
    seed: u64,
    since_restart: u64,
    stamp: Vec<u32>,
    cur: u32,
    tee: Option<std::fs::File>,
    pub deadline: Option<std::time::Instant>,
    pub until: Option<std::time::Instant>,
    pub cap_ms: u32,
    pub cur_ms: u64,
}

pub fn key_of(w: u8, bits: u128) -> u128 {
    let sign = bits >> (w - 1) & 1;
    let mag = bits & mask(w - 1);
    if sign == 1 { (0u128.wrapping_sub(mag)) & mask(w) } else { mag }
}
pub fn bits_of_key(w: u8, k: u128) -> u128 {
    if k >> (w - 1) & 1 == 1 { ((0u128.wrapping_sub(k)) & mask(w - 1)) | 1u128 << (w - 1) } else { k }
}
fn kf(w: u8, v: f64) -> u128 {
    key_of(w, if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
}
fn lit(w: u8, v: u128) -> String {
    if w % 4 == 0 { format!("#x{:0>1$x}", v & mask(w), w as usize / 4) } else { format!("(_ bv{} {})", v & mask(w), w) }
}

/// integer literal of an ordered key
fn ki(w: u8, k: u128) -> String {
    let v = sx(k & mask(w), w);
    if v < 0 { format!("(- {})", -v) } else { format!("{}", v) }
}

impl Solver {
    pub fn new(mode: Mode, z3: &str, timeout_ms: u32, seed: u64) -> Self {
        let cmd = z3.split_whitespace().map(|s| s.to_string()).collect();
        Solver { mode, cmd, proc_: None, buf: String::new(), stack: vec![], fact_on: HashSet::default(), lemmas: vec![], by_node: HashMap::default(), lem_seen: HashSet::default(), lem_on: HashSet::default(), nlemmas: 0, refinements: 0, emitted: HashSet::default(),
            queries: 0, unknowns: 0, time: 0.0, max_time: 0.0, timeout_ms, seed, since_restart: 0, stamp: vec![], cur: 0, deadline: None, until: None, cap_ms: 20_000, cur_ms: 0, tee: std::env::var("SYMEX_TEE").ok().and_then(|p| if mode == Mode::Lazy { std::fs::File::create(p).ok() } else { None }) }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start solver");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.proc_ = Some((c, i, o));
        self.stack.clear();
        self.fact_on.clear();
        self.lem_on.clear();
        self.emitted.clear();
        self.since_restart = 0;
        self.buf.clear();
        self.buf.push_str("(set-option :print-success false)\n(set-option :global-declarations true)\n");
        self.cur_ms = 0;
        let _ = self.seed;
        match self.mode {
            Mode::Exact => self.buf.push_str("(set-logic QF_BVFP)\n"),
            _ => self.buf.push_str(""),
        }
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.proc_.take() { let _ = c.kill(); let _ = c.wait(); }
    }
    fn flush(&mut self) {
        let p = self.proc_.as_mut().unwrap();
        if let Some(f) = self.tee.as_mut() { let _ = f.write_all(self.buf.as_bytes()); }
        let _ = p.1.write_all(self.buf.as_bytes());
        let _ = p.1.flush();
        self.buf.clear();
    }
    fn line(&mut self) -> Option<String> {
        let p = self.proc_.as_mut().unwrap();
        let mut s = String::new();
        match p.2.read_line(&mut s) { Ok(0) | Err(_) => None, Ok(_) => Some(s.trim().to_string()) }
    }

    fn late(&self) -> bool { self.deadline.map_or(false, |d| std::time::Instant::now() >= d) }
    /// near the deadline, shorten the solver's own limit; true when it has passed
    fn clamp(&mut self) -> bool {
        let mut ms = self.timeout_ms.min(self.cap_ms) as u64;
        if let Some(d) = self.deadline {
            let now = std::time::Instant::now();
            if now >= d { self.unknowns += 1; return true; }
            ms = ms.min((d - now).as_millis() as u64 + 50);
        }
        if let Some(d) = self.until {
            let now = std::time::Instant::now();
            ms = ms.min(if now >= d { 1 } else { (d - now).as_millis() as u64 + 1 });
        }
        if ms != self.cur_ms { self.cur_ms = ms; self.buf.push_str(&format!("(set-option :timeout {})\n", ms)); }
        false
    }

    fn sync(&mut self, st: &Store, pc: &[T]) {
        if self.proc_.is_some() && self.since_restart > 60_000 { self.kill(); }
        if self.proc_.is_none() { self.start(); }
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && self.stack[k].t == pc[k] { k += 1; }
        let npop = self.stack.len() - k;
        if npop > 0 {
            self.buf.push_str(&format!("(pop {})\n", npop));
            for _ in 0..npop {
                let s = self.stack.pop().unwrap();
                for f in s.facts { self.fact_on.remove(&f); }
                for l in s.lems { self.lem_on.remove(&l); }
            }
        }
        for &t in &pc[k..] { self.push(st, t); }
    }
    fn push(&mut self, st: &Store, t: T) {
        self.buf.push_str("(push 1)\n");
        self.stack.push(Scope { t, facts: vec![], lems: vec![] });
        self.assert_facts(st, t);
        let b = self.form(st, t, 0);
        self.buf.push_str(&format!("(assert {})\n", b));
    }

    /// `pc` must be a list of width-1 terms; `extra` is conjoined.
    pub fn check(&mut self, st: &Store, pc: &[T], extra: T) -> Sat {
        let t0 = std::time::Instant::now();
        if self.late() { self.unknowns += 1; return Sat::Unknown; }
        self.queries += 1;
        self.since_restart += 1;
        self.sync(st, pc);
        self.clamp();
        let pushed = extra != Store::TRUE;
        if pushed { self.push(st, extra); }
        self.buf.push_str("(check-sat)\n(echo \"done\")\n");
        let nb = self.buf.len();
        self.flush();
        let mut r = Sat::Unknown;
        loop {
            match self.line() {
                None => { self.kill(); break; }
                Some(l) => {
                    if l == "done" { break; }
                    if l == "sat" { r = Sat::Sat } else if l == "unsat" { r = Sat::Unsat } else if l == "unknown" || l == "timeout" { r = Sat::Unknown }
                    else if l.starts_with("(error") { eprintln!("solver: {}", l); self.kill(); r = Sat::Unknown; break; }
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        if std::env::var("SYMEX_DBG").is_ok() { eprintln!("check {:?} {:.3}s bytes={} scopes={} facts={}", r, dt, nb, self.stack.len(), self.fact_on.len()); }
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if r == Sat::Unknown { self.unknowns += 1; }
        r
    }

    /// one-shot query in a fresh process without scopes (lets the solver use its
    /// full preprocessing); used for the bit-exact mode
    pub fn check_once(&mut self, st: &Store, pc: &[T], extra: T) -> Sat {
        if self.late() { self.unknowns += 1; return Sat::Unknown; }
        self.kill();
        self.start();
        self.clamp();
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let mut all: Vec<T> = pc.to_vec();
        all.push(extra);
        for t in all {
            let _ = self.assert_facts(st, t);
            let b = self.form(st, t, 0);
            self.buf.push_str(&format!("(assert {})\n", b));
        }
        self.buf.push_str("(check-sat)\n(echo \"done\")\n");
        self.flush();
        let mut r = Sat::Unknown;
        loop {
            match self.line() {
                None => { self.kill(); break; }
                Some(l) => {
                    if l == "done" { break; }
                    if l == "sat" { r = Sat::Sat } else if l == "unsat" { r = Sat::Unsat }
                    else if l.starts_with("(error") { eprintln!("solver: {}", l); self.kill(); r = Sat::Unknown; break; }
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if r == Sat::Unknown { self.unknowns += 1; }
        r
    }

    /// Model values of the given input variables after a `sat` answer (raw bits).
    pub fn model(&mut self, st: &Store, vars: &[u32]) -> HashMap<u32, u128> {
        let mut r = HashMap::default();
        if self.proc_.is_none() { return r; }
        let names: Vec<(u32, String)> = vars.iter().filter(|v| self.declared(**v)).map(|v| (*v, format!("v{}", v))).collect();
        if names.is_empty() { return r; }
        let list: Vec<&str> = names.iter().map(|x| x.1.as_str()).collect();
        self.buf.push_str(&format!("(get-value ({}))\n(echo \"done\")\n", list.join(" ")));
        self.flush();
        let mut s = String::new();
        loop { match self.line() { None => { self.kill(); return r; } Some(l) => { if l == "done" { break; } s.push_str(&l); s.push(' '); } } }
        let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
        let mut k = 0;
        while k + 1 < toks.len() {
            if let Some(id) = toks[k].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
                let info = &st.vars[id as usize];
                let v = toks[k + 1];
                let val = if v == "_" { toks.get(k + 2).and_then(|b| b.strip_prefix("bv")).and_then(|b| b.parse().ok()) } else { parse_lit(v) };
                if let Some(val) = val { r.insert(id, if info.float && self.mode != Mode::Exact { bits_of_key(info.w, val) } else { val }); }
            }
            k += 1;
        }
        r
    }
    /// some value of `t` in the current model (after `sat`)
    pub fn value(&mut self, st: &Store, pc: &[T], t: T) -> Option<u128> {
        if self.check(st, pc, Store::TRUE) == Sat::Unsat { return None; }
        // mention the term inside a scope so that its facts hold
        let z = self.form(st, t, 1);
        self.assert_facts(st, t);
        self.buf.push_str("(check-sat)\n");
        self.buf.push_str(&format!("(get-value ({}))\n(echo \"done\")\n", z));
        self.flush();
        let mut s = String::new();
        loop { match self.line() { None => { self.kill(); return None; } Some(l) => { if l == "done" { break; } s.push_str(&l); s.push(' '); } } }
        if !s.starts_with("sat") { return None; }
        s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).filter_map(|x| if x.starts_with('#') { parse_lit(x) } else { x.strip_prefix("bv").and_then(|b| b.parse().ok()) }).next()
    }
    fn declared(&self, v: u32) -> bool { self.emitted.contains(&(v, 100)) }

    // ---- facts ----
    fn assert_facts(&mut self, st: &Store, t: T) {
        let mut new: Vec<T> = vec![];
        if self.stamp.len() < st.nodes.len() { self.stamp.resize(st.nodes.len() + 1024, 0); }
        self.cur += 1;
        let cur = self.cur;
        let mut work = vec![t];
        while let Some(t) = work.pop() {
            if self.stamp[t as usize] == cur { continue; }
            self.stamp[t as usize] = cur;
            use N::*;
            match st.n(t) {
                C(..) => {}
                Var(..) | FVar(..) => { if self.fact_on.insert(t) { new.push(t); self.leaf_facts(st, t); } }
                FAdd(a, b) | FMul(a, b) | FDiv(a, b) | FRem(a, b) => {
                    if self.mode == Mode::Exact || st.iv(t).nan { work.push(*a); work.push(*b); }
                    if self.fact_on.insert(t) { new.push(t); self.leaf_facts(st, t); }
                }
                FSqrt(a) | FRound(_, a) | FExt(a) | FTrunc(a) | F2U(_, a) | F2S(_, a) | U2F(_, a) | S2F(_, a) => {
                    if self.mode == Mode::Exact || st.iv(t).nan { work.push(*a); }
                    if self.fact_on.insert(t) { new.push(t); self.leaf_facts(st, t); }
                }
                Not(a) | Extract(_, _, a) | Zext(_, a) | Sext(_, a) | FNeg(a) | FAbs(a) | FNan(a) => work.push(*a),
                And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b) | Add(a, b) | Sub(a, b) | Mul(a, b) | Udiv(a, b) | Sdiv(a, b)
                | Urem(a, b) | Srem(a, b) | Shl(a, b) | Lshr(a, b) | Ashr(a, b) | Concat(a, b) | FLt(a, b) | FLe(a, b) | FEq(a, b) => { work.push(*a); work.push(*b); }
                Ite(c, a, b) => { work.push(*c); work.push(*a); work.push(*b); }
                FMin(v) | FMax(v) => work.extend(v.iter().cloned()),
            }
        }
        if let Some(s) = self.stack.last_mut() { s.facts.extend(new); }
    }
    fn assert_lemma(&mut self, st: &Store, l: usize) {
        if self.lem_on.contains(&l) || !self.lemmas[l].need.iter().all(|t| self.fact_on.contains(t)) { return; }
        self.lem_on.insert(l);
        if let Some(s) = self.stack.last_mut() { s.lems.push(l); }
        for a in self.lemmas[l].args.clone() { self.assert_facts(st, a); }
        let t = format!("(assert {})\n", self.lemmas[l].text);
        self.buf.push_str(&t);
    }
    fn new_lemma(&mut self, st: &Store, key: (T, T, u64), need: Vec<T>, args: Vec<T>, text: String) -> bool {
        if !self.lem_seen.insert(key) { return false; }
        let id = self.lemmas.len();
        for t in &need { self.by_node.entry(*t).or_default().push(id); }
        self.lemmas.push(Lemma { need, args, text });
        self.nlemmas += 1;
        self.assert_lemma(st, id);
        true
    }

    fn leaf_facts(&mut self, st: &Store, t: T) {
        let w = st.w(t);
        let iv = st.iv(t);
        match st.n(t) {
            N::Var(..) => {
                let b = self.form(st, t, 1);
                let (lo, hi) = st.ur(t);
                if w > 1 && w <= 64 {
                    if lo > 0 { self.buf.push_str(&format!("(assert (bvuge {} {}))\n", b, lit(w, lo as u128))); }
                    if (hi as u128) < mask(w) { self.buf.push_str(&format!("(assert (bvule {} {}))\n", b, lit(w, hi as u128))); }
                } else if w == 1 { self.form(st, t, 0); }
                return;
            }
            N::F2U(..) | N::F2S(..) if self.mode != Mode::Exact => {
                let b = self.form(st, t, 1);
                let (lo, hi) = st.ur(t);
                if lo > 0 { self.buf.push_str(&format!("(assert (bvuge {} {}))\n", b, lit(w, lo as u128))); }
                if w <= 64 && (hi as u128) < mask(w) { self.buf.push_str(&format!("(assert (bvule {} {}))\n", b, lit(w, hi as u128))); }
                return;
            }
            _ => {}
        }
        if self.mode == Mode::Exact {
            if let N::FVar(..) = st.n(t) {
                let f = self.form(st, t, 4);
                let (e, s) = es(w);
                let l = lit(w, if w == 32 { (iv.lo as f32).to_bits() as u128 } else { iv.lo.to_bits() as u128 });
                let h = lit(w, if w == 32 { (iv.hi as f32).to_bits() as u128 } else { iv.hi.to_bits() as u128 });
                self.buf.push_str(&format!("(assert (and (fp.leq ((_ to_fp {e} {s}) {l}) {f}) (fp.leq {f} ((_ to_fp {e} {s}) {h}))))\n"));
            }
            return;
        }
        let k = self.form(st, t, 2);
        if iv.lo <= iv.hi {
            self.buf.push_str(&format!("(assert (<= {} {}))\n", ki(w, kf(w, iv.lo)), k));
            self.buf.push_str(&format!("(assert (<= {} {}))\n", k, ki(w, kf(w, iv.hi))));
        }
        self.static_facts(st, t);
    }

    /// facts asserted whenever a node is used: NaN conditions, midpoint
    fn static_facts(&mut self, st: &Store, t: T) {
        let w = st.w(t);
        let z = ki(w, 0);
        let inf = ki(w, kf(w, f64::INFINITY));
        let ninf = ki(w, kf(w, f64::NEG_INFINITY));
        let isinf = |k: &str| format!("(or (= {k} {inf}) (= {k} {ninf}))");
        let rn = self.nan(st, t);
        if rn != "false" {
            match *st.n(t) {
                N::FAdd(a, b) | N::FMul(a, b) | N::FDiv(a, b) => {
                    let (ka, kb) = (self.form(st, a, 2), self.form(st, b, 2));
                    let (na, nb) = (self.nan(st, a), self.nan(st, b));
                    let c = match st.n(t) {
                        N::FAdd(..) => format!("(and (= {ka} {inf}) (= {kb} {ninf})) (and (= {ka} {ninf}) (= {kb} {inf}))"),
                        N::FMul(..) => format!("(and (= {ka} {z}) {}) (and (= {kb} {z}) {})", isinf(&kb), isinf(&ka)),
                        _ => format!("(and (= {ka} {z}) (= {kb} {z})) (and {} {})", isinf(&ka), isinf(&kb)),
                    };
                    self.buf.push_str(&format!("(assert (= {rn} (or {na} {nb} {c})))\n"));
                }
                N::FSqrt(a) => { let ka = self.form(st, a, 2); let na = self.nan(st, a); self.buf.push_str(&format!("(assert (= {rn} (or {na} (< {ka} {z}))))\n")); }
                N::FRound(_, a) | N::FExt(a) | N::FTrunc(a) => { let na = self.nan(st, a); self.buf.push_str(&format!("(assert (= {rn} {na}))\n")); }
                _ => {}
            }
        }
        // adding / subtracting a constant moves in its direction
        if let N::FAdd(p, q) = *st.n(t) {
            for (p, q) in [(p, q), (q, p)] {
                if let Some(v) = st.konst(q) {
                    let v = fval(w, v);
                    if v.is_nan() || v == 0.0 { continue; }
                    self.assert_facts(st, p);
                    let (r, kp) = (self.form(st, t, 2), self.form(st, p, 2));
                    let op = if v > 0.0 { ">=" } else { "<=" };
                    let f = format!("({op} {r} {kp})");
                    let f = if rn == "false" { f } else { format!("(or {rn} {f})") };
                    self.buf.push_str(&format!("(assert {f})\n"));
                }
            }
        }
        // midpoint: 0.5 * (a + b) lies between a and b (sum finite)
        if let N::FMul(p, q) = *st.n(t) {
            for (p, q) in [(p, q), (q, p)] {
                let half = match st.konst(q) { Some(v) => fval(w, v) == 0.5, None => false };
                if let (true, N::FAdd(a, b)) = (half, st.n(p).clone()) {
                    let iv = st.iv(p);
                    if iv.nan || !iv.lo.is_finite() || !iv.hi.is_finite() { continue; }
                    self.assert_facts(st, a);
                    self.assert_facts(st, b);
                    let (r, ka, kb) = (self.form(st, t, 2), self.form(st, a, 2), self.form(st, b, 2));
                    self.buf.push_str(&format!("(assert (and (or (<= {ka} {r}) (<= {kb} {r})) (or (<= {r} {ka}) (<= {r} {kb}))))\n"));
                }
            }
        }
    }

    /// sign / magnitude facts of one operation
    fn sign_lemma(&mut self, st: &Store, t: T) -> bool {
        let w = st.w(t);
        let z = ki(w, 0);
        let inf = ki(w, kf(w, f64::INFINITY));
        let ninf = ki(w, kf(w, f64::NEG_INFINITY));
        let one = ki(w, kf(w, 1.0));
        let mone = ki(w, kf(w, -1.0));
        match *st.n(t) {
            N::FAdd(a, b) | N::FMul(a, b) | N::FDiv(a, b) => {
                if self.lem_seen.contains(&(t, t, 0)) { return false; }
                let r = self.form(st, t, 2);
                let rn = self.nan(st, t);
                let (ka, kb) = (self.form(st, a, 2), self.form(st, b, 2));
                let s = match st.n(t) {
                    N::FAdd(..) => format!("(and (=> (>= {kb} {z}) (>= {r} {ka})) (=> (<= {kb} {z}) (<= {r} {ka})) (=> (>= {ka} {z}) (>= {r} {kb})) (=> (<= {ka} {z}) (<= {r} {kb})) (= (= {ka} (- {kb})) (= {r} {z})))"),
                    N::FMul(..) => {
                        let mut s = format!("(and (=> (or (= {ka} {z}) (= {kb} {z})) (= {r} {z})) (=> (= (>= {ka} {z}) (>= {kb} {z})) (>= {r} {z})) (=> (not (= (>= {ka} {z}) (>= {kb} {z}))) (<= {r} {z}))");
                        let ab = |k: &str| format!("(ite (>= {k} {z}) {k} (- {k}))");
                        for (p, q) in [(&ka, &kb), (&kb, &ka)] {
                            s.push_str(&format!(" (=> (and (<= {mone} {q}) (<= {q} {one})) (<= {} {}))", ab(&r), ab(p)));
                            s.push_str(&format!(" (=> (or (<= {q} {mone}) (<= {one} {q})) (>= {} {}))", ab(&r), ab(p)));
                        }
                        s.push(')');
                        s
                    }
                    _ => format!("(and (=> (and (= {ka} {z}) (not (= {kb} {z}))) (= {r} {z})) (=> (= {kb} {z}) (or (= {r} {inf}) (= {r} {ninf}))) (=> (and (> {kb} {z}) (>= {ka} {z})) (>= {r} {z})) (=> (and (> {kb} {z}) (<= {ka} {z})) (<= {r} {z})) (=> (and (< {kb} {z}) (>= {ka} {z})) (<= {r} {z})) (=> (and (< {kb} {z}) (<= {ka} {z})) (>= {r} {z})) (=> (and (not (= {kb} {z})) (<= {aa} {bb})) (<= {rr} {one})) (=> (and (not (= {kb} {z})) (>= {aa} {bb})) (>= {rr} {one})))",
                        aa = format!("(ite (>= {ka} {z}) {ka} (- {ka}))"), bb = format!("(ite (>= {kb} {z}) {kb} (- {kb}))"), rr = format!("(ite (>= {r} {z}) {r} (- {r}))")),
                };
                let s = if rn == "false" { s } else { format!("(or {} {})", rn, s) };
                self.new_lemma(st, (t, t, 0), vec![t], vec![a, b], s)
            }
            N::FSqrt(a) => {
                let (r, ka, rn) = (self.form(st, t, 2), self.form(st, a, 2), self.nan(st, t));
                self.new_lemma(st, (t, t, 0), vec![t], vec![a], format!("(or {rn} (and (>= {r} {z}) (= (= {r} {z}) (= {ka} {z}))))"))
            }
            _ => false,
        }
    }

    /// two applications of one operation that share an operand: monotonicity,
    /// added only when the current values violate it
    fn pair_lemma(&mut self, st: &Store, t: T, u: T, val: &dyn Fn(T) -> u128) -> bool {
        if t == u || self.lem_seen.contains(&(t, u, 1)) || self.lem_seen.contains(&(u, t, 1)) { return false; }
        let w = st.w(t);
        if st.w(u) != w { return false; }
        let sk = |x: T| { let ww = st.w(x); sx(key_of(ww, val(x)), ww) };
        let isn = |x: T| st.iv(x).nan && fval(st.w(x), val(x)).is_nan();
        // (direction 1 increasing / -1 decreasing in x), shared operand
        let mut r: Option<(T, T, Option<(T, u8)>)> = None;
        match (st.n(t).clone(), st.n(u).clone()) {
            (N::FAdd(a, b), N::FAdd(c, d)) => for (x, s, y, s2) in [(a, b, c, d), (a, b, d, c), (b, a, c, d), (b, a, d, c)] { if s == s2 && x != y { r = Some((x, y, None)); break; } },
            (N::FMul(a, b), N::FMul(c, d)) => for (x, s, y, s2) in [(a, b, c, d), (a, b, d, c), (b, a, c, d), (b, a, d, c)] { if s == s2 && x != y { r = Some((x, y, Some((s, 1)))); break; } },
            (N::FDiv(a, b), N::FDiv(c, d)) => if b == d && a != c { r = Some((a, c, Some((b, 2)))); } else if a == c && b != d { r = Some((b, d, Some((a, 3)))); },
            (N::FSqrt(a), N::FSqrt(b)) | (N::FExt(a), N::FExt(b)) | (N::FTrunc(a), N::FTrunc(b)) => r = Some((a, b, None)),
            (N::FRound(m, a), N::FRound(n, b)) if m == n => r = Some((a, b, None)),
            (N::F2U(_, a), N::F2U(_, b)) if st.w(a) == st.w(b) => r = Some((a, b, Some((a, 10)))),
            (N::F2S(_, a), N::F2S(_, b)) if st.w(a) == st.w(b) => r = Some((a, b, Some((a, 11)))),
            (N::U2F(_, a), N::U2F(_, b)) if st.w(a) == st.w(b) => r = Some((a, b, Some((a, 20)))),
            (N::S2F(_, a), N::S2F(_, b)) if st.w(a) == st.w(b) => r = Some((a, b, Some((a, 21)))),
            _ => {}
        }
        let (x, y, sh) = match r { Some(r) => r, None => return false };
        if isn(t) || isn(u) || isn(x) || isn(y) { return false; }
        let kind = sh.map(|s| s.1).unwrap_or(0);
        let (xi, yi) = if kind == 20 { (val(x) as i128, val(y) as i128) } else if kind == 21 { let w = st.w(x); (sx(val(x), w), sx(val(y), w)) } else { (sk(x), sk(y)) };
        let (ti, ui) = match kind { 10 => (val(t) as i128, val(u) as i128), 11 => (sx(val(t), w), sx(val(u), w)), _ => (sk(t), sk(u)) };
        let inc = |ti: i128, ui: i128| (xi <= yi && ti > ui) || (yi <= xi && ui > ti);
        let bad = match kind {
            1 | 2 => { let si = sk(sh.unwrap().0); if si > 0 { inc(ti, ui) } else if si < 0 { inc(ui, ti) } else { false } }
            3 => { let si = sk(sh.unwrap().0); if (xi > 0) != (yi > 0) || xi == 0 || yi == 0 { false } else if si >= 0 { inc(ui, ti) } else { inc(ti, ui) } }
            _ => inc(ti, ui),
        };
        if !bad { return false; }
        let z = ki(w, 0);
        let fx = if kind >= 20 { 1 } else { 2 };
        let ft = if kind == 10 || kind == 11 { 1 } else { 2 };
        let (kx, ky) = (self.form(st, x, fx), self.form(st, y, fx));
        let (r, r2) = (self.form(st, t, ft), self.form(st, u, ft));
        let lx = if kind == 20 { "bvule" } else if kind == 21 { "bvsle" } else { "<=" };
        let lr = if kind == 10 { "bvule" } else if kind == 11 { "bvsle" } else { "<=" };
        let incs = |r: &str, r2: &str| format!("(and (=> ({lx} {kx} {ky}) ({lr} {r} {r2})) (=> ({lx} {ky} {kx}) ({lr} {r2} {r})))");
        let mut args = vec![x, y];
        let s = match kind {
            1 | 2 => {
                let sh = sh.unwrap().0;
                args.push(sh);
                let ks = self.form(st, sh, 2);
                let (p, n) = if kind == 2 { (">", "<") } else { (">=", "<=") };
                format!("(and (=> ({p} {ks} {z}) {}) (=> ({n} {ks} {z}) {}))", incs(&r, &r2), incs(&r2, &r))
            }
            3 => {
                let sh = sh.unwrap().0;
                args.push(sh);
                let ks = self.form(st, sh, 2);
                format!("(=> (or (and (> {kx} {z}) (> {ky} {z})) (and (< {kx} {z}) (< {ky} {z}))) (and (=> (>= {ks} {z}) {}) (=> (<= {ks} {z}) {})))", incs(&r2, &r), incs(&r, &r2))
            }
            _ => incs(&r, &r2),
        };
        let mut g = String::new();
        for q in [t, u, x, y] {
            if st.is_fl(q) || kind < 20 { if matches!(st.n(q), N::F2U(..) | N::F2S(..)) || (kind >= 20 && (q == x || q == y)) { continue; } let n = self.nan(st, q); if n != "false" { g.push_str(&n); g.push(' '); } }
        }
        let s = if g.is_empty() { s } else { format!("(or {}{})", g, s) };
        self.new_lemma(st, (t, u, 1), vec![t, u], args, s)
    }

    /// two sums whose operands are negations of each other (or ordered that way)
    fn neg_lemma(&mut self, st: &Store, t: T, u: T, val: &dyn Fn(T) -> u128) -> bool {
        let w = st.w(t);
        if t == u || st.w(u) != w || self.lem_seen.contains(&(t, u, 4)) || self.lem_seen.contains(&(u, t, 4)) { return false; }
        let (a, b, c, d) = match (st.n(t), st.n(u)) { (&N::FAdd(a, b), &N::FAdd(c, d)) => (a, b, c, d), _ => return false };
        let all = [t, u, a, b, c, d];
        for x in all { if st.iv(x).nan && fval(w, val(x)).is_nan() { return false; } }
        let sk = |x: T| sx(key_of(w, val(x)), w);
        let le = |s: i128| { let (p, q, r, e) = (s * sk(a), s * sk(b), -s * sk(c), -s * sk(d)); (p <= r && q <= e) || (p <= e && q <= r) };
        let bad = (le(1) && sk(t) > -sk(u)) || (le(-1) && sk(t) < -sk(u));
        if !bad { return false; }
        let mut g = String::new();
        for q in all { let n = self.nan(st, q); if n != "false" { g.push_str(&n); g.push(' '); } }
        let f: Vec<String> = all.iter().map(|&x| self.form(st, x, 2)).collect();
        let (kt, ku, ka, kb, kc, kd) = (&f[0], &f[1], &f[2], &f[3], &f[4], &f[5]);
        let s = format!("(and (=> (or (and (<= {ka} (- {kc})) (<= {kb} (- {kd}))) (and (<= {ka} (- {kd})) (<= {kb} (- {kc})))) (<= {kt} (- {ku}))) (=> (or (and (>= {ka} (- {kc})) (>= {kb} (- {kd}))) (and (>= {ka} (- {kd})) (>= {kb} (- {kc})))) (>= {kt} (- {ku}))))");
        let s = if g.is_empty() { s } else { format!("(or {}{})", g, s) };
        self.new_lemma(st, (t, u, 4), vec![t, u], vec![a, b, c, d], s)
    }

    /// two applications of one operation with unrelated operands: monotonicity in both,
    /// added only when the current values violate it
    fn pair2_lemma(&mut self, st: &Store, t: T, u: T, val: &dyn Fn(T) -> u128) -> bool {
        let w = st.w(t);
        if t == u || st.w(u) != w || self.lem_seen.contains(&(t, u, 3)) || self.lem_seen.contains(&(u, t, 3)) { return false; }
        let (op, a, b, c, d) = match (st.n(t), st.n(u)) {
            (&N::FAdd(a, b), &N::FAdd(c, d)) => (0, a, b, c, d),
            (&N::FMul(a, b), &N::FMul(c, d)) => (1, a, b, c, d),
            (&N::FDiv(a, b), &N::FDiv(c, d)) => (2, a, b, c, d),
            _ => return false,
        };
        let all = [t, u, a, b, c, d];
        for x in all { if st.iv(x).nan && fval(w, val(x)).is_nan() { return false; } }
        let sk = |x: T| sx(key_of(w, val(x)), w);
        let ab = |x: T| sk(x).abs();
        let (vt, vu) = if op == 0 { (sk(t), sk(u)) } else { (ab(t), ab(u)) };
        if vt == vu { return false; }
        let bad = match op {
            0 => { let le = |a: T, b: T, c: T, d: T| (sk(a) <= sk(c) && sk(b) <= sk(d)) || (sk(a) <= sk(d) && sk(b) <= sk(c)); (le(a, b, c, d) && vt > vu) || (le(c, d, a, b) && vu > vt) }
            1 => { let le = |a: T, b: T, c: T, d: T| (ab(a) <= ab(c) && ab(b) <= ab(d)) || (ab(a) <= ab(d) && ab(b) <= ab(c)); (le(a, b, c, d) && vt > vu) || (le(c, d, a, b) && vu > vt) }
            _ => { let le = |a: T, b: T, c: T, d: T| ab(a) <= ab(c) && ab(b) >= ab(d) && ab(d) > 0; (le(a, b, c, d) && vt > vu) || (le(c, d, a, b) && vu > vt) }
        };
        if !bad { return false; }
        let mut g = String::new();
        for q in all { let n = self.nan(st, q); if n != "false" { g.push_str(&n); g.push(' '); } }
        let z = ki(w, 0);
        let f: Vec<String> = all.iter().map(|&x| { let k = self.form(st, x, 2); if op == 0 { k } else { format!("(ite (>= {k} {z}) {k} (- {k}))") } }).collect();
        let (kt, ku, ka, kb, kc, kd) = (&f[0], &f[1], &f[2], &f[3], &f[4], &f[5]);
        let s = if op < 2 {
            format!("(and (=> (or (and (<= {ka} {kc}) (<= {kb} {kd})) (and (<= {ka} {kd}) (<= {kb} {kc}))) (<= {kt} {ku})) (=> (or (and (<= {kc} {ka}) (<= {kd} {kb})) (and (<= {kd} {ka}) (<= {kc} {kb}))) (<= {ku} {kt})))")
        } else {
            format!("(and (=> (and (<= {ka} {kc}) (>= {kb} {kd}) (> {kd} {z})) (<= {kt} {ku})) (=> (and (<= {kc} {ka}) (>= {kd} {kb}) (> {kb} {z})) (<= {ku} {kt})))")
        };
        let s = if g.is_empty() { s } else { format!("(or {}{})", g, s) };
        self.new_lemma(st, (t, u, 3), vec![t, u], vec![a, b, c, d], s)
    }

    /// monotonicity of one operation at the current argument values
    fn point_lemma(&mut self, st: &Store, t: T, val: &dyn Fn(T) -> u128, want: u128) -> bool {
        let w = st.w(t);
        let got = val(t);
        let conv = matches!(st.n(t), N::F2U(..) | N::F2S(..));
        if !conv && (fval(w, want).is_nan() || (st.iv(t).nan && fval(w, got).is_nan())) { return false; }
        let signed = matches!(st.n(t), N::F2S(..));
        let (gi, wi) = if conv { if signed { (sx(got, w), sx(want, w)) } else { (got as i128, want as i128) } } else { (sx(key_of(w, got), w), sx(key_of(w, want), w)) };
        if gi == wi { return false; }
        let too_big = gi > wi;
        // condition on one argument: at most / at least its current value
        let mut conds: Vec<String> = vec![];
        let mut args = vec![];
        let mut hash = too_big as u64;
        // `up`: result grows with the argument; sgn: restrict to the argument's sign
        let mut arg = |me: &mut Self, a: T, up: bool, sgn: bool, int: u8| {
            let aw = st.w(a);
            if st.konst(a).is_some() { return; }
            args.push(a);
            let v = val(a);
            hash = hash.wrapping_mul(0x100000001b3) ^ v as u64 ^ ((v >> 64) as u64);
            let k = me.form(st, a, if int > 0 { 1 } else { 2 });
            let le = up == too_big;
            let op = if int == 1 { if le { "bvule" } else { "bvuge" } } else if int == 2 { if le { "bvsle" } else { "bvsge" } } else if le { "<=" } else { ">=" };
            let kv = if int > 0 { v } else { key_of(aw, v) };
            conds.push(format!("({op} {k} {})", if int > 0 { lit(aw, kv) } else { ki(aw, kv) }));
            if sgn {
                let neg = sx(kv, aw) < 0;
                conds.push(format!("({} {k} {})", if neg { "<" } else { ">=" }, ki(aw, 0)));
            }
            let n = if int > 0 { "false".to_string() } else { me.nan(st, a) };
            if n != "false" { conds.push(format!("(not {})", n)); }
        };
        let pos = |a: T| sx(key_of(st.w(a), val(a)), st.w(a)) >= 0;
        match *st.n(t) {
            N::FAdd(a, b) => { arg(self, a, true, false, 0); arg(self, b, true, false, 0); }
            N::FMul(a, b) if a == b => { let p = pos(a); arg(self, a, p, true, 0); }
            N::FMul(a, b) => { let (pa, pb) = (pos(a), pos(b)); arg(self, a, pb, true, 0); arg(self, b, pa, true, 0); }
            N::FDiv(a, b) => {
                let (pa, pb) = (pos(a), pos(b));
                if sx(key_of(st.w(b), val(b)), st.w(b)) == 0 { return false; }
                arg(self, a, pb, true, 0);
                arg(self, b, !pa, true, 0);
                let k = self.form(st, b, 2);
                conds.push(format!("(not (= {k} {}))", ki(w, 0)));
            }
            N::FSqrt(a) | N::FRound(_, a) | N::FExt(a) | N::FTrunc(a) | N::F2U(_, a) | N::F2S(_, a) => arg(self, a, true, false, 0),
            N::U2F(_, a) => arg(self, a, true, false, 1),
            N::S2F(_, a) => arg(self, a, true, false, 2),
            _ => return false,
        }
        let r = self.form(st, t, if conv { 1 } else { 2 });
        let op = if conv { match (signed, too_big) { (false, true) => "bvule", (false, false) => "bvuge", (true, true) => "bvsle", _ => "bvsge" } } else if too_big { "<=" } else { ">=" };
        let rv = if conv { want } else { key_of(w, want) };
        let mut s = format!("(=> (and true {}) ({op} {r} {}))", conds.join(" "), if conv { lit(w, rv) } else { ki(w, rv) });
        if !conv { let n = self.nan(st, t); if n != "false" { s = format!("(or {} {})", n, s); } }
        self.new_lemma(st, (t, t, hash | 2), vec![t], args, s)
    }

    fn arith(n: &N) -> bool { matches!(n, N::FAdd(..) | N::FMul(..) | N::FDiv(..) | N::FRem(..) | N::FSqrt(..) | N::FRound(..) | N::FExt(..) | N::FTrunc(..) | N::F2U(..) | N::F2S(..) | N::U2F(..) | N::S2F(..)) }

    /// values of all nodes the solver currently treats as unknowns
    fn model_all(&mut self, st: &Store) -> (HashMap<u32, u128>, HashMap<T, u128>) {
        let mut vars = HashMap::default();
        let mut vals = HashMap::default();
        let mut names: Vec<String> = vec![];
        let mut what: HashMap<String, (T, u8)> = HashMap::default();
        for &t in self.fact_on.iter() {
            match st.n(t) {
                N::Var(_, v) => { let n = format!("v{}", v); what.insert(n.clone(), (t, 0)); names.push(n); }
                N::FVar(_, v) => { let n = format!("v{}", v); what.insert(n.clone(), (t, 1)); names.push(n); }
                N::F2U(..) | N::F2S(..) => { let n = format!("x{}", t); what.insert(n.clone(), (t, 2)); names.push(n); }
                n if Self::arith(n) => {
                    let n = format!("k{}", t); what.insert(n.clone(), (t, 3)); names.push(n);
                    if st.iv(t).nan && self.emitted.contains(&(t, 3)) { let n = format!("n{}", t); what.insert(n.clone(), (t, 4)); names.push(n); }
                }
                _ => {}
            }
        }
        if names.is_empty() { return (vars, vals); }
        self.buf.push_str(&format!("(get-value ({}))\n(echo \"done\")\n", names.join(" ")));
        self.flush();
        let mut s = String::new();
        loop { match self.line() { None => { self.kill(); return (vars, vals); } Some(l) => { if l == "done" { break; } s.push_str(&l); s.push(' '); } } }
        let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
        let mut nans = vec![];
        let mut k = 0;
        while k + 1 < toks.len() {
            if let Some(&(t, kind)) = what.get(toks[k]) {
                let w = st.w(t);
                let v = toks[k + 1];
                let val = if v == "-" { toks.get(k + 2).and_then(|b| b.parse::<i128>().ok()).map(|x| (-x) as u128 & mask(w)) } else if v == "_" { toks.get(k + 2).and_then(|b| b.strip_prefix("bv")).and_then(|b| b.parse().ok()) } else { parse_lit(v) };
                if let Some(val) = val {
                    match kind {
                        0 => { if let N::Var(_, v) = st.n(t) { vars.insert(*v, val); } vals.insert(t, val); }
                        1 => { let b = bits_of_key(w, val); if let N::FVar(_, v) = st.n(t) { vars.insert(*v, b); } vals.insert(t, b); }
                        2 => { vals.insert(t, val); }
                        3 => { vals.insert(t, bits_of_key(w, val)); }
                        _ => if val == 1 { nans.push(t); },
                    }
                }
                k += 2;
            } else { k += 1; }
        }
        for t in nans { let w = st.w(t); vals.insert(t, if w == 32 { 0x7fc00000 } else { 0x7ff8000000000000 }); }
        (vars, vals)
    }

    /// lazily refined query of pc & extra
    pub fn query(&mut self, st: &Store, pc: &[T], extra: T, budget: u32, base: &dyn Fn(u32) -> u128) -> Ans {
        let mut first = true;
        let mut last = HashMap::default();
        let t0 = std::time::Instant::now();
        for it in 0..=budget {
            let r = if first { self.check(st, pc, extra) } else { self.recheck() };
            first = false;
            match r {
                Sat::Unsat => return Ans::No,
                Sat::Unknown => return Ans::Maybe(last),
                Sat::Sat => {}
            }
            let (vars, vals) = self.model_all(st);
            let env = |i: u32| vars.get(&i).cloned().unwrap_or_else(|| base(i));
            let mut memo: HashMap<T, u128> = HashMap::default();
            let mut bad = vec![];
            for &l in pc.iter().chain(std::iter::once(&extra)) { if st.eval(l, &env, &mut memo) != 1 { bad.push(l); } }
            if bad.is_empty() { return Ans::Yes(vars); }
            last = vars.clone();
            if it == 0 && budget > 0 && !self.lemmas.is_empty() {
                // first refinement: bring in what earlier queries learned
                let mut any = false;
                loop {
                    let mut cand: Vec<usize> = vec![];
                    for t in &self.fact_on { if let Some(l) = self.by_node.get(t) { cand.extend(l.iter().filter(|l| !self.lem_on.contains(l)).cloned()); } }
                    cand.sort(); cand.dedup();
                    let n = self.lem_on.len();
                    for l in cand { self.assert_lemma(st, l); }
                    if self.lem_on.len() == n { break; }
                    any = true;
                }
                if any { continue; }
            }
            if it == budget || t0.elapsed().as_secs_f64() > 120.0 || self.late() || self.until.map_or(false, |d| std::time::Instant::now() >= d) { break; }
            // refine inside the cones of the literals the model gets wrong
            let mut hy: HashMap<T, u128> = vals;
            for t in hy.keys().cloned().collect::<Vec<_>>() { if matches!(st.n(t), N::Var(..) | N::FVar(..)) { hy.remove(&t); } }
            let fixed: HashSet<T> = hy.keys().cloned().collect();
            let mut seen: HashSet<T> = HashSet::default();
            let mut nodes: Vec<T> = vec![];
            let mut work = bad.clone();
            while let Some(t) = work.pop() {
                if !seen.insert(t) { continue; }
                if Self::arith(st.n(t)) && fixed.contains(&t) { nodes.push(t); }
                st.kids(t, |k| work.push(k));
            }
            nodes.sort();
            let mut added = 0;
            let mut wrong: Vec<(T, u128)> = vec![];
            for &t in &nodes {
                st.kids(t, |k| { st.eval(k, &env, &mut hy); });
                let want = st.eval1(t, &env, &hy);
                let got = hy[&t];
                let w = st.w(t);
                let conv = matches!(st.n(t), N::F2U(..) | N::F2S(..));
                let same = if conv { want == got } else if fval(w, want).is_nan() { fval(w, got).is_nan() } else { !(st.iv(t).nan && fval(w, got).is_nan()) && key_of(w, want) == key_of(w, got) };
                if same { continue; }
                let val = |x: T| -> u128 { if let Some(v) = hy.get(&x) { *v } else { let mut h2 = hy.clone(); st.eval(x, &env, &mut h2) } };
                if self.sign_lemma(st, t) { added += 1; }
                for &u in nodes.iter() {
                    if std::mem::discriminant(st.n(u)) != std::mem::discriminant(st.n(t)) || u == t { continue; }
                    if added > 40 { break; }
                    if self.pair_lemma(st, t, u, &val) { added += 1; }
                }
                if added > 40 { break; }
                wrong.push((t, want));
            }
            if added == 0 && budget > 10 && nodes.len() <= 400 {
                let val = |x: T| -> u128 { if let Some(v) = hy.get(&x) { *v } else { let mut h2 = hy.clone(); st.eval(x, &env, &mut h2) } };
                'p: for (i, &t) in nodes.iter().enumerate() { for &u in &nodes[..i] {
                    if self.pair2_lemma(st, t, u, &val) { added += 1; }
                    if self.neg_lemma(st, t, u, &val) { added += 1; }
                    if added > 40 { break 'p; }
                } }
            }
            if added == 0 {
                // widen to everything this query talks about
                let mut all: Vec<T> = self.fact_on.iter().cloned().filter(|t| Self::arith(st.n(*t)) && fixed.contains(t)).collect();
                all.sort();
                let mut groups: HashMap<(u8, T), Vec<T>> = HashMap::default();
                for &t in &all {
                    match *st.n(t) {
                        N::FAdd(a, b) => { groups.entry((0, a)).or_default().push(t); groups.entry((0, b)).or_default().push(t); }
                        N::FMul(a, b) => { groups.entry((1, a)).or_default().push(t); groups.entry((1, b)).or_default().push(t); }
                        N::FDiv(a, b) => { groups.entry((2, a)).or_default().push(t); groups.entry((3, b)).or_default().push(t); }
                        N::FSqrt(..) => groups.entry((4, 0)).or_default().push(t),
                        N::FRound(m, _) => groups.entry((5, m as T)).or_default().push(t),
                        N::FExt(_) => groups.entry((6, 0)).or_default().push(t),
                        N::FTrunc(_) => groups.entry((7, 0)).or_default().push(t),
                        N::F2U(w, _) => groups.entry((8, w as T)).or_default().push(t),
                        N::F2S(w, _) => groups.entry((9, w as T)).or_default().push(t),
                        N::U2F(w, _) => groups.entry((10, w as T)).or_default().push(t),
                        N::S2F(w, _) => groups.entry((11, w as T)).or_default().push(t),
                        _ => {}
                    }
                }
                for &t in &all {
                    st.kids(t, |k| { st.eval(k, &env, &mut hy); });
                    let want = st.eval1(t, &env, &hy);
                    let got = hy[&t];
                    let w = st.w(t);
                    let conv = matches!(st.n(t), N::F2U(..) | N::F2S(..));
                    let same = if conv { want == got } else if fval(w, want).is_nan() { fval(w, got).is_nan() } else { !(st.iv(t).nan && fval(w, got).is_nan()) && key_of(w, want) == key_of(w, got) };
                    if !same && self.sign_lemma(st, t) { added += 1; }
                }
                let val = |x: T| -> u128 { if let Some(v) = hy.get(&x) { *v } else { let mut h2 = hy.clone(); st.eval(x, &env, &mut h2) } };
                let mut gs: Vec<_> = groups.into_iter().collect();
                gs.sort();
                'o: for (_, g) in &gs {
                    for (i, &t) in g.iter().enumerate() { for &u in &g[..i] {
                        if self.pair_lemma(st, t, u, &val) { added += 1; }
                        if added > 60 { break 'o; }
                    } }
                }
            }
            if added == 0 {
                let mut all: Vec<T> = self.fact_on.iter().cloned().filter(|t| Self::arith(st.n(*t)) && fixed.contains(t)).collect();
                all.sort();
                if budget > 10 && all.len() <= 300 {
                    let val = |x: T| -> u128 { if let Some(v) = hy.get(&x) { *v } else { let mut h2 = hy.clone(); st.eval(x, &env, &mut h2) } };
                    'a: for (i, &t) in all.iter().enumerate() { for &u in &all[..i] {
                        if self.pair2_lemma(st, t, u, &val) { added += 1; }
                        if self.neg_lemma(st, t, u, &val) { added += 1; }
                        if added > 40 { break 'a; }
                    } }
                }
            }
            if added == 0 {
                for (t, want) in wrong {
                    let val = |x: T| -> u128 { if let Some(v) = hy.get(&x) { *v } else { let mut h2 = hy.clone(); st.eval(x, &env, &mut h2) } };
                    if self.point_lemma(st, t, &val, want) { added += 1; }
                    if added > 40 { break; }
                }
            }
            if std::env::var("SYMEX_DBG").is_ok() { eprintln!("query it={} t={:.2} pc={} nodes={} fact_on={} added={} lems_on={} lemmas={} bad={}", it, t0.elapsed().as_secs_f64(), pc.len(), nodes.len(), self.fact_on.len(), added, self.lem_on.len(), self.lemmas.len(), bad.len()); }
            if it + 1 == budget && std::env::var("SYMEX_PC").is_ok() {
                let mut s = String::new();
                for &l in pc.iter().chain(std::iter::once(&extra)) { s.push_str(&format!("  {} {}\n", if bad.contains(&l) { "BAD" } else { "ok " }, st.show(l, 12))); }
                for &t in &nodes { s.push_str(&format!("    {} = {}\n", st.show(t, 2), fval(st.w(t), hy[&t]))); }
                eprintln!("PC\n{}", s);
            }
            if added == 0 { break; }
            self.refinements += 1;
        }
        Ans::Maybe(last)
    }
    fn recheck(&mut self) -> Sat {
        let t0 = std::time::Instant::now();
        if self.clamp() { return Sat::Unknown; }
        self.queries += 1;
        self.buf.push_str("(check-sat)\n(echo \"done\")\n");
        self.flush();
        let r = self.answer();
        let dt = t0.elapsed().as_secs_f64();
        if std::env::var("SYMEX_DBG").is_ok() { eprintln!("recheck {:?} {:.3}s lems={}", r, dt, self.lem_on.len()); }
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if r == Sat::Unknown { self.unknowns += 1; }
        r
    }
    fn answer(&mut self) -> Sat {
        let mut r = Sat::Unknown;
        loop {
            match self.line() {
                None => { self.kill(); return Sat::Unknown; }
                Some(l) => {
                    if l == "done" { return r; }
                    if l == "sat" { r = Sat::Sat } else if l == "unsat" { r = Sat::Unsat } else if l == "unknown" || l == "timeout" { r = Sat::Unknown }
                    else if l.starts_with("(error") { eprintln!("solver: {}", l); self.kill(); return Sat::Unknown; }
                }
            }
        }
    }

    fn nan(&mut self, st: &Store, t: T) -> String {
        if let Some(v) = st.konst(t) { return if fval(st.w(t), v).is_nan() { "true".into() } else { "false".into() }; }
        if !st.iv(t).nan { return "false".into(); }
        self.form(st, t, 3)
    }

    /// forms: 0 Bool, 1 bit-vector, 2 ordered key, 3 NaN flag, 4 FloatingPoint
    fn form(&mut self, st: &Store, t: T, f: u8) -> String {
        let w = st.w(t);
        if let N::C(_, v) = *st.n(t) {
            return match f {
                0 => if v == 1 { "true".into() } else { "false".into() },
                1 => lit(w, v),
                2 => ki(w, key_of(w, v)),
                3 => if fval(w, v).is_nan() { "true".into() } else { "false".into() },
                _ => { let (e, s) = es(w); format!("((_ to_fp {e} {s}) {})", lit(w, v)) }
            };
        }
        let name = format!("{}{}", ["b", "x", "k", "n", "f"][f as usize], t);
        if self.emitted.contains(&(t, f)) { return self.alias(st, t, f, name); }
        // iterative post-order to keep the stack small
        self.emit(st, t, f);
        self.alias(st, t, f, name)
    }
    fn alias(&self, st: &Store, t: T, f: u8, name: String) -> String {
        match (st.n(t), f, self.mode) {
            (N::Var(1, v), 0, _) => format!("v{}", v),
            (N::Var(w, v), 1, _) if *w > 1 => format!("v{}", v),
            (N::FVar(_, v), 2, Mode::Lazy) => format!("v{}", v),
            _ => name,
        }
    }
    fn declare_var(&mut self, v: u32, sort: String) {
        if self.emitted.insert((v, 100)) { self.buf.push_str(&format!("(declare-const v{} {})\n", v, sort)); }
    }
    fn def(&mut self, name: &str, sort: &str, body: String) { self.buf.push_str(&format!("(define-fun {} () {} {})\n", name, sort, body)); }

    fn emit(&mut self, st: &Store, t: T, f: u8) {
        use N::*;
        let w = st.w(t);
        let bv = format!("(_ BitVec {})", w);
        let name = format!("{}{}", ["b", "x", "k", "n", "f"][f as usize], t);
        let n = st.n(t).clone();
        let exact = self.mode == Mode::Exact;
        self.emitted.insert((t, f));
        match f {
            0 => {
                let body = match n {
                    Var(_, v) => { self.declare_var(v, "Bool".into()); return; }
                    Not(a) => format!("(not {})", self.form(st, a, 0)),
                    And(a, b) => format!("(and {} {})", self.form(st, a, 0), self.form(st, b, 0)),
                    Or(a, b) => format!("(or {} {})", self.form(st, a, 0), self.form(st, b, 0)),
                    Xor(a, b) => format!("(xor {} {})", self.form(st, a, 0), self.form(st, b, 0)),
                    Ite(c, a, b) => format!("(ite {} {} {})", self.form(st, c, 0), self.form(st, a, 0), self.form(st, b, 0)),
                    Eq(a, b) => { let g = if st.w(a) == 1 { 0 } else { 1 }; format!("(= {} {})", self.form(st, a, g), self.form(st, b, g)) }
                    Ult(a, b) => if st.w(a) == 1 { format!("(and (not {}) {})", self.form(st, a, 0), self.form(st, b, 0)) } else { format!("(bvult {} {})", self.form(st, a, 1), self.form(st, b, 1)) },
                    Slt(a, b) => format!("(bvslt {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    FLt(a, b) | FLe(a, b) | FEq(a, b) => {
                        if exact {
                            let op = match n { FLt(..) => "fp.lt", FLe(..) => "fp.leq", _ => "fp.eq" };
                            format!("({} {} {})", op, self.form(st, a, 4), self.form(st, b, 4))
                        } else {
                            let op = match n { FLt(..) => "<", FLe(..) => "<=", _ => "=" };
                            let (na, nb) = (self.nan(st, a), self.nan(st, b));
                            let c = format!("({} {} {})", op, self.form(st, a, 2), self.form(st, b, 2));
                            let mut s = String::new();
                            if na != "false" { s.push_str(&format!("(not {}) ", na)); }
                            if nb != "false" { s.push_str(&format!("(not {}) ", nb)); }
                            if s.is_empty() { c } else { format!("(and {}{})", s, c) }
                        }
                    }
                    FNan(a) => if exact { format!("(fp.isNaN {})", self.form(st, a, 4)) } else { self.nan(st, a) },
                    _ => format!("(= {} #b1)", self.form(st, t, 1)),
                };
                self.def(&name, "Bool", body);
            }
            1 => {
                if w == 1 {
                    let body = match n {
                        Extract(h, l, a) => format!("((_ extract {} {}) {})", h, l, self.form(st, a, 1)),
                        Add(a, b) | Sub(a, b) => format!("(bvxor {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                        Mul(a, b) => format!("(bvand {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                        Shl(..) | Lshr(..) | Ashr(..) | Udiv(..) | Sdiv(..) | Urem(..) | Srem(..) => panic!("1-bit arithmetic"),
                        _ => format!("(ite {} #b1 #b0)", self.form(st, t, 0)),
                    };
                    self.def(&name, &bv, body);
                    return;
                }
                if st.is_fl(t) {
                    match n {
                        Ite(c, a, b) => { let s = format!("(ite {} {} {})", self.form(st, c, 0), self.form(st, a, 1), self.form(st, b, 1)); self.def(&name, &bv, s); return; }
                        FNeg(a) => { let s = format!("(bvxor {} {})", self.form(st, a, 1), lit(w, 1u128 << (w - 1))); self.def(&name, &bv, s); return; }
                        FAbs(a) => { let s = format!("(bvand {} {})", self.form(st, a, 1), lit(w, mask(w - 1))); self.def(&name, &bv, s); return; }
                        FVar(_, v) if exact => { self.declare_var(v, bv.clone()); self.def(&name, &bv, format!("v{}", v)); return; }
                        _ => {}
                    }
                    if exact {
                        self.buf.push_str(&format!("(declare-const {} {})\n", name, bv));
                        let (e, s) = es(w);
                        let x = self.form(st, t, 4);
                        // asserted globally: defines the bits of a computed value
                        self.buf.push_str(&format!("(assert (= ((_ to_fp {e} {s}) {name}) {x}))\n"));
                        return;
                    }
                    // the bits are only related to the value by sign (over-approximation)
                    let k = self.form(st, t, 2);
                    let nn = self.nan(st, t);
                    self.buf.push_str(&format!("(declare-const {} {})\n", name, bv));
                    let z = lit(w, 0);
                    let sg = lit(w, 1u128 << (w - 1));
                    let core = format!("(and (=> (< {k} 0) (bvslt {name} {z})) (=> (> {k} 0) (bvsgt {name} {z})) (=> (= {k} 0) (or (= {name} {z}) (= {name} {sg}))))");
                    let f = if nn == "false" { core } else { format!("(or {nn} {core})") };
                    self.buf.push_str(&format!("(assert {f})\n"));
                    return;
                }
                let body = match n {
                    Var(_, v) => { self.declare_var(v, bv.clone()); return; }
                    Not(a) => format!("(bvnot {})", self.form(st, a, 1)),
                    And(a, b) => format!("(bvand {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Or(a, b) => format!("(bvor {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Xor(a, b) => format!("(bvxor {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Ite(c, a, b) => format!("(ite {} {} {})", self.form(st, c, 0), self.form(st, a, 1), self.form(st, b, 1)),
                    Add(a, b) => format!("(bvadd {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Sub(a, b) => format!("(bvsub {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Mul(a, b) => format!("(bvmul {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Udiv(a, b) => format!("(bvudiv {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Sdiv(a, b) => format!("(bvsdiv {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Urem(a, b) => format!("(bvurem {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Srem(a, b) => format!("(bvsrem {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Shl(a, b) => format!("(bvshl {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Lshr(a, b) => format!("(bvlshr {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Ashr(a, b) => format!("(bvashr {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Concat(a, b) => format!("(concat {} {})", self.form(st, a, 1), self.form(st, b, 1)),
                    Extract(h, l, a) => format!("((_ extract {} {}) {})", h, l, self.form(st, a, 1)),
                    Zext(_, a) => format!("((_ zero_extend {}) {})", w - st.w(a), self.form(st, a, 1)),
                    Sext(_, a) => format!("((_ sign_extend {}) {})", w - st.w(a), self.form(st, a, 1)),
                    F2U(_, a) | F2S(_, a) => {
                        if !exact { self.buf.push_str(&format!("(declare-const {} {})\n", name, bv)); return; }
                        let signed = matches!(n, F2S(..));
                        let x = self.form(st, a, 4);
                        let (e, s) = es(st.w(a));
                        let fw = st.w(a);
                        let (lo, hi) = if signed { (-((mask(w) >> 1) as f64) - 1.0, (mask(w) >> 1) as f64) } else { (0.0, mask(w) as f64) };
                        let c = |v: f64| format!("((_ to_fp {e} {s}) {})", lit(fw, if fw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }));
                        let (lo_b, hi_b) = if signed { (lit(w, 1u128 << (w - 1)), lit(w, mask(w) >> 1)) } else { (lit(w, 0), lit(w, mask(w))) };
                        format!("(ite (fp.isNaN {x}) {} (ite (fp.geq {x} {}) {} (ite (fp.leq {x} {}) {} ((_ {} {}) RTZ {x}))))", lit(w, 0), c(hi), hi_b, c(lo), lo_b, if signed { "fp.to_sbv" } else { "fp.to_ubv" }, w)
                    }
                    _ => panic!("emit bv {:?}", n),
                };
                self.def(&name, &bv, body);
            }
            2 => {
                let int = "Int";
                let body = match n {
                    FVar(_, v) => { self.declare_var(v, int.into()); return; }
                    FNeg(a) => format!("(- {})", self.form(st, a, 2)),
                    FAbs(a) => { let k = self.form(st, a, 2); format!("(ite (< {k} 0) (- {k}) {k})") }
                    Ite(c, a, b) => format!("(ite {} {} {})", self.form(st, c, 0), self.form(st, a, 2), self.form(st, b, 2)),
                    FMin(ref v) | FMax(ref v) => {
                        let op = if matches!(n, FMin(_)) { "<=" } else { ">=" };
                        let mut acc = self.form(st, v[0], 2);
                        for (i, x) in v.iter().enumerate().skip(1) {
                            let k = self.form(st, *x, 2);
                            let nm = if i + 1 == v.len() { None } else { Some(format!("{}_{}", name, i)) };
                            let b = format!("(ite ({op} {acc} {k}) {acc} {k})");
                            match nm { None => acc = b, Some(nm) => { self.def(&nm, int, b); acc = nm; } }
                        }
                        acc
                    }
                    _ if st.is_fl(t) => { self.buf.push_str(&format!("(declare-const {} {})\n", name, int)); return; }
                    _ => {
                        let x = self.form(st, t, 1);
                        self.buf.push_str(&format!("(declare-const {} {})\n", name, int));
                        let lim = 1u128 << (w - 1);
                        self.buf.push_str(&format!("(assert (and (=> (bvslt {x} {z}) (<= {name} 0)) (=> (bvsge {x} {z}) (>= {name} 0)) (= (= {name} 0) (or (= {x} {z}) (= {x} {sg}))) (< (- {lim}) {name}) (< {name} {lim})))\n", z = lit(w, 0), sg = lit(w, lim)));
                        return;
                    }
                };
                self.def(&name, int, body);
            }
            3 => {
                let body = match n {
                    FNeg(a) | FAbs(a) => self.nan(st, a),
                    Ite(c, a, b) => { let (x, y) = (self.nan(st, a), self.nan(st, b)); format!("(ite {} {} {})", self.form(st, c, 0), x, y) }
                    FVar(..) | FMin(..) | FMax(..) => "false".into(),
                    _ if st.is_fl(t) => { self.buf.push_str(&format!("(declare-const {} Bool)\n", name)); return; }
                    _ => {
                        let x = self.form(st, t, 1);
                        let inf = if w == 32 { 0x7f800000u128 } else { 0x7ff0000000000000 };
                        format!("(bvugt (bvand {} {}) {})", x, lit(w, mask(w - 1)), lit(w, inf))
                    }
                };
                self.def(&name, "Bool", body);
            }
            _ => {
                let (e, s) = es(w);
                let sort = format!("(_ FloatingPoint {e} {s})");
                let body = match n {
                    FVar(_, v) => { self.declare_var(v, bv.clone()); format!("((_ to_fp {e} {s}) v{v})") }
                    FNeg(a) => format!("(fp.neg {})", self.form(st, a, 4)),
                    FAbs(a) => format!("(fp.abs {})", self.form(st, a, 4)),
                    Ite(c, a, b) => format!("(ite {} {} {})", self.form(st, c, 0), self.form(st, a, 4), self.form(st, b, 4)),
                    FMin(ref v) | FMax(ref v) => {
                        let op = if matches!(n, FMin(_)) { "fp.leq" } else { "fp.geq" };
                        let mut acc = self.form(st, v[0], 4);
                        for (i, x) in v.iter().enumerate().skip(1) {
                            let k = self.form(st, *x, 4);
                            let b = format!("(ite ({op} {acc} {k}) {acc} {k})");
                            if i + 1 == v.len() { acc = b } else { let nm = format!("{}_{}", name, i); self.def(&nm, &sort, b); acc = nm; }
                        }
                        acc
                    }
                    FAdd(a, b) => match (st.n(a), st.n(b)) {
                        _ => format!("(fp.add RNE {} {})", self.form(st, a, 4), self.form(st, b, 4)),
                    },
                    FMul(a, b) => format!("(fp.mul RNE {} {})", self.form(st, a, 4), self.form(st, b, 4)),
                    FDiv(a, b) => format!("(fp.div RNE {} {})", self.form(st, a, 4), self.form(st, b, 4)),
                    FRem(a, b) => { let _ = (a, b); self.buf.push_str(&format!("(declare-const {} {})\n", name, sort)); return; }
                    FSqrt(a) => format!("(fp.sqrt RNE {})", self.form(st, a, 4)),
                    FRound(m, a) => format!("(fp.roundToIntegral {} {})", ["RTN", "RTP", "RTZ", "RNA", "RNE"][m as usize], self.form(st, a, 4)),
                    FExt(a) | FTrunc(a) => format!("((_ to_fp {e} {s}) RNE {})", self.form(st, a, 4)),
                    U2F(_, a) => format!("((_ to_fp_unsigned {e} {s}) RNE {})", self.form(st, a, 1)),
                    S2F(_, a) => format!("((_ to_fp {e} {s}) RNE {})", self.form(st, a, 1)),
                    _ => format!("((_ to_fp {e} {s}) {})", self.form(st, t, 1)),
                };
                self.def(&name, &sort, body);
            }
        }
    }
}

fn es(w: u8) -> (u8, u8) { if w == 32 { (8, 24) } else { (11, 53) } }

fn parse_lit(v: &str) -> Option<u128> {
    if let Some(h) = v.strip_prefix("#x") { return u128::from_str_radix(h, 16).ok(); }
    if let Some(b) = v.strip_prefix("#b") { return u128::from_str_radix(b, 2).ok(); }
    if v == "true" { return Some(1); }
    if v == "false" { return Some(0); }
    v.parse::<u128>().ok()
}

impl Drop for Solver { fn drop(&mut self) { self.kill(); } }
