//! Reader for textual LLVM IR (the `.ll` rustc writes after LTO).
//! Functions are indexed first and parsed on first use.
use crate::fx::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    I(u16),
    F32,
    F64,
    Ptr,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u16 {
        match self { Ty::I(n) => *n, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, _ => 0 }
    }
    pub fn is_float(&self) -> bool { matches!(self, Ty::F32 | Ty::F64) }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(n) => match n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::St(v, p) => if *p { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// store size for scalars, alloc size for aggregates
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(n) => (*n as u64 + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.alloc(),
            Ty::St(v, p) => {
                let mut o = 0;
                for t in v.iter() { if !p { o = up(o, t.align()); } o += t.alloc(); }
                if *p { o } else { up(o, self.align()) }
            }
            _ => 0,
        }
    }
    pub fn alloc(&self) -> u64 { up(self.size(), self.align()) }
    pub fn offset(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.alloc(), t),
            Ty::St(v, p) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    if !p { o = up(o, t.align()); }
                    if k as u64 == i { return (o, t); }
                    o += t.alloc();
                }
                panic!("struct index")
            }
            _ => panic!("offset of {:?}", self),
        }
    }
}
pub fn up(v: u64, a: u64) -> u64 { (v + a - 1) / a * a }

#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<(Ty, K)>),
    Str(Vec<u8>),
    Glob(String),
    /// base + offset
    Gep(Box<K>, i64),
    Bin(String, u16, Box<K>, Box<K>),
    Cast(String, u16, Box<K>),
    Splat(Ty, Box<K>),
    BlockAddr,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Ty, Rc<K>, u32),
}

#[derive(Clone, Debug)]
pub enum Callee { Fn(String), Op(Op), Asm(String) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: u8, ty: Ty, a: Op, b: Op },
    FBin { op: u8, ty: Ty, a: Op, b: Op },
    FNeg { ty: Ty, a: Op },
    Icmp { p: u8, ty: Ty, a: Op, b: Op },
    Fcmp { p: u8, ty: Ty, a: Op, b: Op },
    Cast { op: u8, from: Ty, to: Ty, a: Op },
    Gep { base: Op, off: i64, idx: Vec<(Op, u16, u64)> },
    Load { ty: Ty, p: Op, al: u32, at: bool },
    Store { ty: Ty, v: Op, p: Op, al: u32, at: bool },
    Alloca { size: u64, al: u64, n: Option<(Op, u16)> },
    Select { cty: Ty, ty: Ty, c: Op, a: Op, b: Op },
    Br(u32),
    CBr { c: Op, t: u32, f: u32 },
    Switch { w: u16, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Call { callee: Callee, ret: Ty, args: Vec<(Ty, Op)>, next: Option<u32> },
    Extract { a: Op, path: Vec<u32> },
    Insert { ty: Ty, a: Op, vty: Ty, v: Op, path: Vec<u32> },
    ExtElt { n: u32, a: Op, i: Op },
    InsElt { n: u32, a: Op, v: Op, i: Op },
    Shuf { n: u32, a: Op, b: Op, m: Vec<i32> },
    Rmw { op: String, ty: Ty, p: Op, v: Op },
    CmpX { ty: Ty, p: Op, e: Op, n: Op },
    Freeze { ty: Ty, a: Op },
    Nop,
}

#[derive(Debug)]
pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Op)> }
#[derive(Debug)]
pub struct Block { pub phis: Vec<Phi>, pub code: Vec<(Option<u32>, Inst)> }
#[derive(Debug)]
pub struct Func { pub name: String, pub nregs: u32, pub params: Vec<(u32, Ty)>, pub blocks: Vec<Block>, pub ret: Ty }

pub struct Global { pub ty: Ty, pub init: Option<K>, pub constant: bool, pub align: u64 }

pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: HashMap<String, Rc<Global>>,
    pub gorder: Vec<String>,
    pub funcs: HashMap<String, (usize, usize)>,
    pub fdecl: Vec<String>,
    lines: Vec<String>,
    kid: std::cell::Cell<u32>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tk { Id(String), Loc(String), Glob(String), Num(String), Str(Vec<u8>), P(char), Meta }

struct Lx { t: Vec<Tk>, i: usize }

fn lex(s: &str) -> Vec<Tk> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut r = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => { i += 1; }
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let s0 = i + 1;
                    i += 1;
                    while b[i] != b'"' { i += 1; }
                    name = s[s0..i].to_string();
                    i += 1;
                } else {
                    let s0 = i;
                    while i < b.len() && idc(b[i]) { i += 1; }
                    name = s[s0..i].to_string();
                }
                r.push(if c == b'%' { Tk::Loc(name) } else { Tk::Glob(name) });
            }
            b'"' => {
                let s0 = i + 1;
                i += 1;
                while b[i] != b'"' { i += 1; }
                r.push(Tk::Str(unesc(&s[s0..i])));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s0 = i + 2;
                i += 2;
                while b[i] != b'"' { i += 1; }
                r.push(Tk::Str(unesc(&s[s0..i])));
                i += 1;
            }
            b'!' | b'#' => {
                i += 1;
                while i < b.len() && idc(b[i]) { i += 1; }
                r.push(Tk::Meta);
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) || (c == b'+' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let s0 = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E'))) { i += 1; }
                r.push(Tk::Num(s[s0..i].to_string()));
            }
            b'+' | b'-' if s[i + 1..].starts_with("inf") || s[i + 1..].starts_with("nan") || s[i + 1..].starts_with("qnan") => {
                let s0 = i;
                i += 1;
                while i < b.len() && idc(b[i]) { i += 1; }
                r.push(Tk::Id(s[s0..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let s0 = i;
                while i < b.len() && idc(b[i]) { i += 1; }
                r.push(Tk::Id(s[s0..i].to_string()));
            }
            _ => { r.push(Tk::P(c as char)); i += 1; }
        }
    }
    r
}
fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() {
            r.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' { r.push(b'\\'); i += 2; }
        else { r.push(b[i]); i += 1; }
    }
    r
}

type R<X> = Result<X, String>;

impl Lx {
    fn new(s: &str) -> Self { Lx { t: lex(s), i: 0 } }
    fn pk(&self) -> Option<&Tk> { self.t.get(self.i) }
    fn nx(&mut self) -> R<Tk> { let r = self.t.get(self.i).cloned().ok_or("eol".to_string()); self.i += 1; r }
    fn isp(&self, c: char) -> bool { self.pk() == Some(&Tk::P(c)) }
    fn isid(&self, s: &str) -> bool { matches!(self.pk(), Some(Tk::Id(x)) if x == s) }
    fn eat(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn eatid(&mut self, s: &str) -> bool { if self.isid(s) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected {} at {:?}", c, &self.t[self.i.min(self.t.len())..])) } }
    fn num(&mut self) -> R<i128> {
        match self.nx()? { Tk::Num(s) => s.parse::<i128>().map_err(|e| format!("num {} {}", s, e)), t => Err(format!("num {:?}", t)) }
    }
    fn skip_parens(&mut self) {
        if !self.eat('(') { return; }
        let mut d = 1;
        while d > 0 { match self.nx() { Ok(Tk::P('(')) => d += 1, Ok(Tk::P(')')) => d -= 1, Ok(_) => {} Err(_) => return } }
    }
}

fn hexf(s: &str) -> R<f64> {
    if let Some(h) = s.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).map(f64::from_bits).map_err(|e| e.to_string());
    }
    s.parse::<f64>().map_err(|e| format!("float {} {}", s, e))
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let txt = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module { types: HashMap::default(), globals: HashMap::default(), gorder: vec![], funcs: HashMap::default(), fdecl: vec![], lines: vec![], kid: std::cell::Cell::new(0) };
        let mut tdefs: Vec<String> = vec![];
        let mut gdefs: Vec<String> = vec![];
        let mut cur: Option<(String, usize)> = None;
        for l in txt.lines() {
            if let Some((name, st)) = &cur {
                if l == "}" {
                    m.funcs.insert(name.clone(), (*st, m.lines.len()));
                    cur = None;
                } else { m.lines.push(l.to_string()); }
                continue;
            }
            if l.starts_with("define ") {
                let n = fname(l);
                m.fdecl.push(n.clone());
                let st = m.lines.len();
                m.lines.push(l.to_string());
                cur = Some((n, st));
            } else if l.starts_with("declare ") {
                m.fdecl.push(fname(l));
            } else if l.starts_with('@') {
                gdefs.push(l.to_string());
            } else if l.starts_with('%') {
                tdefs.push(l.to_string());
            }
        }
        for _ in 0..8 { for l in &tdefs {
            let mut x = Lx::new(l);
            if let Ok(Tk::Loc(n)) = x.nx() { x.i += 2; if let Ok(t) = m.ty(&mut x) { m.types.insert(n, t); } }
        } }
        for l in &gdefs { if let Err(e) = m.global(l) { return Err(format!("global: {} in {}", e, &l[..l.len().min(200)])); } }
        Ok(m)
    }

    fn global(&mut self, l: &str) -> R<()> {
        let l = cutmeta(l);
        let mut x = Lx::new(l);
        let name = match x.nx()? { Tk::Glob(n) => n, _ => return Err("name".into()) };
        x.exp('=')?;
        let mut ext = false;
        let constant;
        loop {
            match x.nx()? {
                Tk::Id(s) => match s.as_str() {
                    "constant" => { constant = true; break; }
                    "global" => { constant = false; break; }
                    "external" | "extern_weak" => ext = true,
                    "alias" | "ifunc" => return Ok(()),
                    _ => { if x.isp('(') { x.skip_parens(); } }
                },
                Tk::Num(_) => {}
                t => return Err(format!("{:?}", t)),
            }
        }
        let ty = self.ty(&mut x)?;
        let init = if ext { None } else { Some(self.konst(&mut x, &ty)?) };
        let mut align = ty.align();
        while let Ok(t) = x.nx() { if t == Tk::Id("align".into()) { align = x.num()? as u64; } }
        self.gorder.push(name.clone());
        self.globals.insert(name, Rc::new(Global { ty, init, constant, align }));
        Ok(())
    }

    fn ty(&self, x: &mut Lx) -> R<Ty> {
        let t = match x.nx()? {
            Tk::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => { if x.eatid("addrspace") { x.skip_parens(); } Ty::Ptr }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "half" | "token" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                s if s.starts_with('i') && s[1..].parse::<u16>().is_ok() => Ty::I(s[1..].parse().unwrap()),
                s => return Err(format!("type {}", s)),
            },
            Tk::Loc(n) => self.types.get(&n).cloned().ok_or(format!("unknown type {}", n))?,
            Tk::P('[') => {
                let n = x.num()?;
                if !x.eatid("x") { return Err("x".into()); }
                let t = self.ty(x)?;
                x.exp(']')?;
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tk::P('<') => {
                if x.isp('{') {
                    x.i += 1;
                    let v = self.tylist(x)?;
                    x.exp('>')?;
                    Ty::St(Rc::new(v), true)
                } else {
                    let n = x.num()?;
                    if !x.eatid("x") { return Err("x".into()); }
                    let t = self.ty(x)?;
                    x.exp('>')?;
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            Tk::P('{') => Ty::St(Rc::new(self.tylist(x)?), false),
            t => return Err(format!("type {:?}", t)),
        };
        Ok(t)
    }
    fn tylist(&self, x: &mut Lx) -> R<Vec<Ty>> {
        let mut v = vec![];
        if x.eat('}') { return Ok(v); }
        loop { v.push(self.ty(x)?); if x.eat('}') { return Ok(v); } x.exp(',')?; }
    }

    fn konst(&self, x: &mut Lx, ty: &Ty) -> R<K> {
        Ok(match x.nx()? {
            Tk::Num(s) => match ty {
                Ty::F32 => K::Int((hexf(&s)? as f32).to_bits() as u128),
                Ty::F64 => K::Int(hexf(&s)?.to_bits() as u128),
                _ => {
                    let v: i128 = match s.parse::<i128>() { Ok(v) => v, Err(_) => s.parse::<u128>().map_err(|e| format!("{} {}", s, e))? as i128 };
                    let w = ty.bits();
                    K::Int(if w >= 128 { v as u128 } else { v as u128 & ((1u128 << w) - 1) })
                }
            },
            Tk::Glob(n) => K::Glob(n),
            Tk::Str(s) => K::Str(s),
            Tk::P('{') => { let r = self.klist(x, '}')?; r }
            Tk::P('[') => { let r = self.klist(x, ']')?; r }
            Tk::P('<') => {
                if x.eat('{') { let r = self.klist(x, '}')?; x.exp('>')?; r } else { self.klist(x, '>')? }
            }
            Tk::Id(s) => match s.as_str() {
                "null" | "zeroinitializer" | "none" => K::Zero,
                "undef" | "poison" => K::Undef,
                "true" => K::Int(1),
                "false" => K::Int(0),
                "splat" => { x.exp('(')?; let t = self.ty(x)?; let k = self.konst(x, &t)?; x.exp(')')?; K::Splat(t, Box::new(k)) }
                "getelementptr" => {
                    while !x.isp('(') { x.i += 1; if x.isid("inrange") { x.i += 1; x.skip_parens(); } }
                    x.exp('(')?;
                    let t = self.ty(x)?;
                    x.exp(',')?;
                    let _ = self.ty(x)?;
                    let base = self.konst(x, &Ty::Ptr)?;
                    let mut off = 0i64;
                    let mut first = true;
                    let mut cur = t.clone();
                    while x.eat(',') {
                        x.eatid("inrange");
                        let it = self.ty(x)?;
                        let i = match self.konst(x, &it)? { K::Int(v) => sxt(v, it.bits()), K::Zero => 0, k => return Err(format!("gep idx {:?}", k)) };
                        if first { off += i * t.alloc() as i64; first = false; } else {
                            let (o, nt) = match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => (i * e.alloc() as i64, (**e).clone()), _ => { let (o, n) = cur.offset(i as u64); (o as i64, n.clone()) } };
                            off += o;
                            cur = nt;
                        }
                    }
                    x.exp(')')?;
                    K::Gep(Box::new(base), off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    x.exp('(')?;
                    let t = self.ty(x)?;
                    let k = self.konst(x, &t)?;
                    if !x.eatid("to") { return Err("to".into()); }
                    let d = self.ty(x)?;
                    x.exp(')')?;
                    K::Cast(s.clone(), d.bits(), Box::new(k))
                }
                "add" | "sub" | "xor" | "and" | "mul" | "shl" => {
                    while !x.isp('(') { x.i += 1; }
                    x.exp('(')?;
                    let t = self.ty(x)?;
                    let a = self.konst(x, &t)?;
                    x.exp(',')?;
                    let t2 = self.ty(x)?;
                    let b = self.konst(x, &t2)?;
                    x.exp(')')?;
                    K::Bin(s.clone(), t.bits(), Box::new(a), Box::new(b))
                }
                "blockaddress" => { x.skip_parens(); K::BlockAddr }
                "dso_local_equivalent" | "no_cfi" => return self.konst(x, ty),
                "f0x" => return Err("f0x".into()),
                s if s.starts_with("f0x") => {
                    let v = u64::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?;
                    K::Int(v as u128)
                }
                "+inf" | "-inf" | "+nan" | "-nan" | "+qnan" | "-qnan" => {
                    let neg = s.starts_with('-');
                    let (i, q, sg) = if ty.bits() == 32 { (0x7f800000u128, 0x7fc00000u128, 1u128 << 31) } else { (0x7ffu128 << 52, 0x7ff8u128 << 48, 1u128 << 63) };
                    K::Int(if s.ends_with("inf") { i } else { q } | if neg { sg } else { 0 })
                }
                "nan" | "inf" | "qnan" => return Err(format!("float const {}", s)),
                _ => return Err(format!("const {}", s)),
            },
            t => return Err(format!("const {:?}", t)),
        })
    }
    fn klist(&self, x: &mut Lx, end: char) -> R<K> {
        let mut v = vec![];
        if x.eat(end) { return Ok(K::Agg(v)); }
        loop {
            let t = self.ty(x)?;
            let k = self.konst(x, &t)?;
            v.push((t, k));
            if x.eat(end) { return Ok(K::Agg(v)); }
            x.exp(',')?;
        }
    }

    pub fn func(&self, name: &str) -> R<Func> {
        let (a, b) = *self.funcs.get(name).ok_or(format!("no function {}", name))?;
        let mut p = Fp { m: self, regs: HashMap::default(), labels: HashMap::default(), nblk: 0 };
        p.func(name, &self.lines[a..b])
    }
}

fn fname(l: &str) -> String {
    let i = l.find('@').unwrap();
    let x = lex(&l[i..l[i..].find('(').map(|k| i + k).unwrap_or(l.len())]);
    match &x[0] { Tk::Glob(n) => n.clone(), _ => panic!() }
}
/// cut `, !dbg !1 ...` tails (not inside quotes)
fn cutmeta(l: &str) -> &str {
    let b = l.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        if b[i] == b'"' { q = !q; }
        if !q && b[i] == b',' && i + 2 < b.len() && b[i + 1] == b' ' && b[i + 2] == b'!' { return &l[..i]; }
    }
    l
}
pub fn sxt(v: u128, w: u16) -> i64 { let sh = 128 - w as u32; (((v << sh) as i128) >> sh) as i64 }

struct Fp<'a> { m: &'a Module, regs: HashMap<String, u32>, labels: HashMap<String, u32>, nblk: u32 }

impl<'a> Fp<'a> {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn lab(&mut self, n: &str) -> u32 {
        if let Some(&v) = self.labels.get(n) { return v; }
        let k = self.nblk;
        self.nblk += 1;
        self.labels.insert(n.to_string(), k);
        k
    }
    fn op(&mut self, x: &mut Lx, ty: &Ty) -> R<Op> {
        if let Some(Tk::Loc(n)) = x.pk() {
            let n = n.clone();
            x.i += 1;
            return Ok(Op::R(self.reg(&n)));
        }
        if x.isid("asm") { return Err("asm".into()); }
        let k = self.m.konst(x, ty)?;
        let id = self.m.kid.get();
        self.m.kid.set(id + 1);
        Ok(Op::K(ty.clone(), Rc::new(k), id))
    }
    fn tyop(&mut self, x: &mut Lx) -> R<(Ty, Op)> { let t = self.m.ty(x)?; let o = self.op(x, &t)?; Ok((t, o)) }
    fn attrs(&self, x: &mut Lx) {
        loop {
            match x.pk() {
                Some(Tk::Id(s)) => {
                    let s = s.as_str();
                    match s {
                        "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "asm" | "xor" | "and" | "ptrtoaddr" => return,
                        _ if s.starts_with("f0x") => return,
                        "align" => { x.i += 1; if x.isp('(') { x.skip_parens(); } else { x.i += 1; } }
                        _ => { x.i += 1; if x.isp('(') { x.skip_parens(); } }
                    }
                }
                Some(Tk::Str(_)) => { // string attribute "k"="v"
                    x.i += 1;
                    if x.eat('=') { x.i += 1; }
                }
                Some(Tk::Meta) => { x.i += 1; }
                _ => return,
            }
        }
    }

    fn func(&mut self, name: &str, lines: &[String]) -> R<Func> {
        // header
        let mut x = Lx::new(&lines[0]);
        let at = x.t.iter().position(|t| matches!(t, Tk::Glob(_))).unwrap();
        // return type sits right before the name: rescan
        let mut ret = Ty::Void;
        for k in (1..at).rev() {
            let mut y = Lx { t: x.t.clone(), i: k };
            if let Ok(t) = self.m.ty(&mut y) { if y.i == at { ret = t; if k > 1 && matches!(x.t[k - 1], Tk::P('<')) { continue; } break; } }
        }
        x.i = at + 1;
        x.exp('(')?;
        let mut params = vec![];
        if !x.eat(')') {
            loop {
                if x.isp('.') { x.i += 3; x.exp(')')?; break; }
                let t = self.m.ty(&mut x)?;
                self.attrs(&mut x);
                match x.nx()? { Tk::Loc(n) => { let r = self.reg(&n); params.push((r, t)); } t => return Err(format!("param {:?}", t)) }
                if x.eat(')') { break; }
                x.exp(',')?;
            }
        }
        // body
        let mut blocks: HashMap<u32, Block> = HashMap::default();
        let mut cur: Option<u32> = None;
        let mut cb = Block { phis: vec![], code: vec![] };
        let mut i = 1;
        let mut entry: Option<u32> = None;
        while i < lines.len() {
            let l = &lines[i];
            i += 1;
            if l.is_empty() { continue; }
            if l.trim_start().starts_with("#dbg") || l.starts_with(';') { continue; }
            if !l.starts_with(' ') {
                // label
                let lab = if l.starts_with('"') { l[1..l[1..].find('"').unwrap() + 1].to_string() } else { l[..l.find(':').ok_or(format!("label? {}", l))?].to_string() };
                if let Some(c) = cur { blocks.insert(c, std::mem::replace(&mut cb, Block { phis: vec![], code: vec![] })); }
                let id = self.lab(&lab);
                if entry.is_none() { entry = Some(id); }
                cur = Some(id);
                continue;
            }
            if cur.is_none() { let id = self.lab("\u{1}entry"); entry = Some(id); cur = Some(id); }
            let mut full = cutmeta(l).to_string();
            let tl = l.trim_start();
            let isw = tl.starts_with("switch ");
            if isw && !l.contains(']') { while i < lines.len() { let n = cutmeta(&lines[i]); full.push(' '); full.push_str(n); i += 1; if n.trim_start().starts_with(']') { break; } } }
            if (tl.starts_with("invoke ") || tl.contains(" = invoke ")) && i < lines.len() && lines[i].trim_start().starts_with("to label") { full.push(' '); full.push_str(cutmeta(&lines[i])); i += 1; }
            if tl.contains("landingpad ") { while i < lines.len() && lines[i].starts_with("          ") { i += 1; } }
            match self.inst(&full, &mut cb) { Ok(()) => {} Err(e) => return Err(format!("{}: {} in `{}`", name, e, &full[..full.len().min(300)])) }
        }
        if let Some(c) = cur { blocks.insert(c, cb); }
        // order: entry must be block 0
        let n = self.nblk as usize;
        let e = entry.unwrap();
        let mut v: Vec<Block> = (0..n).map(|k| blocks.remove(&(k as u32)).unwrap_or(Block { phis: vec![], code: vec![] })).collect();
        if e != 0 {
            // unnamed or late-numbered entry: swap ids 0 and e
            let f = |b: &mut u32| { if *b == 0 { *b = e } else if *b == e { *b = 0 } };
            v.swap(0, e as usize);
            for b in v.iter_mut() {
                for p in b.phis.iter_mut() { for (k, _) in p.inc.iter_mut() { f(k); } }
                for (_, ins) in b.code.iter_mut() {
                    match ins {
                        Inst::Br(a) => f(a),
                        Inst::CBr { t, f: g, .. } => { f(t); f(g); }
                        Inst::Switch { def, cases, .. } => { f(def); for c in cases.iter_mut() { f(&mut c.1); } }
                        Inst::Call { next: Some(a), .. } => f(a),
                        _ => {}
                    }
                }
            }
        }
        // a phi may name the unnamed entry block by number: map missing blocks to entry
        for k in 0..v.len() {
            if v[k].code.is_empty() && k != 0 {
                for b in v.iter_mut() { for p in b.phis.iter_mut() { for (q, _) in p.inc.iter_mut() { if *q == k as u32 { *q = 0; } } } }
            }
        }
        Ok(Func { name: name.to_string(), nregs: self.regs.len() as u32, params, blocks: v, ret })
    }

    fn inst(&mut self, l: &str, b: &mut Block) -> R<()> {
        let mut x = Lx::new(l);
        let mut dst = None;
        if let (Some(Tk::Loc(n)), Some(Tk::P('='))) = (x.t.get(0).cloned(), x.t.get(1)) { dst = Some(self.reg(&n)); x.i = 2; }
        let mut o = match x.nx()? { Tk::Id(s) => s, t => return Err(format!("{:?}", t)) };
        while o == "tail" || o == "musttail" || o == "notail" { o = match x.nx()? { Tk::Id(s) => s, t => return Err(format!("{:?}", t)) }; }
        let flags = |x: &mut Lx| while let Some(Tk::Id(s)) = x.pk() {
            match s.as_str() { "nuw" | "nsw" | "exact" | "disjoint" | "samesign" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inalloca" | "swifterror" => x.i += 1, _ => break }
        };
        let binops = ["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"];
        let fops = ["fadd", "fsub", "fmul", "fdiv", "frem"];
        let casts = ["trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr"];
        let ins = if let Some(k) = binops.iter().position(|&z| z == o) {
            flags(&mut x);
            let (ty, a) = self.tyop(&mut x)?;
            x.exp(',')?;
            let c = self.op(&mut x, &ty)?;
            Inst::Bin { op: k as u8, ty, a, b: c }
        } else if let Some(k) = fops.iter().position(|&z| z == o) {
            flags(&mut x);
            let (ty, a) = self.tyop(&mut x)?;
            x.exp(',')?;
            let c = self.op(&mut x, &ty)?;
            Inst::FBin { op: k as u8, ty, a, b: c }
        } else if let Some(k) = casts.iter().position(|&z| z == o) {
            flags(&mut x);
            let (from, a) = self.tyop(&mut x)?;
            if !x.eatid("to") { return Err("to".into()); }
            let to = self.m.ty(&mut x)?;
            Inst::Cast { op: k as u8, from, to, a }
        } else {
            match o.as_str() {
                "fneg" => { flags(&mut x); let (ty, a) = self.tyop(&mut x)?; Inst::FNeg { ty, a } }
                "icmp" => {
                    flags(&mut x);
                    let p = match x.nx()? { Tk::Id(s) => s, _ => return Err("pred".into()) };
                    let p = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"].iter().position(|&z| z == p).ok_or("pred")? as u8;
                    let (ty, a) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let c = self.op(&mut x, &ty)?;
                    Inst::Icmp { p, ty, a, b: c }
                }
                "fcmp" => {
                    flags(&mut x);
                    let p = match x.nx()? { Tk::Id(s) => s, _ => return Err("pred".into()) };
                    let p = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"].iter().position(|&z| z == p).ok_or("fpred")? as u8;
                    let (ty, a) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let c = self.op(&mut x, &ty)?;
                    Inst::Fcmp { p, ty, a, b: c }
                }
                "getelementptr" => {
                    flags(&mut x);
                    if x.eatid("inrange") { x.skip_parens(); }
                    let t = self.m.ty(&mut x)?;
                    x.exp(',')?;
                    let (pt, base) = self.tyop(&mut x)?;
                    if pt != Ty::Ptr { return Err("vector gep".into()); }
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = t.clone();
                    let mut first = true;
                    while x.eat(',') {
                        let (it, i) = self.tyop(&mut x)?;
                        let sc = if first { t.alloc() } else { match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => e.alloc(), _ => 0 } };
                        let kc = match &i { Op::K(_, k, _) => match &**k { K::Int(v) => Some(sxt(*v, it.bits())), K::Zero => Some(0), _ => None }, _ => None };
                        if !first && sc == 0 && matches!(cur, Ty::St(..)) {
                            let k = kc.ok_or("struct gep")?;
                            let (o2, nt) = { let (o2, nt) = cur.offset(k as u64); (o2, nt.clone()) };
                            off += o2 as i64;
                            cur = nt;
                        } else {
                            match kc { Some(k) => off += k * sc as i64, None => idx.push((i, it.bits(), sc)) }
                            if !first { cur = match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), c => c.clone() }; }
                        }
                        first = false;
                    }
                    Inst::Gep { base, off, idx }
                }
                "load" => {
                    let at = matches!(x.pk(), Some(Tk::Id(s)) if s == "atomic");
                    flags(&mut x);
                    let ty = self.m.ty(&mut x)?;
                    x.exp(',')?;
                    let (_, p) = self.tyop(&mut x)?;
                    let al = self.align(&mut x)?;
                    Inst::Load { ty, p, al, at }
                }
                "store" => {
                    let at = matches!(x.pk(), Some(Tk::Id(s)) if s == "atomic");
                    flags(&mut x);
                    let (ty, v) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (_, p) = self.tyop(&mut x)?;
                    let al = self.align(&mut x)?;
                    Inst::Store { ty, v, p, al, at }
                }
                "alloca" => {
                    flags(&mut x);
                    let ty = self.m.ty(&mut x)?;
                    let mut al = ty.align();
                    let mut n = None;
                    while x.eat(',') {
                        if x.eatid("align") { al = x.num()? as u64; } else { let (t, o2) = self.tyop(&mut x)?; n = Some((o2, t.bits())); }
                    }
                    Inst::Alloca { size: ty.alloc(), al, n }
                }
                "select" => {
                    flags(&mut x);
                    let (cty, c) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (ty, a) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (_, d) = self.tyop(&mut x)?;
                    Inst::Select { cty, ty, c, a, b: d }
                }
                "phi" => {
                    flags(&mut x);
                    let ty = self.m.ty(&mut x)?;
                    let mut inc = vec![];
                    loop {
                        x.exp('[')?;
                        let v = self.op(&mut x, &ty)?;
                        x.exp(',')?;
                        let n = match x.nx()? { Tk::Loc(n) => n, t => return Err(format!("{:?}", t)) };
                        let bb = self.lab(&n);
                        x.exp(']')?;
                        inc.push((bb, v));
                        if !x.eat(',') { break; }
                    }
                    b.phis.push(Phi { dst: dst.unwrap(), inc });
                    return Ok(());
                }
                "br" => {
                    if x.eatid("label") {
                        let n = match x.nx()? { Tk::Loc(n) => n, t => return Err(format!("{:?}", t)) };
                        Inst::Br(self.lab(&n))
                    } else {
                        let (_, c) = self.tyop(&mut x)?;
                        x.exp(',')?;
                        x.eatid("label");
                        let n1 = match x.nx()? { Tk::Loc(n) => n, t => return Err(format!("{:?}", t)) };
                        x.exp(',')?;
                        x.eatid("label");
                        let n2 = match x.nx()? { Tk::Loc(n) => n, t => return Err(format!("{:?}", t)) };
                        Inst::CBr { c, t: self.lab(&n1), f: self.lab(&n2) }
                    }
                }
                "switch" => {
                    let (t, v) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    x.eatid("label");
                    let n = match x.nx()? { Tk::Loc(n) => n, t => return Err(format!("{:?}", t)) };
                    let def = self.lab(&n);
                    x.exp('[')?;
                    let mut cases = vec![];
                    while !x.eat(']') {
                        let ct = self.m.ty(&mut x)?;
                        let k = match self.m.konst(&mut x, &ct)? { K::Int(v) => v, K::Zero => 0, k => return Err(format!("case {:?}", k)) };
                        x.exp(',')?;
                        x.eatid("label");
                        let n = match x.nx()? { Tk::Loc(n) => n, t => return Err(format!("{:?}", t)) };
                        cases.push((k, self.lab(&n)));
                    }
                    Inst::Switch { w: t.bits(), v, def, cases }
                }
                "ret" => { let t = self.m.ty(&mut x)?; if t == Ty::Void { Inst::Ret(None) } else { let o2 = self.op(&mut x, &t)?; Inst::Ret(Some((t, o2))) } }
                "unreachable" | "resume" | "cleanupret" | "catchret" => Inst::Unreachable,
                "landingpad" | "fence" => Inst::Nop,
                "call" | "invoke" => {
                    // skip cc / ret attrs until a type parses followed by callee
                    flags(&mut x);
                    loop {
                        match x.pk() {
                            Some(Tk::Id(s)) if matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "half" | "metadata" | "token") || (s.starts_with('i') && s[1..].parse::<u16>().is_ok()) => break,
                            Some(Tk::Id(s)) => { let al = s == "align"; x.i += 1; if x.isp('(') { x.skip_parens(); } else if al { x.i += 1; } }
                            Some(Tk::Num(_)) => { x.i += 1; }
                            _ => break,
                        }
                    }
                    let ret = self.m.ty(&mut x)?;
                    let ret = if x.isp('(') { x.skip_parens(); ret } else { ret };
                    let callee = if x.eatid("asm") {
                        let mut s = String::new();
                        while !x.isp('(') { if let Tk::Str(b) = x.nx()? { if s.is_empty() { s = String::from_utf8_lossy(&b).into(); if s.is_empty() { s = " ".into(); } } } }
                        Callee::Asm(s)
                    } else {
                        match x.nx()? {
                            Tk::Glob(n) => Callee::Fn(n),
                            Tk::Loc(n) => Callee::Op(Op::R(self.reg(&n))),
                            Tk::Id(s) if s == "inttoptr" || s == "getelementptr" => { x.i -= 1; let o2 = self.op(&mut x, &Ty::Ptr)?; Callee::Op(o2) }
                            t => return Err(format!("callee {:?}", t)),
                        }
                    };
                    x.exp('(')?;
                    let mut args = vec![];
                    if !x.eat(')') {
                        loop {
                            let t = self.m.ty(&mut x)?;
                            if t == Ty::Other {
                                // metadata argument
                                let mut d = 0;
                                while let Some(t) = x.pk() { match t { Tk::P('(') | Tk::P('{') => d += 1, Tk::P(')') | Tk::P('}') if d > 0 => d -= 1, Tk::P(',') | Tk::P(')') if d == 0 => break, _ => {} } x.i += 1; }
                                args.push((Ty::Other, Op::K(Ty::I(1), Rc::new(K::Undef), 0)));
                            } else {
                                self.attrs(&mut x);
                                let o2 = self.op(&mut x, &t)?;
                                args.push((t, o2));
                            }
                            if x.eat(')') { break; }
                            x.exp(',')?;
                        }
                    }
                    let mut next = None;
                    if o == "invoke" {
                        while !x.isid("to") { x.i += 1; if x.i >= x.t.len() { return Err("invoke".into()); } }
                        x.i += 1;
                        x.eatid("label");
                        let n = match x.nx()? { Tk::Loc(n) => n, t => return Err(format!("{:?}", t)) };
                        next = Some(self.lab(&n));
                        x.eatid("unwind");
                        x.eatid("label");
                        if let Ok(Tk::Loc(n)) = x.nx() { self.lab(&n); }
                    }
                    Inst::Call { callee, ret, args, next }
                }
                "extractvalue" => {
                    let (_, a) = self.tyop(&mut x)?;
                    let mut path = vec![];
                    while x.eat(',') { path.push(x.num()? as u32); }
                    Inst::Extract { a, path }
                }
                "insertvalue" => {
                    let (ty, a) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (vty, v) = self.tyop(&mut x)?;
                    let mut path = vec![];
                    while x.eat(',') { path.push(x.num()? as u32); }
                    Inst::Insert { ty, a, vty, v, path }
                }
                "extractelement" => {
                    let (t, a) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (_, i) = self.tyop(&mut x)?;
                    Inst::ExtElt { n: vecn(&t), a, i }
                }
                "insertelement" => {
                    let (t, a) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (_, v) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (_, i) = self.tyop(&mut x)?;
                    Inst::InsElt { n: vecn(&t), a, v, i }
                }
                "shufflevector" => {
                    let (t, a) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (_, c) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let mt = self.m.ty(&mut x)?;
                    let mk = self.m.konst(&mut x, &mt)?;
                    let n = vecn(&mt);
                    let m = match mk {
                        K::Zero => vec![0; n as usize],
                        K::Undef => vec![-1; n as usize],
                        K::Splat(_, k) => vec![match *k { K::Int(v) => v as i32, _ => 0 }; n as usize],
                        K::Agg(v) => v.iter().map(|(_, k)| match k { K::Int(v) => *v as i32, K::Zero => 0, _ => -1 }).collect(),
                        k => return Err(format!("mask {:?}", k)),
                    };
                    Inst::Shuf { n: vecn(&t), a, b: c, m }
                }
                "atomicrmw" => {
                    flags(&mut x);
                    let op = match x.nx()? { Tk::Id(s) => s, _ => return Err("rmw".into()) };
                    let (_, p) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (ty, v) = self.tyop(&mut x)?;
                    Inst::Rmw { op, ty, p, v }
                }
                "cmpxchg" => {
                    flags(&mut x);
                    let (_, p) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (ty, e) = self.tyop(&mut x)?;
                    x.exp(',')?;
                    let (_, n) = self.tyop(&mut x)?;
                    Inst::CmpX { ty, p, e, n }
                }
                "freeze" => { let (ty, a) = self.tyop(&mut x)?; Inst::Freeze { ty, a } }
                s => return Err(format!("opcode {}", s)),
            }
        };
        b.code.push((dst, ins));
        Ok(())
    }
    fn align(&mut self, x: &mut Lx) -> R<u32> {
        while let Ok(t) = x.nx() { if t == Tk::Id("align".into()) { return Ok(x.num()? as u32); } }
        Ok(1)
    }
}
fn vecn(t: &Ty) -> u32 { if let Ty::Vec(n, _) = t { *n } else { 0 } }
