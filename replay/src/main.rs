//! Runs a harness natively on concrete values: confirms solver models on the real code.
//!
//! vreplay ENTRY [--param K=V]... [--values "f0x3f800000 u3 ..."] [--search N] [--seed S]
//!         [--time S] [--list]
//! Values are consumed in the order the harness draws them; missing ones are random
//! within their range. With --search, the given values are perturbed N times; every
//! failure reported is a concrete run of the real code.
//! exit 0: no failure, 1: failure ("FAIL ..." line with the values), 3: input rejected
#![allow(clippy::all)]
use std::cell::RefCell;
use std::panic;
#[path = "../../harness/src/vx.rs"] pub mod vx;
include!("mods.rs");
include!("../../harness/src/entries.rs");

#[derive(Copy, Clone, Debug, PartialEq)]
enum D { F { lo: f32, hi: f32 }, B32, U { lo: u64, hi: u64 } }
#[derive(Default)]
struct Ctx { params: Vec<u64>, given: Vec<u64>, pos: usize, draws: Vec<(D, u64)>, fail: Option<String>, covers: Vec<u32>, rng: u64, na: u64 }
thread_local! { static C: RefCell<Ctx> = RefCell::new(Ctx::default()); }
struct Invalid;
struct Stop;

fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn unit(r: &mut u64) -> f64 { (mix(r) >> 11) as f64 / (1u64 << 53) as f64 }
fn rnd(d: D, r: &mut u64) -> u64 {
    match d {
        D::F { lo, hi } => {
            let (mut a, mut b) = (lo as f64, hi as f64);
            match mix(r) % 4 { 0 => { a = a.max(-10.0); b = b.min(10.0); if a > b { a = lo as f64; b = hi as f64; } } 1 => { a = a.max(-100.0); b = b.min(100.0); if a > b { a = lo as f64; b = hi as f64; } } _ => {} }
            let mut x = a + (b - a) * unit(r);
            if mix(r) % 3 == 0 { let y = x.round(); if y >= a && y <= b { x = y; } }
            let x = (x as f32).max(lo).min(hi);
            x.to_bits() as u64
        }
        D::B32 => (mix(r) as u32) as u64,
        D::U { lo, hi } => if hi - lo == u64::MAX { mix(r) } else { lo + mix(r) % (hi - lo + 1) },
    }
}
fn fits(d: D, v: u64) -> bool {
    match d { D::F { lo, hi } => { let f = f32::from_bits(v as u32); f >= lo && f <= hi } D::B32 => true, D::U { lo, hi } => v >= lo && v <= hi }
}
fn draw(d: D) -> u64 {
    C.with(|c| {
        let mut c = c.borrow_mut();
        let p = c.pos;
        c.pos += 1;
        let mut v = match c.given.get(p) { Some(v) if fits(d, *v) => *v, _ => { let mut r = c.rng; let v = rnd(d, &mut r); c.rng = r; v } };
        if let D::B32 = d { v &= 0xffff_ffff; }
        c.draws.push((d, v));
        v
    })
}
#[no_mangle] pub extern "C-unwind" fn vx_f32(lo: f32, hi: f32) -> f32 { f32::from_bits(draw(D::F { lo, hi }) as u32) }
#[no_mangle] pub extern "C-unwind" fn vx_f32_bits() -> u32 { draw(D::B32) as u32 }
#[no_mangle] pub extern "C-unwind" fn vx_u32(lo: u32, hi: u32) -> u32 { draw(D::U { lo: lo as u64, hi: hi as u64 }) as u32 }
#[no_mangle] pub extern "C-unwind" fn vx_u64(lo: u64, hi: u64) -> u64 { draw(D::U { lo, hi }) }
#[no_mangle] pub extern "C-unwind" fn vx_bool() -> bool { draw(D::U { lo: 0, hi: 1 }) == 1 }
#[no_mangle] pub extern "C-unwind" fn vx_param(k: u32, d: u64) -> u64 { C.with(|c| c.borrow().params.get(k as usize).cloned().filter(|&x| x != u64::MAX).unwrap_or(d)) }
#[no_mangle] pub extern "C-unwind" fn vx_assume(c: bool) { C.with(|x| x.borrow_mut().na += 1); if !c { panic::panic_any(Invalid); } }
#[no_mangle] pub extern "C-unwind" fn vx_check(c: bool, id: u32) {
    if !c { C.with(|x| x.borrow_mut().fail = Some(format!("check {}", id))); panic::panic_any(Stop); }
}
#[no_mangle] pub extern "C-unwind" fn vx_cover(id: u32) { C.with(|x| x.borrow_mut().covers.push(id)); }
#[no_mangle] pub extern "C-unwind" fn vx_conc(v: u64) -> u64 { v }
// threads are run when they are started
thread_local! { static THREADS: std::cell::Cell<u64> = std::cell::Cell::new(1); }
#[no_mangle] pub extern "C-unwind" fn vx_thread_spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 { let id = THREADS.with(|t| { let x = t.get(); t.set(x + 1); x }); f(d); id }
#[no_mangle] pub extern "C-unwind" fn vx_thread_count() -> u64 { THREADS.with(|t| t.get()) }
#[no_mangle] pub extern "C-unwind" fn vx_thread_join(_: u64) {}
#[no_mangle] pub extern "C-unwind" fn vx_thread_join_from(_: u64) {}
#[no_mangle] pub extern "C-unwind" fn vx_thread_yield() {}
#[no_mangle] pub extern "C-unwind" fn vx_par_begin() {}
#[no_mangle] pub extern "C-unwind" fn vx_par_item() {}
#[no_mangle] pub extern "C-unwind" fn vx_par_leave() {}
#[no_mangle] pub extern "C-unwind" fn vx_par_end() {}
#[no_mangle] pub extern "C-unwind" fn vx_allow_panic(_: bool) {}

#[derive(PartialEq)]
enum Out { Ok, Rejected, Fail(String) }
fn run(f: fn(), params: &[u64], given: &[u64], rng: u64) -> (Out, Vec<(D, u64)>, Vec<u32>, u64) {
    C.with(|c| *c.borrow_mut() = Ctx { params: params.to_vec(), given: given.to_vec(), rng, ..Default::default() });
    let r = panic::catch_unwind(f);
    C.with(|c| {
        let c = c.borrow();
        let o = match r {
            Ok(()) => Out::Ok,
            Err(e) => if e.is::<Invalid>() { Out::Rejected } else if e.is::<Stop>() { Out::Fail(c.fail.clone().unwrap_or_default()) } else {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Out::Fail(format!("panic {}", m.replace('\n', " ")))
            },
        };
        (o, c.draws.clone(), c.covers.clone(), c.na)
    })
}
fn show(v: &[(D, u64)]) -> String {
    v.iter().map(|(d, v)| match d { D::U { .. } => format!("u{}", v), _ => format!("f{:#010x}={:?}", v, f32::from_bits(*v as u32)) }).collect::<Vec<_>>().join(" ")
}
fn perturb(v: &[(D, u64)], r: &mut u64) -> Vec<u64> {
    let n = v.len().max(1);
    let rate = match mix(r) % 3 { 0 => 1.5 / n as f64, 1 => 4.0 / n as f64, _ => 0.3 };
    v.iter().enumerate().map(|(_, &(d, x))| {
        if unit(r) >= rate { return x; }
        match d {
            D::U { .. } => rnd(d, r),
            D::B32 => if mix(r) % 2 == 0 { x ^ (1 << (mix(r) % 32)) } else { rnd(d, r) },
            D::F { lo, hi } => {
                let f = f32::from_bits(x as u32);
                let y = match mix(r) % 8 {
                    0 => f32::from_bits((x as u32).wrapping_add(1)),
                    1 => f32::from_bits((x as u32).wrapping_sub(1)),
                    2 => f * (1.0 + (unit(r) as f32 - 0.5) * 0.1),
                    3 => f + (unit(r) as f32 - 0.5) * 2.0,
                    4 => f.round(),
                    5 => { let w = v[(mix(r) % v.len() as u64) as usize]; if let D::F { .. } = w.0 { f32::from_bits(w.1 as u32) } else { f } }
                    6 => -f,
                    _ => f32::from_bits(rnd(d, r) as u32),
                };
                if y >= lo && y <= hi { y.to_bits() as u64 } else { x }
            }
        }
    }).collect()
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    if av.len() < 2 || av[1] == "--list" { for e in ENTRIES { println!("{}", e.0); } return; }
    let f = match ENTRIES.iter().find(|e| e.0 == av[1]) { Some(e) => e.1, None => { eprintln!("no entry {}", av[1]); std::process::exit(2) } };
    let (mut params, mut vals, mut search, mut seed, mut time, mut cover) = (vec![], vec![], 0u64, 1u64, 20.0f64, false);
    let mut i = 2;
    while i < av.len() {
        match av[i].as_str() {
            "--param" => { let (k, v) = av[i + 1].split_once('=').unwrap(); let k: usize = k.parse().unwrap(); while params.len() <= k { params.push(u64::MAX); } params[k] = v.parse().unwrap(); i += 1; }
            "--values" => {
                for w in av[i + 1].split_whitespace() {
                    let w = w.split('=').next().unwrap();
                    vals.push(if let Some(h) = w.strip_prefix("f0x") { u64::from_str_radix(h, 16).unwrap() } else { w.trim_start_matches('u').parse().unwrap() });
                }
                i += 1;
            }
            "--search" => { search = av[i + 1].parse().unwrap(); i += 1; }
            "--seed" => { seed = av[i + 1].parse().unwrap(); i += 1; }
            "--time" => { time = av[i + 1].parse().unwrap(); i += 1; }
            "--cover" => cover = true,
            x => { eprintln!("unknown option {}", x); std::process::exit(2); }
        }
        i += 1;
    }
    panic::set_hook(Box::new(|_| {}));
    // big stack: recursion depth is not what is checked here
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let t0 = std::time::Instant::now();
        let mut r = seed;
        let (mut o, mut d, mut cv, mut na) = run(f, &params, &vals, seed);
        let mut base = d.clone();
        let (mut n, mut ok) = (1u64, (o == Out::Ok) as u64);
        let mut k = 0;
        while !matches!(o, Out::Fail(_)) && k < search && t0.elapsed().as_secs_f64() < time && !(cover && o == Out::Ok && !cv.is_empty()) {
            k += 1;
            let g = perturb(&base, &mut r);
            let s = mix(&mut r);
            let x = run(f, &params, &g, s);
            // a run that gets further is the better starting point
            let better = x.0 == Out::Ok || (ok == 0 && x.3 >= na);
            if x.0 == Out::Ok { ok += 1; }
            if better { base = x.1.clone(); na = x.3; }
            n += 1;
            o = x.0; d = x.1; cv = x.2;
        }
        match o {
            Out::Fail(m) => { println!("FAIL {}", m); println!("VALUES {}", show(&d)); println!("RUNS {} ok {}", n, ok); 1 }
            Out::Ok => { println!("OK covers {:?}", cv); println!("VALUES {}", show(&d)); println!("RUNS {} ok {}", n, ok); 0 }
            Out::Rejected => { println!("REJECTED"); println!("RUNS {} ok {}", n, ok); if ok > 0 { 0 } else { 3 } }
        }
    }).unwrap();
    let c = h.join().unwrap_or(2);
    std::process::exit(c);
}
