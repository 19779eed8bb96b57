//! The C interface against the native one.
//! param 0: what (0 create_bvh, 1 create_spatial_Bvh, 2 queries, 3 refit, 4 errors,
//! 5 histories of handles)
//! param 1 primitives, 12 symbolic ones, 5 layout, 4 primitives per leaf
//! param 10 centre stride in floats, 11 builder (BvhType), 13 bit 0: no aabbs, bit 1: arrays
//! off 16-byte alignment, 14: query flavour / case, 15 vertex stride, 16 triangle gap
use crate::api;
use crate::build::{layout, scene_with};
use crate::common::*;
use crate::trav::ray_of_kind;
use crate::vx::*;
use glam::*;
use rtbvh::*;
use std::ffi::c_void;

/// the handles as the C header lays them out
#[derive(Clone, Copy)]
#[repr(C)]
struct H { id: u32, node_count: u32, nodes: *const BvhNode, index_count: u32, indices: *const u32 }
#[derive(Clone, Copy)]
#[repr(C)]
struct M { id: u32, node_count: u32, nodes: *const MbvhNode, index_count: u32, indices: *const u32 }
fn h(b: &api::RTBvh) -> H { unsafe { std::mem::transmute_copy(b) } }
fn raw(x: &H) -> api::RTBvh { unsafe { std::mem::transmute_copy(x) } }
fn mh(b: &api::RTMbvh) -> M { unsafe { std::mem::transmute_copy(b) } }
fn mraw(x: &M) -> api::RTMbvh { unsafe { std::mem::transmute_copy(x) } }
fn code(r: api::ResultCode) -> u32 { r as u32 }

/// an array of floats with rows of `stride` floats, filled between the rows, starting `off` floats in
struct Rows { v: Vec<f32>, off: usize }
impl Rows {
    fn new(rows: &[Vec<f32>], stride: usize, off: usize) -> Rows {
        let mut v = vec![-77.5f32; off + rows.len() * stride + 4];
        for (i, r) in rows.iter().enumerate() { for (j, x) in r.iter().enumerate() { v[off + i * stride + j] = *x; } }
        Rows { v, off }
    }
    fn ptr(&self) -> *const f32 { unsafe { self.v.as_ptr().add(self.off) } }
}
fn off() -> usize { if param(13, 0) & 2 != 0 { 1 } else { 0 } }
fn aabb_rows(b: &[Aabb]) -> Rows {
    let rows: Vec<Vec<f32>> = b.iter().map(|b| vec![b.min.x, b.min.y, b.min.z, 0.0, b.max.x, b.max.y, b.max.z, 0.0]).collect();
    Rows::new(&rows, 8, off())
}
fn kind(k: u64) -> api::BvhType { if k == 0 { api::BvhType::LocallyOrderedClustered } else { api::BvhType::BinnedSAH } }

unsafe fn create(prims: &[P], boxes: &[Aabb], null: bool, stride: usize, leaf: u64, which: u64, out: &mut api::RTBvh) -> u32 {
    let rows: Vec<Vec<f32>> = prims.iter().map(|p| vec![p.c.x, p.c.y, p.c.z]).collect();
    let c = Rows::new(&rows, stride, off());
    let a = aabb_rows(boxes);
    code(api::create_bvh(if null { std::ptr::null() } else { a.ptr() as *const api::RTAabb }, prims.len(), c.ptr(), stride * 4, leaf as usize, kind(which), out))
}
fn native(prims: &[P], boxes: &[Aabb], null: bool, leaf: u64, which: u64) -> Option<Bvh> {
    // without boxes the primitives are their centres
    let pts: Vec<P> = prims.iter().map(|p| P { bb: bx(p.c, p.c), c: p.c }).collect();
    let b = Builder { aabbs: if null { None } else { Some(boxes) }, primitives: if null { &pts[..] } else { prims }, primitives_per_leaf: ppl(leaf) };
    if which == 0 { b.construct_locally_ordered_clustered().ok() } else { b.construct_binned_sah().ok() }
}
fn same(x: &H, b: &Bvh, id: u32) {
    check(x.node_count as usize == b.nodes().len(), id);
    check(x.index_count as usize == b.indices().len(), id);
    let (nodes, idx) = unsafe { (std::slice::from_raw_parts(x.nodes, x.node_count as usize), std::slice::from_raw_parts(x.indices, x.index_count as usize)) };
    for (p, q) in nodes.iter().zip(b.nodes()) { check(same_box(&p.bounds, &q.bounds) & (p.bounds.extra1 == q.bounds.extra1) & (p.bounds.extra2 == q.bounds.extra2), id + 1); }
    for (p, q) in idx.iter().zip(b.indices()) { check(p == q, id + 2); }
}

/// a triangle with a centre of its own
#[derive(Clone, Copy, Debug)]
struct At { t: Tri, c: Vec3 }
impl Primitive for At { fn center(&self) -> Vec3 { self.c } fn aabb(&self) -> Aabb { self.t.bb() } }
impl SpatialTriangle for At { fn vertex0(&self) -> Vec3 { self.t.v[0] } fn vertex1(&self) -> Vec3 { self.t.v[1] } fn vertex2(&self) -> Vec3 { self.t.v[2] } }

/// what a query callback sees and does
struct Seen { order: [u32; 32], n: usize, stop: usize, limit: [f32; 32], lane: usize }
impl Seen { fn new(stop: usize) -> Seen { let mut limit = [1e30; 32]; for i in 0..32 { limit[i] = 40.0 + 7.0 * ((i * 5) % 9) as f32; } Seen { order: [u32::MAX; 32], n: 0, stop, limit, lane: 0 } } }
fn visit(s: &mut Seen, id: u32, t: &mut f32) -> bool {
    if s.n < 32 { s.order[s.n] = id; }
    s.n += 1;
    let l = s.limit[conc(id as usize) % 32];
    if l < *t { *t = l; }
    s.n >= s.stop
}
extern "C" fn callback(id: u32, t: *mut f32, u: *mut c_void) -> bool { unsafe { let s = &mut *(u as *mut Seen); let t = &mut *t.add(s.lane); visit(s, id, t) } }

fn queries() {
    let n = param(1, 4) as usize;
    let prims = scene_with(n, 0);
    let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let mut r = api::RTBvh::default();
    check(unsafe { create(&prims, &bbs, false, 3, param(4, 0), param(11, 1), &mut r) } == 0, 1);
    let bvh = match native(&prims, &bbs, false, param(4, 0), param(11, 1)) { Some(b) => b, None => { check(false, 2); return; } };
    let fl = param(14, 0);
    let mut m = api::RTMbvh::default();
    let q = Mbvh::construct(&bvh);
    if fl % 2 == 1 {
        check(code(unsafe { api::create_mbvh(r, &mut m) }) == 0, 3);
        let x = mh(&m);
        check(x.node_count as usize == q.quad_nodes().len() && x.index_count as usize == bvh.indices().len(), 4);
        let nodes = unsafe { std::slice::from_raw_parts(x.nodes, x.node_count as usize) };
        for (a, b) in nodes.iter().zip(q.quad_nodes()) { for s in 0..4 { check(a.children[s] == b.children[s] && a.counts[s] == b.counts[s], 5); } }
    }
    let stop = if param(17, 0) == 0 { 1000 } else { param(17, 0) as usize };
    let (o, d) = ray_of_kind(param(6, 1));
    let t0 = f32_in(0.5, 1000.0);
    let (mut a, mut b) = (Seen::new(stop), Seen::new(stop));
    let ua = &mut a as *mut Seen as *mut c_void;
    let fo = Rows::new(&[vec![o.x, o.y, o.z]], 3, off());
    let fd = Rows::new(&[vec![d.x, d.y, d.z]], 3, off());
    let (ft, nt);
    if fl < 2 {
        let mut t = t0;
        let rc = unsafe { if fl == 0 { api::intersect(r, fo.ptr(), fd.ptr(), &mut t, ua, callback) } else { api::intersect_mbvh(m, fo.ptr(), fd.ptr(), &mut t, ua, callback) } };
        check(code(rc) == 0, 6);
        ft = t;
        let mut ray = Ray::new(o, d);
        ray.t = t0;
        if fl == 0 { for (i, r) in bvh.traverse_iter_indices(&mut ray) { if visit(&mut b, i, &mut r.t) { break; } } }
        else { for (i, r) in q.traverse_iter_indices(&mut ray) { if visit(&mut b, i, &mut r.t) { break; } } }
        nt = ray.t;
    } else {
        let lane = param(18, 0) as usize;
        a.lane = lane;
        let (mut ox, mut oy, mut oz, mut dx, mut dy, mut dz, mut t) = ([9000.0f32, 9100.0, 9200.0, 9300.0], [1.0f32, 2.0, 3.0, 4.0], [5.0f32; 4], [0.0f32, 0.25, 0.5, 0.0], [0.0f32; 4], [1.0f32, 2.0, 3.0, 4.0], [11.0f32, 12.0, 13.0, 14.0]);
        ox[lane] = o.x; oy[lane] = o.y; oz[lane] = o.z; dx[lane] = d.x; dy[lane] = d.y; dz[lane] = d.z; t[lane] = t0;
        let row = |v: &[f32; 4]| Rows::new(&[v.to_vec()], 4, off());
        let (rx, ry, rz, ex, ey, ez) = (row(&ox), row(&oy), row(&oz), row(&dx), row(&dy), row(&dz));
        let mut rt = row(&t);
        let tp = unsafe { rt.v.as_mut_ptr().add(rt.off) };
        let rc = unsafe { if fl == 2 { api::intersect_packet(r, rx.ptr(), ry.ptr(), rz.ptr(), ex.ptr(), ey.ptr(), ez.ptr(), tp, ua, callback) } else { api::intersect_mbvh_packet(m, rx.ptr(), ry.ptr(), rz.ptr(), ex.ptr(), ey.ptr(), ez.ptr(), tp, ua, callback) } };
        check(code(rc) == 0, 6);
        ft = rt.v[rt.off + lane];
        for l in 0..4 { if l != lane { check(rt.v[rt.off + l] == t[l], 12); } }
        let mut os = [Vec4::ZERO; 4];
        let mut ds = [Vec4::ZERO; 4];
        for l in 0..4 { os[l] = vec4(ox[l], oy[l], oz[l], 0.0); ds[l] = vec4(dx[l], dy[l], dz[l], 0.0); }
        let mut pk = RayPacket4::new(os, ds);
        for l in 0..4 { pk.t[l] = t[l]; }
        if fl == 2 { for (i, r) in bvh.traverse_iter_indices_packet(&mut pk) { if visit(&mut b, i, &mut r.t[lane]) { break; } } }
        else { for (i, r) in q.traverse_iter_indices_packet(&mut pk) { if visit(&mut b, i, &mut r.t[lane]) { break; } } }
        nt = pk.t[lane];
    }
    check(a.n == b.n, 7);
    for k in 0..32 { check(a.order[k] == b.order[k], 8); }
    check(ft == nt, 9);
    if a.n > 0 { cover(2); }
    cover(1);
    // a direction that is no number is refused and nothing is called
    let nan = Rows::new(&[vec![0.0, f32::NAN, 1.0]], 3, off());
    let mut t = t0;
    let n0 = a.n;
    if fl == 0 { check(code(unsafe { api::intersect(r, fo.ptr(), nan.ptr(), &mut t, ua, callback) }) == 4, 10); }
    if fl == 1 { check(code(unsafe { api::intersect_mbvh(m, nan.ptr(), fd.ptr(), &mut t, ua, callback) }) == 4, 10); }
    check((a.n == n0) & (t == t0), 11);
}

fn errors() {
    let prims = scene_with(3, 0);
    let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let mut a = api::RTBvh::default();
    let mut r = api::RTBvh::default();
    let keep = h(&r);
    let is_kept = |r: &api::RTBvh| { let x = h(r); (x.id == keep.id) & (x.node_count == keep.node_count) & (x.index_count == keep.index_count) & (x.nodes == keep.nodes) & (x.indices == keep.indices) };
    let boxes = aabb_rows(&bbs);
    let pb = boxes.ptr() as *const api::RTAabb;
    let cs = Rows::new(&[vec![1.0, 2.0, 3.0], vec![4.0, 5.0, 6.0], vec![7.0, 8.0, 9.0]], 4, 0);
    unsafe {
        check(create(&prims, &bbs, false, 4, 0, param(11, 1), &mut a) == 0, 20);
        // no primitives, no centres
        check(code(api::create_bvh(std::ptr::null(), 0, cs.ptr(), 16, 1, kind(param(11, 1)), &mut r)) == 2, 21);
        check(is_kept(&r), 22);
        check(code(api::create_bvh(pb, 3, std::ptr::null(), 16, 1, kind(param(11, 1)), &mut r)) == 1, 23);
        check(is_kept(&r), 24);
        check(code(api::create_bvh(pb, 3, cs.ptr(), 16, 1, kind(param(11, 1)), std::ptr::null_mut())) == 1, 25);
        check(code(api::create_spatial_Bvh(std::ptr::null(), 0, cs.ptr(), 16, cs.ptr(), 16, 48, 1, &mut r)) == 2, 26);
        check(is_kept(&r), 27);
        // handles that were never given out
        let id = u32_in(1, u32::MAX);
        let mut x = h(&a);
        check(x.id == 0, 28);
        x.id = id;
        let mut m = api::RTMbvh::default();
        let mk = mh(&m);
        check(code(api::create_mbvh(raw(&x), &mut m)) == 1, 29);
        check((mh(&m).id == mk.id) & (mh(&m).nodes == mk.nodes), 30);
        check(code(api::refit(pb, raw(&x))) == 1, 31);
        for id in [1, u32::MAX] {
            x.id = id;
            api::free_bvh(raw(&x));
            let mut y = mk;
            y.id = id;
            api::free_mbvh(mraw(&y));
        }
        // default handles and missing arrays
        check(code(api::create_mbvh(api::RTBvh::default(), &mut m)) == 1, 32);
        check(code(api::create_mbvh(a, std::ptr::null_mut())) == 1, 33);
        check(code(api::refit(pb, api::RTBvh::default())) == 1, 34);
        check(code(api::refit(std::ptr::null(), a)) == 1, 35);
        check(code(api::create_spatial_Bvh(std::ptr::null(), 3, std::ptr::null(), 16, cs.ptr(), 4, 12, 1, &mut r)) == 1, 37);
        check(code(api::create_spatial_Bvh(std::ptr::null(), 3, cs.ptr(), 16, std::ptr::null(), 4, 12, 1, &mut r)) == 1, 38);
        check(code(api::create_spatial_Bvh(std::ptr::null(), 3, cs.ptr(), 16, cs.ptr(), 4, 12, 1, std::ptr::null_mut())) == 1, 39);
        check(is_kept(&r), 50);
        // queries of handles that were never filled
        let mut u = Seen::new(1000);
        let up = &mut u as *mut Seen as *mut c_void;
        let t0 = f32_in(0.5, 1000.0);
        let mut t = [t0; 4];
        let (o, d) = ([f32_in(-5.0, 5.0), 0.5, 0.5, 0.5], [1.0f32, 0.25, 0.5, 0.125]);
        check(code(api::intersect(api::RTBvh::default(), o.as_ptr(), d.as_ptr(), t.as_mut_ptr(), up, callback)) == 1, 51);
        check(code(api::intersect_mbvh(api::RTMbvh::default(), o.as_ptr(), d.as_ptr(), t.as_mut_ptr(), up, callback)) == 1, 52);
        check(code(api::intersect_packet(api::RTBvh::default(), o.as_ptr(), o.as_ptr(), o.as_ptr(), d.as_ptr(), d.as_ptr(), d.as_ptr(), t.as_mut_ptr(), up, callback)) == 1, 53);
        check(code(api::intersect_mbvh_packet(api::RTMbvh::default(), o.as_ptr(), o.as_ptr(), o.as_ptr(), d.as_ptr(), d.as_ptr(), d.as_ptr(), t.as_mut_ptr(), up, callback)) == 1, 54);
        check((u.n == 0) & (t[0] == t0) & (t[1] == t0) & (t[2] == t0) & (t[3] == t0), 55);
    }
    // none of that touched the hierarchy
    if let Some(b) = native(&prims, &bbs, false, 0, param(11, 1)) { same(&h(&a), &b, 36); }
    cover(1);
}

fn histories() {
    let n = param(1, 3) as usize;
    let (p0, p1) = (scene_with(n, 0), (0..n).map(|i| { let (a, b) = layout(param(5, 0) + 1, i); P { bb: bx(a, b), c: (a + b) * 0.5 } }).collect::<Vec<P>>());
    let (b0, b1): (Vec<Aabb>, Vec<Aabb>) = (p0.iter().map(|p| p.bb).collect(), p1.iter().map(|p| p.bb).collect());
    // step codes: 0 create scene 0, 1 create scene 1, 2 refit, 3 free, 4 make four-wide,
    // 5 free and refit through handles that have been freed
    let steps = param(14, 5) as usize;
    let mut live: Vec<(api::RTBvh, Bvh)> = vec![];
    let mut quads: Vec<(api::RTMbvh, Mbvh)> = vec![];
    let (mut freed, mut freed_quads): (Vec<api::RTBvh>, Vec<api::RTMbvh>) = (vec![], vec![]);
    let far = bx(vec3(-50.0, -60.0, -70.0), vec3(-40.0, -45.0, -50.0));
    for k in 0..steps {
        let what = if k == 0 { 0 } else { conc(u32_in(0, 5) as usize) };
        match what {
            0 | 1 => {
                let (p, b) = if what == 0 { (&p0, &b0) } else { (&p1, &b1) };
                let mut r = api::RTBvh::default();
                check(unsafe { create(p, b, false, 3 + k % 2, 0, 1, &mut r) } == 0, 40);
                if let Some(b) = native(p, b, false, 0, 1) { live.push((r, b)); }
            }
            2 => if let Some((r, b)) = live.last_mut() {
                let mut moved = b0.clone();
                moved[k % n] = far;
                let rows = aabb_rows(&moved);
                check(code(unsafe { api::refit(rows.ptr() as *const api::RTAabb, *r) }) == 0, 41);
                b.refit(&moved);
            },
            3 => if !live.is_empty() { let (r, _) = live.remove(live.len() / 2); api::free_bvh(r); freed.push(r); },
            5 => {
                // whatever these report, nothing that is alive changes
                let rows = aabb_rows(&vec![far; n]);
                for r in &freed { let _ = unsafe { api::refit(rows.ptr() as *const api::RTAabb, *r) }; api::free_bvh(*r); }
                for m in &freed_quads { api::free_mbvh(*m); }
            }
            _ => if let Some((r, b)) = live.first() {
                let mut m = api::RTMbvh::default();
                check(code(unsafe { api::create_mbvh(*r, &mut m) }) == 0, 42);
                quads.push((m, Mbvh::construct(b)));
                if quads.len() > 1 { let (m, _) = quads.remove(0); api::free_mbvh(m); freed_quads.push(m); }
            },
        }
    }
    for (i, (r, b)) in live.iter().enumerate() {
        same(&h(r), b, 43);
        for (q, _) in &live[..i] { check(h(q).id != h(r).id, 46); }
    }
    for (m, q) in &quads {
        let x = mh(m);
        check(x.node_count as usize == q.quad_nodes().len() && x.index_count as usize == q.indices().len(), 47);
        let nodes = unsafe { std::slice::from_raw_parts(x.nodes, x.node_count as usize) };
        for (a, b) in nodes.iter().zip(q.quad_nodes()) {
            for s in 0..4 { check(a.children[s] == b.children[s] && a.counts[s] == b.counts[s], 48); }
            for s in 0..4 { if b.children[s] >= 0 { check((a.min_points().0[s] == b.min_points().0[s]) & (a.max_points().2[s] == b.max_points().2[s]), 49); } }
        }
    }
    cover(1);
}

pub fn ffi() {
    let leaf = param(4, 0);
    let null = param(13, 0) & 1 == 1;
    match param(0, 0) {
        0 => {
            let prims = scene_with(param(1, 3) as usize, param(12, 0));
            let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let mut r = api::RTBvh::default();
            check(unsafe { create(&prims, &bbs, null, param(10, 3) as usize, leaf, param(11, 1), &mut r) } == 0, 1);
            match native(&prims, &bbs, null, leaf, param(11, 1)) { Some(b) => same(&h(&r), &b, 2), None => check(false, 5) }
            // the arrays may change afterwards
            cover(1);
        }
        1 => {
            let prims = scene_with(param(1, 3) as usize, param(12, 0));
            let n = prims.len();
            // param 19: 0 triangles one after the other, 1 a strip (vertices shared), 2 all
            // first vertices, then all second ones, then all third ones
            let (vs, ts, rows) = match param(19, 0) {
                0 => (param(15, 3) as usize, 3 * param(15, 3) as usize + param(16, 0) as usize, 0),
                1 => (param(15, 3) as usize, param(15, 3) as usize, n + 2),
                _ => (n * param(15, 3) as usize + param(16, 0) as usize, param(15, 3) as usize, 0),
            };
            let tris: Vec<At> = prims.iter().enumerate().map(|(i, p)| {
                let v = if rows == 0 { [p.vertex0(), p.vertex1(), p.vertex2()] } else {
                    let w = |j: usize| if j < n { prims[j].bb.max } else { vec3(3.0, j as f32, 1.5) };
                    [w(i), w(i + 1), w(i + 2)]
                };
                At { t: Tri { v }, c: p.c }
            }).collect();
            let bbs: Vec<Aabb> = tris.iter().map(|t| t.t.bb()).collect();
            let mut v = vec![-77.5f32; off() + (n - 1) * ts + 2 * vs + 3];
            for (i, t) in tris.iter().enumerate() { for k in 0..3 { for j in 0..3 { v[off() + i * ts + k * vs + j] = t.t.v[k][j]; } } }
            let cs: Vec<Vec<f32>> = prims.iter().map(|p| vec![p.c.x, p.c.y, p.c.z]).collect();
            let st = param(10, 3) as usize;
            let c = Rows::new(&cs, st, off());
            let a = aabb_rows(&bbs);
            let mut r = api::RTBvh::default();
            let rc = unsafe { api::create_spatial_Bvh(if null { std::ptr::null() } else { a.ptr() as *const api::RTAabb }, n, c.ptr(), st * 4, v.as_ptr().add(off()), vs * 4, ts * 4, leaf as u32, &mut r) };
            check(code(rc) == 0, 1);
            let b = Builder { aabbs: if null { None } else { Some(&bbs) }, primitives: &tris[..], primitives_per_leaf: ppl(leaf) }.construct_spatial_sah();
            match b { Ok(b) => same(&h(&r), &b, 2), Err(_) => check(false, 5) }
            cover(1);
        }
        2 => queries(),
        3 => {
            let n = param(1, 3) as usize;
            let prims = scene_with(n, 0);
            let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let mut r = api::RTBvh::default();
            check(unsafe { create(&prims, &bbs, null, 3, leaf, param(11, 1), &mut r) } == 0, 1);
            let mut b = match native(&prims, &bbs, null, leaf, param(11, 1)) { Some(b) => b, None => { check(false, 5); return; } };
            let s = param(12, 1) as usize;
            let moved: Vec<Aabb> = bbs.iter().enumerate().map(|(i, x)| if (i + n - 1) % n < s { any_box() } else { bx(x.min + vec3(1.0, -2.0, 3.0), x.max + vec3(1.0, -2.0, 5.0)) }).collect();
            b.refit(&moved);
            let rows = aabb_rows(&moved);
            check(code(unsafe { api::refit(rows.ptr() as *const api::RTAabb, r) }) == 0, 6);
            same(&h(&r), &b, 7);
            cover(1);
        }
        4 => errors(),
        _ => histories(),
    }
}
