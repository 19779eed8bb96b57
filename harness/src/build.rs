//! Builders: structure of the tree and conservative bounds.
//! param 0: builder (0 binned, 1 locally ordered clustering, 2 spatial)
//! param 1: number of primitives, param 2: number of symbolic ones (the rest concrete)
//! param 3: which axes are symbolic (bit mask), param 4: primitives_per_leaf (0 none)
//! param 5: scene layout of the concrete primitives, param 6: aabbs passed (1) or
//! computed by the builder (0)
//! param 7: 0 boxes with midpoint centres, 1 points, 2 centres anywhere inside the box,
//! 3 concrete boxes have centres off the middle
use crate::common::*;
use crate::vx::*;
use glam::*;
use rtbvh::*;

/// concrete coordinates of the background scenes
pub fn layout(kind: u64, i: usize) -> (Vec3, Vec3) {
    let f = i as f32;
    match kind {
        // a row along x
        0 => (vec3(3.0 * f, 0.0, 0.0), vec3(3.0 * f + 1.0, 1.0, 1.0)),
        // all identical
        1 => (vec3(1.0, 2.0, 3.0), vec3(4.0, 5.0, 6.0)),
        // scattered
        2 => { let a = vec3((i * 7 % 11) as f32, (i * 5 % 13) as f32, (i * 3 % 7) as f32); (a, a + vec3(1.0, 2.0, 0.5)) }
        // geometric progression: deep, unbalanced trees
        3 => { let a = (1u64 << (i.min(18))) as f32; (vec3(a, 0.0, 0.0), vec3(a * 1.5, 1.0, 1.0)) }
        // flat in y, along z
        4 => (vec3(0.0, 1.0, 2.0 * f), vec3(1.0, 1.0, 2.0 * f + 3.0)),
        // long diagonal overlapping boxes
        5 => (vec3(-f, -f, -f), vec3(f + 1.0, f + 2.0, f + 3.0)),
        // a row of small boxes with a large one at its end (7) or its start (9)
        7 | 9 => { let j = (i * 7) % 16 + i / 16 * 16; let f = 2.0 * j as f32; let w = if j == (if kind == 7 { 15 } else { 0 }) { 40.0 } else { 1.0 }; (vec3(f, -w, -w), vec3(f + 1.0, w, w)) }
        // one primitive comes off at every level: more levels than a builder may make
        8 => { let mut a = [0.0; 3]; let mut x = 1.0e18; for _ in 0..(i / 3).min(30) { x /= 17.0; } a[i % 3] = x; let a = Vec3::from(a); (a, a * 1.001) }
        // scattered by a hash: kind = 10 + style + 8 * seed
        k if k >= 10 => hashed((k - 10) % 8, (k - 10) / 8, i),
        // far from the origin
        _ => { let a = vec3(5.0e5 + 64.0 * f, -7.0e5, 3.0e5 + 16.0 * f); (a, a + vec3(32.0, 8.0, 8.0)) }
    }
}

/// param 20: scenes far from the origin, small against the distance: there, coordinates lie
/// only few steps of the number format apart. Bits 0..2: axes moved, the rest: how far
pub fn layout_at(kind: u64, i: usize) -> (Vec3, Vec3) {
    let (a, b) = layout(kind, i);
    let far = param(20, 0);
    if far == 0 { return (a, b); }
    let (s, d) = match far >> 3 { 0 => (0.001, 1.0e5), 1 => (0.01, 9.0e5), 2 => (0.1, 9.0e5), _ => (0.0001, 2.0e4) };
    let o = vec3(if far & 1 != 0 { d } else { 0.0 }, if far & 2 != 0 { d } else { 0.0 }, if far & 4 != 0 { -d } else { 0.0 });
    (a * s + o, b * s + o)
}

fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F) ^ c.wrapping_mul(0x1656_67B1_9E37_79F9);
    x ^= x >> 31; x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9); x ^= x >> 29; x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 32)
}
/// scattered scenes of different characters
fn hashed(style: u64, seed: u64, i: usize) -> (Vec3, Vec3) {
    let h = |k: u64, m: u64| (mix(seed + 17 * style, i as u64, k) % m) as f32;
    let g = |k: u64, m: u64| (mix(seed + 17 * style, 1000 + (i / 3) as u64, k) % m) as f32;
    match style {
        // small integers: many ties in centres and extents
        0 => { let a = vec3(h(0, 6), h(1, 6), h(2, 6)); (a, a + vec3(h(3, 3), h(4, 3), h(5, 3))) }
        // strongly overlapping boxes, long on an axis of their own
        1 => { let c = vec3(h(0, 5) * 0.25, h(1, 5) * 0.25, h(2, 5) * 0.25); let e = vec3(1.0 + h(3, 4) * 15.0, 1.0 + h(4, 4) * 15.0, 1.0 + h(5, 4) * 15.0); (c - e, c + e) }
        // groups of three identical boxes
        2 => { let a = vec3(g(0, 40), g(1, 40), g(2, 40)); (a, a + vec3(1.0 + g(3, 3), 1.0, 2.0)) }
        // flat boxes and points
        3 => { let a = vec3(h(0, 20) - 10.0, h(1, 20) - 10.0, h(2, 20) - 10.0); (a, a + vec3(h(3, 2) * 4.0, h(4, 2) * 4.0, h(5, 2) * 4.0)) }
        // sizes and distances over many orders of magnitude
        4 => { let s = (1u64 << h(3, 14) as u64) as f32; let a = vec3((h(0, 64) - 32.0) * s * 0.25, (h(1, 64) - 32.0) * s * 0.25, (h(2, 64) - 32.0) * s * 0.25); (a, a + vec3(s, s * 0.5, s * 0.25)) }
        // fractions, spread along z
        5 => { let a = vec3(h(0, 1000) * 0.01, h(1, 1000) * 0.01, h(2, 1000) * 0.1); (a, a + vec3(0.01 + h(3, 100) * 0.02, 0.01 + h(4, 100) * 0.02, 0.01 + h(5, 100) * 0.05)) }
        // a few huge boxes over many small ones
        6 => { let a = vec3(h(0, 100) - 50.0, h(1, 100) - 50.0, h(2, 100) - 50.0); let s = if h(3, 4) == 0.0 { 60.0 } else { 1.0 }; (a - vec3(s, s, s) * 0.5, a + vec3(s, s, s) * 0.5) }
        // centres on one line, extents growing across
        _ => { let f = i as f32; let a = vec3(f * 2.0, 0.0, 0.0); (a - vec3(1.0 + h(0, 3), 4.0 + h(1, 30), 5.0 + h(2, 30)), a + vec3(1.0 + h(0, 3), 4.0 + h(1, 30), 5.0 + h(2, 30))) }
    }
}

/// interval a symbolic coordinate ranges over: param 9: 0 +-10^6, 1 within the concrete
/// scene (so that the world bounds are the background's), 2 within +-1000
fn range(k: usize, kind: u64, n: usize) -> (f32, f32) {
    match param(9, 0) {
        1 => {
            let (mut lo, mut hi) = (1e30, -1e30);
            for i in 0..n { let (a, b) = layout_at(kind, i); lo = mn(lo, a[k]); hi = mx(hi, b[k]); }
            (lo, hi)
        }
        2 => (-1000.0, 1000.0),
        _ => (-LIM, LIM),
    }
}

pub fn scene(n: usize) -> Vec<P> { scene_with(n, param(2, n as u64)) }

/// `n` primitives of which `m` are symbolic. With `param(9) == 1` the background has `n`
/// concrete primitives and the symbolic ones come on top.
pub fn scene_with(n: usize, m: u64) -> Vec<P> {
    let m = m as usize;
    let axes = param(3, 7);
    let kind = param(5, 0);
    let cen = param(7, 0);
    // position of the symbolic primitives: spread over the array
    let pos = param(8, 0) as usize;
    let mut v = Vec::with_capacity(n);
    let sym = |i: usize| if param(9, 0) == 1 { i >= n - m } else { (i + n - pos) % n < m };
    let bg = if param(9, 0) == 1 { n - m } else { n };
    for i in 0..n {
        let (mut a, mut b) = layout_at(kind, i);
        if sym(i) {
            for k in 0..3 {
                if axes >> k & 1 == 1 {
                    let (l, h) = range(k, kind, bg);
                    let lo = f32_in(l, h);
                    let hi = if cen == 1 { lo } else { f32_in(l, h) };
                    assume(lo <= hi);
                    a[k] = lo;
                    b[k] = hi;
                }
            }
        }
        let c = if cen == 3 && !sym(i) {
            // off the middle
            let q = |k: u64| 0.125 * (mix(kind, i as u64, 77 + k) % 9) as f32;
            vec3(a.x + (b.x - a.x) * q(0), a.y + (b.y - a.y) * q(1), a.z + (b.z - a.z) * q(2))
        } else if cen == 2 {
            let mut c = vec3(0.0, 0.0, 0.0);
            for k in 0..3 { if axes >> k & 1 == 1 && sym(i) { let x = coord(); assume((a[k] <= x) & (x <= b[k])); c[k] = x; } else { c[k] = (a[k] + b[k]) * 0.5; } }
            c
        } else {
            vec3((a.x + b.x) * 0.5, (a.y + b.y) * 0.5, (a.z + b.z) * 0.5)
        };
        v.push(P { bb: bx(a, b), c });
    }
    v
}

pub fn build_with(which: u64, prims: &[P], bbs: Option<&[Aabb]>, leaf: u64) -> Option<Bvh> {
    let b = Builder { aabbs: bbs, primitives: prims, primitives_per_leaf: ppl(leaf) };
    spawn_threshold();
    match which {
        0 => b.construct_binned_sah(),
        1 => b.construct_locally_ordered_clustered(),
        _ => b.construct_spatial_sah(),
    }.ok()
}

pub fn make() -> (Vec<P>, Option<Bvh>) {
    let n = param(1, 3) as usize;
    let prims = scene(n);
    let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let bvh = build_with(param(0, 0), &prims, if param(6, 1) == 1 { Some(&bbs) } else { None }, param(4, 0));
    (prims, bvh)
}

/// C02/C03: a valid input builds a well-formed tree that holds every primitive once
pub fn structure() {
    let (prims, bvh) = make();
    let n = prims.len();
    let spatial = param(0, 0) == 2;
    let bvh = match bvh { Some(b) => b, None => { check(false, 1); return; } };
    let nodes = bvh.nodes();
    check(!nodes.is_empty(), 2);
    if !spatial {
        check(nodes.len() <= 2 * n - 1, 3);
        check(bvh.indices().len() == n, 4);
    }
    check(bvh.prim_count() == bvh.indices().len(), 5);
    let mut count = vec![0u32; n];
    let idx = bvh.indices();
    let mut covered = vec![0u32; idx.len()];
    let ok = walk(nodes, |first, cnt, _| {
        // an empty leaf is no leaf
        check(cnt > 0, 9);
        for k in first..first + cnt {
            if k >= idx.len() { return false; }
            covered[k] += 1;
            let id = conc(idx[k] as usize);
            if id >= n { return false; }
            count[id] += 1;
        }
        true
    });
    check(ok, 6);
    for i in 0..n { check(if spatial { count[i] >= 1 } else { count[i] == 1 }, 7); }
    // leaves do not share index slots
    for k in 0..idx.len() { check(covered[k] <= 1, 8); }
    cover(1);
    if nodes.len() > 1 { cover(2); }
}

/// C05: every node on the way to a primitive encloses the primitive's box
pub fn bounds() {
    let (prims, bvh) = make();
    let bvh = match bvh { Some(b) => b, None => { check(false, 1); return; } };
    let nodes = bvh.nodes();
    let idx = bvh.indices();
    let spatial = param(0, 0) == 2;
    let n = prims.len();
    // points of the triangles: the vertices exactly, others with a tolerance
    let pts = |p: &P| -> Vec<(Vec3, f32)> {
        let v = [p.vertex0(), p.vertex1(), p.vertex2()];
        let mut r: Vec<(Vec3, f32)> = v.iter().map(|x| (*x, 0.0)).collect();
        if param(10, 0) == 1 {
            let e = 0.01;
            for (a, b) in [(0, 1), (1, 2), (2, 0)] { for w in [0.25, 0.5, 0.75] { r.push((v[a] * (1.0 - w) + v[b] * w, e)); } }
            r.push(((v[0] + v[1] + v[2]) * (1.0 / 3.0), e));
        }
        r
    };
    let tri: Vec<Vec<(Vec3, f32)>> = if spatial { prims.iter().map(|p| pts(p)).collect() } else { vec![] };
    let mut held: Vec<Vec<bool>> = tri.iter().map(|t| vec![false; t.len()]).collect();
    let ok = walk(nodes, |first, cnt, path| {
        for k in first..first + cnt {
            if k >= idx.len() { return false; }
            let id = conc(idx[k] as usize);
            if id >= n { return false; }
            if !spatial { for &a in path { check(inside(&nodes[a].bounds, &prims[id].bb), 2); } }
            else {
                for (j, (p, e)) in tri[id].iter().enumerate() {
                    let mut all = true;
                    for &a in path {
                        let b = &nodes[a].bounds;
                        all &= (b.min.x - e <= p.x) & (p.x <= b.max.x + e) & (b.min.y - e <= p.y) & (p.y <= b.max.y + e) & (b.min.z - e <= p.z) & (p.z <= b.max.z + e);
                    }
                    held[id][j] |= all;
                }
            }
        }
        true
    });
    check(ok, 3);
    // spatial splits: each point of a triangle is below boxes that hold it
    for (i, h) in held.iter().enumerate() { for (j, x) in h.iter().enumerate() { check(*x, if j < 3 { 7 } else { 8 }); let _ = i; } }
    // parents enclose their children (all builders)
    for nd in nodes {
        if nd.bounds.extra1 < 0 && nd.bounds.extra2 > 0 {
            let f = conc(nd.bounds.extra2 as usize);
            if f + 1 < nodes.len() { cover(2); }
        }
    }
    // the root encloses everything
    for p in &prims { check(inside(&nodes[0].bounds, &p.bb), 5); }
    // Bounds trait agrees with the root
    check(same_box(&bvh.bounds(), &nodes[0].bounds), 6);
    cover(1);
}
