//! Traversal: every primitive whose box the ray properly crosses is yielded.
//! param 0: flavour (0 Bvh, 1 Bvh indices, 2 Mbvh, 3 Mbvh indices); +4: packet versions
//! param 1: topology, param 2: target leaf, param 3: primitives per leaf, param 4: which
//! boxes are symbolic (bit per node; default all), param 5: packet lane (0..3),
//! param 6: ray kind (0 any direction, 1.. axis patterns), param 10: case split
use crate::common::*;
use crate::vx::*;
use glam::*;
use rtbvh::*;

pub const R: f32 = 1000.0;

/// (count or -1, left_first): leaves get slots in order, `k` primitives each
/// k >= 100: leaf i holds 1 + i * (k - 100) % 3 primitives; k >= 200: up to twelve
pub fn topology(kind: u64, k: i32) -> Vec<(i32, i32)> {
    let size = |i: i32| if k < 100 { k } else if k < 200 { 1 + i * (k - 100) % 3 } else if k < 300 { [6, 1, 12, 5, 2, 9, 3, 4][((i + k - 200) % 8) as usize] } else { [2, 0, 0, 3, 0, 1][((i + k - 300) % 6) as usize] };
    let l = |i: i32| (size(i), (0..i).map(|j| size(j)).sum::<i32>());
    match kind {
        0 => vec![l(0)],
        1 => vec![(-1, 1), l(0), l(1)],
        // complete, four leaves
        2 => vec![(-1, 1), (-1, 3), (-1, 5), l(0), l(1), l(2), l(3)],
        // left chain
        3 => vec![(-1, 1), (-1, 3), l(0), (-1, 5), l(1), l(2), l(3)],
        // right chain
        4 => vec![(-1, 1), l(0), (-1, 3), l(1), (-1, 5), l(2), l(3)],
        // complete, eight leaves
        5 => {
            let mut v = vec![(-1, 1), (-1, 3), (-1, 5), (-1, 7), (-1, 9), (-1, 11), (-1, 13)];
            for i in 0..8 { v.push(l(i)); }
            v
        }
        // three leaves, left heavy
        6 => vec![(-1, 1), (-1, 3), l(0), l(1), l(2)],
        // zigzag, six leaves
        7 => vec![(-1, 1), l(0), (-1, 3), (-1, 5), l(1), l(2), (-1, 7), (-1, 9), l(3), l(4), l(5)],
        // zigzag with children allocated out of order
        8 => vec![(-1, 5), l(2), l(3), (-1, 7), l(0), (-1, 3), (-1, 1), l(1), l(4)],
        // a chain of n levels (n = kind - 100); from 10000 on with the leaf before the inner node
        _ => {
            let mirrored = kind >= 10000;
            let n = kind as i32 - if mirrored { 10000 } else { 100 };
            let mut v = vec![];
            let mut next = 1;
            let mut leaf = 0;
            v.push((-1, 1));
            for _ in 0..n {
                let (a, b) = (l(leaf), (-1, next + 2));
                if mirrored { v.push(a); v.push(b); } else { v.push(b); v.push(a); }
                next += 2;
                leaf += 1;
            }
            let m = v.len();
            v[if mirrored { m - 1 } else { m - 2 }] = l(leaf);
            v
        }
    }
}

pub fn parents(t: &[(i32, i32)]) -> Vec<usize> {
    let mut p = vec![0; t.len()];
    for (i, n) in t.iter().enumerate() { if n.0 < 0 { p[n.1 as usize] = i; p[n.1 as usize + 1] = i; } }
    p
}
pub fn leaves(t: &[(i32, i32)]) -> Vec<usize> { (0..t.len()).filter(|&i| t[i].0 >= 0).collect() }

pub fn c3(r: f32) -> Vec3 { let (x, y, z) = (f32_in(-r, r), f32_in(-r, r), f32_in(-r, r)); vec3(x, y, z) }

/// a direction: each component zero (either sign) or of magnitude 1e-3..1; every sign
/// pattern is explored separately
pub fn direction() -> Vec3 {
    let mut d = vec3(0.0, 0.0, 0.0);
    let pat = param(16, 0);
    // base 4 digits: 0 any, 1 exactly zero, 2 positive, 3 negative
    let mut p = pat;
    for k in 0..3 {
        let mut w = p % 4;
        p /= 4;
        if w == 0 { w = if split(any_bool()) { 1 } else if split(any_bool()) { 2 } else { 3 }; }
        d[k] = match w {
            1 => if split(any_bool()) { 0.0 } else { -0.0 },
            2 => f32_in(1e-3, 1.0),
            _ => f32_in(-1.0, -1e-3),
        };
        if w != 1 { let i = 1.0 / d[k]; assume(if w == 2 { (i >= 1.0) & (i <= 1001.0) } else { (i >= -1001.0) & (i <= -1.0) }); }
    }
    d
}

/// the harness's own slab computation: entry and exit parameter
pub fn slab(q: &Aabb, o: Vec3, d: Vec3) -> (f32, f32) {
    let mut near = [0.0f32; 3];
    let mut far = [0.0f32; 3];
    for k in 0..3 {
        let inv = 1.0 / d[k];
        let a = (q.min[k] - o[k]) * inv;
        let b = (q.max[k] - o[k]) * inv;
        let neg = split(d[k].is_sign_negative());
        near[k] = if neg { b } else { a };
        far[k] = if neg { a } else { b };
    }
    (mx(near[0], mx(near[1], near[2])), mn(far[0], mn(far[1], far[2])))
}
/// param 18: axis (from 1) along which the crossed box is flat, 0 none
pub fn flat() -> usize { (param(18, 0) as usize).wrapping_sub(1) }
/// a box strictly inside `b`, except along an axis on which `b` is flat
pub fn inner(b: &Aabb) -> Aabb {
    let mut q = bx(c3(R), c3(R));
    for k in 0..3 {
        if k == flat() { q.min[k] = b.min[k]; q.max[k] = b.max[k]; continue; }
        assume((b.min[k] < q.min[k]) & (q.min[k] - b.min[k] > 0.01));
        assume((q.max[k] < b.max[k]) & (b.max[k] - q.max[k] > 0.01));
        assume(q.min[k] <= q.max[k]);
    }
    q
}
/// the ray crosses `q` in front of its origin and before `t`
pub fn crosses(q: &Aabb, o: Vec3, d: Vec3, t: f32) -> bool {
    // no component is parallel and in the plane of a face
    let mut ok = true;
    for k in 0..3 { ok &= (d[k] != 0.0) | ((q.min[k] < o[k]) & (o[k] < q.max[k])); }
    let (n, f) = slab(q, o, d);
    ok & (n <= f) & (f > 0.01) & (n < t)
}

pub struct Tree { pub nodes: Vec<BvhNode>, pub indices: Vec<u32>, pub prims: Vec<P>, pub topo: Vec<(i32, i32)>, pub n: usize }

/// A tree of the given topology with symbolic boxes; `target`'s box lies inside all of
/// its ancestors' boxes, every other box is arbitrary.
pub fn tree(kind: u64, k: i32, target: usize) -> Tree {
    let topo = topology(kind, k);
    let par = parents(&topo);
    let lv = leaves(&topo);
    let t = lv[target % lv.len()];
    let mut anc = vec![false; topo.len()];
    let mut x = t;
    loop { anc[x] = true; if x == 0 { break; } x = par[x]; }
    let mask = param(4, !0u64 >> 1);
    let mut boxes = vec![bx(vec3(-R, -R, -R), vec3(R, R, R)); topo.len()];
    for i in 0..topo.len() {
        if mask >> i.min(62) & 1 == 0 { if i > 0 && !anc[i] { let f = i as f32; boxes[i] = bx(vec3(f, -f, 1.0), vec3(f + 3.0, f, 4.0)); } continue; }
        boxes[i] = bx(c3(R), c3(R));
    }
    if flat() < 3 { let k = flat(); boxes[t].max[k] = boxes[t].min[k]; }
    let mut x = t;
    while x != 0 { let (o, i) = (&boxes[par[x]], &boxes[x]); for k in 0..3 { assume(o.min[k] <= i.min[k]); assume(i.max[k] <= o.max[k]); } x = par[x]; }
    let mut nodes = vec![];
    for i in 0..topo.len() {
        let mut b = boxes[i];
        b.extra1 = topo[i].0;
        b.extra2 = topo[i].1;
        nodes.push(BvhNode { bounds: b });
    }
    let n = lv.iter().map(|l| topo[*l].0 as usize).sum::<usize>();
    let indices: Vec<u32> = (0..n).map(|i| (n - 1 - i) as u32).collect();
    let prims = (0..n).map(|i| P { bb: bx(vec3(0.0, 0.0, 0.0), vec3(1.0, 1.0, 1.0)), c: vec3(i as f32, 0.0, 0.0) }).collect();
    Tree { nodes, indices, prims, topo, n }
}

fn t_limit() -> f32 { if param(15, 0) == 0 { 1e34 } else { let t = f32_in(0.0, 1e34); assume(t > 0.02); t } }

macro_rules! items {
    ($seen:expr, $it:expr) => {{
        let n = $seen.len();
        let mut steps = 0;
        for (p, _) in $it { let i = conc(p.id()); if i >= n { return false; } $seen[i] += 1; steps += 1; if steps > n { return false; } }
    }};
}
trait Id { fn id(&self) -> usize; }
impl Id for &P { fn id(&self) -> usize { self.c.x as usize } }
impl Id for u32 { fn id(&self) -> usize { *self as usize } }
/// the same through the structures' own methods; way 1: the iterators' constructors,
/// 2: methods of the structures, 3: traits
pub fn through(way: u64, fl: u64, b: &Bvh, m: &Mbvh, prims: &[P], r: &mut Ray, r4: &mut RayPacket4, seen: &mut [u32]) -> bool {
    match (way, fl) {
        (1, 0) => items!(seen, BvhIterator::new(r, b, prims)),
        (1, 1) => items!(seen, BvhIndexIterator::new(r, b)),
        (1, 2) => items!(seen, MbvhIterator::new(r, m, prims)),
        (1, 3) => items!(seen, MbvhIndexIterator::new(r, m)),
        (1, 4) => items!(seen, BvhPacketIterator::new(r4, b, prims)),
        (1, 5) => items!(seen, BvhPacketIndexIterator::new(r4, b)),
        (1, 6) => items!(seen, MbvhPacketIterator::new(r4, m, prims)),
        (1, _) => items!(seen, MbvhPacketIndexIterator::new(r4, m)),
        (2, 0) => items!(seen, b.traverse_iter(r, prims)),
        (2, 1) => items!(seen, b.traverse_iter_indices(r)),
        (2, 2) => items!(seen, m.traverse_iter(r, prims)),
        (2, 3) => items!(seen, m.traverse_iter_indices(r)),
        (2, 4) => items!(seen, b.traverse_iter_packet(r4, prims)),
        (2, 5) => items!(seen, b.traverse_iter_indices_packet(r4)),
        (2, 6) => items!(seen, m.traverse_iter_packet(r4, prims)),
        (2, _) => items!(seen, m.traverse_iter_indices_packet(r4)),
        (_, 0) => items!(seen, IntoRayIterator::iter(b, r, prims)),
        (_, 1) => items!(seen, IntoRayIndexIterator::iter(b, r)),
        (_, 2) => items!(seen, IntoRayIterator::iter(m, r, prims)),
        (_, 3) => items!(seen, IntoRayIndexIterator::iter(m, r)),
        (_, 4) => items!(seen, IntoPacketIterator::iter(b, r4, prims)),
        (_, 5) => items!(seen, IntoPacketIndexIterator::iter(b, r4)),
        (_, 6) => items!(seen, IntoPacketIterator::iter(m, r4, prims)),
        _ => items!(seen, IntoPacketIndexIterator::iter(m, r4)),
    }
    true
}

/// iterates with at most `n + 1` items; counts what is yielded per primitive
pub fn collect(flavour: u64, nodes: &[BvhNode], m: &[MbvhNode], indices: &[u32], prims: &[P], ray: &mut Ray, seen: &mut [u32]) -> bool {
    let n = seen.len();
    let mut steps = 0;
    match flavour {
        0 => for (p, _) in BvhIterator::from_slices(ray, nodes, indices, prims) { seen[p.c.x as usize] += 1; steps += 1; if steps > n { return false; } },
        1 => for (i, _) in BvhIndexIterator::from_slices(ray, nodes, indices) { if i as usize >= n { return false; } seen[i as usize] += 1; steps += 1; if steps > n { return false; } },
        2 => for (p, _) in MbvhIterator::from_slices(ray, m, indices, prims) { seen[p.c.x as usize] += 1; steps += 1; if steps > n { return false; } },
        _ => for (i, _) in MbvhIndexIterator::from_slices(ray, m, indices) { if i as usize >= n { return false; } seen[i as usize] += 1; steps += 1; if steps > n { return false; } },
    }
    true
}
pub fn collect4(flavour: u64, nodes: &[BvhNode], m: &[MbvhNode], indices: &[u32], prims: &[P], ray: &mut RayPacket4, seen: &mut [u32]) -> bool {
    let n = seen.len();
    let mut steps = 0;
    match flavour {
        0 => for (p, _) in BvhPacketIterator::from_slices(ray, nodes, indices, prims) { seen[p.c.x as usize] += 1; steps += 1; if steps > n { return false; } },
        1 => for (i, _) in BvhPacketIndexIterator::from_slices(ray, nodes, indices) { if i as usize >= n { return false; } seen[i as usize] += 1; steps += 1; if steps > n { return false; } },
        2 => for (p, _) in MbvhPacketIterator::from_slices(ray, m, indices, prims) { seen[p.c.x as usize] += 1; steps += 1; if steps > n { return false; } },
        _ => for (i, _) in MbvhPacketIndexIterator::from_slices(ray, m, indices) { if i as usize >= n { return false; } seen[i as usize] += 1; steps += 1; if steps > n { return false; } },
    }
    true
}

pub fn trav() {
    let fl = param(0, 0);
    let k = param(3, 1) as i32;
    let target = param(2, 0) as usize;
    let t = tree(param(1, 2), k, target);
    let lv = leaves(&t.topo);
    let leaf = lv[target % lv.len()];
    let q = inner(&t.nodes[leaf].bounds);
    let way = param(12, 0);
    let b = if way > 0 { Bvh::from_parts(t.nodes.clone(), t.indices.clone()) } else { Bvh::default() };
    let m = if fl % 4 < 2 { Mbvh::default() } else if way > 0 { Mbvh::construct(&b) } else { Mbvh::construct_from_raw(&t.nodes, &t.indices) };
    let mut seen = vec![0u32; t.n];
    let ok = if fl < 4 {
        let (o, d) = (c3(R), direction());
        let tt = t_limit();
        assume(crosses(&q, o, d, tt));
        let mut ray = Ray::new(o, d);
        ray.t = tt;
        if way > 0 { through(way, fl, &b, &m, &t.prims, &mut ray, &mut RayPacket4::new([vec4(0.0, 0.0, 0.0, 0.0); 4], [vec4(0.0, 0.0, 1.0, 0.0); 4]), &mut seen) } else { collect(fl, &t.nodes, m.quad_nodes(), &t.indices, &t.prims, &mut ray, &mut seen) }
    } else {
        let lane = param(14, 0) as usize;
        let mut os = [vec4(0.0, 0.0, 0.0, 0.0); 4];
        let mut ds = [vec4(0.0, 0.0, 1.0, 0.0); 4];
        let (o, d) = (c3(R), direction());
        let tt = t_limit();
        assume(crosses(&q, o, d, tt));
        for l in 0..4 {
            if l == lane { os[l] = o.extend(0.0); ds[l] = d.extend(0.0); }
            else if param(13, 0) == 1 { os[l] = c3(R).extend(0.0); ds[l] = c3(1.0).extend(0.0); }
            else { os[l] = vec4(l as f32 * 5000.0 + 3000.0, 0.0, 0.0, 0.0); ds[l] = vec4(0.0, 1.0, 0.0, 0.0); }
        }
        let mut pk = RayPacket4::new(os, ds);
        // the other rays may have found something already
        if param(17, 1) == 1 { for l in 0..4 { if l != lane { pk.t[l] = f32_in(0.0, 1e34); } } }
        pk.t[lane] = tt;
        if way > 0 { through(way, fl, &b, &m, &t.prims, &mut Ray::new(vec3(0.0, 0.0, 0.0), vec3(0.0, 0.0, 1.0)), &mut pk, &mut seen) } else { collect4(fl - 4, &t.nodes, m.quad_nodes(), &t.indices, &t.prims, &mut pk, &mut seen) }
    };
    check(ok, 1);
    // the target leaf's primitives are yielded
    for i in 0..t.topo[leaf].0 as usize { check(seen[t.indices[t.topo[leaf].1 as usize + i] as usize] >= 1, 2); }
    // nothing is yielded twice
    for s in &seen { check(*s <= 1, 3); }
    cover(1);
}

/// Closest hit: a visitor that intersects the primitives' boxes and shrinks `t` finds the
/// same distance as testing every primitive.
/// The primitives are concrete boxes of a built scene and the ray is symbolic.
pub fn closest() {
    let fl = param(0, 0);
    let n = param(1, 4) as usize;
    let mut prims = crate::build::scene_with(n, 0);
    for (i, p) in prims.iter_mut().enumerate() { p.c.x += 0.0 * i as f32; }
    let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let bvh = match crate::build::build_with(param(2, 0), &prims, Some(&bbs), param(4, 0)) { Some(b) => b, None => { check(false, 9); return; } };
    let m = if fl % 4 >= 2 { Mbvh::construct(&bvh) } else { Mbvh::default() };
    let lane = param(10, 0) as usize;
    let (o, d) = ray_of_kind(param(11, 0));
    let t0 = t_limit();
    // where in its box a primitive is hit: 0 where the ray enters, 1 half way, 2 near its exit
    let at = |a: f32, f: f32| match param(17, 0) { 0 => a, 1 => a * 0.5 + f * 0.5, _ => a * 0.125 + f * 0.875 };
    let mut best = t0;
    for p in &prims {
        for k in 0..3 { assume((d[k] != 0.0) | ((p.bb.min[k] != o[k]) & (p.bb.max[k] != o[k]))); }
        let (a, f) = slab(&p.bb, o, d);
        if (a <= f) & (a > 0.01) & (at(a, f) < best) { best = at(a, f); }
    }
    let hit = |p: &P, t: f32| -> f32 { let (a, f) = slab(&p.bb, o, d); if (a <= f) & (a > 0.01) & (at(a, f) < t) { at(a, f) } else { t } };
    let got = if fl < 4 {
        let mut ray = Ray::new(o, d);
        ray.t = t0;
        match fl {
            0 => for (p, r) in bvh.traverse_iter(&mut ray, &prims) { r.t = hit(p, r.t); },
            1 => for (i, r) in bvh.traverse_iter_indices(&mut ray) { r.t = hit(&prims[i as usize], r.t); },
            2 => for (p, r) in m.traverse_iter(&mut ray, &prims) { r.t = hit(p, r.t); },
            _ => for (i, r) in m.traverse_iter_indices(&mut ray) { r.t = hit(&prims[i as usize], r.t); },
        }
        ray.t
    } else {
        let mut os = [vec4(9000.0, 9000.0, 9000.0, 0.0); 4];
        let mut ds = [vec4(0.0, 0.0, 1.0, 0.0); 4];
        os[lane] = o.extend(0.0);
        ds[lane] = d.extend(0.0);
        let mut pk = RayPacket4::new(os, ds);
        pk.t[lane] = t0;
        match fl {
            4 => for (p, r) in bvh.traverse_iter_packet(&mut pk, &prims) { r.t[lane] = hit(p, r.t[lane]); },
            5 => for (i, r) in bvh.traverse_iter_indices_packet(&mut pk) { r.t[lane] = hit(&prims[i as usize], r.t[lane]); },
            6 => for (p, r) in m.traverse_iter_packet(&mut pk, &prims) { r.t[lane] = hit(p, r.t[lane]); },
            _ => for (i, r) in m.traverse_iter_indices_packet(&mut pk) { r.t[lane] = hit(&prims[i as usize], r.t[lane]); },
        }
        pk.t[lane]
    };
    check(got == best, 1);
    cover(1);
}

/// rays for the concrete scenes
pub fn ray_of_kind(kind: u64) -> (Vec3, Vec3) {
    match kind {
        // any origin, any direction
        0 => (c3(100.0), direction()),
        // along +x, -y, +z with symbolic origin
        1 => (c3(100.0), vec3(1.0, 0.0, 0.0)),
        2 => (c3(100.0), vec3(0.0, -1.0, 0.0)),
        3 => (c3(100.0), vec3(-0.0, 0.0, 1.0)),
        // concrete origin, symbolic direction
        4 => (vec3(-20.0, 0.5, 0.5), direction()),
        5 => (vec3(7.5, 40.0, -3.5), direction()),
        // diagonal
        6 => (c3(100.0), vec3(0.5, 0.5, -0.25)),
        _ => (c3(100.0), vec3(-1.0, 0.125, 0.0)),
    }
}

/// End to end: build over a scene, shoot a symbolic ray, every crossed primitive is yielded
pub fn e2e() {
    let fl = param(0, 0);
    let n = param(1, 4) as usize;
    let prims = crate::build::scene_with(n, param(12, 0));
    let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    let bvh = match crate::build::build_with(param(2, 0), &prims, Some(&bbs), param(4, 0)) { Some(b) => b, None => { check(false, 9); return; } };
    let m = if fl % 4 >= 2 { Mbvh::construct(&bvh) } else { Mbvh::default() };
    let target = param(10, 0) as usize % n;
    let (o, d) = ray_of_kind(param(11, 0));
    assume(crosses(&prims[target].bb, o, d, 1e34));
    let mut seen = 0;
    if fl < 4 {
        let mut ray = Ray::new(o, d);
        match fl {
            0 => for (p, _) in bvh.traverse_iter(&mut ray, &prims) { seen += (p as *const P == &prims[target] as *const P) as u32; },
            1 => for (i, _) in bvh.traverse_iter_indices(&mut ray) { seen += (i as usize == target) as u32; },
            2 => for (p, _) in m.traverse_iter(&mut ray, &prims) { seen += (p as *const P == &prims[target] as *const P) as u32; },
            _ => for (i, _) in m.traverse_iter_indices(&mut ray) { seen += (i as usize == target) as u32; },
        }
    } else {
        let lane = target % 4;
        let mut os = [vec4(9000.0, 9000.0, 9000.0, 0.0); 4];
        let mut ds = [vec4(0.0, 0.0, 1.0, 0.0); 4];
        os[lane] = o.extend(0.0);
        ds[lane] = d.extend(0.0);
        let mut pk = RayPacket4::new(os, ds);
        match fl {
            4 => for (p, _) in bvh.traverse_iter_packet(&mut pk, &prims) { seen += (p as *const P == &prims[target] as *const P) as u32; },
            5 => for (i, _) in bvh.traverse_iter_indices_packet(&mut pk) { seen += (i as usize == target) as u32; },
            6 => for (p, _) in m.traverse_iter_packet(&mut pk, &prims) { seen += (p as *const P == &prims[target] as *const P) as u32; },
            _ => for (i, _) in m.traverse_iter_indices_packet(&mut pk) { seen += (i as usize == target) as u32; },
        }
    }
    check(seen >= 1, 1);
    check(seen <= 1 || param(2, 0) == 2, 2);
    cover(1);
}
