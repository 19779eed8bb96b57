//! Whole trees: collapse to four-wide nodes, refit, input validation, deep trees,
//! schedules.
use crate::build::{build_with, layout, make};
use crate::common::*;
use crate::trav::{c3, collect, collect4, leaves, parents, topology, R};
use crate::vx::*;
use glam::*;
use rtbvh::*;

/// nodes of a topology with nested symbolic boxes (bit mask param 4), `k` primitives per leaf
pub fn nested(kind: u64, k: i32) -> (Vec<BvhNode>, Vec<(i32, i32)>, usize) {
    let topo = topology(kind, k);
    let par = parents(&topo);
    let mask = param(4, !0u64 >> 1);
    let mut depth = vec![0usize; topo.len()];
    // parents may come after their children in the array: settle depths iteratively
    for _ in 0..topo.len() { for i in 1..topo.len() { depth[i] = depth[par[i]] + 1; } }
    let mut boxes = vec![bx(vec3(-R, -R, -R), vec3(R, R, R)); topo.len()];
    for i in 0..topo.len() {
        let d = depth[i] as f32;
        let f = i as f32;
        boxes[i] = if mask >> i.min(62) & 1 == 1 { bx(c3(R), c3(R)) } else { bx(vec3(f - 900.0 + 20.0 * d, -900.0 + 20.0 * d, -900.0 + 20.0 * d), vec3(f + 600.0 - 20.0 * d, 900.0 - 20.0 * d, 900.0 - 20.0 * d)) };
    }
    for i in 0..topo.len() { for a in 0..3 { if mask >> i.min(62) & 1 == 1 { assume(boxes[i].min[a] <= boxes[i].max[a]); } } }
    for i in 1..topo.len() { if mask >> i.min(62) & 1 == 1 { for a in 0..3 { assume(boxes[par[i]].min[a] <= boxes[i].min[a]); assume(boxes[i].max[a] <= boxes[par[i]].max[a]); } } }
    let mut nodes = vec![];
    for i in 0..topo.len() { let mut b = boxes[i]; b.extra1 = topo[i].0; b.extra2 = topo[i].1; nodes.push(BvhNode { bounds: b }); }
    let n = leaves(&topo).iter().map(|l| topo[*l].0 as usize).sum::<usize>();
    (nodes, topo, n)
}

fn slot_box(n: &MbvhNode, s: usize) -> Aabb {
    let (ax, ay, az) = n.min_points();
    let (bx_, by, bz) = n.max_points();
    let (p0, p1, p2, p3, p4, p5) = n.points();
    check((p0[s] == ax[s]) & (p1[s] == bx_[s]) & (p2[s] == ay[s]) & (p3[s] == by[s]) & (p4[s] == az[s]) & (p5[s] == bz[s]), 20);
    bx(vec3(ax[s], ay[s], az[s]), vec3(bx_[s], by[s], bz[s]))
}
/// every leaf (first, count) in `want` is reached exactly once, and the slots on the way
/// enclose its box
pub fn quad_ok(q: &[MbvhNode], want: &[(i32, i32, Aabb)], empty_ok: bool) {
    check(!q.is_empty(), 10);
    let mut found = vec![0u32; want.len()];
    let mut seen = vec![false; q.len()];
    let mut stack: Vec<(usize, Vec<Aabb>)> = vec![(0, vec![])];
    while let Some((i, path)) = stack.pop() {
        if i >= q.len() || seen[i] { check(false, 11); return; }
        seen[i] = true;
        for s in 0..4 {
            let (c, k) = (q[i].children[s], q[i].counts[s]);
            if c < 0 { continue; }
            let mut p = path.clone();
            p.push(slot_box(&q[i], s));
            if k >= 0 {
                if k == 0 && empty_ok { continue; }
                match want.iter().position(|w| w.0 == c && w.1 == k) {
                    Some(w) => { found[w] += 1; for b in &p { check(inside(b, &want[w].2), 12); } }
                    None => { check(false, 13); return; }
                }
            } else { stack.push((c as usize, p)); }
        }
    }
    for f in &found { check(*f == 1, 14); }
}

/// C09: param 0: 0 raw topology, 1 builder; param 1: topology / number of primitives
pub fn collapse() {
    let (nodes, idx, m) = if param(0, 0) == 0 {
        let k = param(3, 1) as i32;
        let (nodes, _, n) = nested(param(1, 2), k);
        let idx: Vec<u32> = (0..n as u32).collect();
        let m = Mbvh::construct_from_raw(&nodes, &idx);
        (nodes, idx, m)
    } else {
        let mut v = vec![];
        let n = param(1, 6) as usize;
        for i in 0..n { let (a, b) = layout(param(5, 0), i); v.push(P { bb: bx(a, b), c: (a + b) * 0.5 }); }
        let bbs: Vec<Aabb> = v.iter().map(|p| p.bb).collect();
        let b = match build_with(param(2, 0), &v, Some(&bbs), param(6, 0)) { Some(b) => b, None => { check(false, 1); return; } };
        // move every primitive: boxes of the nodes are symbolic
        let mut b = b;
        let s = param(7, 2) as usize;
        let moved: Vec<Aabb> = bbs.iter().enumerate().map(|(i, x)| if i < s { any_box() } else { *x }).collect();
        if s > 0 { b.refit(&moved); }
        let m = Mbvh::construct(&b);
        let idx = b.indices().to_vec();
        (b.nodes().to_vec(), idx, m)
    };
    let mut want = vec![];
    for n in &nodes { if n.bounds.extra1 >= 0 { want.push((n.bounds.extra2, n.bounds.extra1, n.bounds)); } }
    // leaves that are not part of the tree do not count
    let mut live = vec![];
    let ok = walk(&nodes, |f, c, _| { live.push((f as i32, c as i32)); true });
    check(ok, 2);
    want.retain(|w| live.iter().any(|l| l.0 == w.0 && l.1 == w.1));
    if param(0, 0) == 0 && nodes.len() <= 4 {
        // few nodes are put into one quad node as they are
        let q = &m.quad_nodes()[0];
        for w in &want { let mut c = 0; for s in 0..4 { if q.children[s] == w.0 && q.counts[s] == w.1 { c += 1; check(inside(&slot_box(q, s), &w.2), 12); } } check(c == 1, 14); }
    } else { quad_ok(m.quad_nodes(), &want, false); }
    check(m.indices() == &idx[..], 3);
    check(m.nodes().len() == nodes.len(), 4);
    for (a, b) in m.nodes().iter().zip(&nodes) { check(same_box(&a.bounds, &b.bounds) & (a.bounds.extra1 == b.bounds.extra1) & (a.bounds.extra2 == b.bounds.extra2), 5); }
    check(m.prim_count() == idx.len(), 6);
    let raw = m.clone().into_raw();
    check(raw.0.len() == m.quad_nodes().len() && raw.1 == idx, 7);
    cover(1);
}

/// C11: refit with symbolic new boxes over a built tree
/// param 0 builder, 1 n, 2 number of symbolic new boxes, 4 leaf cap, 5 layout, 6: 1 the
/// boxes may be inverted to a point only
pub fn refit() {
    // param 7: a tree of this topology (plus one), with leaves of size param 3
    let topo = if param(7, 0) > 0 { topology(param(7, 0) - 1, param(3, 200) as i32) } else { vec![] };
    let n = if topo.is_empty() { param(1, 4) as usize } else { leaves(&topo).iter().map(|l| topo[*l].0 as usize).sum() };
    let mut v = vec![];
    for i in 0..n { let (a, b) = layout(param(5, 0), i); v.push(P { bb: bx(a, b), c: (a + b) * 0.5 }); }
    let bbs: Vec<Aabb> = v.iter().map(|p| p.bb).collect();
    let mut bvh = if !topo.is_empty() {
        let nodes = topo.iter().map(|t| { let mut b = bx(vec3(-R, -R, -R), vec3(R, R, R)); b.extra1 = t.0; b.extra2 = t.1; BvhNode { bounds: b } }).collect();
        Bvh::from_parts(nodes, (0..n).map(|i| (n - 1 - i) as u32).collect())
    } else { match build_with(param(0, 0), &v, Some(&bbs), param(4, 0)) { Some(b) => b, None => { check(false, 1); return; } } };
    let before = bvh.clone();
    let s = param(2, n as u64) as usize;
    let moved: Vec<Aabb> = bbs.iter().enumerate().map(|(i, x)| if (i + 64 * n - param(8, 0) as usize) % n < s { any_box() } else { bx(x.min + vec3(1.0, -2.0, 3.0), x.max + vec3(1.0, -2.0, 5.0)) }).collect();
    let mut twice = bvh.clone();
    bvh.refit(&moved);
    // topology
    check(bvh.nodes().len() == before.nodes().len(), 2);
    for (a, b) in bvh.nodes().iter().zip(before.nodes()) { check((a.bounds.extra1 == b.bounds.extra1) & (a.bounds.extra2 == b.bounds.extra2), 3); }
    check(bvh.indices() == before.indices(), 4);
    check(bvh.build_type() == before.build_type(), 5);
    // every node encloses its new primitives
    let idx = bvh.indices().to_vec();
    let nodes = bvh.nodes().to_vec();
    let mut below: Vec<Vec<Aabb>> = vec![vec![]; nodes.len()];
    let ok = walk(&nodes, |f, c, path| {
        for k in f..f + c {
            let b = &moved[idx[k] as usize];
            for &a in path { check(inside(&nodes[a].bounds, b), 6); below[a].push(*b); }
        }
        true
    });
    check(ok, 7);
    // and is not much larger than needed: each side is near some primitive's
    for (l, nd) in below.iter().zip(&nodes) {
        if l.is_empty() { continue; }
        for j in 0..3 {
            let (mut lo, mut hi) = (false, false);
            for b in l { lo |= nd.bounds.min[j] >= b.min[j] - 2.0; hi |= nd.bounds.max[j] <= b.max[j] + 2.0; }
            check(lo, 8);
            check(hi, 8);
        }
    }
    // parents enclose their children
    for nd in &nodes { if nd.bounds.extra1 < 0 && nd.bounds.extra2 > 0 { let l = nd.bounds.extra2 as usize; check(inside(&nd.bounds, &nodes[l].bounds) & inside(&nd.bounds, &nodes[l + 1].bounds), 9); } }
    // earlier refits leave no trace
    if param(6, 0) == 1 {
        let far: Vec<Aabb> = bbs.iter().map(|x| bx(x.min * 100.0, x.max * 100.0 + vec3(500.0, 600.0, 700.0))).collect();
        twice.refit(&far);
        twice.refit(&moved);
        for (a, b) in twice.nodes().iter().zip(&nodes) { check(same_box(&a.bounds, &b.bounds), 10); }
    }
    cover(1);
}

/// C01: what builders accept. n primitives and m aabbs are concrete, their values symbolic
pub fn validation() {
    let n = param(1, 0) as usize;
    let m = param(2, 0) as usize;
    let given = param(3, 1) == 1;
    let mut v = vec![];
    for i in 0..n { let (a, b) = layout(param(5, 0), i); v.push(P { bb: bx(a, b), c: (a + b) * 0.5 }); }
    let mut bbs: Vec<Aabb> = vec![];
    for i in 0..m { let (a, b) = layout(param(5, 0), i); bbs.push(bx(a, b)); }
    let leaf = u64_in(0, 3);
    let leaf = conc(leaf as usize) as u64;
    let b = Builder { aabbs: if given { Some(&bbs) } else { None }, primitives: &v[..], primitives_per_leaf: ppl(leaf) };
    let which = conc(u64_in(0, 2) as usize);
    let r = match which { 0 => b.construct_binned_sah(), 1 => b.construct_locally_ordered_clustered(), _ => b.construct_spatial_sah() };
    match r {
        Ok(bvh) => {
            check(n > 0, 1);
            check(!given || m == n, 2);
            check(!bvh.nodes().is_empty() && !bvh.indices().is_empty(), 3);
            let want = match which { 0 => BuildType::BinnedSAH, 1 => BuildType::LocallyOrderedClustered, _ => BuildType::Spatial };
            check(bvh.build_type() == want, 6);
            check(bvh.validate(n), 7);
            cover(1);
        }
        Err(BuildError::NoPrimitives) => { check(n == 0, 4); cover(2); }
        Err(BuildError::InequalAabbsAndPrimitives(a, p)) => { check(given && a == m && p == n && a != p, 5); cover(3); }
    }
}

/// C17: deep or degenerate trees. Every leaf box contains the origin's ray; all are found.
/// param 0 flavour, 1 topology (100 + depth for chains), 3 primitives per leaf, 6: 1 one
/// symbolic coordinate only, 7: 0 boxes shrink with the position in the array, 1 grow,
/// 2 alternate between levels, 3 shrink up to a symbolic level and grow from there
/// 8: number of primitives missing in the list given (n must not be a multiple of 7)
pub fn deep() {
    let fl = param(0, 0);
    let k = param(3, 1) as i32;
    let topo = topology(param(1, 140), k);
    let lv = leaves(&topo);
    let n = lv.iter().map(|l| topo[*l].0 as usize).sum::<usize>();
    let mut nodes = vec![];
    // boxes around the origin
    let shape = param(7, 0);
    let turn = if shape == 3 { conc(u32_in(0, 1 + topo.len() as u32 / 16) as usize) * 16 } else { 0 };
    for i in 0..topo.len() {
        let grow = match shape { 0 => false, 1 => true, 2 => i % 4 < 2, _ => i > turn };
        let s = 2.0 + 4.0 * if grow { i + 1 } else { topo.len() - i } as f32;
        let mut b = bx(vec3(-s, -s, -s), vec3(s, s, s)); b.extra1 = topo[i].0; b.extra2 = topo[i].1; nodes.push(BvhNode { bounds: b });
    }
    // a list of primitives that is too short: the missing ones are left out
    let miss = (param(8, 0) as usize).min(n);
    let idx: Vec<u32> = (0..n as u32).map(|i| if miss > 0 { (i * 7 + 3) % n as u32 } else { i }).collect();
    let prims: Vec<P> = (0..n - miss).map(|i| P { bb: bx(vec3(0.0, 0.0, 0.0), vec3(1.0, 1.0, 1.0)), c: vec3(i as f32, 0.0, 0.0) }).collect();
    let m = if fl % 4 >= 2 { Mbvh::construct_from_raw(&nodes, &idx) } else { Mbvh::default() };
    let mut seen = vec![0u32; n];
    let o = if param(6, 0) == 0 { vec3(f32_in(-1.0, 1.0), f32_in(-1.0, 1.0), f32_in(-1.0, 1.0)) } else { vec3(f32_in(-1.0, 1.0), 0.25, -0.5) };
    let d = if param(5, 0) == 0 { vec3(0.5, -0.25, 1.0) } else { crate::trav::direction() };
    let ok = if fl < 4 {
        let mut r = Ray::new(o, d);
        collect(fl, &nodes, m.quad_nodes(), &idx, &prims, &mut r, &mut seen)
    } else {
        let mut r = RayPacket4::new([o.extend(0.0); 4], [d.extend(0.0); 4]);
        collect4(fl - 4, &nodes, m.quad_nodes(), &idx, &prims, &mut r, &mut seen)
    };
    check(ok, 1);
    for (i, s) in seen.iter().enumerate() { check(*s == if fl % 2 == 0 && i >= n - miss { 0 } else { 1 }, 2); }
    cover(1);
}

/// depth-first shape of a tree: per leaf its path, primitives (sorted) and box
fn canon(b: &Bvh) -> Option<Vec<(Vec<u8>, Vec<u32>, Vec<Aabb>)>> {
    let nodes = b.nodes();
    let mut out = vec![];
    let mut stack: Vec<(usize, Vec<u8>, Vec<Aabb>)> = vec![(0, vec![], vec![])];
    let mut steps = 0;
    while let Some((i, path, boxes)) = stack.pop() {
        steps += 1;
        if i >= nodes.len() || steps > nodes.len() { return None; }
        let (c, f) = (nodes[i].bounds.extra1, nodes[i].bounds.extra2);
        let mut bo = boxes.clone();
        bo.push(nodes[i].bounds);
        if c >= 0 {
            let mut v = vec![];
            for k in f..f + c { v.push(*b.indices().get(conc(k as usize))?); }
            v.sort();
            out.push((path, v, bo));
        } else {
            let f = conc(f as usize);
            let (mut l, mut r) = (path.clone(), path);
            l.push(0);
            r.push(1);
            stack.push((f + 1, r, bo.clone()));
            stack.push((f, l, bo));
        }
    }
    Some(out)
}

/// C20: the order in which parallel pieces of work run does not change the tree: the same
/// scene is built under two schedules
pub fn schedule() {
    phase(1);
    let (prims, a) = make();
    let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
    phase(0);
    let b = build_with(param(0, 0), &prims, if param(6, 1) == 1 { Some(&bbs) } else { None }, param(4, 0));
    let (a, b) = match (a, b) { (Some(a), Some(b)) => (a, b), _ => { check(false, 1); return; } };
    let (x, y) = match (canon(&a), canon(&b)) { (Some(x), Some(y)) => (x, y), _ => { check(false, 2); return; } };
    check(x.len() == y.len(), 3);
    check(a.nodes().len() == b.nodes().len() && a.indices().len() == b.indices().len(), 10);
    for (l, r) in x.iter().zip(&y) {
        check(l.0 == r.0, 4);
        check(l.1 == r.1, 5);
        check(l.2.len() == r.2.len(), 6);
        for (p, q) in l.2.iter().zip(&r.2) { check(same_box(p, q), 7); }
    }
    // and every primitive is there once
    let mut seen = vec![0u32; prims.len()];
    for l in &x { for &i in &l.1 { if (i as usize) < seen.len() { seen[i as usize] += 1; } else { check(false, 8); } } }
    for s in &seen { check(if param(0, 0) == 2 { *s >= 1 } else { *s == 1 }, 9); }
    cover(1);
}

/// C19: one parallel build; data races and results that depend on the interleaving of the
/// threads (parameter 902: 3) are what is looked for
pub fn race() {
    let (prims, a) = make();
    let n = prims.len();
    let a = match a { Some(a) => a, None => { check(false, 1); return; } };
    let x = match canon(&a) { Some(x) => x, None => { check(false, 2); return; } };
    let mut seen = vec![0u32; n];
    for l in &x { for &i in &l.1 { if (i as usize) < n { seen[i as usize] += 1; } else { check(false, 8); } } }
    for s in &seen { check(if param(0, 0) == 2 { *s >= 1 } else { *s == 1 }, 9); }
    for (i, nd) in a.nodes().iter().enumerate() { check(i == 0 || nd.bounds.extra1 > 0 || nd.bounds.extra2 > 0, 10); }
    cover(1);
}
