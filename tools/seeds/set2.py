import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "set1.py")).read().split("SEEDS = []")[0])
SEEDS = []
def S(id, prop, edits, needs, breaks, main, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **k))

S("locb-more-boxes", "C01", [("src/bvh.rs", "            if aabbs.len() != self.primitives.len() {", "            if aabbs.len() < self.primitives.len() {", 2)],
 "the clustering builder with more boxes than primitives", "an empty tree comes back as success instead of the error with both counts",
 fin('''    let v: Vec<P> = (0..4).map(|i| prim(vec3(i as f32, 0., 0.), vec3(i as f32 + 1., 1., 1.))).collect();
    let b: Vec<Aabb> = (0..5).map(|i| bx(vec3(i as f32, 0., 0.), vec3(i as f32 + 1., 1., 1.))).collect();
    let r = Builder { aabbs: Some(&b), primitives: &v, primitives_per_leaf: None }.construct_locally_ordered_clustered();
    assert_eq!(r.unwrap_err(), BuildError::InequalAabbsAndPrimitives(5, 4));'''))

S("binned-leaf-cap", "C02", [("src/builders/binned_sah.rs", '''        // Make this node a leaf node
        make_leaf(self.node, self.begin, self.end);''', '''        // Make this node a leaf node
        let end = self.end.min(self.begin + self.builder.max_leaf_size.max(8));
        make_leaf(self.node, self.begin, end);''')],
 "more than eight primitives that no plane can separate", "the leaf holds only the first eight, the others are in no leaf",
 fin('''    let v: Vec<P> = (0..12).map(|i| P { bb: bx(vec3(0., 0., 0.), vec3(1. + i as f32, 1., 1.)), c: vec3(0.5, 0.5, 0.5) }).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let n: i32 = b.nodes().iter().filter(|n| n.bounds.extra1 > 0).map(|n| n.bounds.extra1).sum();
    assert_eq!(n, 12);'''))

S("binned-depth-leaf", "C02", [("src/builders/binned_sah.rs", "        if self.work_size() <= 1 || self.depth >= self.builder.max_depth {\n            make_leaf(self.node, self.begin, self.end);", "        if self.work_size() <= 1 || self.depth >= self.builder.max_depth {\n            make_leaf(self.node, self.begin, self.begin + 1);")],
 "a scene whose tree reaches the greatest depth (64) with more than one primitive left", "the remaining primitives are dropped",
 fin('''    // every split takes a single primitive off
    let mut v: Vec<P> = vec![];
    let mut x = 1.0e18f32;
    for _ in 0..30 { for k in 0..3 { let mut a = vec3(0., 0., 0.); a[k] = x; v.push(prim(a, a * 1.001)); } x /= 17.0; }
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let n: i32 = b.nodes().iter().filter(|n| n.bounds.extra1 > 0).map(|n| n.bounds.extra1).sum();
    assert_eq!(n, v.len() as i32);'''))

S("locb-far-apart", "C03", [("src/builders/locb.rs", "                let mut best_distance = std::f32::MAX;", "                let mut best_distance = 1e12_f32;")],
 "primitives so far apart that joining any two exceeds an area of 10^12", "no neighbour is found and the index of the neighbour is garbage",
 fin('''    let v: Vec<P> = (0..4).map(|i| { let f = (i as f32 - 1.5) * 600000.0; prim(vec3(f, f, -f), vec3(f + 1., f + 1., -f + 1.)) }).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_locally_ordered_clustered().unwrap();
    assert!(b.validate(4) && enclosed(&b, &v));'''))

S("spatial-global-budget", "C20", [("src/builders/spatial_sah.rs", "        if overlap > spatial_threshold && (self.work_item.split_end - self.work_item.end) > 0 {", "        let budget = self.work_item.split_end - self.work_item.end;\n        if overlap > spatial_threshold && budget > 0 && reference_count.load(SeqCst) <= self.work_item.begin {")],
 "pieces of the build that run at different times (more than 1024 triangles)", "whether a node is split in space depends on how many leaves other threads have made, so the tree depends on the schedule",
 PRE.replace("fn prim(", "fn prim(") + '''fn build(v: &[P]) -> Vec<String> { let b = Builder { aabbs: None, primitives: v, primitives_per_leaf: None }.construct_spatial_sah().unwrap(); let mut r = vec![]; let mut s = vec![0usize]; while let Some(i) = s.pop() { let n = &b.nodes()[i].bounds; r.push(format!("{:?} {:?} {}", n.min, n.max, n.extra1)); if n.extra1 < 0 { s.push(n.extra2 as usize); s.push(n.extra2 as usize + 1); } } r }
fn main() {
    let v: Vec<P> = (0..3000u32).map(|i| { let (f, g) = ((i * 37 % 300) as f32, (i * 23 % 310) as f32); prim(vec3(f, g, f * 0.3), vec3(f + 35.5, g + 22.0, f * 0.3 + 1.0 + g * 0.1)) }).collect();
    let a = build(&v);
    for _ in 0..30 { assert!(build(&v) == a); }
}
''')

S("spatial-clip-no-room", "C05", [("src/builders/spatial_sah.rs", "                left_box.grow_bb(&reference.aabb);\n                left_end += 1;", "                left_box.grow_bb(&left_prim_box);\n                left_end += 1;")],
 "a triangle across the split when the room for split references is used up", "the left box holds only the part of the triangle left of the plane though the whole triangle goes there",
 fin('''    let mut ok = true;
    for s in 0..400u32 {
        let n = 5 + s % 9;
        let v: Vec<P> = (0..n).map(|i| { let f = ((i * 7 + s) % n) as f32; let g = ((i * 5 + s * 3) % n) as f32; prim(vec3(-f, -g, -f * 0.5), vec3(g + 1.0, f + 2.0 + (s % 11) as f32, 3.0 + g)) }).collect();
        let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_spatial_sah().unwrap();
        // a primitive that is referenced once is held whole
        let mut refs = vec![0; n as usize];
        for x in b.nodes() { if x.bounds.extra1 > 0 { for k in x.bounds.extra2..x.bounds.extra2 + x.bounds.extra1 { refs[b.indices()[k as usize] as usize] += 1; } } }
        for x in b.nodes() { if x.bounds.extra1 > 0 { for k in x.bounds.extra2..x.bounds.extra2 + x.bounds.extra1 { let p = b.indices()[k as usize] as usize; if refs[p] == 1 { let q = &v[p].bb; if !(x.bounds.min.cmple(q.min).all() && q.max.cmple(x.bounds.max).all()) { ok = false; } } } } }
    }
    assert!(ok, "a primitive is outside of its node");'''))

S("spatial-axis2-not-moved", "C04", [("src/builders/spatial_sah.rs", '''                    self.references[2].as_mut_ptr().add(right_begin),
                    self.references[2].as_mut_ptr().add(right_end),
                    self.references[2]
                        .as_mut_ptr()
                        .add(right_end + left_split_count),''', '''                    self.references[2].as_mut_ptr().add(right_begin),
                    self.references[2].as_mut_ptr().add(right_end),
                    self.references[2].as_mut_ptr().add(right_end),''')],
 "a node that is split after free room was given to its left neighbour, on the third axis", "one of the three orders of the references stays where it was, so later splits see other references",
 fin('''    let mut ok = true;
    for s in 0..300u32 {
        let n = 5 + s % 9;
        let v: Vec<P> = (0..n).map(|i| { let f = ((i * 7 + s) % n) as f32; let g = ((i * 5 + s * 3) % n) as f32; prim(vec3(-f, -g, 3.0 * f), vec3(g + 1.0, f + 2.0, 3.0 * f + 1.0)) }).collect();
        let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_spatial_sah().unwrap();
        ok &= b.validate(n as usize);
    }
    assert!(ok);'''))

S("spatial-stale-right-box", "C05", [
 ("src/builders/spatial_sah.rs", "                        right_box: self.accumulated_aabbs[i + 1],\n                    }\n                }\n            }\n        }\n", "                        right_box: Aabb::empty(),\n                    }\n                }\n            }\n        }\n\n        if let Some(i) = best_split.index {\n            best_split.right_box = self.accumulated_aabbs[i as usize];\n        }\n")],
 "an object split on the first or second axis", "the right box comes from the order on the last axis and misses primitives",
 fin('''    let v: Vec<P> = (0..6).map(|i| { let f = i as f32; prim(vec3(10.0 * f, 0., (5 - i) as f32 * 0.01), vec3(10.0 * f + 1., 1., (5 - i) as f32 * 0.01 + 1.0)) }).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_spatial_sah().unwrap();
    assert!(enclosed(&b, &v));'''))

S("single-new-zero-dir", "C07", [("src/iter.rs", '''        let stack_ptr = if bvh.nodes.is_empty()
            || ray.origin.is_nan()
            || ray.direction.is_nan()
''', '''        let stack_ptr = if bvh.nodes.is_empty()
            || ray.origin.is_nan()
            || !ray.inv_direction.is_finite()
''')],
 "a ray parallel to an axis, through Bvh::traverse_iter (the iterator over slices still works)", "nothing is visited",
 fin('''    let v: Vec<P> = (0..4).map(|i| prim(vec3(3. * i as f32, 0., 0.), vec3(3. * i as f32 + 1., 1., 1.))).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let mut r = Ray::new(vec3(-5., 0.5, 0.5), vec3(1., 0., 0.));
    assert_eq!(b.traverse_iter(&mut r, &v).count(), 4);'''))

S("packet-index-shallow", "C17", [("src/iter_indices.rs", "            if self.stack_ptr < 0 {\n                return None;\n            }\n\n            let node = unsafe {", "            if !(0..64).contains(&self.stack_ptr) {\n                return None;\n            }\n\n            let node = unsafe {", 1)],
 "a packet in a tree with more than 64 nodes waiting", "the traversal ends early and misses the rest of the tree",
 fin('''    let n = 100;
    let mut nodes = vec![];
    let (lo, hi) = (Vec3::splat(-1.), Vec3::splat(1.));
    nodes.push(node(lo, hi, -1, 1));
    for i in 0..n { nodes.push(node(lo, hi, 1, i)); nodes.push(node(lo * 0.999, hi * 0.999, -1, 2 * i + 3)); }
    let k = nodes.len(); nodes[k - 1] = node(lo, hi, 1, n);
    let idx: Vec<u32> = (0..n as u32 + 1).collect();
    let o = vec4(0., 0., -5., 0.);
    let mut p = RayPacket4::new([o; 4], [vec4(0., 0., 1., 0.); 4]);
    assert_eq!(BvhPacketIndexIterator::from_slices(&mut p, &nodes, &idx).count(), n as usize + 1);'''))

S("packet-lane-three", "C08", [("src/ray.rs", "                1.0 / directions[1].z,\n                1.0 / directions[2].z,\n                1.0 / directions[3].z,", "                1.0 / directions[1].z,\n                1.0 / directions[2].z,\n                1.0 / directions[2].z,")],
 "a packet whose last two rays differ in direction along z", "the last ray is tested with the reciprocal of its neighbour",
 fin('''    let b: Aabb = bx(vec3(0., 0., 5.), vec3(1., 1., 6.));
    let o = vec4(50., 50., 50., 0.);
    let mut p = RayPacket4::new([o, o, o, vec4(0.5, 0.5, 0., 0.)], [vec4(0., 1., 0.5, 0.), vec4(0., 1., 0.5, 0.), vec4(0., 1., -0.5, 0.), vec4(0.001, 0.001, 1., 0.)]);
    p.t[0] = 1e34;
    assert!(b.intersect4(&p).is_some());'''))

S("quad-sibling-box", "C09", [("src/mbvh_node.rs", "                            mbvh_pool[m_index]\n                                .set_bounds_bb(3, &bvh_pool[left_first as usize + 1].bounds);", "                            mbvh_pool[m_index]\n                                .set_bounds_bb(3, &bvh_pool[left_first as usize].bounds);", 0)],
 "a right child whose second child is a leaf", "the leaf's slot carries its sibling's box",
 fin('''    let l = |i: i32| node(vec3(10. * i as f32, 0., 0.), vec3(10. * i as f32 + 1., 1., 1.), 1, i);
    let n = vec![node(vec3(0., 0., 0.), vec3(31., 1., 1.), -1, 1), node(vec3(0., 0., 0.), vec3(11., 1., 1.), -1, 3), node(vec3(20., 0., 0.), vec3(31., 1., 1.), -1, 5), l(0), l(1), l(2), l(3)];
    let m = Mbvh::construct_from_raw(&n, &[0, 1, 2, 3]);
    let (lo, hi) = (m.quad_nodes()[0].min_points().0, m.quad_nodes()[0].max_points().0);
    assert!(lo[3] <= 30.0 && hi[3] >= 31.0);'''))

S("quad-count-of-sibling", "C09", [("src/mbvh_node.rs", "                            nodes[2] = bvh_pool[left_first as usize].get_left_first_unchecked();\n                            leafs[2] = bvh_pool[left_first as usize].get_count_unchecked();", "                            nodes[2] = bvh_pool[left_first as usize].get_left_first_unchecked();\n                            leafs[2] = bvh_pool[left_node as usize].get_count_unchecked().max(1);")],
 "a right child whose first child is a leaf that holds another number of primitives than the left child's leaves", "primitives of the leaf are lost",
 fin('''    let l = |i: i32, c: i32| node(vec3(10. * i as f32, 0., 0.), vec3(10. * i as f32 + 1., 1., 1.), c, i);
    let n = vec![node(vec3(0., 0., 0.), vec3(31., 1., 1.), -1, 1), node(vec3(0., 0., 0.), vec3(11., 1., 1.), -1, 3), node(vec3(20., 0., 0.), vec3(31., 1., 1.), -1, 5), l(0, 1), l(1, 1), l(2, 2), l(4, 1)];
    let m = Mbvh::construct_from_raw(&n, &[0, 1, 2, 3, 4]);
    assert_eq!(m.quad_nodes()[0].counts[2], 2);'''))

S("quad-packet-first-t", "C10", [("src/mbvh_node.rs", "            let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));", "            let less_than_t = t_min.cmplt(Vec4::splat(packet.t[0]));")],
 "a packet whose first ray has found something nearer than a box that another ray crosses", "the box is skipped for the other ray",
 fin('''    let v: Vec<P> = (0..4).map(|i| prim(vec3(3. * i as f32, 0., 5.), vec3(3. * i as f32 + 1., 1., 6.))).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let m = Mbvh::construct(&b);
    let f = |x: f32| vec4(x, 0.5, 0., 0.);
    let d = vec4(0., 0., 1., 0.);
    let mut p = RayPacket4::new([f(0.5), f(3.5), f(6.5), f(9.5)], [d; 4]);
    p.t[0] = 1.0;
    assert!(m.traverse_iter_indices_packet(&mut p).map(|x| x.0).collect::<Vec<_>>().contains(&2));'''))

S("quad-index-leaf-order", "C10", [("src/iter_indices.rs", "                        self.j = 0;\n", "                        self.j = (self.j > 4) as i32;\n", 0)],
 "leaves of more than four primitives in a four-wide tree", "the leaf after a large one loses its first primitive",
 fin('''    let b = |i: i32, c: i32, n: i32| node(vec3(10. * i as f32, 0., 0.), vec3(10. * i as f32 + 5., 1., 1.), n, c);
    let nodes = vec![node(vec3(0., 0., 0.), vec3(31., 1., 1.), -1, 1), node(vec3(0., 0., 0.), vec3(15., 1., 1.), -1, 3), node(vec3(20., 0., 0.), vec3(35., 1., 1.), -1, 5), b(0, 0, 5), b(1, 5, 5), b(2, 10, 5), b(3, 15, 5)];
    let idx: Vec<u32> = (0..20).collect();
    let m = Mbvh::construct_from_raw(&nodes, &idx);
    let mut r = Ray::new(vec3(-5., 0.5, 0.5), vec3(1., 0.0001, 0.0001));
    let mut s: Vec<u32> = m.traverse_iter_indices(&mut r).map(|x| x.0).collect();
    s.sort();
    assert_eq!(s, idx);'''))

S("refit-large-leaf", "C11", [("src/bvh.rs", "                    for i in 0..count {\n                        let prim_id = self.prim_indices[(left_first + i as u32) as usize] as usize;\n                        aabb", "                    for i in 0..count.min(8) {\n                        let prim_id = self.prim_indices[(left_first + i as u32) as usize] as usize;\n                        aabb")],
 "a leaf of more than eight primitives", "the box ignores all but the first eight",
 fin('''    let v: Vec<P> = (0..12).map(|_| prim(vec3(0., 0., 0.), vec3(1., 1., 1.))).collect();
    let mut b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let w: Vec<P> = (0..12).map(|i| prim(vec3(i as f32, 0., 0.), vec3(i as f32 + 1., 1., 1.))).collect();
    let bb: Vec<Aabb> = w.iter().map(|p| p.bb).collect();
    b.refit(&bb);
    assert!(enclosed(&b, &w));'''))

S("intersects-sign-mix", "C12", [("src/aabb.rs", "        let z_max = (self[1 - ray.sign_z()].z - ray.origin.z) * ray.inv_direction.z;", "        let z_max = (self[1 - ray.sign_y()].z - ray.origin.z) * ray.inv_direction.z;", 1)],
 "a direction whose y and z components have different signs, the boolean test", "the exit through z is taken from the wrong face",
 fin('''    let b: Aabb = bx(vec3(0., 0., 0.), vec3(1., 1., 1.));
    let r = Ray::new(vec3(0.5, 2.0, -1.0), vec3(0.001, -1., 1.));
    assert_eq!(b.intersects(&r), b.intersect(&r).is_some());
    assert!(b.intersects(&r));'''))

S("packet-tmin-ignored", "C14", [("src/builders/spatial_sah.rs", "        let mask = mask.bitand(t_value.cmpge(t_min) & t_value.cmplt(packet.t));", "        let mask = mask.bitand(t_value.cmpge(t_min.min(Vec4::ZERO)) & t_value.cmplt(packet.t));")],
 "a triangle nearer than the given smallest distance", "the packet test reports it",
 fin('''    let t = P { bb: bx(vec3(0., 0., 0.), vec3(0., 0., 0.)), c: vec3(0., 0., 0.) };
    #[derive(Debug)] struct T; 
    impl SpatialTriangle for T { fn vertex0(&self) -> Vec3 { vec3(0., 0., 1.) } fn vertex1(&self) -> Vec3 { vec3(4., 0., 1.) } fn vertex2(&self) -> Vec3 { vec3(0., 4., 1.) } }
    let _ = t;
    let o = vec4(1., 1., 0., 0.);
    let mut p = RayPacket4::new([o; 4], [vec4(0., 0., 1., 0.); 4]);
    assert!(T.intersect4(&mut p, Vec4::splat(2.0)).is_none());'''))

S("longest-axis-mid", "C15", [("src/aabb.rs", "        if self.extend(2) > self.extend(a) {", "        if self.extend(2) > self.extend(0) {")],
 "a box that is longest in y, then z, then x", "the second longest axis is returned",
 fin('''    let b: Aabb = bx(vec3(0., 0., 0.), vec3(1., 3., 2.));
    assert_eq!(b.longest_axis(), 1);'''))

S("morton-coarse-sort", "C16", [("src/morton.rs", "            morton_codes[a].cmp(&morton_codes[b])\n", "            (morton_codes[a] >> 1).cmp(&(morton_codes[b] >> 1))\n", 0)],
 "two primitives whose codes differ in the lowest bit only", "the order of the two does not follow their codes",
 fin('''    let world: Aabb = bx(vec3(0., 0., 0.), vec3(1024., 1024., 1024.));
    let e = MortonEncoder::new(&world, 1024);
    let b: Vec<Aabb> = [1.5f32, 0.5, 7.5, 6.5].iter().map(|x| bx(vec3(*x - 0.1, 0.4, 0.4), vec3(*x + 0.1, 0.6, 0.6))).collect();
    let (idx, codes) = e.get_sorted_indices(&b, &b);
    for w in idx.windows(2) { assert!(codes[w[0] as usize] <= codes[w[1] as usize]); }'''))

FFI = '''#![allow(dead_code, non_snake_case)]
#[path = "FFISRC"]
mod ffi;
'''
FFID = """#!/bin/bash
# builds main.rs around the C interface's source in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
sed "s#FFISRC#$PWD/rtbvh_ffi/src/lib.rs#" "$here/main.rs" > "$t/src/main.rs"
cp "$PWD/rtbvh_ffi/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
rtbvh = { path = "$PWD" }
glam = ">=0.14"
lazy_static = "1.4.0"
parking_lot = "0.11"
[workspace]
X
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline --quiet
"""
FM = FFI + '''use ffi::*;
use std::ffi::c_void;
extern "C" fn all(i: u32, _t: *mut f32, u: *mut c_void) -> bool { unsafe { (*(u as *mut Vec<u32>)).push(i); } false }
extern "C" fn stop(i: u32, t: *mut f32, u: *mut c_void) -> bool { unsafe { (*(u as *mut Vec<u32>)).push(i); *t = 3.5; } true }
fn bvh() -> RTBvh {
    let boxes: Vec<RTAabb> = (0..4).map(|i| RTAabb { min: [3. * i as f32, 0., 0.], count: 0, max: [3. * i as f32 + 1., 1., 1.], left_first: 0 }).collect();
    let c: Vec<[f32; 4]> = boxes.iter().map(|b| [b.min[0] + 0.5, 0.5, 0.5, 77.0]).collect();
    let mut r = RTBvh::default();
    let e = unsafe { create_bvh(boxes.as_ptr(), 4, c.as_ptr() as *const f32, 16, 1, ffi::BvhType::BinnedSAH, &mut r) };
    assert!(e == ResultCode::Ok);
    r
}
'''
S("ffi-early-out-t", "C18", [("rtbvh_ffi/src/lib.rs", "        if intersect(index, &mut ray.t, user_data) {\n            break;", "        if intersect(index, &mut ray.t, user_data) {\n            return ResultCode::Ok;", 0)],
 "a callback that ends the search", "the distance it found is not handed back",
 FM + '''fn main() { let b = bvh(); let mut u: Vec<u32> = vec![]; let mut t = 1e30f32; let (o, d) = ([-5f32, 0.5, 0.5], [1f32, 0., 0.]);
    unsafe { intersect(b, o.as_ptr(), d.as_ptr(), &mut t, &mut u as *mut _ as *mut c_void, stop); } assert!(t == 3.5); }
''', demo_sh=FFID)
S("ffi-nan-both", "C18", [("rtbvh_ffi/src/lib.rs", "    if origin.is_nan() || direction.is_nan() {\n        return ResultCode::Nan;", "    if origin.is_nan() && direction.is_nan() {\n        return ResultCode::Nan;", 1)],
 "a query on a four-wide tree with NaN in the origin or the direction only", "the query reports success",
 FM + '''fn main() { let b = bvh(); let mut m = RTMbvh::default(); unsafe { assert!(create_mbvh(b, &mut m) == ResultCode::Ok); } let mut u: Vec<u32> = vec![]; let mut t = 1e30f32; let (o, d) = ([-5f32, 0.5, 0.5], [f32::NAN, 0., 0.]);
    let r = unsafe { intersect_mbvh(m, o.as_ptr(), d.as_ptr(), &mut t, &mut u as *mut _ as *mut c_void, all) }; assert!(r == ResultCode::Nan); }
''', demo_sh=FFID)
S("ffi-quad-packet-y", "C18", [("rtbvh_ffi/src/lib.rs", "        inv_direction_y: Vec4::ONE / direction_y,\n", "        inv_direction_y: Vec4::ONE / direction_x,\n", 1)],
 "a packet query on a four-wide tree with directions that differ in x and y", "the packet's reciprocals do not belong to its directions",
 FM + '''fn main() { let b = bvh(); let mut m = RTMbvh::default(); unsafe { assert!(create_mbvh(b, &mut m) == ResultCode::Ok); } let mut u: Vec<u32> = vec![]; let mut t = [1e30f32; 4];
    let (ox, oy, oz) = ([-5f32; 4], [0.9f32; 4], [0.5f32; 4]); let (dx, dy, dz) = ([1f32; 4], [-0.01f32; 4], [0.001f32; 4]);
    unsafe { intersect_mbvh_packet(m, ox.as_ptr(), oy.as_ptr(), oz.as_ptr(), dx.as_ptr(), dy.as_ptr(), dz.as_ptr(), t.as_mut_ptr(), &mut u as *mut _ as *mut c_void, all); } u.sort(); assert_eq!(u, [0, 1, 2, 3]); }
''', demo_sh=FFID)
S("ffi-spatial-stride", "C18", [("rtbvh_ffi/src/lib.rs", "            center_stride: stride as u32,", "            center_stride: stride.min(12) as u32,")],
 "centres of triangles more than 12 bytes apart", "centres are read from the wrong places",
 FFI + '''use ffi::*;
use std::cell::Cell;
thread_local!(static X: Cell<u32> = Cell::new(0));
fn main() {
    // centres far from the padding between them
    let n = 8usize;
    let v: Vec<[f32; 3]> = (0..n).flat_map(|i| { let f = 10. * i as f32; vec![[f, 0., 0.], [f + 1., 0., 0.], [f, 1., 0.5]] }).collect();
    let mut r = [RTBvh::default(), RTBvh::default()];
    for (k, pad) in [0f32, 1000.].iter().enumerate() {
        let c: Vec<[f32; 4]> = (0..n).map(|i| [10. * i as f32 + 0.3, 0.3, 0.1, pad * (8 - i) as f32]).collect();
        unsafe { assert!(create_spatial_Bvh(std::ptr::null(), n, c.as_ptr() as *const f32, 16, v.as_ptr() as *const f32, 12, 36, 1, &mut r[k]) == ResultCode::Ok); }
    }
    let t = |b: &RTBvh| { let s = format!("{:?}", b); let _ = s; b.clone() };
    let (a, b) = (t(&r[0]), t(&r[1]));
    // the padding does not matter
    let nodes = |b: RTBvh| { let mut hits = vec![]; for i in 0..n { let mut u: Vec<u32> = vec![]; let mut d = 1e30f32; let (o, dir) = ([10. * i as f32 + 0.2, 0.2f32, -5.], [0f32, 0., 1.]); unsafe { intersect(b, o.as_ptr(), dir.as_ptr(), &mut d, &mut u as *mut _ as *mut std::ffi::c_void, all); } hits.push(u); } hits };
    assert_eq!(nodes(a), nodes(b));
}
extern "C" fn all(i: u32, _t: *mut f32, u: *mut std::ffi::c_void) -> bool { unsafe { (*(u as *mut Vec<u32>)).push(i); } false }
''', demo_sh=FFID)
