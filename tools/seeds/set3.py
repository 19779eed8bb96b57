import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "set2.py")).read().split('S("ffi-early-out-t"')[0])
SEEDS = []
TRIS = '''
#[allow(dead_code)]
fn tris(n: u32, s: u32) -> Vec<P> { (0..n).map(|i| { let f = ((i * 7 + s) % n) as f32; let g = ((i * 5 + s * 3) % n) as f32; prim(vec3(-f, -g, -f * 0.5), vec3(g + 1.0, f + 2.0 + (s % 11) as f32, 3.0 + g)) }).collect() }
#[allow(dead_code)]
fn field(n: u32) -> Vec<P> { (0..n).map(|i| { let (f, g) = ((i * 37 % 300) as f32, (i * 23 % 310) as f32); prim(vec3(f, g, f * 0.3), vec3(f + 35.5, g + 22.0, f * 0.3 + 1.0 + g * 0.1)) }).collect() }
/// each leaf range lies in the index list, no two overlap, every primitive occurs
#[allow(dead_code)]
fn well_formed(b: &Bvh, n: usize) -> bool {
    let mut used = vec![false; b.indices().len()]; let mut seen = vec![false; n]; let mut reached = vec![false; b.nodes().len()]; let mut s = vec![0usize];
    while let Some(i) = s.pop() {
        if i >= reached.len() || reached[i] { return false; }
        reached[i] = true;
        let x = &b.nodes()[i].bounds;
        if x.extra1 < 0 { s.push(x.extra2 as usize); s.push(x.extra2 as usize + 1); continue; }
        for k in x.extra2 as usize..(x.extra2 + x.extra1) as usize { if k >= used.len() || used[k] { return false; } used[k] = true; seen[b.indices()[k] as usize] = true; }
    }
    seen.iter().all(|x| *x) && reached.iter().all(|x| *x)
}
'''
HASH = '''fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F) ^ c.wrapping_mul(0x1656_67B1_9E37_79F9);
    x ^= x >> 31; x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9); x ^= x >> 29; x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 32)
}
/// scattered scenes of different characters
fn hashed(style: u64, seed: u64, i: usize) -> (Vec3, Vec3) {
    let h = |k: u64, m: u64| (mix(seed + 17 * style, i as u64, k) % m) as f32;
    let g = |k: u64, m: u64| (mix(seed + 17 * style, 1000 + (i / 3) as u64, k) % m) as f32;
    match style {
        // small integers: many ties in centres and extents
        0 => { let a = vec3(h(0, 6), h(1, 6), h(2, 6)); (a, a + vec3(h(3, 3), h(4, 3), h(5, 3))) }
        // strongly overlapping boxes, long on an axis of their own
        1 => { let c = vec3(h(0, 5) * 0.25, h(1, 5) * 0.25, h(2, 5) * 0.25); let e = vec3(1.0 + h(3, 4) * 15.0, 1.0 + h(4, 4) * 15.0, 1.0 + h(5, 4) * 15.0); (c - e, c + e) }
        // groups of three identical boxes
        2 => { let a = vec3(g(0, 40), g(1, 40), g(2, 40)); (a, a + vec3(1.0 + g(3, 3), 1.0, 2.0)) }
        // flat boxes and points
        3 => { let a = vec3(h(0, 20) - 10.0, h(1, 20) - 10.0, h(2, 20) - 10.0); (a, a + vec3(h(3, 2) * 4.0, h(4, 2) * 4.0, h(5, 2) * 4.0)) }
        // sizes and distances over many orders of magnitude
        4 => { let s = (1u64 << h(3, 14) as u64) as f32; let a = vec3((h(0, 64) - 32.0) * s * 0.25, (h(1, 64) - 32.0) * s * 0.25, (h(2, 64) - 32.0) * s * 0.25); (a, a + vec3(s, s * 0.5, s * 0.25)) }
        // fractions, spread along z
        5 => { let a = vec3(h(0, 1000) * 0.01, h(1, 1000) * 0.01, h(2, 1000) * 0.1); (a, a + vec3(0.01 + h(3, 100) * 0.02, 0.01 + h(4, 100) * 0.02, 0.01 + h(5, 100) * 0.05)) }
        // a few huge boxes over many small ones
        6 => { let a = vec3(h(0, 100) - 50.0, h(1, 100) - 50.0, h(2, 100) - 50.0); let s = if h(3, 4) == 0.0 { 60.0 } else { 1.0 }; (a - vec3(s, s, s) * 0.5, a + vec3(s, s, s) * 0.5) }
        // centres on one line, extents growing across
        _ => { let f = i as f32; let a = vec3(f * 2.0, 0.0, 0.0); (a - vec3(1.0 + h(0, 3), 4.0 + h(1, 30), 5.0 + h(2, 30)), a + vec3(1.0 + h(0, 3), 4.0 + h(1, 30), 5.0 + h(2, 30))) }
    }
}


#[allow(dead_code)]
fn scenes(mut f: impl FnMut(&[P], &Bvh)) {
    for style in 0..8u64 { for seed in 0..8u64 { for n in [18usize, 27, 40, 60, 81] {
        let v: Vec<P> = (0..n).map(|i| { let (a, b) = hashed(style, seed, i); prim(a, b) }).collect();
        let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_spatial_sah().unwrap();
        f(&v, &b);
    } } }
}
/// each corner of each triangle is below boxes that hold it
#[allow(dead_code)]
fn corners_held(v: &[P], b: &Bvh) -> bool {
    let mut held = vec![[false; 3]; v.len()]; let mut s = vec![(0usize, v.iter().map(|_| [true; 3]).collect::<Vec<_>>())];
    while let Some((i, mut ok)) = s.pop() {
        let x = &b.nodes()[i].bounds;
        for (k, p) in v.iter().enumerate() { for (j, c) in [p.vertex0(), p.vertex1(), p.vertex2()].iter().enumerate() { ok[k][j] &= c.cmpge(x.min).all() && c.cmple(x.max).all(); } }
        if x.extra1 < 0 { s.push((x.extra2 as usize, ok.clone())); s.push((x.extra2 as usize + 1, ok)); continue; }
        for k in x.extra2 as usize..(x.extra2 + x.extra1) as usize { let id = b.indices()[k] as usize; for j in 0..3 { held[id][j] |= ok[id][j]; } }
    }
    held.iter().all(|h| h.iter().all(|x| *x))
}
'''
def fin3(body): return PRE + TRIS + "fn main() {\n" + body + "\n}\n"
SP = "src/builders/spatial_sah.rs"

S("spatial-room-plus-one", "C04", [(SP, "            if self.work_item.split_end - right_end > 0 {", "            if self.work_item.split_end + 1 - right_end > 0 {")],
 "a spatial split with more straddling triangles than room for references", "one reference too many is written, over a reference of the neighbouring node",
 PRE + TRIS + HASH + '''fn main() { scenes(|v, b| assert!(well_formed(b, v.len()))); }
''')
S("spatial-stale-axis", "C05", [(SP, """        self.references[(split.axis + 2) % 3].as_mut()[self.work_item.begin..right_end]
            .copy_from_slice(&references_to_split[self.work_item.begin..right_end]);""", """        self.references[(split.axis + 2) % 3].as_mut()[self.work_item.begin..self.work_item.end]
            .copy_from_slice(&references_to_split[self.work_item.begin..self.work_item.end]);""")],
 "a spatial split that duplicates references", "the list of one axis lacks the duplicates, so the children's three lists hold different triangles",
 PRE + TRIS + HASH + '''fn main() { scenes(|v, b| assert!(corners_held(v, b))); }
''')
S("scratch-boxes-shared", "C19", [(SP, "self.accumulated_aabbs.set(i, aabb);", "self.accumulated_aabbs.set(i - begin, aabb);"), (SP, "+ self.accumulated_aabbs[i + 1].half_area() *", "+ self.accumulated_aabbs[i + 1 - begin].half_area() *"), (SP, "right_box: self.accumulated_aabbs[i + 1],", "right_box: self.accumulated_aabbs[i + 1 - begin],")],
 "two threads that look for splits at the same time (more than 1024 triangles)", "they use the same entries of the scratch list of boxes, so costs and right boxes come from the other's node",
 PRE + TRIS + '''fn build(v: &[P]) -> Vec<String> { let b = Builder { aabbs: None, primitives: v, primitives_per_leaf: None }.construct_spatial_sah().unwrap(); let mut r = vec![]; let mut s = vec![0usize]; while let Some(i) = s.pop() { let n = &b.nodes()[i].bounds; r.push(format!("{:?} {:?} {}", n.min, n.max, n.extra1)); if n.extra1 < 0 { s.push(n.extra2 as usize); s.push(n.extra2 as usize + 1); } } r }
fn main() { let v = field(6000); let a = build(&v); for _ in 0..30 { assert!(build(&v) == a); } }
''')
S("quad-five-nodes", "C09", [("src/bvh.rs", "        if nodes.len() <= 4 {", "        if nodes.len() <= 5 {"), ("src/bvh.rs", "            for (i, node) in nodes.iter().enumerate() {", "            for (i, node) in nodes.iter().take(4).enumerate() {")],
 "a four-wide tree made from a slice of exactly five nodes", "the fifth node, a leaf, is left out",
 fin3('''    let v: Vec<P> = (0..3).map(|i| prim(vec3(i as f32 * 3., 0., 0.), vec3(i as f32 * 3. + 1., 1., 1.))).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    assert_eq!(b.nodes().len(), 5);
    let m = Mbvh::construct_from_raw(b.nodes(), b.indices());
    let mut count = vec![0; 3]; let mut s = vec![0usize]; let mut steps = 0;
    while let Some(i) = s.pop() { steps += 1; assert!(steps < 100); let q = &m.quad_nodes()[i]; for k in 0..4 { if q.counts[k] >= 0 { for j in 0..q.counts[k] { count[m.indices()[(q.children[k] + j) as usize] as usize] += 1; } } else if q.children[k] >= 0 { s.push(q.children[k] as usize); } } }
    assert_eq!(count, [1, 1, 1]);'''))
S("refit-keeps-root", "C11", [("src/bvh.rs", "        for i in (0..self.nodes.len()).rev() {", "        for i in (1..self.nodes.len()).rev() {")],
 "primitives that leave the box of the whole scene, or a tree of a single leaf", "the root keeps its old box",
 fin3('''    let mut v: Vec<P> = (0..5).map(|i| prim(vec3(i as f32 * 3., 0., 0.), vec3(i as f32 * 3. + 1., 1., 1.))).collect();
    let mut b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    for p in v.iter_mut() { p.bb = bx(p.bb.min * 5.0, p.bb.max * 5.0); }
    let n: Vec<Aabb> = v.iter().map(|p| p.bb).collect();
    b.refit(&n);
    assert!(enclosed(&b, &v));'''))
S("split-third-point", "C06", [(SP, "            let m = split_edge(p[2], p[0]);\n            left.grow(m);\n            right.grow(m);", "            let m = split_edge(p[2], p[0]);\n            if q2 {\n                right.grow(m);\n            } else {\n                left.grow(m);\n                right.grow(m);\n            }")],
 "a triangle whose third vertex is on the left and the first on the right of the plane", "the left box ends at the vertex, not at the plane",
 PRE + '''struct T([Vec3; 3]);
impl SpatialTriangle for T { fn vertex0(&self) -> Vec3 { self.0[0] } fn vertex1(&self) -> Vec3 { self.0[1] } fn vertex2(&self) -> Vec3 { self.0[2] } }
fn main() { for k in 0..3 { let mut v = [vec3(2., 0., 0.), vec3(3., 4., 0.), vec3(0., 1., 1.)]; v.rotate_left(k); let (l, _) = T(v).split(0, 1.0); assert!((l.max.x - 1.0).abs() < 1e-5 && l.max.y > 1.9 && l.min.y < 0.6); } }
''')
S("nearest-prune-leaving", "C21", [("src/aabb.rs", "        if ray_max > ray.t_min {\n            Some(ray_max)", "        if ray_max > ray.t_min && ray_max < ray.t {\n            Some(ray_max)")],
 "a visitor that shortens the ray to a point inside a box that holds a nearer hit", "the box is skipped because the ray leaves it only behind its end",
 fin3('''    let v: Vec<P> = vec![prim(vec3(0., 0., 0.), vec3(4., 1., 1.)), prim(vec3(5., 0., 0.), vec3(9., 1., 1.)), prim(vec3(2., 0., 0.), vec3(6., 1., 1.))];
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let mut r = Ray::new(vec3(-5., 0.5, 0.5), vec3(1., 0.001, 0.001));
    r.t = 5.5;
    assert!(b.traverse_iter_indices(&mut r).any(|i| i.0 == 0));'''))
S("leaf-count-byte", "C02", [("src/builders/binned_sah.rs", "node.set_count(Some((end - begin) as u32));", "node.set_count(Some((end - begin) as u8 as u32));")],
 "a leaf of more than 255 primitives (coinciding primitives or a large leaf size)", "the leaf's count wraps around, the other primitives are in no leaf",
 fin3('''    let v: Vec<P> = (0..300).map(|_| prim(vec3(0., 0., 0.), vec3(1., 1., 1.))).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    assert!(well_formed(&b, 300));'''))
S("ffi-free-shrinks", "C18", [("rtbvh_ffi/src/lib.rs", "            *m.get_mut() = Bvh::default();", "            if id as usize + 1 == count {\n                lock.truncate(id as usize);\n            } else {\n                *m.get_mut() = Bvh::default();\n            }"), ("rtbvh_ffi/src/lib.rs", "        let mut lock = self.structures.write();\n        if let", "        let mut lock = self.structures.write();\n        let count = lock.len();\n        if let")],
 "freeing the newest tree and building another", "the stale handle then names the new tree",
 FM + '''fn main() { let a = bvh(); let b = bvh(); unsafe { free_bvh(b); let c = bvh(); free_bvh(b); let mut u: Vec<u32> = vec![]; let mut t = 1e30f32; let (o, d) = ([-5f32, 0.5, 0.5], [1f32, 0.001, 0.001]);
    assert!(intersect(c, o.as_ptr(), d.as_ptr(), &mut t, &mut u as *mut _ as *mut c_void, all) == ResultCode::Ok); assert_eq!(u.len(), 4);
    let f: Vec<RTAabb> = (0..4).map(|_| RTAabb { min: [0.; 3], count: 0, max: [1.; 3], left_first: 0 }).collect();
    let mut m = RTMbvh::default(); assert!(create_mbvh(c, &mut m) == ResultCode::Ok); let _ = (a, f); } }
''', demo_sh=FFID)
S("ffi-triangle-stride", "C18", [("rtbvh_ffi/src/lib.rs", "            vertex0_offset: (i * triangle_stride / 4) as u32,", "            vertex0_offset: (i * triangle_stride.max(3 * vertex_stride) / 4) as u32,")],
 "triangles that share vertices in the array (a strip: the step to the next triangle is less than three vertices)", "vertices are read from behind the array's end",
 FM + '''fn main() {
    // a strip: triangle i uses vertices i, i + 1 and i + 2
    let n = 6usize; let mut v: Vec<[f32; 3]> = (0..n + 2).map(|i| [i as f32 * 2., (i % 2) as f32, 0.2 * i as f32]).collect(); for _ in 0..30 { v.push([900., 900., 900.]); }
    let c: Vec<[f32; 3]> = (0..n).map(|i| [0, 1, 2].map(|k| (v[i][k] + v[i + 1][k] + v[i + 2][k]) / 3.)).collect();
    let mut r = RTBvh::default();
    unsafe { assert!(create_spatial_Bvh(std::ptr::null(), n, c.as_ptr() as *const f32, 12, v.as_ptr() as *const f32, 12, 12, 1, &mut r) == ResultCode::Ok); }
    for i in 0..n { let mut u: Vec<u32> = vec![]; let mut t = 1e30f32; let (o, d) = ([c[i][0], c[i][1], -5.], [0.0001f32, 0.0001, 1.]); unsafe { intersect(r, o.as_ptr(), d.as_ptr(), &mut t, &mut u as *mut _ as *mut c_void, all); } assert!(u.contains(&(i as u32)), "{} {:?}", i, u); }
}
''', demo_sh=FFID)
