PRE = '''use glam::*;
use rtbvh::*;
#[allow(dead_code)]
#[derive(Debug, Copy, Clone)]
struct P { bb: Aabb, c: Vec3 }
impl Primitive for P { fn center(&self) -> Vec3 { self.c } fn aabb(&self) -> Aabb { self.bb } }
impl SpatialTriangle for P { fn vertex0(&self) -> Vec3 { self.bb.min } fn vertex1(&self) -> Vec3 { self.bb.max } fn vertex2(&self) -> Vec3 { vec3(self.bb.min.x, self.bb.max.y, self.bb.max.z) } }
#[allow(dead_code)]
fn bx(a: Vec3, b: Vec3) -> Aabb { Aabb { min: a, max: b, extra1: 0, extra2: 0 } }
#[allow(dead_code)]
fn prim(a: Vec3, b: Vec3) -> P { P { bb: bx(a, b), c: (a + b) * 0.5 } }
#[allow(dead_code)]
fn node(a: Vec3, b: Vec3, count: i32, first: i32) -> BvhNode { BvhNode { bounds: Aabb { min: a, max: b, extra1: count, extra2: first } } }
/// every primitive under a node lies in its box
#[allow(dead_code)]
fn enclosed(b: &Bvh, p: &[P]) -> bool {
    fn go(b: &Bvh, p: &[P], i: usize, path: &mut Vec<usize>, ok: &mut bool) {
        path.push(i);
        let n = &b.nodes()[i].bounds;
        if n.extra1 >= 0 { for k in n.extra2..n.extra2 + n.extra1 { let q = &p[b.indices()[k as usize] as usize].bb; for &a in path.iter() { let o = &b.nodes()[a].bounds; if !(o.min.cmple(q.min).all() && q.max.cmple(o.max).all()) { *ok = false; } } } }
        else { go(b, p, n.extra2 as usize, path, ok); go(b, p, n.extra2 as usize + 1, path, ok); }
        path.pop();
    }
    let mut ok = true;
    go(b, p, 0, &mut vec![], &mut ok);
    ok
}
'''
def fin(body): return PRE + "fn main() {\n" + body + "\n}\n"
SEEDS = []
def S(id, prop, edits, needs, breaks, main): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main))

S("binned-fallback-boxes", "C05", [
 ("src/builders/binned_sah.rs", "        let mut split_index = best_splits[best_axis].count as usize;\n", "        let mut split_index = best_splits[best_axis].count as usize;\n        let split_bins = best_axis;\n"),
 ("src/builders/binned_sah.rs", "            let bins = &self.bins_per_axis[best_axis];", "            let bins = &self.bins_per_axis[split_bins];")],
 "a node whose cheapest split is not worth it and whose longest axis is another one (strongly overlapping boxes)", "child boxes come from the bins of an axis other than the one partitioned on, so they miss primitives",
 fin('''    let mut ok = true;
    for s in 0..40u32 {
        let v: Vec<P> = (0..9u32).map(|i| { let f = ((i * 7 + s) % 9) as f32; let g = ((i * 5 + s * 3) % 9) as f32; prim(vec3(-f, -g, -f * 0.5), vec3(g + 1.0, f + 2.0 + s as f32, 3.0 + g)) }).collect();
        let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
        ok &= enclosed(&b, &v);
    }
    assert!(ok, "a primitive is outside of its node");'''))

S("sort-tie-drops-child", "C07", [
 ("src/bvh_node.rs", '''            stack_ptr += 1;
            if t_near_left < t_near_right {
                hit_stack.set(stack_ptr as usize, left_first);
                stack_ptr += 1;
                hit_stack.set(stack_ptr as usize, left_first + 1);
            } else {
                hit_stack.set(stack_ptr as usize, left_first + 1);
                stack_ptr += 1;
                hit_stack.set(stack_ptr as usize, left_first);
            }
        } else if left.is_some() {''', '''            stack_ptr += 1;
            if t_near_left < t_near_right {
                hit_stack.set(stack_ptr as usize, left_first);
                stack_ptr += 1;
                hit_stack.set(stack_ptr as usize, left_first + 1);
            } else if t_near_left > t_near_right {
                hit_stack.set(stack_ptr as usize, left_first + 1);
                stack_ptr += 1;
                hit_stack.set(stack_ptr as usize, left_first);
            } else {
                hit_stack.set(stack_ptr as usize, left_first);
            }
        } else if left.is_some() {''', 0)],
 "both children of a node are left at exactly the same distance", "the right child is skipped",
 fin('''    let nodes = vec![node(vec3(0., 0., 0.), vec3(10., 10., 10.), -1, 1), node(vec3(0., 0., 0.), vec3(10., 10., 4.), 1, 0), node(vec3(0., 0., 0.), vec3(10., 10., 9.), 1, 1)];
    let mut r = Ray::new(vec3(-5., 5., 2.), vec3(1., 0., 0.));
    let n = BvhIndexIterator::from_slices(&mut r, &nodes, &[0, 1]).count();
    assert_eq!(n, 2);'''))

S("quad-prune-exit", "C10", [
 ("src/mbvh_node.rs", "let result = t_max.cmpge(t_min) & t_min.cmplt(Vec4::splat(ray.t));", "let result = t_max.cmpge(t_min) & t_max.cmplt(Vec4::splat(ray.t));")],
 "the ray's current distance lies inside a child box", "the child is pruned although a nearer hit may be in it",
 fin('''    let v: Vec<P> = (0..9).map(|i| { let f = i as f32 * 0.5; prim(vec3(f, 0., 0.), vec3(f + 3., 1., 1.)) }).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let m = Mbvh::construct(&b);
    let mut r = Ray::new(vec3(-5., 0.5, 0.5), vec3(1., 0., 0.));
    r.t = 9.5;
    let n = m.traverse_iter_indices(&mut r).count();
    assert_eq!(n, 9);'''))

S("quad-leaf-count", "C09", [
 ("src/mbvh_node.rs", "                            leafs[3] = bvh_pool[left_first as usize + 1].get_count_unchecked();", "                            leafs[3] = bvh_pool[left_first as usize].get_count_unchecked().max(1);")],
 "a right grandchild leaf whose sibling holds a different number of primitives", "the leaf's range has the wrong length, primitives are lost or foreign ones visited",
 fin('''    let u = |c, f| node(vec3(0., 0., 0.), vec3(1., 1., 1.), c, f);
    let nodes = vec![u(-1, 1), u(-1, 3), u(-1, 5), u(1, 0), u(1, 1), u(1, 2), u(3, 3)];
    let m = Mbvh::construct_from_raw(&nodes, &[0, 1, 2, 3, 4, 5]);
    let mut r = Ray::new(vec3(-5., 0.5, 0.5), vec3(1., 0., 0.));
    let n = m.traverse_iter_indices(&mut r).count();
    assert_eq!(n, 6);'''))

S("refit-never-shrinks", "C11", [
 ("src/bvh.rs", "            let mut aabb = Aabb::new();\n\n            // Check if node is valid", "            let mut aabb = self.nodes[i].bounds;\n\n            // Check if node is valid")],
 "a second refit, or primitives that moved away or shrank", "boxes accumulate all earlier positions and grow without bound",
 fin('''    let v: Vec<P> = (0..5).map(|i| { let f = i as f32 * 3.; prim(vec3(f, 0., 0.), vec3(f + 1., 1., 1.)) }).collect();
    let mut b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let far: Vec<Aabb> = v.iter().map(|p| bx(p.bb.min + 1000., p.bb.max + 1000.)).collect();
    b.refit(&far);
    assert!(b.bounds().min.x > 900.);'''))

S("reflect-stale-signs", "C13", [
 ("src/ray.rs", '''        let signs = [
            direction.x.is_sign_negative() as u8,
            direction.y.is_sign_negative() as u8,
            direction.z.is_sign_negative() as u8,
            0,
        ];

        Ray {
            origin: hit_point + direction * epsilon,
            direction,
            inv_direction: Vec3::ONE / direction,
            t_min: Self::DEFAULT_T_MIN,
            t: Self::DEFAULT_T_MAX,
            signs,''', '''        Ray {
            origin: hit_point + direction * epsilon,
            direction,
            inv_direction: Vec3::ONE / direction,
            t_min: Self::DEFAULT_T_MIN,
            t: Self::DEFAULT_T_MAX,
            signs: self.signs,''')],
 "a reflected ray is used for a query", "the signs belong to the incoming direction, box tests of the reflected ray fail",
 fin('''    let r = Ray::new(vec3(0., 0., 0.), vec3(1., 0.5, 0.25)).reflect(vec3(2., 1., 0.5), vec3(-1., 0., 0.), 1e-4);
    let b: Aabb = bx(vec3(-100., -10., -10.), vec3(1., 10., 10.));
    assert!(b.intersect(&r).is_some());'''))

S("packet-min-distance", "C14", [
 ("src/builders/spatial_sah.rs", "packet.t = Vec4::select(mask, t_value, packet.t);", "packet.t = packet.t.min(t_value);")],
 "a packet of which some rays hit the triangle and others pass it", "rays that miss the triangle record the distance to its plane",
 fin('''    let t = prim(vec3(0., 0., 5.), vec3(4., 4., 5.));
    let o = vec4(1., 2., 0., 0.);
    let mut p = RayPacket4::new([o, vec4(100., 0., 0., 0.), o, o], [vec4(0., 0., 1., 0.); 4]);
    let r = t.intersect4(&mut p, Vec4::splat(1e-4));
    assert!(r.is_some() && r.unwrap()[0] && !r.unwrap()[1]);
    assert!(p.t[1] == 1e34);'''))

S("morton-last-cell", "C16", [
 ("src/morton.rs", "let min = (self.grid_dim - 1) as i32;", "let min = self.grid_dim as i32;")],
 "a point on or beyond the upper face of the box", "the cell index leaves the grid and its bits run into another axis",
 fin('''    let e = MortonEncoder::new(&bx(vec3(0., 0., 0.), vec3(8., 8., 8.)), 1024);
    assert_eq!(e.encode([8.0f32, 1., 1.]) & 0x09249249, 0x09249249);'''))

S("split-third-edge", "C06", [
 ("src/builders/spatial_sah.rs", "        if q2 ^ q0 {\n            let m = split_edge(p[2], p[0]);", "        else if q2 ^ q0 {\n            let m = split_edge(p[2], p[0]);")],
 "the third vertex alone is on one side of the plane", "one of the two cut points is missing from both boxes, part of the triangle is lost",
 fin('''    #[derive(Debug)] struct T; impl SpatialTriangle for T { fn vertex0(&self) -> Vec3 { vec3(0., 0., 0.) } fn vertex1(&self) -> Vec3 { vec3(0., 9., 0.) } fn vertex2(&self) -> Vec3 { vec3(10., 20., 0.) } }
    let (_, r) = T.split(0, 5.0);
    assert!(r.min.y <= 10.001);'''))

S("lengths-swapped", "C01", [
 ("src/bvh.rs", '''                    aabbs.len(),
                    self.primitives.len(),
                ));
            }

            Ok(LocallyOrderedClusteringBuilder''', '''                    self.primitives.len(),
                    aabbs.len(),
                ));
            }

            Ok(LocallyOrderedClusteringBuilder''')],
 "the clustering builder is given a different number of boxes than primitives", "the error names the two lengths in the wrong order",
 fin('''    let v = [prim(vec3(0., 0., 0.), vec3(1., 1., 1.)); 3];
    let bb = [v[0].bb; 2];
    let e = Builder { aabbs: Some(&bb), primitives: &v, primitives_per_leaf: None }.construct_locally_ordered_clustered().unwrap_err();
    assert_eq!(e, BuildError::InequalAabbsAndPrimitives(2, 3));'''))

S("single-prune-exit", "C21", [
 ("src/aabb.rs", '''        if ray_max > ray.t_min {
            Some(ray_max)''', '''        if ray_max > ray.t_min && ray_max < ray.t {
            Some(ray_max)''')],
 "a visitor that shortens the ray while boxes overlap the remaining part", "boxes that reach beyond the current distance are skipped although the nearest hit may be in them",
 fin('''    let v = [prim(vec3(0., 0., 0.), vec3(10., 1., 1.)), prim(vec3(2., 0., 0.), vec3(12., 1., 1.)), prim(vec3(1., 0., 0.), vec3(3., 1., 1.)), prim(vec3(0.5, 0., 0.), vec3(30., 1., 1.))];
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    let mut r = Ray::new(vec3(-5., 0.5, 0.5), vec3(1., 0., 0.));
    for (p, r) in b.traverse_iter(&mut r, &v) { let t = p.bb.min.x + 5.; if t < r.t { r.t = t; } }
    assert_eq!(r.t, 5.0);'''))

S("spatial-third-axis-range", "C04", [
 ("src/builders/spatial_sah.rs", '''        self.references[other_axis.1].as_mut()[self.work_item.begin..self.work_item.end]
            .sort_by(partition_predicate);

''', '''        if self.work_item.work_size() > 2 {
            self.references[other_axis.1].as_mut()[self.work_item.begin..self.work_item.end]
                .sort_by(partition_predicate);
        }

''')],
 "a leaf pair that is split on an axis whose neighbour orders the two references the other way round", "one primitive is stored twice and the other is lost",
 fin('''    let mut ok = true;
    for s in 0..60u32 {
        let v: Vec<P> = (0..7u32).map(|i| { let a = vec3(((i * 7 + s) % 11) as f32, ((i * 5 + s * 3) % 13) as f32, ((i * 3 + s) % 7) as f32); prim(a, a + vec3(10., 40., 10.)) }).collect();
        let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_spatial_sah().unwrap();
        ok &= b.validate(v.len());
    }
    assert!(ok);'''))

S("locb-unsorted-boxes", "C05", [
 ("src/builders/locb.rs", "node.bounds = self.aabbs[prim_indices[i] as usize].with_offset(0.0001);", "node.bounds = self.aabbs[i].with_offset(0.0001);")],
 "primitives that are not already in Morton order", "leaves carry the boxes of other primitives",
 fin('''    let v: Vec<P> = (0..5).map(|i| { let f = (4 - i) as f32 * 3.; prim(vec3(f, 0., 0.), vec3(f + 1., 1., 1.)) }).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_locally_ordered_clustered().unwrap();
    assert!(enclosed(&b, &v));'''))

S("binned-nan-bin", "C02", [
 ("src/builders/binned_sah.rs", '''            if self.work_size() > self.builder.max_leaf_size {
                // Fallback''', '''            if self.work_size() > self.builder.max_leaf_size && self.depth == 0 {
                // Fallback'''),
 ("src/builders/binned_sah.rs", '''        if begin_right > self.begin && begin_right < self.end {
            // Allocate''', '''        if begin_right > self.begin {
            // Allocate''')],
 "a node in which every primitive falls left of the chosen split", "empty leaves are made, nodes overflow their array",
 fin('''    let v: Vec<P> = (0..6).map(|_| prim(vec3(1., 2., 3.), vec3(4., 5., 6.))).collect();
    let b = Builder { aabbs: None, primitives: &v, primitives_per_leaf: None }.construct_binned_sah().unwrap();
    assert!(b.nodes().len() <= 11);
    for n in b.nodes() { assert!(n.bounds.extra1 != 0); }'''))

S("packet-any-lane", "C08", [
 ("src/aabb.rs", "        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min) & t_min.cmplt(packet.t);\n        if mask.any() {", "        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min);\n        if mask.any() && t_min.cmplt(packet.t).all() {")],
 "a packet in which one ray has already found a hit nearer than a box that another ray still crosses", "the box is skipped for all four rays",
 fin('''    let b: Aabb = bx(vec3(0., 0., 5.), vec3(4., 4., 6.));
    let o = vec4(1., 1., 0., 0.);
    let mut p = RayPacket4::new([o, o, o, o], [vec4(0., 0., 1., 0.); 4]);
    p.t[2] = 1.0;
    assert!(b.intersect4(&p).is_some());'''))

S("corners-transform", "C15", [
 ("src/aabb.rs", "            min + y_l + z_l,\n        ]", "            min + x_l + z_l,\n        ]")],
 "a transformation under which the corner (min x, max y, max z) is extreme", "the transformed box misses that corner",
 fin('''    let b: Aabb = bx(vec3(0., 0., 0.), vec3(10., 10., 10.));
    let t = b.transformed(Mat4::from_cols(vec4(-1., 0., 0., 0.), vec4(1., 1., 0., 0.), vec4(1., 0., 1., 0.), vec4(0., 0., 0., 1.)));
    assert!(t.max.x >= 20.0);'''))

S("intersect-inside", "C12", [
 ("src/aabb.rs", '''        if z_max < ray_max {
            ray_max = z_max;
        }

        ray_max > 0.0''', '''        if z_min > ray_min {
            ray_min = z_min;
        }

        if z_max < ray_max {
            ray_max = z_max;
        }

        ray_max > 0.0 && ray_min + ray_max > 0.0''')],
 "a ray that starts inside a box, nearer to its exit than to the face behind it", "the boolean box test denies the hit",
 fin('''    let b: Aabb = bx(vec3(0., 0., 0.), vec3(10., 10., 10.));
    let r = Ray::new(vec3(8., 5., 5.), vec3(1., 0.001, 0.001));
    assert!(b.intersects(&r) && b.intersect(&r).is_some());'''))
