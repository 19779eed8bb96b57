//! Boxes, rays, packets, Morton codes, triangles.
use crate::common::*;
use crate::trav::{c3, crosses, direction, flat, inner, slab, R};
use crate::vx::*;
use glam::*;
use rtbvh::*;

fn ordered(r: f32) -> Aabb {
    let b = bx(c3(r), c3(r));
    for k in 0..3 { assume(b.min[k] <= b.max[k]); }
    b
}
/// a box that strictly encloses `b` with a margin
fn outer(b: &Aabb) -> Aabb {
    let q = bx(c3(2.0 * R), c3(2.0 * R));
    for k in 0..3 {
        assume((q.min[k] < b.min[k]) & (b.min[k] - q.min[k] > 0.01));
        assume((b.max[k] < q.max[k]) & (q.max[k] - b.max[k] > 0.01));
    }
    q
}
/// packet with the ray in `lane`; the other lanes start outside `b` and point away
fn packet_with(lane: usize, o: Vec3, d: Vec3, t: f32) -> RayPacket4 {
    let mut os = [vec4(0.0, 0.0, 0.0, 0.0); 4];
    let mut ds = [vec4(0.0, 0.0, 1.0, 0.0); 4];
    for l in 0..4 { if l == lane { os[l] = o.extend(0.0); ds[l] = d.extend(0.0); } else { os[l] = vec4(l as f32 * 5000.0 + 3000.0, 0.0, 0.0, 0.0); ds[l] = vec4(0.0, 1.0, 0.0, 0.0); } }
    let mut pk = RayPacket4::new(os, ds);
    pk.t[lane] = t;
    pk
}

/// C12: ray/box tests. param 0: 0 hit, 1 miss (ray passes beside), 2 behind the origin,
/// 3 beyond t (packet), 4 single-ray tests agree with each other and are monotone
/// param 14: lane
pub fn slab_test() {
    let mode = param(0, 0);
    let lane = param(14, 0) as usize;
    let mut b = ordered(R);
    if flat() < 3 { let k = flat(); b.max[k] = b.min[k]; }
    let (o, d) = (c3(R), direction());
    match mode {
        0 => {
            let q = inner(&b);
            let t = if param(15, 0) == 0 { 1e34 } else { f32_in(0.02, 1e34) };
            assume(crosses(&q, o, d, t));
            let mut ray = Ray::new(o, d);
            ray.t = t;
            let h = b.intersect(&ray);
            check(h.is_some(), 1);
            check(b.intersects(&ray), 2);
            if let Some(x) = h {
                let (_, f) = slab(&q, o, d);
                check(x >= f - 0.001 * (1.0 + f), 3);
            }
            let pk = packet_with(lane, o, d, t);
            let h4 = b.intersect4(&pk);
            check(h4.is_some(), 4);
            if let Some(x) = h4 {
                let (n, _) = slab(&q, o, d);
                check(x[lane] <= n + 0.001 * (1.0 + mx(n, -n)), 5);
            }
            cover(1);
        }
        1 | 2 => {
            let q = outer(&b);
            for k in 0..3 { assume((d[k] != 0.0) | ((q.min[k] != o[k]) & (o[k] != q.max[k]) & (b.min[k] != o[k]) & (b.max[k] != o[k]))); }
            let (n, f) = slab(&q, o, d);
            if mode == 1 { assume(n > f); } else { assume(f < 0.0); }
            let ray = Ray::new(o, d);
            check(b.intersect(&ray).is_none(), 1);
            check(!b.intersects(&ray), 2);
            check(b.intersect4(&packet_with(lane, o, d, 1e34)).is_none(), 4);
            cover(1);
        }
        3 => {
            // entry behind t: the packet test prunes
            let q = outer(&b);
            for k in 0..3 { assume((d[k] != 0.0) | ((b.min[k] != o[k]) & (b.max[k] != o[k]) & (q.min[k] != o[k]) & (q.max[k] != o[k]))); }
            let t = f32_in(0.0, 1e6);
            let (n, _) = slab(&q, o, d);
            assume(n >= t);
            check(b.intersect4(&packet_with(lane, o, d, t)).is_none(), 4);
            cover(1);
        }
        _ => {
            // a ray that starts inside a box hits it
            for k in 0..3 { assume(o[k] - b.min[k] > 0.01); assume(b.max[k] - o[k] > 0.01); }
            let ray = Ray::new(o, d);
            assume((d.x != 0.0) | (d.y != 0.0) | (d.z != 0.0));
            check(b.intersect(&ray).is_some(), 1);
            check(b.intersects(&ray), 2);
            check(b.intersect4(&packet_with(lane, o, d, 1e34)).is_some(), 4);
            cover(1);
        }
    }
}

fn any_ray() -> (Vec3, Vec3) { (any_point(), direction()) }
fn beq3(a: Vec3, b: Vec3) -> bool { bits_eq(a.x, b.x) & bits_eq(a.y, b.y) & bits_eq(a.z, b.z) }

/// C13: rays and packets carry the same rays
pub fn ray_ops() {
    match param(0, 0) {
        0 => {
            let mut os = [vec4(0.0, 0.0, 0.0, 0.0); 4];
            let mut ds = os;
            let lane = param(14, 0) as usize;
            for l in 0..4 {
                if l == lane { let (o, d) = any_ray(); os[l] = o.extend(7.0); ds[l] = d.extend(8.0); }
                else { os[l] = c3(R).extend(l as f32); let x = c3(1.0); ds[l] = x.extend(9.0); }
            }
            let mut pk = RayPacket4::new(os, ds);
            let (o, d) = (os[lane].truncate(), ds[lane].truncate());
            let r = pk.ray(lane);
            check(beq3(r.origin, o) & beq3(r.direction, d), 1);
            check(r == Ray::new(o, d), 2);
            let (x, y, z) = pk.origin_xyz();
            check(bits_eq(x[lane], o.x) & bits_eq(y[lane], o.y) & bits_eq(z[lane], o.z), 3);
            let (x, y, z) = pk.direction_xyz();
            check(bits_eq(x[lane], d.x) & bits_eq(y[lane], d.y) & bits_eq(z[lane], d.z), 4);
            check((pk.inv_direction_x[lane] == 1.0 / d.x) & (pk.inv_direction_y[lane] == 1.0 / d.y) & (pk.inv_direction_z[lane] == 1.0 / d.z), 5);
            check(pk.t()[lane] == 1e34, 6);
            let nt = f32_in(0.0, 1e34);
            pk.t[lane] = nt;
            let r = pk.ray(lane);
            check(r.t == nt, 7);
            for l in 0..4 { check(pk.t()[l] == if l == lane { nt } else { 1e34 }, 8); }
            // whatever the distance was, infinite or no number
            pk.t[lane] = f32::from_bits(u32_in(0, u32::MAX));
            pk.reset();
            for l in 0..4 { check(pk.t[l] == 1e34, 9); }
            cover(1);
        }
        1 => {
            let (o, d) = any_ray();
            let r = Ray::new(o, d);
            check(beq3(r.origin, o) & beq3(r.direction, d) & (r.t == 1e34) & (r.t_min > 0.0) & (r.t_min < 0.001), 1);
            check(Ray::from((o, d)) == r, 2);
            let (o2, d2) = <(Vec3, Vec3)>::from(r);
            check(beq3(o2, o) & beq3(d2, d), 3);
            let mut q = r;
            q.t = f32_in(0.0, 1e34);
            check(q.is_valid() == (q.t < 1e33), 4);
            let t = q.t;
            q.t = f32::from_bits(u32_in(0, u32::MAX));
            q.reset();
            check((q.t == 1e34) & !q.is_valid(), 5);
            check(q == r, 6);
            let _ = t;
            cover(1);
        }
        2 => {
            // reflection about an axis normal: like a new ray with that component mirrored
            let (o, d) = any_ray();
            let k = param(1, 0) as usize;
            let mut n = vec3(0.0, 0.0, 0.0);
            n[k] = if param(2, 0) == 0 { 1.0 } else { -1.0 };
            let p = c3(R);
            let e = f32_in(0.0, 1e-3);
            let r = Ray::new(o, d).reflect(p, n, e);
            for j in 0..3 { check(r.direction[j] == if j == k { -d[j] } else { d[j] }, 1); }
            check((r.t == 1e34) & (r.t_min == Ray::DEFAULT_T_MIN), 2);
            // starts at the hit point, offset along the new direction
            for j in 0..3 { check((r.origin[j] >= p[j]) | (r.direction[j] <= 0.0), 3); check((r.origin[j] <= p[j]) | (r.direction[j] >= 0.0), 4); check((r.origin[j] <= p[j] + 0.002) & (r.origin[j] >= p[j] - 0.002), 5); }
            // the precomputed parts belong to the new direction
            let mut f = Ray::new(r.origin, r.direction);
            f.t = r.t;
            check(f == r, 6);
            cover(1);
        }
        _ => {
            // get_point_at: monotone along the ray and exact at 0
            let (o, d) = (c3(R), direction());
            let r = Ray::new(o, d);
            let (t1, t2) = (f32_in(0.0, 1000.0), f32_in(0.0, 1000.0));
            assume(t1 <= t2);
            let (a, b) = (r.get_point_at(t1), r.get_point_at(t2));
            for k in 0..3 { if d[k] >= 0.0 { check(a[k] <= b[k], 1); check(a[k] >= o[k], 2); } else { check(a[k] >= b[k], 1); check(a[k] <= o[k], 2); } }
            check(same_v(r.get_point_at(0.0), o), 3);
            cover(1);
        }
    }
}

/// C15: laws of the box operations. param 0: group
pub fn aabb_ops() {
    match param(0, 0) {
        0 => {
            // grow, grow_bb, union_of: smallest box that contains both
            let (a, b) = (any_box(), any_box());
            let p = any_point();
            let mut g: Aabb = a;
            g.grow(p);
            for k in 0..3 { check((g.min[k] == mn(a.min[k], p[k])) & (g.max[k] == mx(a.max[k], p[k])), 1); }
            let mut h: Aabb = a;
            h.grow_bb(&b);
            let u = a.union_of(&b);
            for k in 0..3 { check((h.min[k] == mn(a.min[k], b.min[k])) & (h.max[k] == mx(a.max[k], b.max[k])), 2); }
            check(same_box(&u, &h), 3);
            check(same_box(&u, &b.union_of(&a)), 4);
            check(u.is_valid(), 5);
            cover(1);
        }
        1 => {
            // grow_bbs, union_of_list, from_points
            let l = [any_box(), any_box(), any_box()];
            let mut g: Aabb = Aabb::empty();
            g.grow_bbs(&l);
            let u: Aabb = Aabb::union_of_list(&l);
            for k in 0..3 {
                let lo = mn(mn(l[0].min[k], l[1].min[k]), l[2].min[k]);
                let hi = mx(mx(l[0].max[k], l[1].max[k]), l[2].max[k]);
                check((g.min[k] == lo) & (g.max[k] == hi), 1);
                check((u.min[k] <= lo) & (u.max[k] >= hi), 2);
                check((u.min[k] >= lo - 1.0) & (u.max[k] <= hi + 1.0), 3);
            }
            let mut e: Aabb = l[0];
            e.grow_bbs(&[]);
            check(same_box(&e, &l[0]), 4);
            cover(1);
        }
        2 => {
            let p = [any_point(), any_point(), any_point(), any_point()];
            let b: Aabb = Aabb::from_points(&p);
            let c: Aabb = Aabb::from(p);
            for k in 0..3 {
                let lo = mn(mn(p[0][k], p[1][k]), mn(p[2][k], p[3][k]));
                let hi = mx(mx(p[0][k], p[1][k]), mx(p[2][k], p[3][k]));
                check((b.min[k] <= lo) & (b.max[k] >= hi), 1);
                check((b.min[k] >= lo - 1.0) & (b.max[k] <= hi + 1.0), 2);
            }
            check(same_box(&b, &c), 3);
            let (a, z) = (p[0], p[1]);
            let f: Aabb = Aabb::from((a, z));
            check(same_v(f.min, a) & same_v(f.max, z), 4);
            let (a2, z2) = f.points();
            check(same_v(a2, a) & same_v(z2, z), 5);
            let (a3, z3): (Vec3, Vec3) = f.into();
            check(same_v(a3, a) & same_v(z3, z), 6);
            check(same_v(f[0], a) & same_v(f[1], z), 7);
            check(same_v((&f)[0], a) & same_v((&f)[1], z), 8);
            check(same_box(&rtbvh::Bounds::bounds(&f), &f), 9);
            cover(1);
        }
        3 => {
            // intersection and shrink: what both have in common
            let (a, b) = (any_box(), any_box());
            let i = a.intersection(&b);
            let mut s: Aabb = a;
            s.shrink(&b);
            for k in 0..3 { check((i.min[k] == mx(a.min[k], b.min[k])) & (i.max[k] == mn(a.max[k], b.max[k])), 1); }
            check(same_box(&i, &s), 2);
            let p = any_point();
            // a point is inside the intersection exactly when it is in both
            check(i.contains(p) == (a.contains(p) & b.contains(p)), 3);
            let v = i.is_valid();
            check(v == ((i.min.x <= i.max.x) & (i.min.y <= i.max.y) & (i.min.z <= i.max.z)), 4);
            cover(1);
        }
        4 => {
            // contains
            let a = any_box();
            let p = any_point();
            let strictly = (a.min.x < p.x) & (p.x < a.max.x) & (a.min.y < p.y) & (p.y < a.max.y) & (a.min.z < p.z) & (p.z < a.max.z);
            check(a.contains(p) == strictly, 1);
            let e: Aabb = Aabb::empty();
            check(!e.contains(p) & !e.is_valid(), 2);
            let f: Aabb = Aabb::full();
            check(f.contains(p) & f.is_valid(), 3);
            check(a.is_valid(), 4);
            // empty is neutral for union, full for intersection
            check(same_box(&e.union_of(&a), &a) & same_box(&f.intersection(&a), &a), 5);
            let mut n: Aabb = Aabb::new();
            n.grow(p);
            check(same_v(n.min, p) & same_v(n.max, p), 6);
            cover(1);
        }
        5 => {
            // offsets grow the box on all sides
            let a = any_box();
            let d = f32_in(0.0, 100.0);
            let w = a.with_offset(d);
            let mut o: Aabb = a;
            o.offset_by(d);
            check(same_box(&w, &o), 1);
            check(inside(&w, &a), 2);
            for k in 0..3 { check((w.min[k] == a.min[k] - d) & (w.max[k] == a.max[k] + d), 3); }
            cover(1);
        }
        6 => {
            // measures
            let a = any_box();
            let (l, d) = (a.lengths(), a.diagonal());
            for k in 0..3 { check((l[k] == a.max[k] - a.min[k]) & (d[k] == l[k]) & (a.extend(k) == l[k]), 1); check(l[k] >= 0.0, 2); }
            let x = conc(a.longest_axis());
            check(x < 3, 3);
            if x < 3 { for k in 0..3 { check(a.extend(x) >= a.extend(k), 4); } check(a.longest_extent() == a.extend(x), 5); }
            cover(1);
        }
        7 => {
            // area and volume are monotone
            let (a, b) = (any_box(), any_box());
            for k in 0..3 { assume((b.min[k] <= a.min[k]) & (a.max[k] <= b.max[k])); }
            check(a.area() <= b.area(), 1);
            check(a.half_area() <= b.half_area(), 2);
            check(a.volume() <= b.volume(), 3);
            check((a.area() >= 0.0) & (a.volume() >= 0.0) & (a.half_area() >= 0.0), 4);
            cover(1);
        }
        8 => {
            // centre inside, one axis at a time
            let k = param(1, 0) as usize;
            let mut a = bx(vec3(-1.0, -2.0, -3.0), vec3(1.0, 4.0, 5.0));
            let (lo, hi) = (f32_in(-LIM, LIM), f32_in(-LIM, LIM));
            assume(lo <= hi);
            a.min[k] = lo;
            a.max[k] = hi;
            let c = a.center();
            check((c[k] >= lo) & (c[k] <= hi), 1);
            for j in 0..3 { if j != k { check(c[j] == [0.0, 1.0, 1.0][j], 2); } }
            cover(1);
        }
        9 => {
            // the corners of an integral box
            let s = param(1, 0) as f32;
            let a = bx(vec3(-s, 2.0, 3.0), vec3(4.0, 5.0 + s, 7.0));
            let cs = a.all_corners();
            let which = u32_in(0, 7);
            let mut found = false;
            for c in &cs {
                let mut same = true;
                for k in 0..3 { let want = if which >> k & 1 == 1 { a.max[k] } else { a.min[k] }; same &= c[k] == want; }
                found |= same;
            }
            check(found, 1);
            cover(1);
        }
        _ => {
            // the transformed box contains the transformed points of the box
            let a = bx(vec3(-1.0, 2.0, -3.0), vec3(4.0, 5.0, 7.0));
            let m = matrix(param(1, 0));
            let p = vec3(f32_in(-1.0, 4.0), f32_in(2.0, 5.0), f32_in(-3.0, 7.0));
            let t = a.transformed(m);
            let mut u: Aabb = a;
            u.transform(m);
            check(same_box(&t, &u), 1);
            let q = m * p.extend(1.0);
            for k in 0..3 { check((t.min[k] - 1e-4 <= q[k]) & (q[k] <= t.max[k] + 1e-4), 2); }
            // and is no larger than needed: every face is touched by a corner
            let w = corner_hull(&a, m);
            for k in 0..3 { check((t.min[k] >= w.min[k] - 1e-3) & (t.max[k] <= w.max[k] + 1e-3) & (t.min[k] <= w.min[k]) & (t.max[k] >= w.max[k]), 3); }
            cover(1);
        }
    }
}
fn corner_hull(a: &Aabb, m: Mat4) -> Aabb {
    let mut lo = [1e30f32; 3];
    let mut hi = [-1e30f32; 3];
    for i in 0..8 {
        let c = vec3(if i & 1 == 0 { a.min.x } else { a.max.x }, if i & 2 == 0 { a.min.y } else { a.max.y }, if i & 4 == 0 { a.min.z } else { a.max.z });
        let q = m * c.extend(1.0);
        for k in 0..3 { lo[k] = mn(lo[k], q[k]); hi[k] = mx(hi[k], q[k]); }
    }
    bx(vec3(lo[0], lo[1], lo[2]), vec3(hi[0], hi[1], hi[2]))
}
fn matrix(k: u64) -> Mat4 {
    match k {
        0 => Mat4::IDENTITY,
        1 => Mat4::from_translation(vec3(10.0, -20.0, 0.5)),
        2 => Mat4::from_cols(vec4(0.0, 1.0, 0.0, 0.0), vec4(-1.0, 0.0, 0.0, 0.0), vec4(0.0, 0.0, 1.0, 0.0), vec4(0.0, 0.0, 0.0, 1.0)),
        3 => Mat4::from_cols(vec4(2.0, 0.0, 0.0, 0.0), vec4(0.0, -0.5, 0.0, 0.0), vec4(0.0, 0.0, -4.0, 0.0), vec4(1.0, 2.0, 3.0, 1.0)),
        4 => Mat4::from_cols(vec4(0.5, 0.25, 0.0, 0.0), vec4(-0.25, 0.5, 1.0, 0.0), vec4(1.0, 0.0, -0.5, 0.0), vec4(-8.0, 4.0, 0.0, 1.0)),
        _ => Mat4::from_cols(vec4(0.0, 0.0, -1.0, 0.0), vec4(0.0, 1.0, 0.0, 0.0), vec4(1.0, 0.0, 0.0, 0.0), vec4(0.0, 0.0, 5.0, 1.0)),
    }
}

/// C16: Morton codes. param 0: group
pub fn morton() {
    match param(0, 0) {
        0 => {
            // split spreads the bits, encode interleaves them
            let x = u32_in(0, 1023);
            let s = morton_split_(x);
            for i in 0..10 { check((s >> (3 * i)) & 1 == (x >> i) & 1, 1); }
            check(s & !0x09249249 == 0, 2);
            cover(1);
        }
        1 => {
            let (x, y, z) = (u32_in(0, 1023), u32_in(0, 1023), u32_in(0, 1023));
            let c = MortonEncoder::morton_encode(x, y, z);
            for i in 0..10 {
                check((c >> (3 * i)) & 1 == (x >> i) & 1, 1);
                check((c >> (3 * i + 1)) & 1 == (y >> i) & 1, 2);
                check((c >> (3 * i + 2)) & 1 == (z >> i) & 1, 3);
            }
            check(c < 1 << 30, 4);
            cover(1);
        }
        2 => {
            // cells: monotone in every coordinate, always within the grid
            let dim = [1usize, 2, 16, 1024, 1000][param(1, 3) as usize];
            let bb = bx(vec3(-10.0, 5.0, 0.0), vec3(90.0, 7.0, 1024.0));
            let e = MortonEncoder::new(&bb, dim);
            let k = param(2, 0) as usize;
            let mut p = vec3(3.0, 5.5, 700.0);
            let mut q = p;
            p[k] = coord();
            q[k] = coord();
            assume(p[k] <= q[k]);
            let (a, b) = (cell(e.encode(p), k), cell(e.encode(q), k));
            check(a <= b, 1);
            check((b as usize) < dim, 2);
            // other axes do not change
            for j in 0..3 { if j != k { check(cell(e.encode(p), j) == cell(e.encode(q), j), 3); } }
            // the ends of the box fall in the first and last cell
            if p[k] <= bb.min[k] - 0.2 { check(a == 0, 4); }
            if q[k] >= bb.max[k] + 0.2 { check(b as usize == dim - 1, 5); }
            cover(1);
        }
        3 => {
            // sorted order: a permutation, sorted by code, stable
            let n = param(1, 4) as usize;
            let bb = bx(vec3(0.0, 0.0, 0.0), vec3(16.0, 16.0, 16.0));
            let e = MortonEncoder::new(&bb, 4);
            let mut prims = vec![];
            for i in 0..n { let x = if (i as u64) < param(2, 2) { f32_in(-1.0, 17.0) } else { ((i * 5) % 16) as f32 }; let c = vec3(x, 1.0, 9.0); prims.push(P { bb: bx(c, c), c }); }
            let bbs: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let (idx, codes) = e.get_sorted_indices(&bbs, &prims);
            check((idx.len() == n) & (codes.len() == n), 1);
            let mut seen = vec![0u32; n];
            let mut ids = vec![];
            for &i in &idx { let i = conc(i as usize); if i >= n { check(false, 2); return; } seen[i] += 1; ids.push(i); }
            for s in &seen { check(*s == 1, 3); }
            for i in 0..n { check(codes[i] == e.encode(prims[i].c), 4); }
            for w in ids.windows(2) { check((codes[w[0]] < codes[w[1]]) | ((codes[w[0]] == codes[w[1]]) & (w[0] < w[1])), 5); }
            cover(1);
        }
        _ => {
            // degenerate boxes: every code still lies within the grid
            let flat = bx(vec3(1.0, 2.0, 3.0), vec3(1.0, 9.0, 3.0));
            let e = MortonEncoder::new(&flat, 16);
            let p = any_point();
            let c = e.encode(p);
            for k in 0..3 { check(cell(c, k) < 16, 1); }
            cover(1);
        }
    }
}
fn morton_split_(x: u32) -> u32 { rtbvh::morton_split(x) }
fn cell(c: u32, k: usize) -> u32 { let mut r = 0; for i in 0..10 { r |= (c >> (3 * i + k as u32) & 1) << i; } r }

/// C14: triangles
pub fn tri_new(k: u64) -> Tri {
    let v = match k {
        // unit right triangle in z = 0, both windings
        0 => [vec3(0.0, 0.0, 0.0), vec3(1.0, 0.0, 0.0), vec3(0.0, 1.0, 0.0)],
        1 => [vec3(0.0, 0.0, 0.0), vec3(0.0, 1.0, 0.0), vec3(1.0, 0.0, 0.0)],
        // in the plane x = 2
        2 => [vec3(2.0, -4.0, 0.0), vec3(2.0, 4.0, 0.0), vec3(2.0, -4.0, 16.0)],
        // in the plane y = -8
        3 => [vec3(0.0, -8.0, 0.0), vec3(0.0, -8.0, 2.0), vec3(4.0, -8.0, 0.0)],
        // slanted
        4 => [vec3(0.0, 0.0, 0.0), vec3(4.0, 0.0, 4.0), vec3(0.0, 4.0, 0.0)],
        5..=9 => [vec3(-8.0, -8.0, 1.0), vec3(8.0, -8.0, 1.0), vec3(-8.0, 8.0, 1.0)],
        // every vertex alone reaches some side of the box, in all orders
        k => {
            let (a, b, c) = (vec3(0.0, 0.0, 1.0), vec3(2.0, 9.0, -3.0), vec3(10.0, 20.0, 5.0));
            match k % 6 { 0 => [a, b, c], 1 => [b, c, a], 2 => [c, a, b], 3 => [a, c, b], 4 => [c, b, a], _ => [b, a, c] }
        }
    };
    Tri { v }
}
/// param 0: 0 whatever happens, t only shrinks (any triangle, any ray); 1 packet version;
/// 2 axis-aligned triangle, perpendicular ray: hit iff the point is inside; 3 packet
/// version of 2; 4 parallel rays miss
pub fn triangle() {
    let mode = param(0, 0);
    match mode {
        0 => {
            let t = if param(1, 0) == 0 { Tri { v: [c3(R), c3(R), c3(R)] } } else { tri_new(param(2, 0)) };
            let (o, d) = (c3(R), c3(1.0));
            let mut ray = Ray::new(o, d);
            ray.t = f32_in(0.0, 1e34);
            let before = ray;
            let h = t.intersect(&mut ray);
            check(beq3(ray.origin, o) & beq3(ray.direction, d) & (ray.t_min == before.t_min), 1);
            if h { check((ray.t < before.t) & (ray.t > ray.t_min), 2); cover(2); } else { check(ray.t == before.t, 3); }
            cover(1);
        }
        1 => {
            let t = if param(1, 0) == 0 { Tri { v: [c3(R), c3(R), c3(R)] } } else { tri_new(param(2, 0)) };
            let lane = param(14, 0) as usize;
            let (o, d) = (c3(R), c3(1.0));
            let mut pk = packet_with(lane, o, d, f32_in(0.0, 1e34));
            let t_min = f32_in(0.0, 1.0);
            let before = pk;
            let h = t.intersect4(&mut pk, Vec4::splat(t_min));
            for l in 0..4 {
                let hit = match h { Some(x) => x[l], None => false };
                check(bits_eq(pk.origin_x[l], before.origin_x[l]) & bits_eq(pk.direction_x[l], before.direction_x[l]), 1);
                check((!hit & (pk.t[l] == before.t[l])) | (hit & (pk.t[l] < before.t[l]) & (pk.t[l] >= t_min)), 2);
            }
            check(match h { Some(x) => x[0] | x[1] | x[2] | x[3], None => true }, 3);
            cover(1);
        }
        2 | 3 | 4 => {
            // perpendicular to the triangle's plane
            let k = param(2, 0);
            let t = tri_new(k);
            let ax = match k { 2 => 0, 3 => 1, _ => 2 };
            let (u, v) = ((ax + 1) % 3, (ax + 2) % 3);
            let mut o = vec3(0.0, 0.0, 0.0);
            o[u] = f32_in(-20.0, 20.0);
            o[v] = f32_in(-20.0, 20.0);
            let dist = param(3, 8) as f32;
            let pos = param(4, 0) == 0;
            let plane = t.v[0][ax];
            o[ax] = if pos { plane - dist } else { plane + dist };
            let mut d = vec3(0.0, 0.0, 0.0);
            d[ax] = if pos { 1.0 } else { -1.0 };
            // barycentric by the harness: the triangle is v0, v0 + e1, v0 + e2 with e1, e2
            // along the axes u, v (some order)
            let (a, b) = (t.v[1] - t.v[0], t.v[2] - t.v[0]);
            let (eu, ev) = if a[u] != 0.0 { (a[u], b[v]) } else { (b[u], a[v]) };
            let (bu, bv) = ((o[u] - t.v[0][u]) / eu, (o[v] - t.v[0][v]) / ev);
            let m = 0.001;
            let within = (bu >= m) & (bv >= m) & (bu + bv <= 1.0 - m);
            let outside = (bu <= -m) | (bv <= -m) | (bu + bv >= 1.0 + m);
            let t0 = f32_in(0.0, 1e34);
            if mode == 2 {
                let mut ray = Ray::new(o, d);
                ray.t = t0;
                if split(within) {
                    let h = t.intersect(&mut ray);
                    assume((t0 > dist + 0.01) | (t0 < dist - 0.01));
                    check(h == (t0 > dist), 1);
                    if t0 > dist { let e = ray.t - dist; check((e < 0.01) & (e > -0.01), 2); cover(1); }
                } else if split(outside) {
                    check(!t.intersect(&mut ray), 3);
                    cover(2);
                }
            } else if mode == 3 {
                let lane = param(14, 0) as usize;
                let mut pk = packet_with(lane, o, d, t0);
                let h = t.intersect4(&mut pk, Vec4::splat(0.001));
                let hit = match h { Some(x) => x[lane], None => false };
                if split(within) {
                    assume((t0 > dist + 0.01) | (t0 < dist - 0.01));
                    check(hit == (t0 > dist), 1);
                    if t0 > dist { let e = pk.t[lane] - dist; check((e < 0.01) & (e > -0.01), 2); cover(1); }
                } else if split(outside) { check(!hit, 3); cover(2); }
            } else {
                // looking away from the plane
                let mut ray = Ray::new(o, -d);
                check(!t.intersect(&mut ray), 4);
                let mut pk = packet_with(1, o, -d, 1e34);
                check(match t.intersect4(&mut pk, Vec4::splat(0.001)) { Some(x) => !x[1], None => true }, 5);
                cover(1);
            }
        }
        _ => {
            // parallel to the plane: no hit
            let k = param(2, 0);
            let t = tri_new(k);
            let ax = match k { 2 => 0, 3 => 1, _ => 2 };
            let (u, v) = ((ax + 1) % 3, (ax + 2) % 3);
            let o = c3(R);
            let mut d = vec3(0.0, 0.0, 0.0);
            d[u] = f32_in(-1.0, 1.0);
            d[v] = f32_in(-1.0, 1.0);
            let mut ray = Ray::new(o, d);
            check(!t.intersect(&mut ray), 1);
            let mut pk = packet_with(2, o, d, 1e34);
            check(match t.intersect4(&mut pk, Vec4::splat(0.001)) { Some(x) => !x[2], None => true }, 2);
            cover(1);
        }
    }
}

/// C06: splitting a triangle at a plane. Both halves' boxes together cover the triangle,
/// each lies on its side. The point of the triangle is given by its two neighbours on
/// an axis-aligned edge pair (concrete power-of-two triangles, symbolic plane).
pub fn tri_split() {
    let axis = param(1, 0) as usize;
    let t = match param(0, 0) {
        0 => tri_new(param(2, 0)),
        // symbolic vertices along the split axis only
        1 => { let mut t = tri_new(param(2, 0)); for k in 0..3 { t.v[k][axis] = f32_in(-100.0, 100.0); } t }
        _ => Tri { v: [c3(100.0), c3(100.0), c3(100.0)] },
    };
    let b = t.bb();
    let pos = f32_in(-100.0, 100.0);
    assume((pos >= b.min[axis]) & (pos <= b.max[axis]));
    let (l, r) = t.split(axis, pos);
    // every vertex is covered on its side
    for v in &t.v {
        if split(v[axis] <= pos) { check(holds(&l, *v), 1); }
        if split(v[axis] >= pos) { check(holds(&r, *v) | ((v[axis] == pos) & holds(&l, *v)), 2); }
    }
    // where an edge crosses the plane, both halves reach the plane
    let mut crossing = false;
    for k in 0..3 { let (a, c) = (t.v[k], t.v[(k + 1) % 3]); crossing |= ((a[axis] < pos) & (c[axis] > pos)) | ((a[axis] > pos) & (c[axis] < pos)); }
    if split(crossing) {
        let eps = 0.01;
        check(l.max[axis] >= pos - eps, 3);
        check(r.min[axis] <= pos + eps, 4);
        check(l.max[axis] <= pos + eps, 5);
        check(r.min[axis] >= pos - eps, 6);
        // the crossing points lie in both boxes
        if param(0, 0) == 0 {
            for k in 0..3 {
                let (a, c) = (t.v[k], t.v[(k + 1) % 3]);
                if split(((a[axis] < pos) & (c[axis] > pos)) | ((a[axis] > pos) & (c[axis] < pos))) {
                    let w = (pos - a[axis]) / (c[axis] - a[axis]);
                    for j in 0..3 {
                        let x = a[j] + w * (c[j] - a[j]);
                        check((l.min[j] <= x + eps) & (x - eps <= l.max[j]) & (r.min[j] <= x + eps) & (x - eps <= r.max[j]), 7);
                    }
                }
            }
        }
        cover(1);
    }
    // neither half leaves the triangle's box
    for k in 0..3 { if k != axis || param(0, 0) == 0 { check((l.min[k] >= b.min[k] - 0.01) & (l.max[k] <= b.max[k] + 0.01), 8); check((r.min[k] >= b.min[k] - 0.01) & (r.max[k] <= b.max[k] + 0.01), 9); } }
    cover(2);
}
fn holds(b: &Aabb, v: Vec3) -> bool { (b.min.x <= v.x) & (v.x <= b.max.x) & (b.min.y <= v.y) & (v.y <= b.max.y) & (b.min.z <= v.z) & (v.z <= b.max.z) }
