use crate::vx::*;
use glam::*;
use rtbvh::*;
use std::num::NonZeroUsize;

/// a primitive given by its box and centre
#[derive(Debug, Copy, Clone)]
pub struct P { pub bb: Aabb, pub c: Vec3 }
impl Primitive for P {
    fn center(&self) -> Vec3 { self.c }
    fn aabb(&self) -> Aabb { self.bb }
}
impl SpatialTriangle for P {
    fn vertex0(&self) -> Vec3 { self.bb.min }
    fn vertex1(&self) -> Vec3 { self.bb.max }
    fn vertex2(&self) -> Vec3 { vec3(self.bb.min.x, self.bb.max.y, self.bb.max.z) }
}
#[derive(Debug, Copy, Clone)]
pub struct Tri { pub v: [Vec3; 3] }
impl Tri {
    pub fn bb(&self) -> Aabb {
        let [a, b, c] = self.v;
        bx(vec3(mn(mn(a.x, b.x), c.x), mn(mn(a.y, b.y), c.y), mn(mn(a.z, b.z), c.z)),
           vec3(mx(mx(a.x, b.x), c.x), mx(mx(a.y, b.y), c.y), mx(mx(a.z, b.z), c.z)))
    }
}
impl Primitive for Tri {
    fn center(&self) -> Vec3 { (self.v[0] + self.v[1] + self.v[2]) / 3.0 }
    fn aabb(&self) -> Aabb { self.bb() }
}
impl SpatialTriangle for Tri {
    fn vertex0(&self) -> Vec3 { self.v[0] }
    fn vertex1(&self) -> Vec3 { self.v[1] }
    fn vertex2(&self) -> Vec3 { self.v[2] }
}

// the oracles use their own min/max, not the library's
#[inline(always)] pub fn mn(a: f32, b: f32) -> f32 { if a < b { a } else { b } }
#[inline(always)] pub fn mx(a: f32, b: f32) -> f32 { if a > b { a } else { b } }
pub fn bx(min: Vec3, max: Vec3) -> Aabb { Aabb { min, max, extra1: 0, extra2: 0 } }
pub fn v3(x: f32, y: f32, z: f32) -> Vec3 { vec3(x, y, z) }

pub const LIM: f32 = 1e6;
/// any coordinate within +-10^6
pub fn coord() -> f32 { f32_in(-LIM, LIM) }
pub fn any_point() -> Vec3 { let (x, y, z) = (coord(), coord(), coord()); vec3(x, y, z) }
/// any non-inverted box with coordinates within +-10^6
pub fn any_box() -> Aabb {
    let (a, b) = (any_point(), any_point());
    assume((a.x <= b.x) & (a.y <= b.y) & (a.z <= b.z));
    bx(a, b)
}
/// is `i` inside `o` (closed)?
#[inline(always)]
pub fn inside(o: &Aabb, i: &Aabb) -> bool {
    (o.min.x <= i.min.x) & (o.min.y <= i.min.y) & (o.min.z <= i.min.z) & (i.max.x <= o.max.x) & (i.max.y <= o.max.y) & (i.max.z <= o.max.z)
}
#[inline(always)]
pub fn same_box(a: &Aabb, b: &Aabb) -> bool {
    (a.min.x == b.min.x) & (a.min.y == b.min.y) & (a.min.z == b.min.z) & (a.max.x == b.max.x) & (a.max.y == b.max.y) & (a.max.z == b.max.z)
}
#[inline(always)]
pub fn same_v(a: Vec3, b: Vec3) -> bool { (a.x == b.x) & (a.y == b.y) & (a.z == b.z) }
/// equal bit patterns
#[inline(always)]
pub fn bits_eq(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() }

pub fn ppl(k: u64) -> Option<NonZeroUsize> { NonZeroUsize::new(k as usize) }

/// Walks the tree from node 0. Calls `leaf(first, count, path)` for every leaf, where
/// `path` are the nodes from the root to the leaf. Returns false when the structure is
/// broken (child out of range, node reached twice, too many steps).
pub fn walk(nodes: &[BvhNode], mut leaf: impl FnMut(usize, usize, &[usize]) -> bool) -> bool {
    if nodes.is_empty() { return true; }
    let mut seen = vec![false; nodes.len()];
    let mut path: Vec<usize> = vec![];
    // (node, depth)
    let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
    while let Some((n, d)) = stack.pop() {
        if seen[n] { return false; }
        seen[n] = true;
        path.truncate(d);
        path.push(n);
        let count = nodes[n].bounds.extra1;
        let first = nodes[n].bounds.extra2;
        if first < 0 { return false; }
        let first = conc(first as usize);
        if count >= 0 {
            let count = conc(count as usize);
            if !leaf(first, count, &path) { return false; }
        } else {
            if first + 1 >= nodes.len() || first == 0 { return false; }
            stack.push((first + 1, d + 1));
            stack.push((first, d + 1));
        }
    }
    true
}

/// 0: the schedule the job asks for, 1: everything in order, at once, on one thread
static PHASE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn phase(p: u32) { PHASE.store(p, std::sync::atomic::Ordering::SeqCst); }
/// what the stand-ins for rayon, crossbeam and num_cpus ask for: parameter 900 order of
/// parallel iterators, 901 number of threads, 902 when spawned closures run
#[no_mangle]
pub extern "C" fn vsched(k: u32, d: u64) -> u64 {
    if PHASE.load(std::sync::atomic::Ordering::SeqCst) == 1 { if k == 901 { 1 } else { 0 } } else { param(k, d) }
}
/// parameter 903: pieces of work with more primitives than this are spawned
pub fn spawn_threshold() {
    let one = PHASE.load(std::sync::atomic::Ordering::SeqCst) == 1;
    rtbvh::WORK_SIZE_THRESHOLD.store(if one { 1 << 40 } else { param(903, 1024) as usize }, std::sync::atomic::Ordering::SeqCst);
}
