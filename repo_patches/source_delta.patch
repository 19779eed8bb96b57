From 0f00689225f4745e34de8202be44b29bf17e7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 01/22] fix: binned SAH left child bounds use the split that
 was actually applied

After the median fallback split_index differs from best_splits[axis].count, so
the left bounds missed primitives (or the slice was too long).
---
 src/builders/binned_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index 3bf88c3..c1e6c54 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -230,7 +230,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             let mut right_box = Aabb::empty();
 
             let bins = &self.bins_per_axis[best_axis];
-            for bin in bins[0..(best_splits[best_axis].count as usize)].iter() {
+            for bin in bins[0..split_index].iter() {
                 left_box.grow_bb(&bin.aabb);
             }
 
-- 
2.43.0


From 75e20b9846f317e715bea7dc2dc2bbd92e8879bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 02/22] fix: Bvh::refit keeps count/left_first of the nodes

The node topology lives in the extra fields of the bounds that refit replaced.
---
 src/bvh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 5ff07ae..00227e2 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -199,8 +199,9 @@ impl Bvh {
                 aabb.offset_by(0.0001);
             }
 
-            // Overwrite AABB
-            self.nodes[i].bounds = aabb;
+            // Overwrite AABB, the extra fields store the topology of the tree
+            self.nodes[i].bounds.min = aabb.min;
+            self.nodes[i].bounds.max = aabb.max;
         }
     }
 
-- 
2.43.0


From 81ae3053e2367f0f29f9142a81074534fc7bb4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 03/22] fix: SpatialTriangle::split interpolates along the edge

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index b27d21f..5719260 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -90,7 +90,7 @@ pub trait SpatialTriangle {
 
         let split_edge = |a: Vec3, b: Vec3| -> Vec3 {
             let t = (Vec3::splat(position) - Vec3::splat(a[axis])) / Vec3::splat(b[axis] - a[axis]);
-            a * t * (b - a)
+            a + t * (b - a)
         };
 
         let q0 = p[0][axis] <= position;
-- 
2.43.0


From 95899b0cf9aec84c34fe1620efcbfdcebe6222cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 04/22] fix: spatial SAH children refer to the moved reference
 ranges

The references of the right child are moved back by left_split_count, but the
work items kept the old ranges, so primitives were lost.
---
 src/builders/spatial_sah.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5719260..6d089cd 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -427,15 +427,15 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             new_nodes.left,
             self.work_item.begin,
             left_end,
-            right_begin,
+            right_begin + left_split_count,
             self.work_item.depth + 1,
             is_sorted,
         );
 
         let right_item = WorkItem::new(
             new_nodes.right,
-            right_begin,
-            right_end ,
+            right_begin + left_split_count,
+            right_end + left_split_count,
             self.work_item.split_end,
             self.work_item.depth + 1,
             is_sorted,
-- 
2.43.0


From 8bf088b2e8a824ce7617fcb26d8e3bf9907efdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 05/22] fix: spatial SAH fallback split stays inside the range
 of its work item

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 6d089cd..9bd7257 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -647,7 +647,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             // references are on a single side. This code block splits the number of primitives
             // equally to either side to prevent every primitive going to one side.
             if left_count > 0 {
-                left_end = left_count / 2;
+                left_end = self.work_item.begin + left_count / 2;
             } else {
                 left_end += right_count / 2;
             }
-- 
2.43.0


From c4c46ef3144e66396d0b1f5c259febdc623cc874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 06/22] fix: spatial SAH sorts references with a total order

The tolerance comparison was not a total order, for which sort_by may panic.
---
 src/builders/spatial_sah.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 9bd7257..5a453d1 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -317,16 +317,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             for axis in 0..3 {
                 let slice = self.references[axis].range(begin, end);
                 slice.sort_by(|a, b| {
-                    let a_center = a.center[axis];
-                    let b_center = b.center[axis];
-
-                    if a_center < b_center {
-                        std::cmp::Ordering::Less
-                    } else if (a_center - b_center).abs() < 0.0001 {
-                        std::cmp::Ordering::Equal
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
+                    a.center[axis].total_cmp(&b.center[axis])
                 });
             }
         }
-- 
2.43.0


From 59e4229079e2f20c60259f4e19d908288cb14b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 07/22] fix: ray signs follow the sign of the reciprocal
 direction

A direction component of -0.0 has a reciprocal of -inf, so near and far planes
were swapped and boxes in front of the ray were missed.
---
 src/ray.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ray.rs b/src/ray.rs
index 5e7defd..27d0d4a 100644
--- a/src/ray.rs
+++ b/src/ray.rs
@@ -18,9 +18,9 @@ pub struct Ray {
 impl From<(Vec3, Vec3)> for Ray {
     fn from(vectors: (Vec3, Vec3)) -> Self {
         let signs = [
-            (vectors.1.x < 0.0) as u8,
-            (vectors.1.y < 0.0) as u8,
-            (vectors.1.z < 0.0) as u8,
+            vectors.1.x.is_sign_negative() as u8,
+            vectors.1.y.is_sign_negative() as u8,
+            vectors.1.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -131,9 +131,9 @@ impl RayPacket4 {
         );
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -165,9 +165,9 @@ impl Ray {
 
     pub fn new(origin: Vec3, direction: Vec3) -> Ray {
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -187,9 +187,9 @@ impl Ray {
         let direction = self.direction - tmp;
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
-- 
2.43.0


From 84e38e5090a2eaaebefc058c5ca7dd8f0d8f96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 08/22] fix: packet slab tests accept boxes without thickness

Single rays hit flat boxes (t_max == t_min), packets missed them.
---
 src/aabb.rs      | 2 +-
 src/mbvh_node.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aabb.rs b/src/aabb.rs
index 7635d2f..276bc12 100644
--- a/src/aabb.rs
+++ b/src/aabb.rs
@@ -235,7 +235,7 @@ impl<E: Debug + Copy> Aabb<E> {
         let t_min = t_min_x.max(t_min_y.max(t_min_z));
         let t_max = t_max_x.min(t_max_y.min(t_max_z));
 
-        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpgt(t_min) & t_min.cmplt(packet.t);
+        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min) & t_min.cmplt(packet.t);
         if mask.any() {
             Some(t_min.into())
         } else {
diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index b4b3713..d4064f4 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -274,7 +274,7 @@ impl MbvhNode {
             let t_min: Vec4 = t_min.max(t1.min(t2));
             let t_max: Vec4 = t_max.min(t1.max(t2));
 
-            let greater_than_min = t_max.cmpgt(t_min);
+            let greater_than_min = t_max.cmpge(t_min);
             let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));
             result |= greater_than_min & less_than_t;
 
-- 
2.43.0


From 0dd629a33676c234af22473ceec9bdff010eba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 09/22] fix: MbvhNode points use unaligned loads

MbvhNode is only 4-byte aligned.
---
 src/mbvh_node.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index d4064f4..8f4dff3 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -84,12 +84,12 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -115,9 +115,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -140,9 +140,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
-- 
2.43.0


From bc1f87e1a20eace9649f95f46dfd2d18e946a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 10/22] fix: computed aabbs keep the order of the primitives

par_bridge does not preserve order, so primitives got the aabbs of others.
---
 src/bvh.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 00227e2..9af136f 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -76,8 +76,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
             Ok(SpatialSahBuilder::new(&aabbs, self.primitives, self.primitives_per_leaf).build())
@@ -101,8 +100,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
@@ -127,8 +125,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 839050716c36b8d5a5f507f18f2e13f97e5cc8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 11/22] fix: FFI triangle aabbs use the same addressing as
 their vertices

vertex0_offset and vertex_stride are already in floats; aabb() scaled them again.
---
 rtbvh_ffi/src/lib.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 4a5d8df..e2f70dc 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -280,17 +280,9 @@ impl Primitive for RTTriangleWrapper {
 
     fn aabb(&self) -> Aabb {
         let mut aabb = Aabb::empty();
-        unsafe {
-            let ptr0 = self
-                .vertices
-                .add((self.vertex0_offset * self.vertex_stride / 4) as usize);
-            let ptr1 = ptr0.add((self.vertex_stride / 4) as usize);
-            let ptr2 = ptr0.add((self.vertex_stride / 4) as usize * 2);
-
-            aabb.grow(vec3(*ptr0, *ptr0.add(1), *ptr0.add(2)));
-            aabb.grow(vec3(*ptr1, *ptr1.add(1), *ptr1.add(2)));
-            aabb.grow(vec3(*ptr2, *ptr2.add(1), *ptr2.add(2)));
-        }
+        aabb.grow(self.vertex0());
+        aabb.grow(self.vertex1());
+        aabb.grow(self.vertex2());
 
         aabb
     }
-- 
2.43.0


From 28a2566c038f8691cc4e4e6e58f4816077a19ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 12/22] fix: FFI does not assume 16-byte aligned aabbs

RTAabb has an alignment of 4, Aabb of 16.
---
 rtbvh_ffi/src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index e2f70dc..2baf513 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -347,11 +347,14 @@ pub unsafe extern "C" fn create_spatial_Bvh(
 ) -> ResultCode {
     assert_eq!(stride % 4, 0);
 
-    let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+    let aabbs: Option<Vec<Aabb>> = if !aabbs.is_null() {
+        // RTAabb is less aligned than Aabb
+        let aabbs = slice::from_raw_parts(aabbs, prim_count);
+        Some(aabbs.iter().copied().map(Aabb::from).collect())
     } else {
         None
     };
+    let aabbs = aabbs.as_deref();
 
     let primitives: Vec<RTTriangleWrapper> = (0..prim_count)
         .into_iter()
@@ -440,11 +443,14 @@ pub unsafe extern "C" fn create_bvh(
         "Only centers of 12 <= stride <= 16 should be used."
     );
 
-    let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+    let aabbs: Option<Vec<Aabb>> = if !aabbs.is_null() {
+        // RTAabb is less aligned than Aabb
+        let aabbs = slice::from_raw_parts(aabbs, prim_count);
+        Some(aabbs.iter().copied().map(Aabb::from).collect())
     } else {
         None
     };
+    let aabbs = aabbs.as_deref();
 
     let bvh = match center_stride {
         12 => {
@@ -515,10 +521,9 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(slice::from_raw_parts(
-                aabbs as *const Aabb,
-                bvh.prim_count(),
-            ));
+            let aabbs = slice::from_raw_parts(aabbs, bvh.prim_count());
+            let aabbs: Vec<Aabb> = aabbs.iter().copied().map(Aabb::from).collect();
+            bvh.refit(aabbs.as_slice());
         })
         .is_some();
 
-- 
2.43.0


From 55ae4b4061fe08c4c525ca4257d83c98fe86c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 13/22] fix: FFI refit reads one aabb per primitive

prim_count() counts references, of which a spatial bvh has more than primitives.
---
 rtbvh_ffi/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 2baf513..3b66206 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -521,7 +521,9 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            let aabbs = slice::from_raw_parts(aabbs, bvh.prim_count());
+            // Spatial splits reference primitives more than once
+            let prim_count = bvh.indices().iter().max().map_or(0, |i| *i as usize + 1);
+            let aabbs = slice::from_raw_parts(aabbs, prim_count);
             let aabbs: Vec<Aabb> = aabbs.iter().copied().map(Aabb::from).collect();
             bvh.refit(aabbs.as_slice());
         })
-- 
2.43.0


From aca369b4a5b8533b11dc8c5621faffc6674748fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 14/22] fix: FFI packet queries do not assume 16-byte aligned t
 values

---
 rtbvh_ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 3b66206..93b891f 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -679,7 +679,7 @@ pub unsafe extern "C" fn intersect_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
@@ -828,7 +828,7 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
-- 
2.43.0


From 5f42dda6a19193e8e4fb028f80d3055daa9af93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 15/22] fix: traversal stacks grow with the tree

A stack of 32 entries is not enough for deeper trees: Bvh iterators panicked,
Mbvh iterators wrote out of bounds.
---
 src/bvh_node.rs     | 29 +++++++++++++++--------------
 src/iter.rs         | 41 +++++++++++++++++++----------------------
 src/iter_indices.rs | 41 +++++++++++++++++++----------------------
 src/utils.rs        | 43 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 96 insertions(+), 58 deletions(-)

diff --git a/src/bvh_node.rs b/src/bvh_node.rs
index 6723328..9961564 100644
--- a/src/bvh_node.rs
+++ b/src/bvh_node.rs
@@ -1,6 +1,7 @@
 use glam::*;
 use std::fmt::{Display, Formatter};
 
+use crate::utils::NodeStack;
 use crate::{Aabb, Ray, RayPacket4};
 
 #[cfg(feature = "serde")]
@@ -150,27 +151,27 @@ impl BvhNode {
     pub(crate) fn sort_nodes(
         left: Option<f32>,
         right: Option<f32>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut NodeStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
         if let (Some(t_near_left), Some(t_near_right)) = (left, right) {
             stack_ptr += 1;
             if t_near_left < t_near_right {
-                hit_stack[stack_ptr as usize] = left_first;
+                hit_stack.set(stack_ptr as usize, left_first);
                 stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first + 1;
+                hit_stack.set(stack_ptr as usize, left_first + 1);
             } else {
-                hit_stack[stack_ptr as usize] = left_first + 1;
+                hit_stack.set(stack_ptr as usize, left_first + 1);
                 stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first;
+                hit_stack.set(stack_ptr as usize, left_first);
             }
         } else if left.is_some() {
             stack_ptr += 1;
-            hit_stack[stack_ptr as usize] = left_first;
+            hit_stack.set(stack_ptr as usize, left_first);
         } else if right.is_some() {
             stack_ptr += 1;
-            hit_stack[stack_ptr as usize] = left_first + 1;
+            hit_stack.set(stack_ptr as usize, left_first + 1);
         }
 
         stack_ptr
@@ -180,7 +181,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes4(
         left: Option<[f32; 4]>,
         right: Option<[f32; 4]>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut NodeStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
@@ -191,20 +192,20 @@ impl BvhNode {
 
             stack_ptr += 1;
             if t_near_left.cmplt(t_near_right).bitmask() > 0 {
-                hit_stack[stack_ptr as usize] = left_first;
+                hit_stack.set(stack_ptr as usize, left_first);
                 stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first + 1;
+                hit_stack.set(stack_ptr as usize, left_first + 1);
             } else {
-                hit_stack[stack_ptr as usize] = left_first + 1;
+                hit_stack.set(stack_ptr as usize, left_first + 1);
                 stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first;
+                hit_stack.set(stack_ptr as usize, left_first);
             }
         } else if left.is_some() {
             stack_ptr += 1;
-            hit_stack[stack_ptr as usize] = left_first;
+            hit_stack.set(stack_ptr as usize, left_first);
         } else if right.is_some() {
             stack_ptr += 1;
-            hit_stack[stack_ptr as usize] = left_first + 1;
+            hit_stack.set(stack_ptr as usize, left_first + 1);
         }
 
         stack_ptr
diff --git a/src/iter.rs b/src/iter.rs
index eda2d61..4057c80 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,3 +1,4 @@
+use crate::utils::NodeStack;
 use crate::*;
 
 pub trait RayIterator<'a, 'b, T: 'a + Primitive>: Iterator<Item = (&'a T, &'b mut Ray)> {}
@@ -22,7 +23,7 @@ pub trait IntoPacketIterator<'a, 'b, T: 'a + Primitive> {
 pub struct BvhIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: NodeStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -46,7 +47,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -73,7 +74,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -93,7 +94,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack.get(self.stack_ptr as usize) as usize)
             };
             self.stack_ptr -= 1;
 
@@ -131,7 +132,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 pub struct BvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: NodeStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -158,7 +159,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -188,7 +189,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -208,7 +209,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack.get(self.stack_ptr as usize) as usize)
             };
             self.stack_ptr -= 1;
 
@@ -249,7 +250,7 @@ pub struct MbvhIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: NodeStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -271,7 +272,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -293,7 +294,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -314,7 +315,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                     return None;
                 }
 
-                self.current = self.stack[self.stack_ptr as usize];
+                self.current = self.stack.get(self.stack_ptr as usize);
                 self.stack_ptr -= 1;
                 self.hit = unsafe {
                     self.nodes
@@ -343,9 +344,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack.set(self.stack_ptr as usize, left_first);
                     }
                 }
                 self.i += 1;
@@ -361,7 +360,7 @@ pub struct MbvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: NodeStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -383,7 +382,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -405,7 +404,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -426,7 +425,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                     return None;
                 }
 
-                self.current = self.stack[self.stack_ptr as usize];
+                self.current = self.stack.get(self.stack_ptr as usize);
                 self.stack_ptr -= 1;
                 self.hit = unsafe {
                     self.nodes
@@ -457,9 +456,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack.set(self.stack_ptr as usize, left_first);
                     }
                 }
                 self.i += 1;
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 9e603c7..2543700 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -1,3 +1,4 @@
+use crate::utils::NodeStack;
 use crate::*;
 
 pub trait RayIndexIterator<'a>: Iterator<Item = (u32, &'a mut Ray)> {}
@@ -19,7 +20,7 @@ pub trait IntoPacketIndexIterator<'a> {
 pub struct BvhIndexIterator<'a> {
     ray: &'a mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: NodeStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -38,7 +39,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -55,7 +56,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -74,7 +75,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack.get(self.stack_ptr as usize) as usize)
             };
             self.stack_ptr -= 1;
 
@@ -110,7 +111,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 pub struct BvhPacketIndexIterator<'a> {
     ray: &'a mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: NodeStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -135,7 +136,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -158,7 +159,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -177,7 +178,7 @@ impl<'a> Iterator for BvhPacketIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack.get(self.stack_ptr as usize) as usize)
             };
             self.stack_ptr -= 1;
 
@@ -216,7 +217,7 @@ pub struct MbvhIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: NodeStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -237,7 +238,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -253,7 +254,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -273,7 +274,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                     return None;
                 }
 
-                self.current = self.stack[self.stack_ptr as usize];
+                self.current = self.stack.get(self.stack_ptr as usize);
                 self.stack_ptr -= 1;
                 self.hit = unsafe {
                     self.nodes
@@ -301,9 +302,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack.set(self.stack_ptr as usize, left_first);
                     }
                 }
                 self.i += 1;
@@ -319,7 +318,7 @@ pub struct MbvhPacketIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: NodeStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -340,7 +339,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -356,7 +355,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: NodeStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -376,7 +375,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                     return None;
                 }
 
-                self.current = self.stack[self.stack_ptr as usize];
+                self.current = self.stack.get(self.stack_ptr as usize);
                 self.stack_ptr -= 1;
                 self.hit = unsafe {
                     self.nodes
@@ -403,9 +402,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack.set(self.stack_ptr as usize, left_first);
                     }
                 }
                 self.i += 1;
diff --git a/src/utils.rs b/src/utils.rs
index 79f7c8f..ce6a48b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -95,6 +95,49 @@ where
     count
 }
 
+/// Stack of node indices. The first entries are stored inline,
+/// only trees that need a deeper stack allocate memory.
+#[derive(Debug, Clone)]
+pub struct NodeStack {
+    inline: [i32; 32],
+    spill: Vec<i32>,
+}
+
+impl NodeStack {
+    pub fn new() -> Self {
+        Self {
+            inline: [0; 32],
+            spill: Vec::new(),
+        }
+    }
+
+    #[inline(always)]
+    pub fn get(&self, idx: usize) -> i32 {
+        if idx < self.inline.len() {
+            self.inline[idx]
+        } else {
+            self.spill[idx - self.inline.len()]
+        }
+    }
+
+    #[inline(always)]
+    pub fn set(&mut self, idx: usize, value: i32) {
+        if idx < self.inline.len() {
+            self.inline[idx] = value;
+        } else {
+            self.set_spill(idx - self.inline.len(), value);
+        }
+    }
+
+    #[cold]
+    fn set_spill(&mut self, idx: usize, value: i32) {
+        if idx >= self.spill.len() {
+            self.spill.resize(idx + 1, 0);
+        }
+        self.spill[idx] = value;
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct UnsafeSliceWrapper<'a, T: Sized> {
     ptr: *mut T,
-- 
2.43.0


From 389a594de6759f4611eef77c72a13d56b64c236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 16/22] fix: traversing an empty Mbvh yields nothing

The root node was read from an empty slice.
---
 src/iter.rs         | 10 ++++++++--
 src/iter_indices.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 4057c80..37c2f94 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -308,7 +308,10 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
@@ -418,7 +421,10 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 2543700..489b92b 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -267,7 +267,10 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
@@ -368,7 +371,10 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
-- 
2.43.0


From 23d62036eb40f88c7f39170da0e8ae2ce6099a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 17/22] fix: spatial bvhs only keep the indices that are in use

---
 src/builders/spatial_sah.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5a453d1..8c1a30e 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -1014,6 +1014,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> BuildAlgorithm for SpatialSahBuild
         task_spawner.run(root_task);
 
         nodes.resize(node_count.load(SeqCst), BvhNode::new());
+        prim_indices.truncate(reference_count.load(SeqCst));
 
         // Compose bvh
         Bvh {
-- 
2.43.0


From f0263eaeefdc857ed404a6e17a52437badd5ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 18/22] verification hook: spawn threshold of tasks (cfg
 rtbvh_verif)

---
 src/lib.rs   | 2 ++
 src/utils.rs | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6518d1d..fbacc44 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,6 +18,8 @@ pub use iter_indices::*;
 pub use mbvh_node::*;
 pub use morton::*;
 pub use ray::*;
+#[cfg(rtbvh_verif)]
+pub use utils::WORK_SIZE_THRESHOLD;
 
 #[cfg(test)]
 mod tests {
diff --git a/src/utils.rs b/src/utils.rs
index ce6a48b..87ecd40 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -229,6 +229,10 @@ unsafe impl<'a, T> Send for UnsafeSliceWrapper<'a, T> {}
 
 unsafe impl<'a, T> Sync for UnsafeSliceWrapper<'a, T> {}
 
+/// Verification builds choose the amount of work above which a task is spawned
+#[cfg(rtbvh_verif)]
+pub static WORK_SIZE_THRESHOLD: AtomicUsize = AtomicUsize::new(1024);
+
 pub struct TaskSpawner {
     pub threads_in_flight: Arc<AtomicUsize>,
     config: TaskConfig,
@@ -252,7 +256,10 @@ impl TaskSpawner {
     pub fn new() -> Self {
         Self {
             config: TaskConfig {
+                #[cfg(not(rtbvh_verif))]
                 work_size_threshold: 1024,
+                #[cfg(rtbvh_verif)]
+                work_size_threshold: WORK_SIZE_THRESHOLD.load(Ordering::SeqCst),
                 max_depth: 64,
                 max_leaf_size: 16,
             },
-- 
2.43.0


From 2652e6ed3c07ca9d43507edb60e09f57bc138bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 19/22] verification hook: a bvh made of given nodes (cfg
 rtbvh_verif)

---
 src/bvh.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bvh.rs b/src/bvh.rs
index 9af136f..81fef2c 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -153,6 +153,18 @@ impl Default for Bvh {
     }
 }
 
+#[cfg(rtbvh_verif)]
+impl Bvh {
+    /// A bvh made of the given nodes and indices (verification only)
+    pub fn from_parts(nodes: Vec<BvhNode>, prim_indices: Vec<u32>) -> Self {
+        Self {
+            nodes,
+            prim_indices,
+            build_type: BuildType::None,
+        }
+    }
+}
+
 impl Bvh {
     pub fn nodes(&self) -> &[BvhNode] {
         self.nodes.as_slice()
-- 
2.43.0


From 6b482c1e1a62d6b5f444e93659871aa1785a1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:36 +0000
Subject: [PATCH 20/22] fix: traversals skip indices without a primitive
 instead of hanging or dropping the rest of the leaf

---
 src/iter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 37c2f94..c28d2e0 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -112,6 +112,8 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                         }));
                     }
+                    // Skip indices for which no primitive was given
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -227,6 +229,8 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut RayPacket4, &'b mut RayPacket4>(self.ray)
                         }));
                     }
+                    // Skip indices for which no primitive was given
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -343,6 +347,8 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                                     std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                                 }));
                             }
+                            // Skip indices for which no primitive was given
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
@@ -458,6 +464,8 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                                     )
                                 }));
                             }
+                            // Skip indices for which no primitive was given
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
-- 
2.43.0


From 262abbb99ebf78696fd6ae944a69d1db2ae4a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 21/22] fix: create_spatial_Bvh reports missing arrays instead
 of aborting

---
 rtbvh_ffi/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 93b891f..894cf60 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -345,6 +345,10 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     prims_per_leaf: u32,
     result: *mut RTBvh,
 ) -> ResultCode {
+    if centers.is_null() || vertices.is_null() || result.is_null() {
+        return ResultCode::Error;
+    }
+
     assert_eq!(stride % 4, 0);
 
     let aabbs: Option<Vec<Aabb>> = if !aabbs.is_null() {
-- 
2.43.0


From 8b6f8b5c73d6b795a0181a2bc06d69f278655dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 22/22] fix: queries report handles that were never filled
 instead of making slices of null pointers

---
 rtbvh_ffi/src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 894cf60..22856bf 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -559,6 +559,10 @@ pub unsafe extern "C" fn intersect(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin = Vec3::new(*origin, *origin.add(1), *origin.add(2));
     let direction = Vec3::new(*direction, *direction.add(1), *direction.add(2));
     if origin.is_nan() || direction.is_nan() {
@@ -611,6 +615,10 @@ pub unsafe extern "C" fn intersect_packet(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin_x = Vec4::new(
         *origin_x,
         *origin_x.add(1),
@@ -708,6 +716,10 @@ pub unsafe extern "C" fn intersect_mbvh(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin = Vec3::new(*origin, *origin.add(1), *origin.add(2));
     let direction = Vec3::new(*direction, *direction.add(1), *direction.add(2));
 
@@ -761,6 +773,10 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin_x = Vec4::new(
         *origin_x,
         *origin_x.add(1),
-- 
2.43.0

