From 95c1377d67903e14322689b8eba837538738e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 01/38] fix: HalfEdge twins pointed to the edge after the twin
 instead of the twin

---
 src/half_edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 8d7dafb..45995e2 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -112,7 +112,7 @@ where
             for originating_id in cache.iter() {
                 let _ = result.next(*originating_id).map(|candidate_id| {
                     if result.tails.get(candidate_id.0) == result.tails.get(i) {
-                        result.twins[i] = Some(candidate_id)
+                        result.twins[i] = Some(*originating_id)
                     }
                 });
             }
-- 
2.43.0


From ecf1316a26f5650f3528ea4b3bdaf531bb265e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 02/38] fix: HalfEdge rejected valid ids of vertices after the
 last one used by a face

---
 src/half_edge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 45995e2..30d0e37 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -91,6 +91,11 @@ where
             }
         }
 
+        // vertices after the last one used by a face are valid, too
+        if vertices_start_edges.len() < n_vertices {
+            vertices_start_edges.resize(n_vertices, IC::default());
+        }
+
         let mut result = HalfEdge {
             tails,
             twins,
-- 
2.43.0


From 399119d27f0c62806d6c82448962644d22a71c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 03/38] fix: heal_mesh kept repeated faces

---
 src/heal_mesh.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/heal_mesh.rs b/src/heal_mesh.rs
index 96aadf2..e9ea0a3 100644
--- a/src/heal_mesh.rs
+++ b/src/heal_mesh.rs
@@ -24,7 +24,7 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 use crate::*;
 
-use std::hash::Hash;
+use std::{collections::HashSet, hash::Hash};
 
 //------------------------------------------------------------------------------
 
@@ -56,11 +56,24 @@ where
         result.add_vertex(x);
     }
 
+    let mut added = HashSet::new();
+
     for f in 0..nf_new {
         let (a, b, c) = (indices[3 * f + 0], indices[3 * f + 1], indices[3 * f + 2]);
         if a == b || a == c || b == c {
             continue;
         }
+        // the same face might start at any of its vertices
+        let key = if a < b && a < c {
+            (a, b, c)
+        } else if b < c {
+            (b, c, a)
+        } else {
+            (c, a, b)
+        };
+        if !added.insert(key) {
+            continue;
+        }
         result.try_add_connection(VId(a), VId(b), VId(c))?;
     }
 
-- 
2.43.0


From dc26dc1fb1160b137b3eee2ac91e46772fd6d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 04/38] fix: hash_f64 hashed 0.0 and -0.0 differently although
 they are equal

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 22db621..f76e352 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -73,7 +73,8 @@ pub fn hash_f64<H>(x: f64, state: &mut H)
 where
     H: Hasher,
 {
-    x.to_bits().hash(state);
+    // 0.0 and -0.0 are equal and must hash equally, adding 0.0 normalises the sign
+    (x + 0.0).to_bits().hash(state);
 }
 
 /// Returns a container with duplicates removed and indices representing the original order
-- 
2.43.0


From c80d06f42d5a30db6149410220a5dee197cbc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 05/38] fix: FilterAnyRandomAccessible never removed anything
 from the view

---
 src/filter_any_random_accessible.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 601593c..bbb1f48 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -22,6 +22,8 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 //! FilterAnyRandomAccessible, a filter to chain multiple IsFilterRandomAccessible with the or condition => must pass any filter to pass this filter
 
+use std::collections::HashSet;
+
 use crate::*;
 
 //------------------------------------------------------------------------------
@@ -40,11 +42,12 @@ where
     RA: IsRandomAccessible<T>,
 {
     fn filter(&self, ra: &RA, view: &mut View) {
-        let view_initial = view.clone();
+        let mut result = View::Restricted(HashSet::new());
         for f in &self.filters {
-            let mut view_now = view_initial.clone();
+            let mut view_now = view.clone();
             f.filter(&ra, &mut view_now);
-            view.union(view_now);
+            result.union(view_now);
         }
+        *view = result;
     }
 }
-- 
2.43.0


From dee2c0d2415aa2f3f9a1f7f1df5aacd6a1a01146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 06/38] fix: Sphere and FilterSphere returned y as their z
 position

---
 src/filter_sphere.rs | 2 +-
 src/sphere.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sphere.rs b/src/filter_sphere.rs
index c994523..4510843 100644
--- a/src/filter_sphere.rs
+++ b/src/filter_sphere.rs
@@ -62,7 +62,7 @@ impl Is3D for FilterSphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.sphere.y()
+        self.sphere.z()
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 7db25d6..834976f 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -73,7 +73,7 @@ impl Is3D for Sphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.center.y()
+        self.center.z()
     }
 }
 
-- 
2.43.0


From 764b2cd1e1b9dd73a5a7a50d2758dc502451f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 07/38] fix: PointCloud3Df32 had no bounding box with exactly
 two points

---
 src/point_cloud_3d_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 290b541..fab9bcc 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -130,7 +130,7 @@ where
         let d = &self.data;
         let n_p = d.len() / 3;
 
-        if n_p <= 2 {
+        if n_p < 2 {
             return None;
         }
 
-- 
2.43.0


From 57c713a3d469f71f4635734af4ddf86e9e528fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 08/38] fix: KdTree::knearest missed nearer points and did not
 order its result

---
 src/kd_tree.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/kd_tree.rs b/src/kd_tree.rs
index 967d28d..064aab3 100644
--- a/src/kd_tree.rs
+++ b/src/kd_tree.rs
@@ -224,6 +224,7 @@ where
         if pc.len() < n || sqr_dist_3d(search, &self.val) < sqr_dist_3d(search, &pc[&pc.len() - 1])
         {
             pc.push(self.val.clone());
+            Self::sort_and_limit(pc, search, n); // the last must be the farthest, since it limits the search
         }
 
         let comp = dimension_compare(search, &self.val, self.dimension);
@@ -407,18 +408,11 @@ where
         PSearch: Is3D,
         PFind: Is3D + Clone,
     {
-        if pc.len() > max_size {
-            pc.sort_by(|a, b| {
-                sqr_dist_3d(search, a)
-                    .partial_cmp(&sqr_dist_3d(search, b))
-                    .unwrap_or(Ordering::Equal)
-            });
-            let mut result: Vec<PFind>;
-            result = Vec::new();
-            for i in pc.iter().take(max_size) {
-                result.push(i.clone());
-            }
-            *pc = result;
-        }
+        pc.sort_by(|a, b| {
+            sqr_dist_3d(search, a)
+                .partial_cmp(&sqr_dist_3d(search, b))
+                .unwrap_or(Ordering::Equal)
+        });
+        pc.truncate(max_size);
     }
 }
-- 
2.43.0


From 22ac3102d0471815e7085718b1c9ee80dcb9c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 09/38] fix: OcTree lost points on the borders between its
 cells and in cells that cannot be split

---
 src/oc_tree.rs | 57 ++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 5ce694e..4405093 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -213,34 +213,34 @@ where
         let bbnnp = Self::calc_sub_min_max(Direction::NNP, bb)?;
         let bbnnn = Self::calc_sub_min_max(Direction::NNN, bb)?;
 
+        // comparing to the center assigns every point to exactly one of the octants, also if on a border
+        let center = bb.center_bb();
+
         for p in pc {
-            if bbppp.contains(&p) {
-                pcppp.push(p);
-            } else if bbppn.contains(&p) {
-                pcppn.push(p);
-            } else if bbpnp.contains(&p) {
-                pcpnp.push(p);
-            } else if bbpnn.contains(&p) {
-                pcpnn.push(p);
-            } else if bbnpp.contains(&p) {
-                pcnpp.push(p);
-            } else if bbnpn.contains(&p) {
-                pcnpn.push(p);
-            } else if bbnnp.contains(&p) {
-                pcnnp.push(p);
-            } else if bbnnn.contains(&p) {
-                pcnnn.push(p);
+            match (
+                p.x() >= center.x(),
+                p.y() >= center.y(),
+                p.z() >= center.z(),
+            ) {
+                (true, true, true) => pcppp.push(p),
+                (true, true, false) => pcppn.push(p),
+                (true, false, true) => pcpnp.push(p),
+                (true, false, false) => pcpnn.push(p),
+                (false, true, true) => pcnpp.push(p),
+                (false, true, false) => pcnpn.push(p),
+                (false, false, true) => pcnnp.push(p),
+                (false, false, false) => pcnnn.push(p),
             }
         }
 
-        let ppp = Self::build_subnode(pcppp, &bbppp);
-        let ppn = Self::build_subnode(pcppn, &bbppn);
-        let pnp = Self::build_subnode(pcpnp, &bbpnp);
-        let pnn = Self::build_subnode(pcpnn, &bbpnn);
-        let npp = Self::build_subnode(pcnpp, &bbnpp);
-        let npn = Self::build_subnode(pcnpn, &bbnpn);
-        let nnp = Self::build_subnode(pcnnp, &bbnnp);
-        let nnn = Self::build_subnode(pcnnn, &bbnnn);
+        let ppp = Self::build_subnode(pcppp, &bbppp)?;
+        let ppn = Self::build_subnode(pcppn, &bbppn)?;
+        let pnp = Self::build_subnode(pcpnp, &bbpnp)?;
+        let pnn = Self::build_subnode(pcpnn, &bbpnn)?;
+        let npp = Self::build_subnode(pcnpp, &bbnpp)?;
+        let npn = Self::build_subnode(pcnpn, &bbnpn)?;
+        let nnp = Self::build_subnode(pcnnp, &bbnnp)?;
+        let nnn = Self::build_subnode(pcnnn, &bbnnn)?;
 
         let result: Internal<P> = Internal {
             ppp,
@@ -294,13 +294,10 @@ where
         }
     }
     /// Creates a child node
-    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Option<Box<OcNode<P>>> {
+    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Result<Option<Box<OcNode<P>>>> {
         match pc.len() {
-            0 => None,
-            _ => match OcNode::new(bb, pc) {
-                Err(_) => None,
-                Ok(x) => Some(Box::new(x)),
-            },
+            0 => Ok(None),
+            _ => Ok(Some(Box::new(OcNode::new(bb, pc)?))),
         }
     }
 }
-- 
2.43.0


From 234422387eef8989b41bcb95948a0a20f5a19ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 10/38] fix: BoxUnaligned3D collided as if it was twice its
 size

---
 src/box_unaligned_3d.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index 7f4f2f1..c219590 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -68,15 +68,15 @@ impl BoxUnaligned3D {
         }
     }
     fn d_x(&self) -> Point3D {
-        let d = *self.size[0];
+        let d = 0.5 * *self.size[0];
         Point3D::new_from(&self.x_dir()) * d
     }
     fn d_y(&self) -> Point3D {
-        let d = *self.size[1];
+        let d = 0.5 * *self.size[1];
         Point3D::new_from(&self.y_dir) * d
     }
     fn d_z(&self) -> Point3D {
-        let d = *self.size[2];
+        let d = 0.5 * *self.size[2];
         Point3D::new_from(&self.z_dir) * d
     }
     pub fn x_dir(&self) -> Norm3D {
-- 
2.43.0


From 405951f6fc74dda2a4fa6f652c5962cdf8f6be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 11/38] fix: BoxUnaligned3D reported a bounding box which does
 not enclose it if rotated

---
 src/box_unaligned_3d.rs | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index c219590..535b8c0 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -129,27 +129,9 @@ impl IsSATObject for BoxUnaligned3D {
 
 impl HasBoundingBox3D for BoxUnaligned3D {
     fn bounding_box(&self) -> BoundingBox3D {
-        let mut max_size = self.size[0];
-        if self.size[1] > max_size {
-            max_size = self.size[1]
-        }
-        if self.size[2] > max_size {
-            max_size = self.size[2]
-        }
-
-        BoundingBox3D::new(
-            &Point3D::new(
-                self.center.x() - 0.5 * *max_size,
-                self.center.y() - 0.5 * *max_size,
-                self.center.z() - 0.5 * *max_size,
-            ),
-            &Point3D::new(
-                self.center.x() + 0.5 * *max_size,
-                self.center.y() + 0.5 * *max_size,
-                self.center.z() + 0.5 * *max_size,
-            ),
-        )
-        .unwrap() //@todo unwrap, see above
+        let mut corners = Vec::with_capacity(8);
+        self.for_each_point(&mut |p| corners.push(p.clone()));
+        BoundingBox3D::from_iterator(&corners).unwrap() //@todo unwrap, see above
     }
 }
 
-- 
2.43.0


From 5964f6e402f662b8c93e1f6bd27718ccf54e0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 12/38] fix: intersection of a line and a box ignored the other
 axes when running inside the plane of a face

---
 src/functions.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 3e04332..668dbdc 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -441,27 +441,32 @@ pub fn max64(a: f64, b: f64) -> f64 {
 //@todo better location and as trait?
 /// The intersection between a line and BoundingBox if there is any
 pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
-    let inv_dir = [1.0 / l.dir.x(), 1.0 / l.dir.y(), 1.0 / l.dir.z()];
     let min = b.min_p();
     let max = b.max_p();
 
-    let tx1 = (min.x() - l.anchor.x()) * inv_dir[0];
-    let tx2 = (max.x() - l.anchor.x()) * inv_dir[0];
-
-    let mut tmin = min64(tx1, tx2);
-    let mut tmax = max64(tx1, tx2);
-
-    let ty1 = (min.y() - l.anchor.y()) * inv_dir[1];
-    let ty2 = (max.y() - l.anchor.y()) * inv_dir[1];
-
-    tmin = max64(tmin, min64(ty1, ty2));
-    tmax = min64(tmax, max64(ty1, ty2));
-
-    let tz1 = (min.z() - l.anchor.z()) * inv_dir[2];
-    let tz2 = (max.z() - l.anchor.z()) * inv_dir[2];
+    let mut tmin = std::f64::NEG_INFINITY;
+    let mut tmax = std::f64::INFINITY;
+
+    for (anchor, dir, min, max) in [
+        (l.anchor.x(), l.dir.x(), min.x(), max.x()),
+        (l.anchor.y(), l.dir.y(), min.y(), max.y()),
+        (l.anchor.z(), l.dir.z(), min.z(), max.z()),
+    ]
+    .iter()
+    {
+        if *dir == 0.0 {
+            // parallel to the slab, there's no t to limit
+            if anchor < min || anchor > max {
+                return None;
+            }
+        } else {
+            let t1 = (min - anchor) * (1.0 / dir);
+            let t2 = (max - anchor) * (1.0 / dir);
 
-    tmin = max64(tmin, min64(tz1, tz2));
-    tmax = min64(tmax, max64(tz1, tz2));
+            tmin = max64(tmin, min64(t1, t2));
+            tmax = min64(tmax, max64(t1, t2));
+        }
+    }
 
     if tmax >= tmin && tmax >= 0.0 {
         Some(&l.anchor + &l.dir * tmin)
-- 
2.43.0


From 2d2cdc71650fad9e3a2ec162d48a564d7caf0f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 13/38] fix: convex_hull_2d: order points with equal x by y,
 merge equal points

---
 src/convex_hull_2d.rs | 9 +++++++--
 src/functions.rs      | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/convex_hull_2d.rs b/src/convex_hull_2d.rs
index df98677..23482d1 100644
--- a/src/convex_hull_2d.rs
+++ b/src/convex_hull_2d.rs
@@ -34,11 +34,16 @@ where
     RA: IsRandomAccessible<P>,
     P: IsBuildable2D + Clone,
 {
-    let n = ra.len();
-
     let mut sorted = PointCloud2D::new();
     sorted.append_ra(ra);
     sorted.sort_x();
+    sorted
+        .data
+        .dedup_by(|a, b| a.x() == b.x() && a.y() == b.y());
+    let n = sorted.len();
+    if n < 2 {
+        return sorted.data;
+    }
     let sorted = sorted;
 
     let mut lower = Vec::<P>::new();
diff --git a/src/functions.rs b/src/functions.rs
index 668dbdc..43e4936 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -113,6 +113,7 @@ where
     xs.sort_by(|a, b| {
         a.x()
             .partial_cmp(&b.x())
+            .filter(|order| *order != Ordering::Equal)
             .or_else(|| a.y().partial_cmp(&b.y()))
             .unwrap_or(Ordering::Equal)
     });
-- 
2.43.0


From ab21e6e9a29e0930a4f74b944fde0b7bc4a53425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 14/38] fix: douglas_peucker_2d: keep the split point, finite
 distances for vertical and closed lines, no doubled point

---
 src/douglas_peucker_2d.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index 162ed0d..ab929e1 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -31,7 +31,7 @@ pub fn douglas_peucker_2d<P>(mut pc: PointCloud2D<P>, epsilon: f64) -> PointClou
 where
     P: Is2D + Clone,
 {
-    if pc.len() < 1 {
+    if pc.len() < 3 {
         return pc;
     }
 
@@ -51,7 +51,7 @@ where
         let mut pc1 = pc.clone();
         let mut pc2 = pc.clone();
 
-        pc1.data = pc.data.iter().cloned().take(index).collect();
+        pc1.data = pc.data.iter().cloned().take(index + 1).collect();
         pc1 = douglas_peucker_2d(pc1, epsilon);
 
         pc2.data = pc.data.into_iter().skip(index).collect();
@@ -88,16 +88,12 @@ where
     let c1 = p.x();
     let c2 = p.y();
 
-    let x = (a1 * a1 * c1 - a1 * a2 * b2 + a1 * a2 * c2 - 2.0 * a1 * b1 * c1 + a1 * b2 * b2
-        - a1 * b2 * c2
-        + a2 * a2 * b1
-        - a2 * b1 * b2
-        - a2 * b1 * c2
-        + b1 * b1 * c1
-        + b1 * b2 * c2)
-        / (a1 * a1 - 2.0 * a1 * b1 + a2 * a2 - 2.0 * a2 * b2 + b1 * b1 + b2 * b2);
-
-    let y = ((a2 - b2) * x + a1 * b2 - a2 * b1) / (a1 - b1);
-
-    ((x - p.x()).powi(2) + (y - p.y()).powi(2)).sqrt()
+    let dx = b1 - a1;
+    let dy = b2 - a2;
+    let length = (dx * dx + dy * dy).sqrt();
+    if length == 0.0 {
+        ((c1 - a1).powi(2) + (c2 - a2).powi(2)).sqrt()
+    } else {
+        (dx * (c2 - a2) - dy * (c1 - a1)).abs() / length
+    }
 }
-- 
2.43.0


From a5816a490706d222e859827f2bf2748430c3e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 15/38] fix: CompressedPointCloud3D: compress to u64 and usize

---
 src/compressed_point_cloud_3d.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/compressed_point_cloud_3d.rs b/src/compressed_point_cloud_3d.rs
index 16af708..0de0db6 100644
--- a/src/compressed_point_cloud_3d.rs
+++ b/src/compressed_point_cloud_3d.rs
@@ -72,9 +72,9 @@ where
             let disty = p.y() - bb.min_p().y;
             let distz = p.z() - bb.min_p().z;
 
-            let unitsx = T::from(distx / unitsizex).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsy = T::from(disty / unitsizey).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsz = T::from(distz / unitsizez).ok_or(ErrorKind::NumberConversionError)?;
+            let unitsx = Self::units(distx / unitsizex, maxval)?;
+            let unitsy = Self::units(disty / unitsizey, maxval)?;
+            let unitsz = Self::units(distz / unitsizez, maxval)?;
 
             data.push(CompressedPoint3D {
                 unitsx,
@@ -91,6 +91,14 @@ where
         })
     }
 
+    /// The number of units as T, which can't represent its own maximum once that was rounded up to f64
+    fn units(units: f64, maxval: f64) -> Result<T> {
+        if units >= maxval {
+            return Ok(T::max_value());
+        }
+        T::from(units).ok_or(ErrorKind::NumberConversionError)
+    }
+
     /// Creates a new point cloud from this
     pub fn decompress<P>(&self) -> PointCloud3D<P>
     where
-- 
2.43.0


From 68dfa4637f9713b211f2c90a24e16e92f653a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 16/38] fix: fetch_line: keep the last byte of a final line
 without line end

---
 src/io/utils.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/io/utils.rs b/src/io/utils.rs
index f5d116b..fb1c8d8 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -99,18 +99,13 @@ where
         return Err(FetchLineError);
     }
 
-    // We must drop the '\n' we read_until for sure
-    // And might also have to drop additional whitespace
-    let mut ignore_end = 1;
-    for i in 1..line_buffer.len() {
-        if (line_buffer[line_buffer.len() - i - 1] as char).is_whitespace() {
-            ignore_end += 1;
-        } else {
-            break;
-        }
+    // Drop the '\n' we read_until, which the last line might not have, and additional whitespace
+    let mut end = line_buffer.len();
+    while end > 0 && (line_buffer[end - 1] as char).is_whitespace() {
+        end -= 1;
     }
 
-    Ok(&line_buffer[0..line_buffer.len() - ignore_end])
+    Ok(&line_buffer[0..end])
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 9678d1130ded40eaf6c4046b85ee7b724b263709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 17/38] fix: PtxIterator: stop after a point that can't be
 read, reject rows and columns that overflow

---
 src/io/ptx.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index e342459..c84f7fd 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -155,7 +155,10 @@ where
 
         self.must_transform = self.transformation != Matrix4::identity();
 
-        self.n_points_to_fetch = rows * columns;
+        self.n_points_to_fetch = rows
+            .checked_mul(columns)
+            .ok_or(PtxError::Rows)
+            .index(self.i_line)?;
 
         Ok(())
     }
@@ -199,7 +202,11 @@ where
                     Some(
                         Self::fetch_one(line, self.must_transform, &self.transformation)
                             .map(|x| DataReserve::Data(x))
-                            .line(self.i_line, line),
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
                     )
                 }
                 Err(e) => {
-- 
2.43.0


From 0495806bd4baf724a9db42861f75a5d4fa30558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 18/38] fix: GcodeIterator: take positioning modes without
 further words

---
 src/io/gcode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index e4fc1f1..3372069 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -88,7 +88,7 @@ where
         while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
             self.i_line += 1;
 
-            if line.len() >= 4 && line[0] == b'G' {
+            if line.len() >= 3 && line[0] == b'G' {
                 if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
                     // Move according to absolute/relative
                     let mut any_changed = false;
@@ -130,7 +130,7 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && line[3] == b' ' {
+                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ') {
                     // G9x
                     if line[2] == b'0' {
                         // G90
@@ -142,7 +142,7 @@ where
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-                        match command(&line[4..])
+                        match command(&line[3..])
                             .ok_or(GcodeError::Command)
                             .line(self.i_line, line)
                         {
-- 
2.43.0


From 60e7e101d80bc130a7f022b55a00d112c8b4d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 19/38] fix: OBJ: reject vertex number 0 instead of panicking

---
 src/io/obj.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index af7ab3b..4bc10f8 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -306,7 +306,7 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
-    //@todo could fail if 0 in file
     //obj indexing starts at 1
-    Ok([a - 1, b - 1, c - 1])
+    let to_index = |x: usize| x.checked_sub(1).ok_or(ObjError::Face);
+    Ok([to_index(a)?, to_index(b)?, to_index(c)?])
 }
-- 
2.43.0


From 297b414ba50b7706c2b28b35830f8e2e99e78c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 20/38] fix: OFF readers: report files that end early, read
 only the announced faces

---
 src/io/off.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 1b506af..e22aa19 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -133,7 +133,11 @@ where
 
         self.is_done = true;
 
-        None
+        match self.n_vertices {
+            None => Some(Err(OffError::VertexCount).index(self.i_line)),
+            Some(n) if self.n_added < n => Some(Err(OffError::Vertex).index(self.i_line)),
+            _ => None,
+        }
     }
 }
 
@@ -159,6 +163,7 @@ where
     off_seen: bool,
     counts: Option<[usize; 2]>,
     n_vertices_added: usize,
+    n_faces_added: usize,
     phantom_p: PhantomData<P>,
 }
 
@@ -176,6 +181,7 @@ where
             off_seen: false,
             counts: None,
             n_vertices_added: 0,
+            n_faces_added: 0,
             phantom_p: PhantomData,
         }
     }
@@ -261,14 +267,20 @@ where
             }
 
             // safe since checked above
+            let [n_vertices, n_faces] = self.counts.unwrap();
+            if self.n_vertices_added >= n_vertices && self.n_faces_added >= n_faces {
+                break;
+            }
+
             return Some(
-                (if self.n_vertices_added < self.counts.unwrap()[0] {
+                (if self.n_vertices_added < n_vertices {
                     self.n_vertices_added += 1;
 
                     fetch_vertex(line)
                         .map(|x| FaceDataReserve::Data(x))
                         .line(self.i_line, line)
                 } else {
+                    self.n_faces_added += 1;
                     Self::fetch_face(line)
                         .map(|x| FaceDataReserve::Face(x))
                         .line(self.i_line, line)
@@ -286,7 +298,16 @@ where
 
         self.is_done = true;
 
-        None
+        match self.counts {
+            None => Some(Err(OffError::VertexCount).index(self.i_line)),
+            Some([n_vertices, _]) if self.n_vertices_added < n_vertices => {
+                Some(Err(OffError::Vertex).index(self.i_line))
+            }
+            Some([_, n_faces]) if self.n_faces_added < n_faces => {
+                Some(Err(OffError::Face).index(self.i_line))
+            }
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From c5e45ea40812df59a22cfbf848e59fc2dcc2c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 21/38] fix: PtsIterator: report files that end before the
 announced vertices

---
 src/io/pts.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1bec397..afdf6ae 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -163,7 +163,12 @@ where
 
         self.is_done = true;
 
-        None
+        match self.n_vertices {
+            Some(n) if self.n_vertices_added < n => {
+                Some(Err(PtsError::Vertex).index(self.i_line))
+            }
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From d5d11d78fe46446c6759aaffe6a55591f386d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 22/38] fix: readers: report a failing source instead of
 treating it as the end of the file

---
 src/io/gcode.rs | 10 +++++++++-
 src/io/obj.rs   | 20 ++++++++++++++++++--
 src/io/off.rs   | 20 ++++++++++++++++++--
 src/io/pts.rs   | 10 +++++++++-
 src/io/ptx.rs   | 26 +++++++++++++++++---------
 src/io/stl.rs   |  7 +++++--
 src/io/utils.rs | 14 ++++++++++----
 src/io/xy.rs    | 33 ++++++++++++++++++++-------------
 src/io/xyz.rs   | 33 ++++++++++++++++++++-------------
 9 files changed, 126 insertions(+), 47 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index 3372069..154901c 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -85,7 +85,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(GcodeError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.len() >= 3 && line[0] == b'G' {
diff --git a/src/io/obj.rs b/src/io/obj.rs
index 4bc10f8..ec18e9e 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -75,7 +75,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
@@ -141,7 +149,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
diff --git a/src/io/off.rs b/src/io/off.rs
index e22aa19..04f6792 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -82,7 +82,15 @@ where
             return None;
         }
 
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
@@ -241,7 +249,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
diff --git a/src/io/pts.rs b/src/io/pts.rs
index afdf6ae..dde99ba 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -101,7 +101,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PtsError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.is_empty() {
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index c84f7fd..22a10e9 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -176,14 +176,19 @@ where
             return None;
         }
         if self.n_points_to_fetch == 0 {
-            let first_line = fetch_line(&mut self.read, &mut self.line_buffer);
-            if first_line.is_err() {
-                self.is_done = true;
-                return None;
-            }
+            let first_line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => {
+                    self.is_done = true;
+                    return None;
+                }
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PtxError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
-            // unwrap safe, is_err() checked above
-            match from_ascii(first_line.as_ref().unwrap())
+            match from_ascii(first_line)
                 .ok_or(PtxError::Columns)
                 .index(self.i_line)
                 .and_then(|columns| self.fetch_header(columns))
@@ -305,8 +310,11 @@ impl From<ioError> for PtxError {
 }
 
 impl From<FetchLineError> for PtxError {
-    fn from(_error: FetchLineError) -> Self {
-        PtxError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => PtxError::LoadFileEndReached,
+            FetchLineError::AccessFile => PtxError::AccessFile,
+        }
     }
 }
 
diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4f4213..1b7adab 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -732,7 +732,10 @@ impl From<FromBytesError> for StlError {
 }
 
 impl From<FetchLineError> for StlError {
-    fn from(_error: FetchLineError) -> Self {
-        StlError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => StlError::LoadFileEndReached,
+            FetchLineError::AccessFile => StlError::AccessFile,
+        }
     }
 }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index fb1c8d8..aa6e9c3 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -96,7 +96,7 @@ where
     line_buffer.clear();
     let n_read = read.read_until(b'\n', line_buffer)?;
     if n_read == 0 {
-        return Err(FetchLineError);
+        return Err(FetchLineError::EndReached);
     }
 
     // Drop the '\n' we read_until, which the last line might not have, and additional whitespace
@@ -111,19 +111,25 @@ where
 //------------------------------------------------------------------------------
 
 /// Error type for the fetch_line function
-pub struct FetchLineError;
+pub enum FetchLineError {
+    EndReached,
+    AccessFile,
+}
 
 /// Result type for the fetch_line function
 pub type FetchLineResult<T> = std::result::Result<T, FetchLineError>;
 
 impl fmt::Debug for FetchLineError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "Unable to fetch line")
+        match self {
+            Self::EndReached => write!(f, "Unable to fetch line, end reached"),
+            Self::AccessFile => write!(f, "Unable to fetch line, access failed"),
+        }
     }
 }
 
 impl From<ioError> for FetchLineError {
     fn from(_error: ioError) -> Self {
-        FetchLineError {}
+        FetchLineError::AccessFile
     }
 }
diff --git a/src/io/xy.rs b/src/io/xy.rs
index 4531160..b7fb5cb 100644
--- a/src/io/xy.rs
+++ b/src/io/xy.rs
@@ -101,19 +101,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(FetchLineError::EndReached) => {
+                self.is_done = true;
+                None
+            }
+            Err(FetchLineError::AccessFile) => {
+                self.is_done = true;
+                Some(Err(XyError::AccessFile).index(self.i_line))
+            }
         }
     }
 }
diff --git a/src/io/xyz.rs b/src/io/xyz.rs
index 5399984..d97fa75 100644
--- a/src/io/xyz.rs
+++ b/src/io/xyz.rs
@@ -106,19 +106,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(FetchLineError::EndReached) => {
+                self.is_done = true;
+                None
+            }
+            Err(FetchLineError::AccessFile) => {
+                self.is_done = true;
+                Some(Err(XyzError::AccessFile).index(self.i_line))
+            }
         }
     }
 }
-- 
2.43.0


From 8926c9e9eb6af646ff17046d86bef78bd6c7035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 23/38] fix: StlIterator: report ASCII files that end within a
 facet

---
 src/io/stl.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 1b7adab..2d97295 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -514,6 +514,28 @@ where
 
 //------------------------------------------------------------------------------
 
+// a line within a facet, where the file must not end
+fn fetch_facet_line<'a, R>(
+    read: &mut R,
+    line_buffer: &'a mut Vec<u8>,
+    i_line: &mut usize,
+    missing: StlError,
+) -> StlIOResult<&'a [u8]>
+where
+    R: BufRead,
+{
+    match fetch_line(read, line_buffer) {
+        Ok(line) => {
+            *i_line += 1;
+            Ok(line)
+        }
+        Err(FetchLineError::EndReached) => Err(missing).index(*i_line),
+        Err(FetchLineError::AccessFile) => Err(StlError::AccessFile).index(*i_line),
+    }
+}
+
+//------------------------------------------------------------------------------
+
 fn read_stl_facet<P, R>(
     read: &mut R,
     line_buffer: &mut Vec<u8>,
@@ -538,43 +560,37 @@ where
 
     let n = read_stl_normal(&line).unwrap_or(P::new(0.0, 0.0, 1.0));
 
-    line = trim_start(fetch_line(read, line_buffer).index(*i_line)?);
-    *i_line += 1;
+    line = trim_start(fetch_facet_line(read, line_buffer, i_line, StlError::Loop)?);
 
     if !line.starts_with(b"outer loop") {
         return Err(StlError::Loop).line(*i_line, line);
     }
 
-    line = fetch_line(read, line_buffer).index(*i_line)?;
-    *i_line += 1;
+    line = fetch_facet_line(read, line_buffer, i_line, StlError::Vertex)?;
 
     let a = read_stl_vertex(&line)
         .ok_or(StlError::Vertex)
         .line(*i_line, line)?;
 
-    line = fetch_line(read, line_buffer).index(*i_line)?;
-    *i_line += 1;
+    line = fetch_facet_line(read, line_buffer, i_line, StlError::Vertex)?;
 
     let b = read_stl_vertex(&line)
         .ok_or(StlError::Vertex)
         .line(*i_line, line)?;
 
-    line = fetch_line(read, line_buffer).index(*i_line)?;
-    *i_line += 1;
+    line = fetch_facet_line(read, line_buffer, i_line, StlError::Vertex)?;
 
     let c = read_stl_vertex(&line)
         .ok_or(StlError::Vertex)
         .line(*i_line, line)?;
 
-    line = trim_start(fetch_line(read, line_buffer).index(*i_line)?);
-    *i_line += 1;
+    line = trim_start(fetch_facet_line(read, line_buffer, i_line, StlError::EndLoop)?);
 
     if !line.starts_with(b"endloop") {
         return Err(StlError::EndLoop).line(*i_line, line);
     }
 
-    line = trim_start(fetch_line(read, line_buffer).index(*i_line)?);
-    *i_line += 1;
+    line = trim_start(fetch_facet_line(read, line_buffer, i_line, StlError::EndFacet)?);
 
     if !line.starts_with(b"endfacet") {
         return Err(StlError::EndFacet).line(*i_line, line);
-- 
2.43.0


From 70d9be49ff59f218f3a6a0a3b3c8f1d259509974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 24/38] fix: PLY readers: order and types of coordinates, early
 ends, properties around the indices

---
 src/io/ply/header.rs             | 76 +++++++++++++++------------
 src/io/ply/iterators_internal.rs | 88 ++++++++++++++++++++------------
 src/io/ply/types.rs              |  2 +
 src/io/ply/utils.rs              | 26 +++++++---
 4 files changed, 122 insertions(+), 70 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 08fbd6b..e6f4355 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -42,7 +42,6 @@ where
     R: BufRead,
 {
     let mut vertex_order = [Xyz::X, Xyz::X, Xyz::X];
-    let mut i_vertex_order = 0;
 
     let mut ply_found = false;
     let mut read_state = HeaderReadState::Meta;
@@ -50,9 +49,8 @@ where
     let mut opt_n_vertices: Option<usize> = None;
     let mut opt_n_faces: Option<usize> = None;
 
-    let mut opt_fst_type = None;
-    let mut opt_snd_type = None;
-    let mut opt_third_type = None;
+    // types in order of their appearance, just like vertex_order
+    let mut vertex_types = [None; 3];
     let mut n_types_found = 0;
     let mut vertex_before = BytesWords::default();
     let mut vertex_between_first_snd = BytesWords::default();
@@ -63,6 +61,7 @@ where
     let mut opt_face_index_type = None;
     let mut face_before = BytesWords::default();
     let mut face_after = BytesWords::default();
+    let mut faces_readable = true;
 
     while let Ok(line) = fetch_line(read, line_buffer) {
         *i_line += 1;
@@ -114,6 +113,10 @@ where
         match opt_n_faces {
             None => {
                 if line.starts_with(b"element face") {
+                    if opt_n_vertices.is_none() {
+                        // the data would start with the faces
+                        return Err(PlyError::LoadHeaderInvalid).line(*i_line, line);
+                    }
                     read_state = HeaderReadState::Face;
                     let mut words = to_words_skip_empty(line);
                     opt_n_faces = Some(
@@ -144,21 +147,19 @@ where
                         .next()
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
-                    if id == b"x" {
-                        opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::X;
-                        i_vertex_order += 1;
-                    } else if id == b"y" {
-                        opt_snd_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Y;
-                        i_vertex_order += 1;
-                    } else if id == b"z" {
-                        opt_third_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                    if id == b"x" || id == b"y" || id == b"z" {
+                        if n_types_found >= 3 {
+                            return Err(PlyError::InvalidVertexDimensionDefinition)
+                                .line(*i_line, line);
+                        }
+                        vertex_types[n_types_found] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
+                        vertex_order[n_types_found] = match id {
+                            b"x" => Xyz::X,
+                            b"y" => Xyz::Y,
+                            _ => Xyz::Z,
+                        };
                         n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Z;
-                        i_vertex_order += 1;
                     } else if n_types_found == 0 {
                         vertex_before.bytes += t.size_bytes();
                         vertex_before.words += 1;
@@ -175,7 +176,16 @@ where
                 }
                 HeaderReadState::Face => {
                     if line.starts_with(b"property list") {
-                        if contains(line, b"vertex_indices") || contains(line, b"vertex_index") {
+                        if !contains(line, b"vertex_indices") && !contains(line, b"vertex_index") {
+                            // Can't skip other lists, unless they're at the end of a line
+                            if opt_face_count_type.is_none()
+                                || !matches!(opt_format, Some(Format::Ascii))
+                            {
+                                faces_readable = false;
+                            }
+                        } else if opt_face_count_type.is_some() {
+                            faces_readable = false;
+                        } else {
                             let mut words = to_words_skip_empty(line);
                             skip_n(&mut words, 2); // skip "property" and "list"
 
@@ -221,20 +231,19 @@ where
         }
 
         if line == b"end_header" && ply_found {
-            if let (Some(format), Some(n_vertices), Some(x_type), Some(y_type), Some(z_type)) = (
-                opt_format,
-                opt_n_vertices,
-                opt_fst_type,
-                opt_snd_type,
-                opt_third_type,
-            ) {
+            if let (
+                Some(format),
+                Some(n_vertices),
+                [Some(fst_type), Some(snd_type), Some(third_type)],
+            ) = (opt_format, opt_n_vertices, vertex_types)
+            {
                 let vertex_data = VertexData {
                     count: n_vertices,
                     format: VertexFormat {
                         order: VertexOrder::try_from(vertex_order).line(*i_line, line)?,
-                        first: x_type,
-                        snd: y_type,
-                        third: z_type,
+                        first: fst_type,
+                        snd: snd_type,
+                        third: third_type,
                         before: vertex_before,
                         between_first_snd: vertex_between_first_snd,
                         between_snd_third: vertex_between_snd_third,
@@ -242,9 +251,12 @@ where
                     },
                 };
 
-                if let (Some(n_faces), Some(face_count_type), Some(face_index_type)) =
-                    (opt_n_faces, opt_face_count_type, opt_face_index_type)
-                {
+                if let (true, Some(n_faces), Some(face_count_type), Some(face_index_type)) = (
+                    faces_readable,
+                    opt_n_faces,
+                    opt_face_count_type,
+                    opt_face_index_type,
+                ) {
                     return Ok(Header::Full(FullHeader {
                         format,
                         vertex: vertex_data,
diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 82ab84e..0c39f7b 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -71,7 +71,12 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(Ok(x)) => return Some(Ok(io::types::FaceData::Data(x))),
+                Some(Err(e)) => {
+                    // without its points there are no faces either
+                    self.p_iter = None;
+                    return Some(Err(e));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -85,10 +90,8 @@ where
                 }
             }
         }
-        //unwrap safe, either is always constructed
         self.f_iter
-            .as_mut()
-            .unwrap()
+            .as_mut()?
             .next()
             .map(|x| x.map(|x| io::types::FaceData::Face(x)))
     }
@@ -141,7 +144,12 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(Ok(x)) => return Some(Ok(io::types::FaceData::Data(x))),
+                Some(Err(e)) => {
+                    // without its points there are no faces either
+                    self.p_iter = None;
+                    return Some(Err(e));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -151,10 +159,8 @@ where
                 }
             }
         }
-        //unwrap safe, either is always constructed
         self.f_iter
-            .as_mut()
-            .unwrap()
+            .as_mut()?
             .next()
             .map(|x| x.map(|x| io::types::FaceData::Face(x)))
     }
@@ -378,17 +384,24 @@ where
             return None;
         }
         if self.current < self.header.vertex.count {
-            self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-                self.i_line += 1;
-                return Some(
-                    Self::fetch_one(&self.header, line)
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
+            match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => {
+                    self.current += 1;
+                    self.i_line += 1;
+                    return Some(
+                        Self::fetch_one(&self.header, line)
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
+                    );
+                }
+                Err(FetchLineError::EndReached) => (),
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PlyError::AccessFile).index(self.i_line));
+                }
             }
         }
 
@@ -450,24 +463,35 @@ where
             return None;
         }
         if self.current < self.header.face.count {
-            self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-                self.i_line += 1;
-                return Some(
-                    collect_index_line(&line)
-                        .ok_or(PlyError::FaceStructure)
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
+            match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => {
+                    self.current += 1;
+                    self.i_line += 1;
+                    return Some(
+                        collect_index_line(line, self.header.face.format.before.words)
+                            .ok_or(PlyError::FaceStructure)
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
+                    );
+                }
+                Err(FetchLineError::EndReached) => (),
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PlyError::AccessFile).index(self.i_line));
+                }
             }
         }
 
         self.is_done = true;
 
-        None
+        if self.current != self.header.face.count {
+            Some(Err(PlyError::LoadFaceCountIncorrect).simple())
+        } else {
+            None
+        }
     }
 }
 
diff --git a/src/io/ply/types.rs b/src/io/ply/types.rs
index 9cb21e9..c06e2ab 100644
--- a/src/io/ply/types.rs
+++ b/src/io/ply/types.rs
@@ -288,6 +288,7 @@ pub enum PlyError {
     LoadVertexIndexDefinitionNotFound,
     LoadHeaderInvalid,
     LoadVertexCountIncorrect,
+    LoadFaceCountIncorrect,
     AccessFile,
     ColorArrayIncorrectLength,
     VertexElement,
@@ -319,6 +320,7 @@ impl fmt::Debug for PlyError {
             }
             Self::LoadHeaderInvalid => write!(f, "Header of .ply seems to be invalid"),
             Self::LoadVertexCountIncorrect => write!(f, "Vertex count of .ply not found"),
+            Self::LoadFaceCountIncorrect => write!(f, "Face count of .ply not found"),
             Self::ColorArrayIncorrectLength => {
                 write!(f, "The provided color array has an incorrect length")
             }
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index dc00574..0c6c568 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,8 +34,11 @@ use std::io::Read;
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8]) -> Option<[usize; 3]> {
+pub fn collect_index_line(line: &[u8], n_skip: usize) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
+
+    skip_n(&mut words, n_skip);
+
     if words.next()? != b"3" {
         return None;
     }
@@ -56,17 +59,28 @@ where
     R: Read,
 {
     Ok(match t {
-        FaceType::Char => BR::read_i8(read)? as usize,
+        FaceType::Char => non_negative(BR::read_i8(read)? as i64)?,
         FaceType::UChar => BR::read_u8(read)? as usize,
-        FaceType::Short => BR::read_i16(read)? as usize,
+        FaceType::Short => non_negative(BR::read_i16(read)? as i64)?,
         FaceType::UShort => BR::read_u16(read)? as usize,
-        FaceType::Int => BR::read_i32(read)? as usize,
+        FaceType::Int => non_negative(BR::read_i32(read)? as i64)?,
         FaceType::UInt => BR::read_u32(read)? as usize,
     })
 }
 
 //------------------------------------------------------------------------------
 
+#[inline(always)]
+fn non_negative(x: i64) -> PlyResult<usize> {
+    if x < 0 {
+        Err(PlyError::FaceStructure)
+    } else {
+        Ok(x as usize)
+    }
+}
+
+//------------------------------------------------------------------------------
+
 #[inline(always)]
 pub fn read_vertex_type<BR, R>(read: &mut R, t: VertexType) -> PlyResult<f64>
 where
@@ -90,8 +104,8 @@ where
         VertexOrder::Xyz => P::new(fst, snd, third),
         VertexOrder::Xzy => P::new(fst, third, snd),
         VertexOrder::Yxz => P::new(snd, fst, third),
-        VertexOrder::Yzx => P::new(snd, third, fst),
-        VertexOrder::Zxy => P::new(third, fst, snd),
+        VertexOrder::Yzx => P::new(third, fst, snd),
+        VertexOrder::Zxy => P::new(snd, third, fst),
         VertexOrder::Zyx => P::new(third, snd, fst),
     }
 }
-- 
2.43.0


From a4bdf245e6f3d2dc482be3d7e9489c5f61213fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 25/38] fix: PslIterator: read all points of all lines and
 passes

---
 src/io/psl.rs | 53 +++++++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/src/io/psl.rs b/src/io/psl.rs
index e7f7fdd..7d009ad 100644
--- a/src/io/psl.rs
+++ b/src/io/psl.rs
@@ -70,33 +70,22 @@ where
         self.n_passes_left = fetch_header_return_n_passes(&mut self.read)?;
         Ok(())
     }
+    /// Moves on to the next line with points left, fetching all headers on the way. False if there is none
     #[inline(always)]
-    fn fetch_counts(&mut self) -> PslResult<()> {
-        self.n_lines_left = if self.n_lines_left == 0 && self.n_passes_left > 0 {
-            fetch_pass_header_return_n_lines(&mut self.read)?
-        } else {
-            0
-        };
-        self.n_point_left = if self.n_point_left == 0 && self.n_lines_left > 0 {
-            fetch_line_header_return_n_points(&mut self.read)?
-        } else {
-            0
-        };
-        Ok(())
-    }
-    #[inline(always)]
-    fn reduce_count(&mut self) {
-        if self.n_point_left > 0 {
-            self.n_point_left -= 1
-        } else {
+    fn fetch_counts(&mut self) -> PslResult<bool> {
+        while self.n_point_left <= 0 {
             if self.n_lines_left > 0 {
-                self.n_lines_left -= 1
+                self.n_lines_left -= 1;
+                self.n_point_left = fetch_line_header_return_n_points(&mut self.read)?;
+            } else if self.n_passes_left > 0 {
+                self.n_passes_left -= 1;
+                self.n_lines_left = fetch_pass_header_return_n_lines(&mut self.read)?;
             } else {
-                if self.n_passes_left > 0 {
-                    self.n_passes_left -= 1
-                }
+                return Ok(false);
             }
         }
+
+        Ok(true)
     }
 }
 
@@ -120,17 +109,19 @@ where
             }
         }
 
-        if let Err(e) = self.fetch_counts() {
-            self.is_done = true;
-            return Some(Err(e));
-        }
-
-        if self.n_point_left == 0 {
-            self.is_done = true;
-            return None;
+        match self.fetch_counts() {
+            Ok(true) => (),
+            Ok(false) => {
+                self.is_done = true;
+                return None;
+            }
+            Err(e) => {
+                self.is_done = true;
+                return Some(Err(e));
+            }
         }
 
-        self.reduce_count();
+        self.n_point_left -= 1;
 
         return Some(fetch_point(&mut self.read).map_err(|e| {
             self.is_done = true;
-- 
2.43.0


From 33d491cf3429f55c2b3e9fdd1aba3138c8eb3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 26/38] fix: LAS: read headers of older versions, ignore the
 1.4 count in them, reject too short records

---
 src/io/las/load.rs  | 17 +++++++++++++++--
 src/io/las/types.rs |  9 +++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index da06a24..176186d 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -159,12 +159,25 @@ where
 
 //------------------------------------------------------------------------------
 
-fn load_header<R>(mut read: R) -> LasResult<HeaderRaw>
+fn load_header<R>(read: R) -> LasResult<HeaderRaw>
 where
     R: Read,
 {
+    // Headers of older versions are shorter, what they're lacking is treated as 0
+    let mut bytes = Vec::with_capacity(375);
+    read.take(375).read_to_end(&mut bytes)?;
+
     let mut buffer = [0u8; 375];
-    read.read_exact(&mut buffer)?;
+    buffer[..bytes.len()].copy_from_slice(&bytes);
+
+    let size_minimum = match buffer[25] {
+        0..=2 => 227,
+        3 => 235,
+        _ => 375,
+    };
+    if bytes.len() < size_minimum {
+        return Err(LasError::Header);
+    }
 
     Ok(HeaderRaw {
         file_signature: array_from_bytes_le!(u8, 4, &buffer[0..4])?, //4 4
diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 8966e55..8e5a65a 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -53,8 +53,8 @@ impl TryFrom<HeaderRaw> for Header {
             return Err(LasError::UnsupportedVersion);
         }
 
-        // These are conversions according to the legacy mode
-        let n_point_records = if x.legacy_n_point_records == 0 {
+        // These are conversions according to the legacy mode, older versions only know the legacy count
+        let n_point_records = if x.legacy_n_point_records == 0 && x.version_minor >= 4 {
             x.n_point_records
         } else {
             x.legacy_n_point_records as u64
@@ -64,6 +64,11 @@ impl TryFrom<HeaderRaw> for Header {
             return Err(LasError::UnknownPointFormat);
         }
 
+        // Has to contain at least the coordinates
+        if x.point_record_length < 12 {
+            return Err(LasError::Header);
+        }
+
         Ok(Header {
             offset_point_data: x.offset_point_data,
             point_record_length: x.point_record_length,
-- 
2.43.0


From 33e30d92d24790563229ace46b374bd793234c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 27/38] fix: bound the space reserved for the counts announced
 by files

---
 src/io/las/load.rs |  4 ++--
 src/io/off.rs      |  6 +++---
 src/io/ply/load.rs | 14 +++++++-------
 src/io/pts.rs      |  2 +-
 src/io/ptx.rs      |  2 +-
 src/io/stl.rs      |  3 +++
 src/io/utils.rs    | 11 +++++++++++
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index 176186d..e1b0879 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -33,7 +33,7 @@ use std::{
     marker::PhantomData,
 };
 
-use super::super::{from_bytes::*, types::*};
+use super::super::{from_bytes::*, types::*, utils::reservable};
 
 //------------------------------------------------------------------------------
 
@@ -149,7 +149,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(reservable(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/off.rs b/src/io/off.rs
index 04f6792..11f1f7d 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -353,8 +353,8 @@ where
                     .simple()?;
             }
             FaceDataReserve::ReserveDataFaces(n_vertices, n_faces) => {
-                mesh.reserve_vertices(n_vertices);
-                mesh.reserve_faces(n_faces);
+                mesh.reserve_vertices(reservable(n_vertices));
+                mesh.reserve_faces(reservable(n_faces));
             }
             FaceDataReserve::Data(x) => {
                 mesh.add_vertex(x);
@@ -376,7 +376,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(reservable(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index 82ae4b6..64b49fb 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -26,7 +26,7 @@ use crate::*;
 
 use std::io::{BufRead, Read};
 
-use super::super::{byte_reader::*, types::*};
+use super::super::{byte_reader::*, types::*, utils::reservable};
 
 use super::{header::*, iterators::*, iterators_internal::*, types::*};
 
@@ -49,8 +49,8 @@ where
 
     match load_header(&mut read, &mut line_buffer, &mut i_line)? {
         Header::Full(header) => {
-            mesh.reserve_vertices(header.vertex.count);
-            mesh.reserve_faces(header.face.count);
+            mesh.reserve_vertices(reservable(header.vertex.count));
+            mesh.reserve_faces(reservable(header.face.count));
 
             match header.format {
                 Format::Ascii => load_mesh_ascii(&mut read, mesh, header, &mut i_line),
@@ -65,7 +65,7 @@ where
             Ok(MeshOrPoints::Mesh)
         }
         Header::Partial(header) => {
-            ip.reserve(header.vertex.count);
+            ip.reserve(reservable(header.vertex.count));
 
             match header.format {
                 Format::Ascii => load_points_ascii(&mut read, ip, header, i_line),
@@ -97,8 +97,8 @@ where
                 mesh.add_vertex(p);
             }
             FaceDataReserve::ReserveDataFaces(n_d, n_f) => {
-                mesh.reserve_vertices(n_d);
-                mesh.reserve_faces(n_f);
+                mesh.reserve_vertices(reservable(n_d));
+                mesh.reserve_faces(reservable(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
                 mesh.try_add_connection(VId(a), VId(b), VId(c))
@@ -124,7 +124,7 @@ where
 
     for rp in iterator {
         match rp? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(reservable(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index dde99ba..3c85f52 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -198,7 +198,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(reservable(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 22a10e9..2f76fe5 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -246,7 +246,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(reservable(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 2d97295..b00b49e 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -350,6 +350,7 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
+                let n = reservable(n);
                 mesh.reserve_vertices(3 * n);
                 mesh.reserve_faces(n);
             }
@@ -384,6 +385,7 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
+                let n = reservable(n);
                 //Can't reserve vertices since not sure how many are unique
                 mesh.reserve_faces(n);
                 face_normals.reserve(n);
@@ -443,6 +445,7 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
+                let n = reservable(n);
                 ip.reserve(3 * n);
                 face_normals.reserve(n);
             }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index aa6e9c3..84eda7b 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -57,6 +57,17 @@ where
 
 //------------------------------------------------------------------------------
 
+/// Number of elements to reserve space for, given a number announced by a file
+///
+/// The number can't be trusted, so the space reserved up front is bounded
+#[inline(always)]
+pub fn reservable(n_announced: usize) -> usize {
+    const MAX_RESERVED: usize = 1_000_000;
+    n_announced.min(MAX_RESERVED)
+}
+
+//------------------------------------------------------------------------------
+
 /// Trims white space at the start of the input
 pub fn trim_start(text: &[u8]) -> &[u8] {
     let mut to_drop = 0;
-- 
2.43.0


From 2ee678c992c2fbcab1a738cdbeb2cd4c68f1d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 28/38] fix: LAS: read only the header of the file's version

---
 src/io/las/load.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index e1b0879..ce02dde 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -159,25 +159,20 @@ where
 
 //------------------------------------------------------------------------------
 
-fn load_header<R>(read: R) -> LasResult<HeaderRaw>
+fn load_header<R>(mut read: R) -> LasResult<HeaderRaw>
 where
     R: Read,
 {
     // Headers of older versions are shorter, what they're lacking is treated as 0
-    let mut bytes = Vec::with_capacity(375);
-    read.take(375).read_to_end(&mut bytes)?;
-
     let mut buffer = [0u8; 375];
-    buffer[..bytes.len()].copy_from_slice(&bytes);
+    read.read_exact(&mut buffer[..227])?;
 
-    let size_minimum = match buffer[25] {
+    let size = match buffer[25] {
         0..=2 => 227,
         3 => 235,
         _ => 375,
     };
-    if bytes.len() < size_minimum {
-        return Err(LasError::Header);
-    }
+    read.read_exact(&mut buffer[227..size])?;
 
     Ok(HeaderRaw {
         file_signature: array_from_bytes_le!(u8, 4, &buffer[0..4])?, //4 4
-- 
2.43.0


From 6dc93c1d05155f72fe0b0bac3cc27aa26e2892c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 29/38] fix: PLY: write binary data completely

---
 src/io/ply/save.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/io/ply/save.rs b/src/io/ply/save.rs
index 9b58ae3..e71fe7f 100644
--- a/src/io/ply/save.rs
+++ b/src/io/ply/save.rs
@@ -192,28 +192,28 @@ where
         Precision::P32 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
             }
         }
 
         Precision::P64 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
             }
         }
     }
 
     for i in 0..mesh.num_faces() {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating num_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
@@ -288,12 +288,12 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
 
@@ -301,22 +301,22 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
     }
 
     for i in 0..n_faces {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating n_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
-- 
2.43.0


From bc67d03a6720873e490e2848b326d4f0281cba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 30/38] fix: save_stl_ascii: save degenerate faces

---
 src/io/stl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index b00b49e..8592ac1 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -63,7 +63,7 @@ where
 
     for i in 0..mesh.num_faces() {
         let [v1, v2, v3] = mesh.face_vertices(FId(i)).unwrap(); // safe since iterating num_faces
-        let n = mesh.face_normal(FId(i)).unwrap(); // safe since iterating num_faces
+        let n = normal_of_face(&v1, &v2, &v3);
         let buffer = "facet normal ".to_string()
             + &str_exp(&n)
             + "\n"
-- 
2.43.0


From ae8818c617a54611f5207a896ae415d741470827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 31/38] fix: OcTree::collect overflowed its depth counter in
 trees deeper than 127 levels

---
 src/oc_tree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 4405093..90d4e83 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -307,8 +307,8 @@ where
     P: IsBuildable3D + Clone + Default,
 {
     /// Collects all points within the node until a certain depth
-    pub fn collect(&self, depth: i8, maxdepth: i8, pc: &mut PointCloud3D<P>) {
-        let only_collect_centers = maxdepth >= 0 && depth > maxdepth;
+    pub fn collect(&self, depth: usize, maxdepth: i8, pc: &mut PointCloud3D<P>) {
+        let only_collect_centers = maxdepth >= 0 && depth > maxdepth as usize;
         match self {
             &OcNode::Leaf(ref p) => pc.push(p.clone()),
 
@@ -344,7 +344,7 @@ where
     fn collect_center_or_all(
         n: &OcNode<P>,
         only_collect_centers: bool,
-        depth: i8,
+        depth: usize,
         maxdepth: i8,
         pc: &mut PointCloud3D<P>,
     ) {
-- 
2.43.0


From dd60e6e0ad15994ab403cbedfd3d9c7127e743a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 32/38] fix: angle between parallel 3D vectors is never NaN

---
 src/is_3d.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/is_3d.rs b/src/is_3d.rs
index 9ea6219..11a1863 100644
--- a/src/is_3d.rs
+++ b/src/is_3d.rs
@@ -71,7 +71,9 @@ pub trait Is3D: IsND {
         if *self.abs() == 0.0 || *other.abs() == 0.0 {
             return Err(ErrorKind::CantCalculateAngleIfZeroLength);
         }
-        Ok(Rad((self.dot(other) / *(self.abs() * other.abs())).acos()))
+        let cos = self.dot(other) / *(self.abs() * other.abs());
+        // rounding must not leave the domain of acos
+        Ok(Rad(cos.clamp(-1.0, 1.0).acos()))
     }
     /// Transforms the position in a "x y z" string. E.g. "3.72 5.99 1.01"
     fn to_str(&self) -> String {
-- 
2.43.0


From 9bb44001e9c12837848aa450cd7d3873c7427a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 33/38] fix: FilterDirectionField2D compares the angle between
 the directions

---
 src/filter_direction_field_2d.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_direction_field_2d.rs b/src/filter_direction_field_2d.rs
index 244025e..1694235 100644
--- a/src/filter_direction_field_2d.rs
+++ b/src/filter_direction_field_2d.rs
@@ -52,6 +52,8 @@ where
 {
     fn is_allowed(&self, pn: &(P, N)) -> bool {
         let expected = self.field.direction_at(&pn.0);
-        expected.rad_to(&pn.1) <= self.eps
+        let dot = expected.x() * pn.1.x() + expected.y() * pn.1.y();
+        let cross = expected.x() * pn.1.y() - expected.y() * pn.1.x();
+        Rad(cross.abs().atan2(dot)) <= self.eps
     }
 }
-- 
2.43.0


From d72480bb7c4d6686c942d77c5ebd739feb52cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 34/38] fix: arcs and involutes run from start to end, single
 samples are no NaN

---
 src/factory_2d.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 5027442..f91dd63 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -28,6 +28,15 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
+/// The step between neighbouring samples, if n_points are spread evenly over the entire range
+fn step_size(range: f64, n_points: usize) -> f64 {
+    if n_points > 1 {
+        range / (n_points - 1) as f64
+    } else {
+        0.0
+    }
+}
+
 /// Creates a 2D rectangle from given center width and height
 pub fn rectangle<P>(center: &P, width: Positive, height: Positive) -> PointCloud2D<P>
 where
@@ -56,10 +65,10 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = step_size(end.0 - start.0, n_points);
 
     for i in 0..n_points {
-        let current = (i as f64) * p_dist;
+        let current = start.0 + (i as f64) * p_dist;
         pc.push(P::new(
             center.x() + d / 2.0 * (current.cos() + current * current.sin()),
             center.y() + d / 2.0 * (current.sin() - current * current.cos()),
@@ -81,7 +90,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = step_size(end.0 - start.0, n_points);
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
@@ -99,7 +108,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / (n_points - 1) as f64;
+    let p_dist = step_size(PI, n_points);
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
-- 
2.43.0


From cfb788bc9032d78aa53d1acb0165160dd4145c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 35/38] fix: linear and cosine interpolation return every
 sample

---
 src/interpolate_2d.rs | 52 ++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index b0ff22f..06474bd 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -98,11 +98,16 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = if n_points > 1 {
+        base_points.length() / (n_points - 1) as f64
+    } else {
+        0.0
+    };
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
         let mut traveled_before: f64 = 0.0;
+        let mut sample = P::new_from(&base_points.data[0]);
 
         for j in 1..base_points.len() {
             let ref p_prev = base_points.data[j - 1];
@@ -111,18 +116,24 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
+            if traveled == traveled_before {
+                continue; // no distance between these points
+            }
+
+            let proportion =
+                (((i as f64) * p_dist - traveled_before) / (traveled - traveled_before)).min(1.0);
+            let proportion2 = (1.0 - (proportion * PI).cos()) / 2.0;
+            sample = P::new(
+                p_prev.x() + proportion * (p_now.x() - p_prev.x()),
+                p_prev.y() * (1.0 - proportion2) + p_now.y() * proportion2,
+            );
+
             if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
-                let proportion2 = (1.0 - (proportion * PI).cos()) / 2.0;
-                pc.push(P::new(
-                    p_prev.x() + proportion * (p_now.x() - p_prev.x()),
-                    p_prev.y() * (1.0 - proportion2) + p_now.y() * proportion2,
-                ));
                 break;
             }
             traveled_before = traveled;
         }
+        pc.push(sample);
     }
     Ok(pc)
 }
@@ -140,11 +151,16 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = if n_points > 1 {
+        base_points.length() / (n_points - 1) as f64
+    } else {
+        0.0
+    };
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
         let mut traveled_before: f64 = 0.0;
+        let mut sample = P::new_from(&base_points.data[0]);
 
         for j in 1..base_points.len() {
             //@todo fails if path too small, handle this
@@ -154,17 +170,23 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
+            if traveled == traveled_before {
+                continue; // no distance between these points
+            }
+
+            let proportion =
+                (((i as f64) * p_dist - traveled_before) / (traveled - traveled_before)).min(1.0);
+            sample = P::new(
+                p_prev.x() + proportion * (p_now.x() - p_prev.x()),
+                p_prev.y() + proportion * (p_now.y() - p_prev.y()),
+            );
+
             if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
-                pc.push(P::new(
-                    p_prev.x() + proportion * (p_now.x() - p_prev.x()),
-                    p_prev.y() + proportion * (p_now.y() - p_prev.y()),
-                ));
                 break;
             }
             traveled_before = traveled;
         }
+        pc.push(sample);
     }
     Ok(pc)
 }
-- 
2.43.0


From 6662d6ffa5d9f142337bca20eb9396d09fadce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 36/38] fix: bezier interpolation of more than 20 base points

---
 src/interpolate_2d.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index 06474bd..700e0ca 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -28,21 +28,19 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
-fn factorial(number: usize) -> usize {
-    let mut result = 1;
+fn binominal_coefficient(n: usize, k: usize) -> f64 {
+    let mut result = 1.0;
 
-    for i in 1..number + 1 {
-        result *= i;
+    // floating point, since the coefficients soon exceed any integer type
+    // every intermediate result is a binominal coefficient itself
+    for i in 1..k + 1 {
+        result = result * ((n - k + i) as f64) / (i as f64);
     }
     result
 }
 
-fn binominal_coefficient(n: usize, k: usize) -> usize {
-    factorial(n) / (factorial(k) * factorial(n - k))
-}
-
 fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
-    (binominal_coefficient(n, i) as f64) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
+    binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
 }
 
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
-- 
2.43.0


From 139b5b556f0635e1cf9d55b42d60669b3b083e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 37/38] fix: Mesh3D: face ids that overflow the index
 calculation are absent

---
 src/mesh_3d.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mesh_3d.rs b/src/mesh_3d.rs
index 77565a0..c11388f 100644
--- a/src/mesh_3d.rs
+++ b/src/mesh_3d.rs
@@ -56,14 +56,15 @@ where
     }
 
     fn face_vertex_ids(&self, faceid: FId) -> Option<Face3> {
+        // must be checked first, the calculations below would overflow for large ids
+        if faceid.0 >= self.num_faces() {
+            return None;
+        }
+
         let id1 = 3 * faceid.0 + 0;
         let id2 = 3 * faceid.0 + 1;
         let id3 = 3 * faceid.0 + 2;
 
-        if id3 >= self.topology.len() {
-            return None;
-        }
-
         Some(Face3::new(
             VId(self.topology.get(id1)),
             VId(self.topology.get(id2)),
-- 
2.43.0


From 792c895e000446216cd4695119f0a91566be1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 38/38] fix: PointCloud3Df32: indices that overflow the
 position calculation are absent

---
 src/point_cloud_3d_f32.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index fab9bcc..c94da3a 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -95,6 +95,10 @@ where
     }
 
     fn get_d(&self, index: usize) -> Option<P> {
+        // must be checked first, the calculations below would overflow for large indices
+        if index >= self.len_d() {
+            return None;
+        }
         Some(P::new(
             *self.data.get(3 * index + 0)? as f64,
             *self.data.get(3 * index + 1)? as f64,
-- 
2.43.0

