From c4bc96767ed94f485f9eff59de248e4a7dc734b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 01/47] fix: HalfEdge twin refers to the opposite edge itself,
 not to the edge following it

---
 src/half_edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 8d7dafb..45995e2 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -112,7 +112,7 @@ where
             for originating_id in cache.iter() {
                 let _ = result.next(*originating_id).map(|candidate_id| {
                     if result.tails.get(candidate_id.0) == result.tails.get(i) {
-                        result.twins[i] = Some(candidate_id)
+                        result.twins[i] = Some(*originating_id)
                     }
                 });
             }
-- 
2.43.0


From c5e8c0d4eed216d96d39cdb672de2a8dcdd800ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 02/47] fix: HalfEdge answers vertex queries for trailing
 vertices without faces

---
 src/half_edge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 45995e2..a149985 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -91,6 +91,11 @@ where
             }
         }
 
+        // vertices without any faces can be queried as well
+        if vertices_start_edges.len() < n_vertices {
+            vertices_start_edges.resize(n_vertices, IC::default());
+        }
+
         let mut result = HalfEdge {
             tails,
             twins,
-- 
2.43.0


From c81d7d10f2187fde7660c52b6eeb3516e2497933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 03/47] fix: heal_mesh removes duplicate faces

---
 src/heal_mesh.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/heal_mesh.rs b/src/heal_mesh.rs
index 96aadf2..71f21c3 100644
--- a/src/heal_mesh.rs
+++ b/src/heal_mesh.rs
@@ -24,6 +24,7 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 use crate::*;
 
+use fnv::FnvHashSet;
 use std::hash::Hash;
 
 //------------------------------------------------------------------------------
@@ -56,11 +57,24 @@ where
         result.add_vertex(x);
     }
 
+    let mut known_faces = FnvHashSet::default();
+
     for f in 0..nf_new {
         let (a, b, c) = (indices[3 * f + 0], indices[3 * f + 1], indices[3 * f + 2]);
         if a == b || a == c || b == c {
             continue;
         }
+        // faces listing the same vertices in the same cyclic order are duplicates
+        let rotated = if a < b && a < c {
+            (a, b, c)
+        } else if b < c {
+            (b, c, a)
+        } else {
+            (c, a, b)
+        };
+        if !known_faces.insert(rotated) {
+            continue;
+        }
         result.try_add_connection(VId(a), VId(b), VId(c))?;
     }
 
-- 
2.43.0


From cf5cd6927a8c7e8c289254b636aac38d5bfeb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 04/47] fix: bounding boxes are not built from NaN coordinates

---
 src/bounding_box_2d.rs | 2 +-
 src/bounding_box_3d.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounding_box_2d.rs b/src/bounding_box_2d.rs
index cc40768..6996fa0 100644
--- a/src/bounding_box_2d.rs
+++ b/src/bounding_box_2d.rs
@@ -42,7 +42,7 @@ impl BoundingBox2D {
     {
         if min.x() == max.x() || min.y() == max.y() {
             Err(ErrorKind::MinMaxEqual)
-        } else if min.x() > max.x() || min.y() > max.y() {
+        } else if !(min.x() < max.x() && min.y() < max.y()) {
             Err(ErrorKind::MinMaxSwapped)
         } else {
             Ok(BoundingBox2D {
diff --git a/src/bounding_box_3d.rs b/src/bounding_box_3d.rs
index 7b2cd49..6af48ff 100644
--- a/src/bounding_box_3d.rs
+++ b/src/bounding_box_3d.rs
@@ -42,7 +42,7 @@ impl BoundingBox3D {
     {
         if min.x() == max.x() || min.y() == max.y() || min.z() == max.z() {
             Err(ErrorKind::MinMaxEqual)
-        } else if min.x() > max.x() || min.y() > max.y() || min.z() > max.z() {
+        } else if !(min.x() < max.x() && min.y() < max.y() && min.z() < max.z()) {
             Err(ErrorKind::MinMaxSwapped)
         } else {
             Ok(BoundingBox3D {
-- 
2.43.0


From 6095722a445ea481a93882cdabc17a727e395da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 05/47] fix: KdTree::knearest keeps its candidates sorted, so
 the k nearest are found

---
 src/kd_tree.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/kd_tree.rs b/src/kd_tree.rs
index 967d28d..fdd9253 100644
--- a/src/kd_tree.rs
+++ b/src/kd_tree.rs
@@ -224,6 +224,8 @@ where
         if pc.len() < n || sqr_dist_3d(search, &self.val) < sqr_dist_3d(search, &pc[&pc.len() - 1])
         {
             pc.push(self.val.clone());
+            // the last element must always be the farthest one
+            Self::sort_and_limit(pc, search, n);
         }
 
         let comp = dimension_compare(search, &self.val, self.dimension);
@@ -244,8 +246,6 @@ where
             Err(_) => {}
         }
 
-        Self::sort_and_limit(pc, search, n);
-
         let (current_search, current_val) = match self.dimension {
             0 => (search.x(), self.val.x()),
             1 => (search.y(), self.val.y()),
@@ -275,8 +275,6 @@ where
             },
             Err(_) => {}
         }
-
-        Self::sort_and_limit(pc, search, n);
     }
 
     pub fn in_sphere(&self, sphere: &Sphere, pc: &mut Vec<P>) {
@@ -407,18 +405,11 @@ where
         PSearch: Is3D,
         PFind: Is3D + Clone,
     {
-        if pc.len() > max_size {
-            pc.sort_by(|a, b| {
-                sqr_dist_3d(search, a)
-                    .partial_cmp(&sqr_dist_3d(search, b))
-                    .unwrap_or(Ordering::Equal)
-            });
-            let mut result: Vec<PFind>;
-            result = Vec::new();
-            for i in pc.iter().take(max_size) {
-                result.push(i.clone());
-            }
-            *pc = result;
-        }
+        pc.sort_by(|a, b| {
+            sqr_dist_3d(search, a)
+                .partial_cmp(&sqr_dist_3d(search, b))
+                .unwrap_or(Ordering::Equal)
+        });
+        pc.truncate(max_size);
     }
 }
-- 
2.43.0


From 60057104b2de3163df6c40008993a37a4f47c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 06/47] fix: Sphere::z returns the z position of its center

---
 src/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphere.rs b/src/sphere.rs
index 7db25d6..834976f 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -73,7 +73,7 @@ impl Is3D for Sphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.center.y()
+        self.center.z()
     }
 }
 
-- 
2.43.0


From 3a5aaada7f9a3ab8b8949e9797792bdfb6f3b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 07/47] fix: FilterSphere::z returns the z position of its
 sphere

---
 src/filter_sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_sphere.rs b/src/filter_sphere.rs
index c994523..4510843 100644
--- a/src/filter_sphere.rs
+++ b/src/filter_sphere.rs
@@ -62,7 +62,7 @@ impl Is3D for FilterSphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.sphere.y()
+        self.sphere.z()
     }
 }
 
-- 
2.43.0


From 52d861c8126ce6f7eb744e9c2cb5c1b35538a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 08/47] fix: equal f64 values have equal hashes, including 0.0
 and -0.0

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 22db621..8a55bb3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -73,7 +73,8 @@ pub fn hash_f64<H>(x: f64, state: &mut H)
 where
     H: Hasher,
 {
-    x.to_bits().hash(state);
+    // 0.0 and -0.0 are equal and must share their hash
+    (x + 0.0).to_bits().hash(state);
 }
 
 /// Returns a container with duplicates removed and indices representing the original order
-- 
2.43.0


From 1e0c3d78a1e966ea12f9ac3b4d370a52e5b6751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 09/47] fix: a line parallel to the faces of a bounding box
 hits it only where they meet

---
 src/functions.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 3e04332..a23216c 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -441,27 +441,15 @@ pub fn max64(a: f64, b: f64) -> f64 {
 //@todo better location and as trait?
 /// The intersection between a line and BoundingBox if there is any
 pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
-    let inv_dir = [1.0 / l.dir.x(), 1.0 / l.dir.y(), 1.0 / l.dir.z()];
     let min = b.min_p();
     let max = b.max_p();
 
-    let tx1 = (min.x() - l.anchor.x()) * inv_dir[0];
-    let tx2 = (max.x() - l.anchor.x()) * inv_dir[0];
+    let (tx1, tx2) = crossing_range(l.anchor.x(), l.dir.x(), min.x(), max.x());
+    let (ty1, ty2) = crossing_range(l.anchor.y(), l.dir.y(), min.y(), max.y());
+    let (tz1, tz2) = crossing_range(l.anchor.z(), l.dir.z(), min.z(), max.z());
 
-    let mut tmin = min64(tx1, tx2);
-    let mut tmax = max64(tx1, tx2);
-
-    let ty1 = (min.y() - l.anchor.y()) * inv_dir[1];
-    let ty2 = (max.y() - l.anchor.y()) * inv_dir[1];
-
-    tmin = max64(tmin, min64(ty1, ty2));
-    tmax = min64(tmax, max64(ty1, ty2));
-
-    let tz1 = (min.z() - l.anchor.z()) * inv_dir[2];
-    let tz2 = (max.z() - l.anchor.z()) * inv_dir[2];
-
-    tmin = max64(tmin, min64(tz1, tz2));
-    tmax = min64(tmax, max64(tz1, tz2));
+    let tmin = max64(max64(tx1, ty1), tz1);
+    let tmax = min64(min64(tx2, ty2), tz2);
 
     if tmax >= tmin && tmax >= 0.0 {
         Some(&l.anchor + &l.dir * tmin)
@@ -469,3 +457,21 @@ pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
         None
     }
 }
+
+/// The range of line parameters within [min, max] of a single axis
+fn crossing_range(anchor: f64, dir: f64, min: f64, max: f64) -> (f64, f64) {
+    if dir == 0.0 {
+        // parallel to the axis' planes, must not calculate 0.0 * infinity if within one of them
+        return if min <= anchor && anchor <= max {
+            (f64::NEG_INFINITY, f64::INFINITY)
+        } else {
+            (f64::INFINITY, f64::NEG_INFINITY)
+        };
+    }
+
+    let inv_dir = 1.0 / dir;
+    let t1 = (min - anchor) * inv_dir;
+    let t2 = (max - anchor) * inv_dir;
+
+    (min64(t1, t2), max64(t1, t2))
+}
-- 
2.43.0


From c44766aca59f20e504b8822dc853957430b31317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 10/47] fix: OcTree keeps the points on the borders of its
 boxes

---
 src/oc_tree.rs | 124 ++++++++++++++++++++++++-------------------------
 1 file changed, 60 insertions(+), 64 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 5ce694e..0270ff7 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -64,7 +64,7 @@ where
         }
 
         unique_data.extend(set.into_iter());
-        self.root = Some(OcNode::new(&self.bb, unique_data)?);
+        self.root = Some(OcNode::new(&self.bb.min_p(), &self.bb.max_p(), unique_data)?);
 
         Ok(())
     }
@@ -191,7 +191,7 @@ where
     P: IsBuildable3D + Clone,
 {
     /// Creates a new OcNode from a min and max position and the data it should hold
-    pub fn new(bb: &BoundingBox3D, pc: Vec<P>) -> Result<OcNode<P>> {
+    pub fn new(min: &Point3D, max: &Point3D, pc: Vec<P>) -> Result<OcNode<P>> {
         if pc.len() == 1 {
             return Ok(OcNode::Leaf(pc[0].clone()));
         };
@@ -204,43 +204,39 @@ where
         let mut pcnnp = Vec::new();
         let mut pcnnn = Vec::new();
 
-        let bbppp = Self::calc_sub_min_max(Direction::PPP, bb)?;
-        let bbppn = Self::calc_sub_min_max(Direction::PPN, bb)?;
-        let bbpnp = Self::calc_sub_min_max(Direction::PNP, bb)?;
-        let bbpnn = Self::calc_sub_min_max(Direction::PNN, bb)?;
-        let bbnpp = Self::calc_sub_min_max(Direction::NPP, bb)?;
-        let bbnpn = Self::calc_sub_min_max(Direction::NPN, bb)?;
-        let bbnnp = Self::calc_sub_min_max(Direction::NNP, bb)?;
-        let bbnnn = Self::calc_sub_min_max(Direction::NNN, bb)?;
+        let middle = center_3d(min, max);
+        if !(middle.x.is_finite() && middle.y.is_finite() && middle.z.is_finite()) {
+            return Err(ErrorKind::NumberInWrongRange);
+        }
 
         for p in pc {
-            if bbppp.contains(&p) {
-                pcppp.push(p);
-            } else if bbppn.contains(&p) {
-                pcppn.push(p);
-            } else if bbpnp.contains(&p) {
-                pcpnp.push(p);
-            } else if bbpnn.contains(&p) {
-                pcpnn.push(p);
-            } else if bbnpp.contains(&p) {
-                pcnpp.push(p);
-            } else if bbnpn.contains(&p) {
-                pcnpn.push(p);
-            } else if bbnnp.contains(&p) {
-                pcnnp.push(p);
-            } else if bbnnn.contains(&p) {
-                pcnnn.push(p);
+            if p.x().is_nan() || p.y().is_nan() || p.z().is_nan() {
+                return Err(ErrorKind::NumberInWrongRange);
+            }
+            match (
+                Self::is_upper(p.x(), min.x, middle.x),
+                Self::is_upper(p.y(), min.y, middle.y),
+                Self::is_upper(p.z(), min.z, middle.z),
+            ) {
+                (true, true, true) => pcppp.push(p),
+                (true, true, false) => pcppn.push(p),
+                (true, false, true) => pcpnp.push(p),
+                (true, false, false) => pcpnn.push(p),
+                (false, true, true) => pcnpp.push(p),
+                (false, true, false) => pcnpn.push(p),
+                (false, false, true) => pcnnp.push(p),
+                (false, false, false) => pcnnn.push(p),
             }
         }
 
-        let ppp = Self::build_subnode(pcppp, &bbppp);
-        let ppn = Self::build_subnode(pcppn, &bbppn);
-        let pnp = Self::build_subnode(pcpnp, &bbpnp);
-        let pnn = Self::build_subnode(pcpnn, &bbpnn);
-        let npp = Self::build_subnode(pcnpp, &bbnpp);
-        let npn = Self::build_subnode(pcnpn, &bbnpn);
-        let nnp = Self::build_subnode(pcnnp, &bbnnp);
-        let nnn = Self::build_subnode(pcnnn, &bbnnn);
+        let ppp = Self::build_subnode(pcppp, Direction::PPP, min, &middle, max)?;
+        let ppn = Self::build_subnode(pcppn, Direction::PPN, min, &middle, max)?;
+        let pnp = Self::build_subnode(pcpnp, Direction::PNP, min, &middle, max)?;
+        let pnn = Self::build_subnode(pcpnn, Direction::PNN, min, &middle, max)?;
+        let npp = Self::build_subnode(pcnpp, Direction::NPP, min, &middle, max)?;
+        let npn = Self::build_subnode(pcnpn, Direction::NPN, min, &middle, max)?;
+        let nnp = Self::build_subnode(pcnnp, Direction::NNP, min, &middle, max)?;
+        let nnn = Self::build_subnode(pcnnn, Direction::NNN, min, &middle, max)?;
 
         let result: Internal<P> = Internal {
             ppp,
@@ -255,11 +251,17 @@ where
 
         Ok(OcNode::Node(result))
     }
+    /// Whether a position belongs to the upper half of the range starting at min, every position belongs to exactly one
+    fn is_upper(x: f64, min: f64, middle: f64) -> bool {
+        x > middle || (x == middle && middle > min)
+    }
     /// Calculates the min and max values of sub nodes of an OcTree
-    fn calc_sub_min_max(dir: Direction, bb: &BoundingBox3D) -> Result<BoundingBox3D> {
-        let (min, max) = (bb.min_p(), bb.max_p());
-        let middle = center_3d(&min, &max);
-
+    fn calc_sub_min_max(
+        dir: Direction,
+        min: &Point3D,
+        middle: &Point3D,
+        max: &Point3D,
+    ) -> (Point3D, Point3D) {
         let px = max.x();
         let py = max.y();
         let pz = max.z();
@@ -271,36 +273,30 @@ where
         let mz = middle.z();
 
         match dir {
-            Direction::PPP => BoundingBox3D::new(&middle, &max),
-            Direction::PPN => {
-                BoundingBox3D::new(&Point3D::new(mx, my, nz), &Point3D::new(px, py, mz))
-            }
-            Direction::PNP => {
-                BoundingBox3D::new(&Point3D::new(mx, ny, mz), &Point3D::new(px, my, pz))
-            }
-            Direction::PNN => {
-                BoundingBox3D::new(&Point3D::new(mx, ny, nz), &Point3D::new(px, my, mz))
-            }
-            Direction::NPP => {
-                BoundingBox3D::new(&Point3D::new(nx, my, mz), &Point3D::new(mx, py, pz))
-            }
-            Direction::NPN => {
-                BoundingBox3D::new(&Point3D::new(nx, my, nz), &Point3D::new(mx, py, mz))
-            }
-            Direction::NNP => {
-                BoundingBox3D::new(&Point3D::new(nx, ny, mz), &Point3D::new(mx, my, pz))
-            }
-            Direction::NNN => BoundingBox3D::new(&min.clone(), &middle),
+            Direction::PPP => (middle.clone(), max.clone()),
+            Direction::PPN => (Point3D::new(mx, my, nz), Point3D::new(px, py, mz)),
+            Direction::PNP => (Point3D::new(mx, ny, mz), Point3D::new(px, my, pz)),
+            Direction::PNN => (Point3D::new(mx, ny, nz), Point3D::new(px, my, mz)),
+            Direction::NPP => (Point3D::new(nx, my, mz), Point3D::new(mx, py, pz)),
+            Direction::NPN => (Point3D::new(nx, my, nz), Point3D::new(mx, py, mz)),
+            Direction::NNP => (Point3D::new(nx, ny, mz), Point3D::new(mx, my, pz)),
+            Direction::NNN => (min.clone(), middle.clone()),
         }
     }
     /// Creates a child node
-    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Option<Box<OcNode<P>>> {
+    fn build_subnode(
+        pc: Vec<P>,
+        dir: Direction,
+        min: &Point3D,
+        middle: &Point3D,
+        max: &Point3D,
+    ) -> Result<Option<Box<OcNode<P>>>> {
         match pc.len() {
-            0 => None,
-            _ => match OcNode::new(bb, pc) {
-                Err(_) => None,
-                Ok(x) => Some(Box::new(x)),
-            },
+            0 => Ok(None),
+            _ => {
+                let (min, max) = Self::calc_sub_min_max(dir, min, middle, max);
+                OcNode::new(&min, &max, pc).map(|x| Some(Box::new(x)))
+            }
         }
     }
 }
-- 
2.43.0


From 69330f0b925d4a4ea597b39d12e4e828d98abc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 11/47] fix: collecting an OcTree deeper than 127 levels does
 not overflow

---
 src/oc_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 0270ff7..8ef95e0 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -349,14 +349,14 @@ where
     ) {
         if only_collect_centers {
             let mut sub_pc = PointCloud3D::new();
-            n.collect(depth + 1, maxdepth, &mut sub_pc);
+            n.collect(depth.saturating_add(1), maxdepth, &mut sub_pc);
             if let Some(c) = sub_pc.center_of_gravity() {
                 let mut p = P::default();
                 p.from(&c);
                 pc.push(p);
             }
         } else {
-            n.collect(depth + 1, maxdepth, pc);
+            n.collect(depth.saturating_add(1), maxdepth, pc);
         }
     }
 }
-- 
2.43.0


From 9e39f63b81d699d269dc1f44e13b08900376ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 12/47] fix: FilterAnyRandomAccessible kept everything the
 initial view held

The views of the single filters were merged into the initial view, which already contains all of them.
---
 src/filter_any_random_accessible.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 601593c..2d9a5eb 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -40,11 +40,12 @@ where
     RA: IsRandomAccessible<T>,
 {
     fn filter(&self, ra: &RA, view: &mut View) {
-        let view_initial = view.clone();
+        let mut view_result = View::Restricted(Default::default());
         for f in &self.filters {
-            let mut view_now = view_initial.clone();
+            let mut view_now = view.clone();
             f.filter(&ra, &mut view_now);
-            view.union(view_now);
+            view_result.union(view_now);
         }
+        *view = view_result;
     }
 }
-- 
2.43.0


From cc34ac4cfae9518989033eeab9bfd1fccd0a3bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 13/47] fix: FilterDirectionField2D compares the angle between
 the directions

rad_to is the signed angle of the difference vector; any direction clockwise of the expected one passed.
---
 src/filter_direction_field_2d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_direction_field_2d.rs b/src/filter_direction_field_2d.rs
index 244025e..d412450 100644
--- a/src/filter_direction_field_2d.rs
+++ b/src/filter_direction_field_2d.rs
@@ -52,6 +52,7 @@ where
 {
     fn is_allowed(&self, pn: &(P, N)) -> bool {
         let expected = self.field.direction_at(&pn.0);
-        expected.rad_to(&pn.1) <= self.eps
+        let angle = expected.cross(&pn.1).atan2(expected.dot(&pn.1)).abs();
+        Rad(angle) <= self.eps
     }
 }
-- 
2.43.0


From 8a9052ae7810d298a8f4bfaa14badf7b29bec24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 14/47] fix: angle between parallel 3D vectors could be NaN

Rounding can take the cosine slightly beyond +-1, where acos is NaN.
---
 src/is_3d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/is_3d.rs b/src/is_3d.rs
index 9ea6219..6d29751 100644
--- a/src/is_3d.rs
+++ b/src/is_3d.rs
@@ -71,7 +71,8 @@ pub trait Is3D: IsND {
         if *self.abs() == 0.0 || *other.abs() == 0.0 {
             return Err(ErrorKind::CantCalculateAngleIfZeroLength);
         }
-        Ok(Rad((self.dot(other) / *(self.abs() * other.abs())).acos()))
+        let cos = self.dot(other) / *(self.abs() * other.abs());
+        Ok(Rad(cos.clamp(-1.0, 1.0).acos()))
     }
     /// Transforms the position in a "x y z" string. E.g. "3.72 5.99 1.01"
     fn to_str(&self) -> String {
-- 
2.43.0


From 4dd02b6dbd8547d56bbf4aa4760e5f2da6e664a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 15/47] fix: sort ties by the remaining coordinates, convex
 hull of duplicate or few points

---
 src/convex_hull_2d.rs | 10 ++++++++--
 src/functions.rs      | 43 ++++++++++++++++---------------------------
 2 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/convex_hull_2d.rs b/src/convex_hull_2d.rs
index df98677..ef04651 100644
--- a/src/convex_hull_2d.rs
+++ b/src/convex_hull_2d.rs
@@ -34,13 +34,19 @@ where
     RA: IsRandomAccessible<P>,
     P: IsBuildable2D + Clone,
 {
-    let n = ra.len();
-
     let mut sorted = PointCloud2D::new();
     sorted.append_ra(ra);
     sorted.sort_x();
+    sorted
+        .data
+        .dedup_by(|a, b| a.x() == b.x() && a.y() == b.y());
     let sorted = sorted;
 
+    let n = sorted.len();
+    if n < 2 {
+        return sorted.data;
+    }
+
     let mut lower = Vec::<P>::new();
     for i in 0..n {
         while lower.len() >= 2
diff --git a/src/functions.rs b/src/functions.rs
index a23216c..6e04a16 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -105,17 +105,17 @@ where
     }
 }
 
+/// Compares two f64, treating incomparable ones as equal
+fn compare(a: f64, b: f64) -> Ordering {
+    a.partial_cmp(&b).unwrap_or(Ordering::Equal)
+}
+
 /// Helper function to sort a Vec of Is2D by x
 pub fn sort_vec_2d_x<P>(xs: &mut Vec<P>)
 where
     P: Is2D,
 {
-    xs.sort_by(|a, b| {
-        a.x()
-            .partial_cmp(&b.x())
-            .or_else(|| a.y().partial_cmp(&b.y()))
-            .unwrap_or(Ordering::Equal)
-    });
+    xs.sort_by(|a, b| compare(a.x(), b.x()).then_with(|| compare(a.y(), b.y())));
 }
 
 /// Helper function to sort a Vec of Is2D by y
@@ -123,12 +123,7 @@ pub fn sort_vec_2d_y<P>(xs: &mut Vec<P>)
 where
     P: Is2D,
 {
-    xs.sort_by(|a, b| {
-        a.y()
-            .partial_cmp(&b.y())
-            .or_else(|| a.x().partial_cmp(&b.x()))
-            .unwrap_or(Ordering::Equal)
-    });
+    xs.sort_by(|a, b| compare(a.y(), b.y()).then_with(|| compare(a.x(), b.x())));
 }
 
 /// Helper function to sort a Vec of Is3D by x
@@ -137,11 +132,9 @@ where
     P: Is3D,
 {
     xs.sort_by(|a, b| {
-        a.x()
-            .partial_cmp(&b.x())
-            .or_else(|| a.y().partial_cmp(&b.y()))
-            .or_else(|| a.z().partial_cmp(&b.z()))
-            .unwrap_or(Ordering::Equal)
+        compare(a.x(), b.x())
+            .then_with(|| compare(a.y(), b.y()))
+            .then_with(|| compare(a.z(), b.z()))
     });
 }
 
@@ -151,11 +144,9 @@ where
     P: Is3D,
 {
     xs.sort_by(|a, b| {
-        a.y()
-            .partial_cmp(&b.y())
-            .or_else(|| a.z().partial_cmp(&b.z()))
-            .or_else(|| a.x().partial_cmp(&b.x()))
-            .unwrap_or(Ordering::Equal)
+        compare(a.y(), b.y())
+            .then_with(|| compare(a.z(), b.z()))
+            .then_with(|| compare(a.x(), b.x()))
     });
 }
 
@@ -165,11 +156,9 @@ where
     P: Is3D,
 {
     xs.sort_by(|a, b| {
-        a.z()
-            .partial_cmp(&b.z())
-            .or_else(|| a.x().partial_cmp(&b.x()))
-            .or_else(|| a.y().partial_cmp(&b.y()))
-            .unwrap_or(Ordering::Equal)
+        compare(a.z(), b.z())
+            .then_with(|| compare(a.x(), b.x()))
+            .then_with(|| compare(a.y(), b.y()))
     });
 }
 
-- 
2.43.0


From 1e0a8fdd70dd20e7982bcbecf5b88a73b01ef1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 16/47] fix: Douglas Peucker for vertical lines and for the
 split point

---
 src/douglas_peucker_2d.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index 162ed0d..fe42746 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -31,7 +31,7 @@ pub fn douglas_peucker_2d<P>(mut pc: PointCloud2D<P>, epsilon: f64) -> PointClou
 where
     P: Is2D + Clone,
 {
-    if pc.len() < 1 {
+    if pc.len() < 3 {
         return pc;
     }
 
@@ -47,11 +47,11 @@ where
         }
     }
 
-    if dmax > epsilon {
+    if index > 0 && dmax > epsilon {
         let mut pc1 = pc.clone();
         let mut pc2 = pc.clone();
 
-        pc1.data = pc.data.iter().cloned().take(index).collect();
+        pc1.data = pc.data.iter().cloned().take(index + 1).collect();
         pc1 = douglas_peucker_2d(pc1, epsilon);
 
         pc2.data = pc.data.into_iter().skip(index).collect();
@@ -79,25 +79,14 @@ where
     Q: Is2D,
     R: Is2D,
 {
-    let a1 = l1.x();
-    let a2 = l1.y();
+    let (lx, ly) = (l2.x() - l1.x(), l2.y() - l1.y());
+    let (px, py) = (p.x() - l1.x(), p.y() - l1.y());
 
-    let b1 = l2.x();
-    let b2 = l2.y();
+    let length = (lx * lx + ly * ly).sqrt();
 
-    let c1 = p.x();
-    let c2 = p.y();
-
-    let x = (a1 * a1 * c1 - a1 * a2 * b2 + a1 * a2 * c2 - 2.0 * a1 * b1 * c1 + a1 * b2 * b2
-        - a1 * b2 * c2
-        + a2 * a2 * b1
-        - a2 * b1 * b2
-        - a2 * b1 * c2
-        + b1 * b1 * c1
-        + b1 * b2 * c2)
-        / (a1 * a1 - 2.0 * a1 * b1 + a2 * a2 - 2.0 * a2 * b2 + b1 * b1 + b2 * b2);
-
-    let y = ((a2 - b2) * x + a1 * b2 - a2 * b1) / (a1 - b1);
-
-    ((x - p.x()).powi(2) + (y - p.y()).powi(2)).sqrt()
+    if length == 0.0 {
+        (px * px + py * py).sqrt()
+    } else {
+        (lx * py - ly * px).abs() / length
+    }
 }
-- 
2.43.0


From bdb49e209992214b5f5849bed45b8cfbcfaee547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 17/47] fix: a PointCloud3Df32 of two points has a bounding box

---
 src/point_cloud_3d_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 290b541..fab9bcc 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -130,7 +130,7 @@ where
         let d = &self.data;
         let n_p = d.len() / 3;
 
-        if n_p <= 2 {
+        if n_p < 2 {
             return None;
         }
 
-- 
2.43.0


From 5b7d875e84bdc63b3afa21be25d8aea01443fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 18/47] fix: scale axis parallel line segments

---
 src/line_segment_2d.rs | 2 +-
 src/line_segment_3d.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/line_segment_2d.rs b/src/line_segment_2d.rs
index 92ac16b..91d07d6 100644
--- a/src/line_segment_2d.rs
+++ b/src/line_segment_2d.rs
@@ -69,7 +69,7 @@ impl HasCenterOfGravity2D for LineSegment2D {
 
 impl IsScalable for LineSegment2D {
     fn scale(&mut self, factor: Positive) {
-        if let Some(c) = self.bounding_box_maybe().map(|x| x.center_bb()) {
+        if let Some(c) = self.center_of_gravity() {
             self.start.increase_distance_to_by(&c, factor);
             self.end.increase_distance_to_by(&c, factor);
         }
diff --git a/src/line_segment_3d.rs b/src/line_segment_3d.rs
index 1320840..6a82366 100644
--- a/src/line_segment_3d.rs
+++ b/src/line_segment_3d.rs
@@ -69,7 +69,7 @@ impl HasCenterOfGravity3D for LineSegment3D {
 
 impl IsScalable for LineSegment3D {
     fn scale(&mut self, factor: Positive) {
-        if let Some(c) = self.bounding_box_maybe().map(|x| x.center_bb()) {
+        if let Some(c) = self.center_of_gravity() {
             self.start.increase_distance_to_by(&c, factor);
             self.end.increase_distance_to_by(&c, factor);
         }
-- 
2.43.0


From 0f8b3681ea0be56feb2012abb15837bca343d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 19/47] fix: corners and bounding box of BoxUnaligned3D

---
 src/box_unaligned_3d.rs | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index 7f4f2f1..ae7ef3a 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -68,15 +68,15 @@ impl BoxUnaligned3D {
         }
     }
     fn d_x(&self) -> Point3D {
-        let d = *self.size[0];
+        let d = 0.5 * *self.size[0];
         Point3D::new_from(&self.x_dir()) * d
     }
     fn d_y(&self) -> Point3D {
-        let d = *self.size[1];
+        let d = 0.5 * *self.size[1];
         Point3D::new_from(&self.y_dir) * d
     }
     fn d_z(&self) -> Point3D {
-        let d = *self.size[2];
+        let d = 0.5 * *self.size[2];
         Point3D::new_from(&self.z_dir) * d
     }
     pub fn x_dir(&self) -> Norm3D {
@@ -129,27 +129,9 @@ impl IsSATObject for BoxUnaligned3D {
 
 impl HasBoundingBox3D for BoxUnaligned3D {
     fn bounding_box(&self) -> BoundingBox3D {
-        let mut max_size = self.size[0];
-        if self.size[1] > max_size {
-            max_size = self.size[1]
-        }
-        if self.size[2] > max_size {
-            max_size = self.size[2]
-        }
-
-        BoundingBox3D::new(
-            &Point3D::new(
-                self.center.x() - 0.5 * *max_size,
-                self.center.y() - 0.5 * *max_size,
-                self.center.z() - 0.5 * *max_size,
-            ),
-            &Point3D::new(
-                self.center.x() + 0.5 * *max_size,
-                self.center.y() + 0.5 * *max_size,
-                self.center.z() + 0.5 * *max_size,
-            ),
-        )
-        .unwrap() //@todo unwrap, see above
+        let mut corners = Vec::with_capacity(8);
+        self.for_each_point(&mut |p: &Point3D| corners.push(p.clone()));
+        BoundingBox3D::from_iterator(&corners).unwrap() //@todo unwrap, see above
     }
 }
 
-- 
2.43.0


From 6a2ab142e1400e8b4c225f53c829702c184c97d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 20/47] fix: SAT collider ignored the axes between the edges of
 both objects

---
 src/is_sat_object.rs |  8 ++++++++
 src/sat_collider.rs  |  7 +++++++
 src/tri_face_3d.rs   | 11 +++++++++++
 3 files changed, 26 insertions(+)

diff --git a/src/is_sat_object.rs b/src/is_sat_object.rs
index c58a847..66e0028 100644
--- a/src/is_sat_object.rs
+++ b/src/is_sat_object.rs
@@ -35,4 +35,12 @@ pub trait IsSATObject {
     fn for_each_axis<F>(&self, f: &mut F)
     where
         F: FnMut(&Norm3D);
+
+    /// Applies the function to the direction of each edge of the object, by default those are the axes
+    fn for_each_edge<F>(&self, f: &mut F)
+    where
+        F: FnMut(&Norm3D),
+    {
+        self.for_each_axis(f)
+    }
 }
diff --git a/src/sat_collider.rs b/src/sat_collider.rs
index 5912445..5812db6 100644
--- a/src/sat_collider.rs
+++ b/src/sat_collider.rs
@@ -94,6 +94,13 @@ impl SATCollider {
 
         a.for_each_axis(&mut f);
         b.for_each_axis(&mut f);
+        a.for_each_edge(&mut |edge_a: &Norm3D| {
+            b.for_each_edge(&mut |edge_b: &Norm3D| {
+                if let Ok(axis) = Norm3D::new(cross(edge_a, &Point3D::new_from(edge_b))) {
+                    f(&axis)
+                }
+            })
+        });
         all_overlap
     }
 }
diff --git a/src/tri_face_3d.rs b/src/tri_face_3d.rs
index 6972b3d..7aa4f85 100644
--- a/src/tri_face_3d.rs
+++ b/src/tri_face_3d.rs
@@ -86,6 +86,17 @@ impl IsSATObject for TriFace3D {
         f(&e2);
         f(&e3);
     }
+
+    fn for_each_edge<F>(&self, f: &mut F)
+    where
+        F: FnMut(&Norm3D),
+    {
+        for (from, to) in [(&self.a, &self.b), (&self.b, &self.c), (&self.c, &self.a)].iter() {
+            if let Ok(dir) = Norm3D::new(conn(*from, *to)) {
+                f(&dir)
+            }
+        }
+    }
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 3611c25a4eb0e4b28177c98b07783b7197cc07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 21/47] fix: keep the last byte of a last line without line
 break

---
 src/io/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/utils.rs b/src/io/utils.rs
index f5d116b..c0367cd 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -99,10 +99,10 @@ where
         return Err(FetchLineError);
     }
 
-    // We must drop the '\n' we read_until for sure
+    // We must drop the '\n' we read_until (which is missing if the last line just ends)
     // And might also have to drop additional whitespace
-    let mut ignore_end = 1;
-    for i in 1..line_buffer.len() {
+    let mut ignore_end = 0;
+    for i in 0..line_buffer.len() {
         if (line_buffer[line_buffer.len() - i - 1] as char).is_whitespace() {
             ignore_end += 1;
         } else {
-- 
2.43.0


From f5acdc8ccb27c4ebdfdaa755ac56b68d35bdf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 22/47] fix: an .obj face with index 0 is an error, not an
 underflow

---
 src/io/obj.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index af7ab3b..379ddbf 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -306,7 +306,10 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
-    //@todo could fail if 0 in file
     //obj indexing starts at 1
-    Ok([a - 1, b - 1, c - 1])
+    Ok([
+        a.checked_sub(1).ok_or(ObjError::Face)?,
+        b.checked_sub(1).ok_or(ObjError::Face)?,
+        c.checked_sub(1).ok_or(ObjError::Face)?,
+    ])
 }
-- 
2.43.0


From 10d34069d39c1b7d46468744e492203eaef9c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 23/47] fix: overflowing point count of a .ptx header is an
 error

---
 src/io/ptx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index e342459..5e99cce 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -155,7 +155,10 @@ where
 
         self.must_transform = self.transformation != Matrix4::identity();
 
-        self.n_points_to_fetch = rows * columns;
+        self.n_points_to_fetch = rows
+            .checked_mul(columns)
+            .ok_or(PtxError::Rows)
+            .index(self.i_line)?;
 
         Ok(())
     }
-- 
2.43.0


From a31b8f5e6d2197359b9bf6983e609cf6e7b52031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 24/47] fix: counts stated by a file do not reserve unlimited
 memory

---
 src/io/las/load.rs |  4 ++--
 src/io/off.rs      |  6 +++---
 src/io/ply/load.rs | 14 +++++++-------
 src/io/pts.rs      |  2 +-
 src/io/ptx.rs      |  2 +-
 src/io/stl.rs      | 12 ++++++------
 src/io/utils.rs    | 10 ++++++++++
 7 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index da06a24..d4dbfa5 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -33,7 +33,7 @@ use std::{
     marker::PhantomData,
 };
 
-use super::super::{from_bytes::*, types::*};
+use super::super::{from_bytes::*, types::*, utils::*};
 
 //------------------------------------------------------------------------------
 
@@ -149,7 +149,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/off.rs b/src/io/off.rs
index 1b506af..0bceadd 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -316,8 +316,8 @@ where
                     .simple()?;
             }
             FaceDataReserve::ReserveDataFaces(n_vertices, n_faces) => {
-                mesh.reserve_vertices(n_vertices);
-                mesh.reserve_faces(n_faces);
+                mesh.reserve_vertices(limit_reserve(n_vertices));
+                mesh.reserve_faces(limit_reserve(n_faces));
             }
             FaceDataReserve::Data(x) => {
                 mesh.add_vertex(x);
@@ -339,7 +339,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index 82ae4b6..a9d2006 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -26,7 +26,7 @@ use crate::*;
 
 use std::io::{BufRead, Read};
 
-use super::super::{byte_reader::*, types::*};
+use super::super::{byte_reader::*, types::*, utils::*};
 
 use super::{header::*, iterators::*, iterators_internal::*, types::*};
 
@@ -49,8 +49,8 @@ where
 
     match load_header(&mut read, &mut line_buffer, &mut i_line)? {
         Header::Full(header) => {
-            mesh.reserve_vertices(header.vertex.count);
-            mesh.reserve_faces(header.face.count);
+            mesh.reserve_vertices(limit_reserve(header.vertex.count));
+            mesh.reserve_faces(limit_reserve(header.face.count));
 
             match header.format {
                 Format::Ascii => load_mesh_ascii(&mut read, mesh, header, &mut i_line),
@@ -65,7 +65,7 @@ where
             Ok(MeshOrPoints::Mesh)
         }
         Header::Partial(header) => {
-            ip.reserve(header.vertex.count);
+            ip.reserve(limit_reserve(header.vertex.count));
 
             match header.format {
                 Format::Ascii => load_points_ascii(&mut read, ip, header, i_line),
@@ -97,8 +97,8 @@ where
                 mesh.add_vertex(p);
             }
             FaceDataReserve::ReserveDataFaces(n_d, n_f) => {
-                mesh.reserve_vertices(n_d);
-                mesh.reserve_faces(n_f);
+                mesh.reserve_vertices(limit_reserve(n_d));
+                mesh.reserve_faces(limit_reserve(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
                 mesh.try_add_connection(VId(a), VId(b), VId(c))
@@ -124,7 +124,7 @@ where
 
     for rp in iterator {
         match rp? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1bec397..1b9a232 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -185,7 +185,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 5e99cce..d09a355 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -237,7 +237,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4f4213..95ed55a 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -350,8 +350,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                mesh.reserve_vertices(3 * n);
-                mesh.reserve_faces(n);
+                mesh.reserve_vertices(limit_reserve(3 * n));
+                mesh.reserve_faces(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 mesh.add_face(face.a, face.b, face.c);
@@ -385,8 +385,8 @@ where
         match fr? {
             DataReserve::Reserve(n) => {
                 //Can't reserve vertices since not sure how many are unique
-                mesh.reserve_faces(n);
-                face_normals.reserve(n);
+                mesh.reserve_faces(limit_reserve(n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 let [a, b, c, n] = [face.a, face.b, face.c, face.n];
@@ -443,8 +443,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                ip.reserve(3 * n);
-                face_normals.reserve(n);
+                ip.reserve(limit_reserve(3 * n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 ip.push(face.a);
diff --git a/src/io/utils.rs b/src/io/utils.rs
index c0367cd..0b1734a 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -30,6 +30,16 @@ use std::{
 
 //------------------------------------------------------------------------------
 
+/// Maximum number of elements to reserve memory for in advance, based on a count stated by a file
+/// The stated count might be wrong, so more memory must only be used once the data is actually there
+const MAX_RESERVE: usize = 1_000_000;
+
+/// Limits a count stated by a file to what should be reserved in advance
+#[inline(always)]
+pub fn limit_reserve(n: usize) -> usize {
+    n.min(MAX_RESERVE)
+}
+
 /// Skip number of bytes
 #[inline(always)]
 pub fn skip_bytes<R>(read: &mut R, n_bytes: usize) -> std::io::Result<()>
-- 
2.43.0


From f1087928d8c83ac6f6559369e9afa4900ff80898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 25/47] fix: the matrix of .ptx files has its translation in
 the last line

---
 src/io/ptx.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index d09a355..09c0486 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -146,10 +146,11 @@ where
 
         self.transformation = Matrix4 {
             data: [
-                [m11, m12, m13, m14],
-                [m21, m22, m23, m24],
-                [m31, m32, m33, m34],
-                [m41, m42, m43, m44],
+                // .ptx stores the matrix for row vectors (translation within the last line)
+                [m11, m21, m31, m41],
+                [m12, m22, m32, m42],
+                [m13, m23, m33, m43],
+                [m14, m24, m34, m44],
             ],
         };
 
-- 
2.43.0


From 607b5c2694fec035c4a9ad07dc12fdacbdb011f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 26/47] fix: G90 and G91 without comment switch between
 absolute and relative gcode positions

---
 src/io/gcode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index e4fc1f1..cfe2b5a 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -88,7 +88,7 @@ where
         while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
             self.i_line += 1;
 
-            if line.len() >= 4 && line[0] == b'G' {
+            if line.len() >= 3 && line[0] == b'G' {
                 if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
                     // Move according to absolute/relative
                     let mut any_changed = false;
@@ -130,7 +130,7 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && line[3] == b' ' {
+                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ') {
                     // G9x
                     if line[2] == b'0' {
                         // G90
@@ -138,7 +138,7 @@ where
                     } else if line[2] == b'1' {
                         // G91
                         self.ra = RelativeAbsolute::Relative;
-                    } else if line[2] == b'2' {
+                    } else if line[2] == b'2' && line.len() > 3 {
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-- 
2.43.0


From 63576d55768d1921574d1bbfd1915722f3bfa611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 27/47] fix: load all points of all lines and passes of .psl
 files

---
 src/io/psl.rs | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/io/psl.rs b/src/io/psl.rs
index e7f7fdd..1012f4d 100644
--- a/src/io/psl.rs
+++ b/src/io/psl.rs
@@ -72,31 +72,18 @@ where
     }
     #[inline(always)]
     fn fetch_counts(&mut self) -> PslResult<()> {
-        self.n_lines_left = if self.n_lines_left == 0 && self.n_passes_left > 0 {
-            fetch_pass_header_return_n_lines(&mut self.read)?
-        } else {
-            0
-        };
-        self.n_point_left = if self.n_point_left == 0 && self.n_lines_left > 0 {
-            fetch_line_header_return_n_points(&mut self.read)?
-        } else {
-            0
-        };
-        Ok(())
-    }
-    #[inline(always)]
-    fn reduce_count(&mut self) {
-        if self.n_point_left > 0 {
-            self.n_point_left -= 1
-        } else {
+        while self.n_point_left <= 0 {
             if self.n_lines_left > 0 {
-                self.n_lines_left -= 1
+                self.n_lines_left -= 1;
+                self.n_point_left = fetch_line_header_return_n_points(&mut self.read)?;
+            } else if self.n_passes_left > 0 {
+                self.n_passes_left -= 1;
+                self.n_lines_left = fetch_pass_header_return_n_lines(&mut self.read)?;
             } else {
-                if self.n_passes_left > 0 {
-                    self.n_passes_left -= 1
-                }
+                break;
             }
         }
+        Ok(())
     }
 }
 
@@ -125,12 +112,12 @@ where
             return Some(Err(e));
         }
 
-        if self.n_point_left == 0 {
+        if self.n_point_left <= 0 {
             self.is_done = true;
             return None;
         }
 
-        self.reduce_count();
+        self.n_point_left -= 1;
 
         return Some(fetch_point(&mut self.read).map_err(|e| {
             self.is_done = true;
-- 
2.43.0


From f96e85148b20e37310b81ad963dd09c9b2b9522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 28/47] fix: meshes with degenerate faces can be saved as .stl

---
 src/io/stl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 95ed55a..c7d48b5 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -63,7 +63,8 @@ where
 
     for i in 0..mesh.num_faces() {
         let [v1, v2, v3] = mesh.face_vertices(FId(i)).unwrap(); // safe since iterating num_faces
-        let n = mesh.face_normal(FId(i)).unwrap(); // safe since iterating num_faces
+        // degenerate faces don't have a normal
+        let n = mesh.face_normal(FId(i)).unwrap_or(Norm3D::norm_z());
         let buffer = "facet normal ".to_string()
             + &str_exp(&n)
             + "\n"
-- 
2.43.0


From 6ad4cdd984c5ab14595e658da4ea51fb9f113882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 29/47] fix: .las records too short for a position are an error

---
 src/io/las/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 8966e55..0095fd4 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -64,6 +64,11 @@ impl TryFrom<HeaderRaw> for Header {
             return Err(LasError::UnknownPointFormat);
         }
 
+        // each record starts with the 12 bytes of the position
+        if x.point_record_length < 12 {
+            return Err(LasError::BinaryData);
+        }
+
         Ok(Header {
             offset_point_data: x.offset_point_data,
             point_record_length: x.point_record_length,
-- 
2.43.0


From 589ee2980d1e9a8a162591c2ef2d9b0e97821258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 30/47] fix: contains with an empty needle does not panic

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8a55bb3..f984c0c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -59,7 +59,7 @@ pub fn contains<T>(haystack: &[T], needle: &[T]) -> bool
 where
     T: PartialEq,
 {
-    haystack.windows(needle.len()).any(|x| x == needle)
+    needle.is_empty() || haystack.windows(needle.len()).any(|x| x == needle)
 }
 
 /// Max of three f64 values
-- 
2.43.0


From f199211bbc9d413dd5938ba5e59d24699972ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 31/47] fix: saving binary .ply files does not lose bytes on
 partial writes

---
 src/io/ply/save.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/io/ply/save.rs b/src/io/ply/save.rs
index 9b58ae3..e71fe7f 100644
--- a/src/io/ply/save.rs
+++ b/src/io/ply/save.rs
@@ -192,28 +192,28 @@ where
         Precision::P32 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
             }
         }
 
         Precision::P64 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
             }
         }
     }
 
     for i in 0..mesh.num_faces() {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating num_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
@@ -288,12 +288,12 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
 
@@ -301,22 +301,22 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
     }
 
     for i in 0..n_faces {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating n_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
-- 
2.43.0


From e6b284e2c838d98640d4e5b81c73b271a3585f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 32/47] fix: more than three coordinates of a .ply vertex are
 an error

---
 src/io/ply/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 08fbd6b..086a2c6 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -144,6 +144,11 @@ where
                         .next()
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
+                    if (id == b"x" || id == b"y" || id == b"z") && i_vertex_order >= 3 {
+                        return Err(PlyError::InvalidVertexDimensionDefinition)
+                            .line(*i_line, line);
+                    }
+
                     if id == b"x" {
                         opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
-- 
2.43.0


From 0335646a59a01439c5cf277fcff495817e9617aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 33/47] fix: .ply coordinates of different type are read in the
 order of the file

---
 src/io/ply/header.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 086a2c6..a2933d4 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -50,9 +50,7 @@ where
     let mut opt_n_vertices: Option<usize> = None;
     let mut opt_n_faces: Option<usize> = None;
 
-    let mut opt_fst_type = None;
-    let mut opt_snd_type = None;
-    let mut opt_third_type = None;
+    let mut vertex_types = [None; 3]; // in the order of the file
     let mut n_types_found = 0;
     let mut vertex_before = BytesWords::default();
     let mut vertex_between_first_snd = BytesWords::default();
@@ -150,17 +148,20 @@ where
                     }
 
                     if id == b"x" {
-                        opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        vertex_types[i_vertex_order] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::X;
                         i_vertex_order += 1;
                     } else if id == b"y" {
-                        opt_snd_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        vertex_types[i_vertex_order] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::Y;
                         i_vertex_order += 1;
                     } else if id == b"z" {
-                        opt_third_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        vertex_types[i_vertex_order] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::Z;
                         i_vertex_order += 1;
@@ -226,20 +227,16 @@ where
         }
 
         if line == b"end_header" && ply_found {
-            if let (Some(format), Some(n_vertices), Some(x_type), Some(y_type), Some(z_type)) = (
-                opt_format,
-                opt_n_vertices,
-                opt_fst_type,
-                opt_snd_type,
-                opt_third_type,
-            ) {
+            if let (Some(format), Some(n_vertices), [Some(fst_type), Some(snd_type), Some(third_type)]) =
+                (opt_format, opt_n_vertices, vertex_types)
+            {
                 let vertex_data = VertexData {
                     count: n_vertices,
                     format: VertexFormat {
                         order: VertexOrder::try_from(vertex_order).line(*i_line, line)?,
-                        first: x_type,
-                        snd: y_type,
-                        third: z_type,
+                        first: fst_type,
+                        snd: snd_type,
+                        third: third_type,
                         before: vertex_before,
                         between_first_snd: vertex_between_first_snd,
                         between_snd_third: vertex_between_snd_third,
-- 
2.43.0


From 1f0b8872fa4cae7e536ed0c83de96b9a57eb9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 34/47] fix: properties before the indices of ascii .ply faces
 are skipped

---
 src/io/ply/iterators_internal.rs | 2 +-
 src/io/ply/utils.rs              | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 82ab84e..d1b1493 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -454,7 +454,7 @@ where
             while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
                 self.i_line += 1;
                 return Some(
-                    collect_index_line(&line)
+                    collect_index_line(&line, self.header.face.format.before.words)
                         .ok_or(PlyError::FaceStructure)
                         .line(self.i_line, line)
                         .map_err(|e| {
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index dc00574..12c2544 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,8 +34,9 @@ use std::io::Read;
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8]) -> Option<[usize; 3]> {
+pub fn collect_index_line(line: &[u8], n_words_before: usize) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
+    skip_n(&mut words, n_words_before);
     if words.next()? != b"3" {
         return None;
     }
-- 
2.43.0


From 7db6eda16e470f1b8003a5ebc035791c70bdee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 35/47] fix: missing vertices or faces of ascii .ply files are
 an error

---
 src/io/ply/iterators_internal.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index d1b1493..5518410 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -378,8 +378,8 @@ where
             return None;
         }
         if self.current < self.header.vertex.count {
-            self.current += 1;
             while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+                self.current += 1;
                 self.i_line += 1;
                 return Some(
                     Self::fetch_one(&self.header, line)
@@ -450,8 +450,8 @@ where
             return None;
         }
         if self.current < self.header.face.count {
-            self.current += 1;
             while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+                self.current += 1;
                 self.i_line += 1;
                 return Some(
                     collect_index_line(&line, self.header.face.format.before.words)
@@ -467,7 +467,11 @@ where
 
         self.is_done = true;
 
-        None
+        if self.current != self.header.face.count {
+            Some(Err(PlyError::AccessFile).simple())
+        } else {
+            None
+        }
     }
 }
 
-- 
2.43.0


From 3c7881515fda4ae92602ce3f43df0ec75922adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 36/47] fix: .ply files with faces before vertices are refused
 instead of misread

---
 src/io/ply/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index a2933d4..b6c8078 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -94,6 +94,11 @@ where
         match opt_n_vertices {
             None => {
                 if line.starts_with(b"element vertex") {
+                    // elements are stored in the order of the header, vertices are read first
+                    if opt_n_faces.is_some() {
+                        return Err(PlyError::LoadHeaderInvalid).line(*i_line, line);
+                    }
+
                     read_state = HeaderReadState::Vertex;
                     let mut words = to_words_skip_empty(line);
                     opt_n_vertices = Some(
-- 
2.43.0


From 99925f0031b5007ff3dda8c3ec509299db162e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 37/47] fix: .ply coordinates in the orders yzx and zxy were
 mixed up

---
 src/io/ply/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index 12c2544..a1aa4e8 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -91,8 +91,8 @@ where
         VertexOrder::Xyz => P::new(fst, snd, third),
         VertexOrder::Xzy => P::new(fst, third, snd),
         VertexOrder::Yxz => P::new(snd, fst, third),
-        VertexOrder::Yzx => P::new(snd, third, fst),
-        VertexOrder::Zxy => P::new(third, fst, snd),
+        VertexOrder::Yzx => P::new(third, fst, snd),
+        VertexOrder::Zxy => P::new(snd, third, fst),
         VertexOrder::Zyx => P::new(third, snd, fst),
     }
 }
-- 
2.43.0


From 02fab206d78aa49713f7ce218ac57e9ec37903e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 38/47] fix: bezier interpolation of more than 21 base points
 overflowed

---
 src/interpolate_2d.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index b0ff22f..1946c35 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -28,21 +28,18 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
-fn factorial(number: usize) -> usize {
-    let mut result = 1;
+fn binominal_coefficient(n: usize, k: usize) -> f64 {
+    let mut result = 1.0;
 
-    for i in 1..number + 1 {
-        result *= i;
+    for i in 0..k {
+        result = result * (n - i) as f64 / (i + 1) as f64;
     }
-    result
-}
 
-fn binominal_coefficient(n: usize, k: usize) -> usize {
-    factorial(n) / (factorial(k) * factorial(n - k))
+    result
 }
 
 fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
-    (binominal_coefficient(n, i) as f64) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
+    binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
 }
 
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
-- 
2.43.0


From 9077799060dcadfbfa6671864154e32e281ae273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 39/47] fix: interpolations keep the last point and handle
 repeated points and few points

---
 src/interpolate_2d.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index 1946c35..3ca1c0a 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -95,11 +95,19 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    if n_points == 0 {
+        return Ok(pc);
+    }
+
+    let p_dist = match n_points {
+        1 => 0.0,
+        n => base_points.length() / (n - 1) as f64,
+    };
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
         let mut traveled_before: f64 = 0.0;
+        let mut found = false;
 
         for j in 1..base_points.len() {
             let ref p_prev = base_points.data[j - 1];
@@ -108,7 +116,7 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
+            if traveled > traveled_before && traveled >= p_dist * (i as f64) {
                 let proportion =
                     ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
                 let proportion2 = (1.0 - (proportion * PI).cos()) / 2.0;
@@ -116,10 +124,16 @@ where
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
                     p_prev.y() * (1.0 - proportion2) + p_now.y() * proportion2,
                 ));
+                found = true;
                 break;
             }
             traveled_before = traveled;
         }
+
+        if !found {
+            // the end of the path, only missed due to rounding or a path without length
+            pc.push(P::new_from(&base_points.data[base_points.len() - 1]));
+        }
     }
     Ok(pc)
 }
@@ -137,11 +151,19 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    if n_points == 0 {
+        return Ok(pc);
+    }
+
+    let p_dist = match n_points {
+        1 => 0.0,
+        n => base_points.length() / (n - 1) as f64,
+    };
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
         let mut traveled_before: f64 = 0.0;
+        let mut found = false;
 
         for j in 1..base_points.len() {
             //@todo fails if path too small, handle this
@@ -151,17 +173,23 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
+            if traveled > traveled_before && traveled >= p_dist * (i as f64) {
                 let proportion =
                     ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
                     p_prev.y() + proportion * (p_now.y() - p_prev.y()),
                 ));
+                found = true;
                 break;
             }
             traveled_before = traveled;
         }
+
+        if !found {
+            // the end of the path, only missed due to rounding or a path without length
+            pc.push(P::new_from(&base_points.data[base_points.len() - 1]));
+        }
     }
     Ok(pc)
 }
-- 
2.43.0


From 082013ab9cb78e654ee096d0b82b480a86391124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 40/47] fix: arcs, involuts and ellipses of less than two
 points

---
 src/factory_2d.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 5027442..1c67dc5 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -28,6 +28,16 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
+/// Returns the distance between n_points points spread over the range
+fn step(range: f64, n_points: usize) -> f64 {
+    match n_points {
+        0 | 1 => 0.0,
+        n => range / (n - 1) as f64,
+    }
+}
+
+//------------------------------------------------------------------------------
+
 /// Creates a 2D rectangle from given center width and height
 pub fn rectangle<P>(center: &P, width: Positive, height: Positive) -> PointCloud2D<P>
 where
@@ -56,7 +66,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = step((end.0 - start.0).abs(), n_points);
 
     for i in 0..n_points {
         let current = (i as f64) * p_dist;
@@ -81,7 +91,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = step((end.0 - start.0).abs(), n_points);
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
@@ -99,7 +109,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / (n_points - 1) as f64;
+    let p_dist = step(PI, n_points);
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
-- 
2.43.0


From 1814a6c78fabdaef0057532859eada57625254dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 41/47] fix: clouds can be compressed to types whose largest
 value is no exact f64

---
 src/compressed_point_cloud_3d.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/compressed_point_cloud_3d.rs b/src/compressed_point_cloud_3d.rs
index 16af708..8242f75 100644
--- a/src/compressed_point_cloud_3d.rs
+++ b/src/compressed_point_cloud_3d.rs
@@ -72,9 +72,9 @@ where
             let disty = p.y() - bb.min_p().y;
             let distz = p.z() - bb.min_p().z;
 
-            let unitsx = T::from(distx / unitsizex).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsy = T::from(disty / unitsizey).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsz = T::from(distz / unitsizez).ok_or(ErrorKind::NumberConversionError)?;
+            let unitsx = to_units(distx / unitsizex, maxval)?;
+            let unitsy = to_units(disty / unitsizey, maxval)?;
+            let unitsz = to_units(distz / unitsizez, maxval)?;
 
             data.push(CompressedPoint3D {
                 unitsx,
@@ -112,3 +112,17 @@ where
         pc
     }
 }
+
+//------------------------------------------------------------------------------
+
+/// The largest value of T might not have an exact f64 representation, therefore is handled separately
+fn to_units<T>(units: f64, maxval: f64) -> Result<T>
+where
+    T: Unsigned + PrimInt,
+{
+    if units >= maxval {
+        Ok(T::max_value())
+    } else {
+        T::from(units).ok_or(ErrorKind::NumberConversionError)
+    }
+}
-- 
2.43.0


From 9db795552c830d6e3548eb35e9c7aa8db06e4871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 42/47] fix: look at matrices change no lengths

---
 src/matrix4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix4.rs b/src/matrix4.rs
index ee0a7b0..9bcaa7e 100644
--- a/src/matrix4.rs
+++ b/src/matrix4.rs
@@ -195,7 +195,7 @@ impl Matrix4 {
         N: IsNormalized3D,
     {
         let n = target.normalized()?;
-        let u = cross(&*up, target);
+        let u = cross(&*up, target).normalized()?;
         let v = cross(&n, &u);
 
         let mut result = Matrix4::default();
-- 
2.43.0


From 7d24421c90ea9136d60dcd2686a5d5ef9f6eb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 43/47] fix: read errors are reported instead of being taken
 for the end of the file

---
 src/io/gcode.rs | 10 +++++++++-
 src/io/obj.rs   | 20 ++++++++++++++++++--
 src/io/off.rs   | 20 ++++++++++++++++++--
 src/io/pts.rs   | 10 +++++++++-
 src/io/ptx.rs   | 16 ++++++++++++----
 src/io/stl.rs   |  7 +++++--
 src/io/utils.rs |  9 ++++++---
 src/io/xy.rs    | 34 +++++++++++++++++++++-------------
 src/io/xyz.rs   | 34 +++++++++++++++++++++-------------
 9 files changed, 119 insertions(+), 41 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index cfe2b5a..2a6466b 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -85,7 +85,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(GcodeError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.len() >= 3 && line[0] == b'G' {
diff --git a/src/io/obj.rs b/src/io/obj.rs
index 379ddbf..cff28ea 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -75,7 +75,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
@@ -141,7 +149,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
diff --git a/src/io/off.rs b/src/io/off.rs
index 0bceadd..4c12b54 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -82,7 +82,15 @@ where
             return None;
         }
 
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
@@ -235,7 +243,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1b9a232..7a665bb 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -101,7 +101,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PtsError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.is_empty() {
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 09c0486..f1b5bed 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -178,9 +178,14 @@ where
         }
         if self.n_points_to_fetch == 0 {
             let first_line = fetch_line(&mut self.read, &mut self.line_buffer);
-            if first_line.is_err() {
+            if let Err(e) = first_line {
                 self.is_done = true;
-                return None;
+                return match e {
+                    FetchLineError::EndReached => None,
+                    FetchLineError::AccessFile => {
+                        Some(Err(PtxError::AccessFile).index(self.i_line))
+                    }
+                };
             }
             self.i_line += 1;
             // unwrap safe, is_err() checked above
@@ -302,8 +307,11 @@ impl From<ioError> for PtxError {
 }
 
 impl From<FetchLineError> for PtxError {
-    fn from(_error: FetchLineError) -> Self {
-        PtxError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => PtxError::LoadFileEndReached,
+            FetchLineError::AccessFile => PtxError::AccessFile,
+        }
     }
 }
 
diff --git a/src/io/stl.rs b/src/io/stl.rs
index c7d48b5..afbc0ae 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -733,7 +733,10 @@ impl From<FromBytesError> for StlError {
 }
 
 impl From<FetchLineError> for StlError {
-    fn from(_error: FetchLineError) -> Self {
-        StlError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => StlError::LoadFileEndReached,
+            FetchLineError::AccessFile => StlError::AccessFile,
+        }
     }
 }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 0b1734a..89699ad 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -106,7 +106,7 @@ where
     line_buffer.clear();
     let n_read = read.read_until(b'\n', line_buffer)?;
     if n_read == 0 {
-        return Err(FetchLineError);
+        return Err(FetchLineError::EndReached);
     }
 
     // We must drop the '\n' we read_until (which is missing if the last line just ends)
@@ -126,7 +126,10 @@ where
 //------------------------------------------------------------------------------
 
 /// Error type for the fetch_line function
-pub struct FetchLineError;
+pub enum FetchLineError {
+    EndReached,
+    AccessFile,
+}
 
 /// Result type for the fetch_line function
 pub type FetchLineResult<T> = std::result::Result<T, FetchLineError>;
@@ -139,6 +142,6 @@ impl fmt::Debug for FetchLineError {
 
 impl From<ioError> for FetchLineError {
     fn from(_error: ioError) -> Self {
-        FetchLineError {}
+        FetchLineError::AccessFile
     }
 }
diff --git a/src/io/xy.rs b/src/io/xy.rs
index 4531160..e2125e0 100644
--- a/src/io/xy.rs
+++ b/src/io/xy.rs
@@ -101,19 +101,27 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(e) => {
+                self.is_done = true;
+                match e {
+                    FetchLineError::EndReached => None,
+                    FetchLineError::AccessFile => {
+                        Some(Err(XyError::AccessFile).index(self.i_line))
+                    }
+                }
+            }
         }
     }
 }
diff --git a/src/io/xyz.rs b/src/io/xyz.rs
index 5399984..e408351 100644
--- a/src/io/xyz.rs
+++ b/src/io/xyz.rs
@@ -106,19 +106,27 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(e) => {
+                self.is_done = true;
+                match e {
+                    FetchLineError::EndReached => None,
+                    FetchLineError::AccessFile => {
+                        Some(Err(XyzError::AccessFile).index(self.i_line))
+                    }
+                }
+            }
         }
     }
 }
-- 
2.43.0


From bb34a8e9120da2caa469e82a9d146e67d0363327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 44/47] fix: .ptx and .ply mesh iterators end after their first
 error

---
 src/io/ply/iterators_internal.rs | 22 ++++++++++++++--------
 src/io/ptx.rs                    |  6 +++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 5518410..135eb61 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -71,7 +71,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(Ok(x)) => return Some(Ok(io::types::FaceData::Data(x))),
+                Some(Err(e)) => {
+                    self.p_iter = None;
+                    return Some(Err(e));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -85,10 +89,9 @@ where
                 }
             }
         }
-        //unwrap safe, either is always constructed
+        // neither is left after an error
         self.f_iter
-            .as_mut()
-            .unwrap()
+            .as_mut()?
             .next()
             .map(|x| x.map(|x| io::types::FaceData::Face(x)))
     }
@@ -141,7 +144,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(Ok(x)) => return Some(Ok(io::types::FaceData::Data(x))),
+                Some(Err(e)) => {
+                    self.p_iter = None;
+                    return Some(Err(e));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -151,10 +158,9 @@ where
                 }
             }
         }
-        //unwrap safe, either is always constructed
+        // neither is left after an error
         self.f_iter
-            .as_mut()
-            .unwrap()
+            .as_mut()?
             .next()
             .map(|x| x.map(|x| io::types::FaceData::Face(x)))
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index f1b5bed..624723c 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -208,7 +208,11 @@ where
                     Some(
                         Self::fetch_one(line, self.must_transform, &self.transformation)
                             .map(|x| DataReserve::Data(x))
-                            .line(self.i_line, line),
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
                     )
                 }
                 Err(e) => {
-- 
2.43.0


From 17e6be7c646b7cd3d5210239d54c877088d6a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 45/47] fix: face and point ids beyond the last one are
 unknown, however big they are

Mesh3D::face_vertex_ids and PointCloud3Df32::get_d multiplied the id by three before comparing it with the length. Ids above a third of the range of usize overflowed: a panic in debug builds, some other face or point in release builds.
---
 src/mesh_3d.rs            | 8 ++++----
 src/point_cloud_3d_f32.rs | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mesh_3d.rs b/src/mesh_3d.rs
index 77565a0..b782ea3 100644
--- a/src/mesh_3d.rs
+++ b/src/mesh_3d.rs
@@ -56,14 +56,14 @@ where
     }
 
     fn face_vertex_ids(&self, faceid: FId) -> Option<Face3> {
+        if faceid.0 >= self.num_faces() {
+            return None;
+        }
+
         let id1 = 3 * faceid.0 + 0;
         let id2 = 3 * faceid.0 + 1;
         let id3 = 3 * faceid.0 + 2;
 
-        if id3 >= self.topology.len() {
-            return None;
-        }
-
         Some(Face3::new(
             VId(self.topology.get(id1)),
             VId(self.topology.get(id2)),
diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index fab9bcc..24ee2a9 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -95,6 +95,10 @@ where
     }
 
     fn get_d(&self, index: usize) -> Option<P> {
+        if index >= self.len_d() {
+            return None;
+        }
+
         Some(P::new(
             *self.data.get(3 * index + 0)? as f64,
             *self.data.get(3 * index + 1)? as f64,
-- 
2.43.0


From 308ee660a69b7ecc0960b1d20863c53218b32ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 46/47] fix: .las headers before version 1.4 are shorter than
 375 bytes

---
 src/io/las/load.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index d4dbfa5..ba83e10 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -163,8 +163,15 @@ fn load_header<R>(mut read: R) -> LasResult<HeaderRaw>
 where
     R: Read,
 {
+    // headers before version 1.4 are shorter, the fields they lack stay zero
     let mut buffer = [0u8; 375];
-    read.read_exact(&mut buffer)?;
+    read.read_exact(&mut buffer[0..227])?;
+    let header_size = match (buffer[24], buffer[25]) {
+        (0..=1, 0..=2) => 227,
+        (0..=1, 3) => 235,
+        _ => 375,
+    };
+    read.read_exact(&mut buffer[227..header_size])?;
 
     Ok(HeaderRaw {
         file_signature: array_from_bytes_le!(u8, 4, &buffer[0..4])?, //4 4
-- 
2.43.0


From a24a146d25988a9dd8e46c44bfa3db8786aafda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 47/47] fix: arcs and involuts run from their start to their
 end angle

---
 src/factory_2d.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 1c67dc5..533b27d 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -66,10 +66,10 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = step((end.0 - start.0).abs(), n_points);
+    let p_dist = step(end.0 - start.0, n_points);
 
     for i in 0..n_points {
-        let current = (i as f64) * p_dist;
+        let current = start.0 + (i as f64) * p_dist;
         pc.push(P::new(
             center.x() + d / 2.0 * (current.cos() + current * current.sin()),
             center.y() + d / 2.0 * (current.sin() - current * current.cos()),
@@ -91,7 +91,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = step((end.0 - start.0).abs(), n_points);
+    let p_dist = step(end.0 - start.0, n_points);
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
-- 
2.43.0

