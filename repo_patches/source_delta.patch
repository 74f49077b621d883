From e6147e6f0f4913d24f58f52cd801397d28a36fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 01/16] fix: report the node and edge at index 0 as existing

---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index de363e8..9e84978 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -137,11 +137,11 @@ where
     }
 
     pub fn has_node_at_index(&self, id: NodeIndex) -> bool {
-        id > 0 && id < self.nodes.len()
+        id < self.nodes.len()
     }
 
     pub fn has_edge_at_index(&self, id: EdgeIndex) -> bool {
-        id > 0 && id < self.edges.len()
+        id < self.edges.len()
     }
 
     /// Returns `true` if an edge exists between 2 nodes with indices `a` and `b` and `false` otherwise.
-- 
2.43.0


From 12e2521d906dc106af2581297c7995ed65f4d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 02/16] fix: removing the last edge of a graph panicked

---
 src/graph/planar_graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 9e84978..6e9c9ef 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -396,8 +396,7 @@ where
                 // Make sure to do this BEFORE the call to `pop()`, which changes the array length
                 changed_edges.push(self.edge_count() - 1);
 
-                let last = self.edges.pop().expect("This should never happen");
-                self.edges[id] = last;
+                self.edges.swap_remove(id);
             }
 
             // No nodes should ever be affected by this procedure if we've reached this point
-- 
2.43.0


From b1fb166b8b8020453f15a498f310314c68be4f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 03/16] fix: removing a node without edges panicked

---
 src/graph/planar_graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 6e9c9ef..37e0dd8 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -437,7 +437,11 @@ where
 
             // Keep track of the index of the "leftmost" node / edge to-be-deleted
             let min_node_index = marked_nodes.iter().cloned().min().unwrap();
-            let min_edge_index = marked_edges.iter().cloned().min().unwrap();
+            let min_edge_index = marked_edges
+                .iter()
+                .cloned()
+                .min()
+                .unwrap_or(self.edge_count());
 
             // All nodes / edges that are to the "right" of the indices calculated above will change
             let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();
-- 
2.43.0


From 179c740f30edeeb3d34be8229a8508c79e7949a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 04/16] fix: removing a node with a self-loop marked it for
 deletion twice and panicked

---
 src/graph/planar_graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 37e0dd8..46e9b7d 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -508,7 +508,8 @@ where
 
                 // Is there another edge (other than this one) that includes the specified node? If not, it
                 // is a "stray" node
-                if let Some(1) = self.number_of_edges_incident_to(neighbor) {
+                // (the neighbor across a self-loop is the deleted node itself, which is already marked)
+                if neighbor != id && self.number_of_edges_incident_to(neighbor) == Some(1) {
                     marked_nodes.push(neighbor);
                 }
             }
-- 
2.43.0


From 89de8407c5e8acc90e98c1da3e0df9d3e1d60fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 05/16] fix: unique_points_among dropped every copy of a
 repeated point

---
 src/geometry/utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 85d57ad..00e1f2b 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -172,14 +172,14 @@ pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
 pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
     let mut unique = vec![];
 
-    for (i, a) in ps.iter().enumerate() {
+    for a in ps.iter() {
         // Assume that this point `a` is unique
         let mut is_unique = true;
 
-        // Iterate through all other points and check if `a` ~= `b` (taking care not
-        // to compare `a` with itself in the inner for-loop)
-        for (j, b) in ps.iter().enumerate() {
-            if i != j && close_to(a, b) {
+        // Iterate through all of the points that were kept so far and check if `a` ~= `b`,
+        // so that exactly one point of each group of coincident points is kept
+        for b in unique.iter() {
+            if close_to(a, b) {
                 is_unique = false;
                 break;
             }
-- 
2.43.0


From 3120804b23298bcd43122c9c8b4f08e6b086dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 06/16] fix: is_on_line_segment ignored include_endpoints

---
 src/geometry/utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 00e1f2b..00fd567 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -126,10 +126,11 @@ pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool)
     let ap = nalgebra_glm::distance(a, p);
     let pb = nalgebra_glm::distance(p, b);
 
-    // Return `false` if the specified point is one of the endpoints of the line segment
+    // Unless the endpoints are included, return `false` if the specified point is one of the
+    // endpoints of the line segment
     ((ap + pb) - ab).abs() < nalgebra_glm::epsilon()
-        && ap.abs() > nalgebra_glm::epsilon()
-        && pb.abs() > nalgebra_glm::epsilon()
+        && (include_endpoints
+            || (ap.abs() > nalgebra_glm::epsilon() && pb.abs() > nalgebra_glm::epsilon()))
 }
 
 /// Finds the index of the vertex that is closest to the specified target vertex `t` among a set of
-- 
2.43.0


From 1902c3ed2b0b6e021efcb61f80279c5244adbf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 07/16] fix: calculate_line_intersection rejected points
 outside of the two segments

---
 src/geometry/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 00fd567..a35f2d7 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -202,11 +202,6 @@ pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Op
 
     if determinant.abs() > nalgebra_glm::epsilon() {
         let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
-        let u_b = ((b.x - a.x) * (a.y - c.y) - (b.y - a.y) * (a.x - c.x)) / determinant;
-
-        if !((0.0 <= u_a && u_a <= 1.0) && (0.0 <= u_b && u_b <= 1.0)) {
-            return None;
-        }
 
         let x = a.x + u_a * (b.x - a.x);
         let y = a.y + u_a * (b.y - a.y);
-- 
2.43.0


From 1170ffc4043ff1968aef643e95f83d34d320ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 08/16] fix: the perpendicular bisector ignored the offset's
 length and failed on axis-aligned segments

---
 src/geometry/utils.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index a35f2d7..55282e2 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -102,17 +102,9 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     // First, calculate the midpoint of the line segment from `a` to `b`
     let midpoint = calculate_midpoint(a, b);
 
-    // Then, calculate the slope of the line segment and the slope of the perpendicular
-    let slope = (b.y - a.y) / (b.x - a.x);
-    let slope_perpendicular = -1.0 / slope;
-    let intercept = midpoint.y - slope_perpendicular * midpoint.x;
-
-    // Add a small offset in the x-direction (this is arbitrary)
-    let offset_point = midpoint + Vec2::new(offset, 0.0);
-    let second = Vec2::new(
-        offset_point.x,
-        offset_point.x * slope_perpendicular + intercept,
-    );
+    // Then, calculate the (unit length) direction of the perpendicular
+    let perpendicular = nalgebra_glm::normalize(&Vec2::new(a.y - b.y, b.x - a.x));
+    let second = midpoint + perpendicular * offset;
 
     (midpoint, second)
 }
-- 
2.43.0


From e5fbe4323799df50ca8d3850cdbf709ba039602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 09/16] fix: number_of_basis_blades panicked for 0-blades and
 for grades above the dimension

---
 src/math/blade.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 44a73b0..4b0308f 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -51,8 +51,8 @@ pub fn total_number_of_basis_blades(dim: usize) -> usize {
 
 /// Compute `n` factorial.
 fn factorial(n: usize) -> usize {
-    let mut fact = n;
-    for i in 2..n {
+    let mut fact = 1;
+    for i in 2..n + 1 {
         fact *= i;
     }
     return fact;
@@ -61,8 +61,11 @@ fn factorial(n: usize) -> usize {
 /// Compute `n` choose `k`, i.e. the binomial coefficient corresponding to
 /// the parameters `n` and `k`.
 fn binomial_coefficient(n: usize, k: usize) -> usize {
-    let mut num = n;
-    for i in 1..k {
+    if k > n {
+        return 0;
+    }
+    let mut num = 1;
+    for i in 0..k {
         num *= n - i;
     }
     return num / factorial(k);
-- 
2.43.0


From 00f31691bd2e559ef3c225b1399bd36f243c150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 10/16] fix: Rotor3::from_vectors was wrong for vectors that
 are not unit length

---
 src/math/rotor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/rotor.rs b/src/math/rotor.rs
index 874d7de..170d8c5 100644
--- a/src/math/rotor.rs
+++ b/src/math/rotor.rs
@@ -69,6 +69,7 @@ where
         // In most of the literature, the left-hand multiplier `vu` corresponds to
         // the rotor `R`, whereas the right-hand multiplier `uv` corresponds to the
         // inverse rotor, `R†` (we want to construct `R`)
+        let (u, v) = (u.normalize(), v.normalize());
         let scalar = T::one() + v.dot(u);
         let bivector = v.wedge(u);
 
-- 
2.43.0


From 63afac6356f37682ba42ffd5981a8a4c5d0bf14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 11/16] fix: fold angles and layer orders were written under
 keys that are not read back

---
 src/fold/fold.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index ca9caa1..2f5aa51 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -91,7 +91,7 @@ pub struct Fold {
     pub edges_assignment: Vec<String>,
 
     /// For each edge, the fold angle (deviation from flatness) along each edge of the pattern
-    #[serde(default, rename(deserialize = "edges_foldAngles"))]
+    #[serde(default, rename = "edges_foldAngles")]
     pub edges_foldangles: Vec<f32>,
 
     /// For each edge, the length of the edge (a number)
@@ -111,11 +111,11 @@ pub struct Fold {
     /// Layer information
 
     /// An array of triples [f, g, s] where f and g are face IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "faceOrders"))]
+    #[serde(default, rename = "faceOrders")]
     pub faceorders: Vec<[i32; 3]>,
 
     /// An array of triples [e, f, s] where e and f are edge IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "edgeOrders"))]
+    #[serde(default, rename = "edgeOrders")]
     pub edgeorders: Vec<[i32; 3]>,
 }
 
-- 
2.43.0


From 6f677f5ee885209913ec2ba320ffd62dccb82668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 12/16] fix: Fold::from_file panicked on malformed JSON

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 2f5aa51..3b2a1fe 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -127,7 +127,7 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
-        let mut fold: Fold = serde_json::from_str(&contents).expect("Failed to load JSON");
+        let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
 
-- 
2.43.0


From 1066ee169683badeccc7078a02ade740d5dd3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 13/16] fix: FOLD files of a non-integer spec version (1.1)
 could not be loaded

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 3b2a1fe..f28db70 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -11,7 +11,7 @@ pub struct Fold {
 
     /// The version of the FOLD spec that the file assumes (a number)
     #[serde(default)]
-    pub file_spec: i32,
+    pub file_spec: f32,
 
     /// The software that created the file (a string)
     #[serde(default)]
-- 
2.43.0


From 2ccb69e9ebfa950da933da9ae7c62cb9d2aa5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 14/16] fix: the angle between parallel vectors could be NaN

---
 src/math/vector.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/vector.rs b/src/math/vector.rs
index de31a5f..a4d397b 100644
--- a/src/math/vector.rs
+++ b/src/math/vector.rs
@@ -137,7 +137,12 @@ where
     pub fn angle(self, rhs: Self) -> T {
         let u_norm = self.normalize();
         let v_norm = rhs.normalize();
-        u_norm.dot(v_norm).acos()
+        // Rounding may push the cosine of (nearly) parallel vectors out of the domain of `acos`
+        u_norm
+            .dot(v_norm)
+            .max(-T::one())
+            .min(T::one())
+            .acos()
     }
 }
 
-- 
2.43.0


From d24ad88f4c08c86ab5392ba2bfcbcd4934fc5ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 15/16] fix: triangulating a polygon without any ears never
 returned

---
 src/geometry/polygon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index 4defa27..ca6de8d 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -281,6 +281,10 @@ impl Polygon {
         let mut triangles = vec![];
 
         while copy.vertices.len() > 3 {
+            // A degenerate polygon may not have any ears left, so there is nothing more to clip
+            if !is_ear.contains(&true) {
+                return triangles;
+            }
 
             for v2 in 0..copy.vertices.len() {
 
-- 
2.43.0


From 88fc3577bd4a0a22e9070a781c4047e89960af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 16/16] fix: between() accepted points off a segment whose
 endpoints coincide

---
 src/geometry/polygon.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index ca6de8d..0f5faa7 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -53,6 +53,11 @@ pub fn between(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
         return false;
     }
 
+    // If `ab` is a single point, every `c` is collinear to it, but only that point itself lies on it
+    if a == b {
+        return a == c;
+    }
+
     // If `ab` is not vertical, check "between-ness" based on the x-coordinate - otherwise,
     // check based on the y-coordinate
     if a.x != b.x {
-- 
2.43.0

