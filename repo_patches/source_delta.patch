From 41e9e9b3411461693dc35a1ffcbcff2a5089527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:20 +0000
Subject: [PATCH 01/17] fix: report the rhombohedral lattice system for hR
 lattices

The lattice system was derived from the first letter of the Bravais symbol,
so hR was looked up among the hexagonal space groups and none of the seven
rhombohedral groups could ever be identified.
---
 src/data/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/core.rs b/src/data/core.rs
index 9f38019..ca61282 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -127,6 +127,11 @@ impl BravaisType {
     }
 
     pub fn lattice_system(&self) -> LatticeSystem {
+        // The first letter only names the crystal family, which hR shares with hP
+        if *self == BravaisType::hR {
+            return LatticeSystem::Rhombohedral;
+        }
+
         let system: String = self.to_string().chars().next().unwrap().to_string();
 
         LatticeSystem::from_str(&system).expect("Problem determining lattice system.")
-- 
2.43.0


From 31a307d4e1dab75fd738a0a059bebc384a532a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:20 +0000
Subject: [PATCH 02/17] fix: write the third screw axis of P2_12_12_1 and
 I2_12_12_1

The symbols of space groups 19 and 24 lacked the last underscore, unlike
every other symbol with a screw axis.
---
 src/data/spacegroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/spacegroup.rs b/src/data/spacegroup.rs
index 3877fdc..1e8a9bf 100644
--- a/src/data/spacegroup.rs
+++ b/src/data/spacegroup.rs
@@ -24,12 +24,12 @@ lazy_static! {
             (16, "P222"),
             (17, "P222_1"),
             (18, "P2_12_12"),
-            (19, "P2_12_121"),
+            (19, "P2_12_12_1"),
             (20, "C222_1"),
             (21, "C222"),
             (22, "F222"),
             (23, "I222"),
-            (24, "I2_12_121"),
+            (24, "I2_12_12_1"),
             (25, "Pmm2"),
             (26, "Pmc2_1"),
             (27, "Pcc2"),
-- 
2.43.0


From 94d42032c067d2a3c0a84c199080488f6e1f8183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:20 +0000
Subject: [PATCH 03/17] fix: keep handedness in the conventional cell of
 lattice character 17

The tabulated matrix had determinant -2. Reversing its first row, as in the
International Tables, gives +2 like every other C-centred character.
---
 src/data/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/core.rs b/src/data/core.rs
index ca61282..7eb7c5e 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -239,7 +239,7 @@ lazy_static! {
             (15, Matrix3::new(1,0,0,0,1,0,1,1,2)),
             (16, Matrix3::new(-1,-1,0,1,-1,0,1,1,2)),
             (14, Matrix3::new(1,1,0,-1,1,0,0,0,1)),
-            (17, Matrix3::new(1,-1,0,1,1,0,-1,0,-1)),
+            (17, Matrix3::new(-1,1,0,1,1,0,-1,0,-1)),
             // Third set, B=C
             (18, Matrix3::new(0,-1,1,1,-1,-1,1,0,0)),
             (19, Matrix3::new(-1,0,0,0,-1,1,-1,1,1)),
-- 
2.43.0


From 60c63e4e40eaeeabbc49efa0983a969dea6a59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:22 +0000
Subject: [PATCH 04/17] fix: count sites in formulas without 8-bit overflow

---
 src/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 7d765df..7d3cf06 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -333,7 +333,7 @@ impl Structure {
 
     /// Formula and reduced formula of the structure.
     pub fn formulas(&self) -> (String, String) {
-        let mut species_tally = HashMap::<&String, i8>::new();
+        let mut species_tally = HashMap::<&String, usize>::new();
 
         let mut max_count = 0;
 
@@ -345,7 +345,7 @@ impl Structure {
                 max_count = *count;
             }
         }
-        let mut gcf: i8 = 1;
+        let mut gcf: usize = 1;
 
         for div in 2..(max_count + 1) {
             if species_tally.values().all(|&tally| (tally % div) == 0) {
-- 
2.43.0


From 9a53d8ec23b6f4ef9889845c9fdd5373a2e52f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:23 +0000
Subject: [PATCH 05/17] fix: keep cell tolerances real for left-handed cells

---
 src/analyzer.rs | 2 +-
 src/reduce.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 9cb31b5..d649b6f 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -361,7 +361,7 @@ impl SymmetryAnalyzer {
 
     /// Classify the reduced structure accoring to one of the 44 lattice characters.
     fn get_lattice_character(&self, reduced_structure: &Structure, tol: &f64) -> u8 {
-        let epsilon = tol * reduced_structure.volume().powf(1.0 / 3.0);
+        let epsilon = tol * reduced_structure.volume().abs().powf(1.0 / 3.0);
 
         let a_vec = Vector3::from(reduced_structure.lattice.column(0));
         let b_vec = Vector3::from(reduced_structure.lattice.column(1));
diff --git a/src/reduce.rs b/src/reduce.rs
index e6aff14..2d39ac1 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -212,7 +212,7 @@ impl Reducer {
     /// * `structure` - Input structure to reduce.
     /// * `tol` - Value used to calculate tolerance (eps) as `eps = tol*(volume^(1/3))`
     pub fn niggli_reduce(&self, structure: &Structure, tol: &f64) -> Structure {
-        let epsilon = tol * structure.volume().powf(1.0 / 3.0);
+        let epsilon = tol * structure.volume().abs().powf(1.0 / 3.0);
 
         let mut metric_tensor = structure.metric_tensor();
 
-- 
2.43.0


From 66979603e2e54700b4ca7b0cbd7504e9e2f619c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:25 +0000
Subject: [PATCH 06/17] fix: abort Delaunay reduction exactly when it has not
 converged

---
 src/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 2d39ac1..e90b552 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -455,7 +455,7 @@ impl Reducer {
             count += 1;
         }
 
-        if count == 100 {
+        if scalar_prods.iter().any(|val| val > &ZERO_TOL) {
             panic!("Reached max number of iterations without reduction!")
         }
 
-- 
2.43.0


From a4371a60eb9dccebfccb9db5e73b1119ad826c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:54 +0000
Subject: [PATCH 07/17] fix: refuse singular lattices instead of
 pseudo-inverting them

---
 src/structure.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/structure.rs b/src/structure.rs
index 7d3cf06..d2b2316 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -281,6 +281,10 @@ impl Structure {
         lattice: &Matrix3<f64>,
         cart_coords: &[Vector3<f64>],
     ) -> Vec<Vector3<f64>> {
+        if lattice.rank(ZERO_TOL) < 3 {
+            panic!("Crystal lattice is not invertible!");
+        }
+
         let inverted_lattice = (*lattice)
             .pseudo_inverse(ZERO_TOL)
             .expect("Crystal lattice is not invertible!");
@@ -383,6 +387,10 @@ impl Structure {
     ///
     /// * `structure` - A transformed structure
     pub fn get_transformation_matrix(&self, structure: &Structure) -> Matrix3<f64> {
+        if self.lattice.rank(ZERO_TOL) < 3 {
+            panic!("Crystal lattice is not invertible!");
+        }
+
         let inv_lattice: Matrix3<f64> = self
             .lattice
             .pseudo_inverse(ZERO_TOL)
-- 
2.43.0


From 811ebd24de92d1275c60dff7ce14ee59b2ce289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:56 +0000
Subject: [PATCH 08/17] fix: compare sites in the transformed cell with its own
 metric

---
 src/structure.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index d2b2316..05a69e8 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -139,12 +139,6 @@ impl Structure {
     /// * `transformation_matrix` - A 3x3 matrix representing the transformation.
     /// * `pos_tol` - Position tolerance in angstroms to use when comparing atomic sites.
     pub fn apply_transformation(&mut self, transformation_matrix: &Matrix3<f64>, pos_tol: &f64) {
-        let frac_tols = Vector3::from_iterator(
-            self.lattice
-                .column_iter()
-                .map(|col| pos_tol / col.magnitude()),
-        );
-
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
 
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
@@ -155,6 +149,12 @@ impl Structure {
 
         let new_lattice = self.lattice * transformation_matrix;
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| pos_tol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
@@ -179,7 +179,7 @@ impl Structure {
                     for new_coord in new_frac_coords.iter() {
                         let mut coord_diff = vec![frac_coord - new_coord];
                         normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                        let cart_coord_delta = Self::get_cart_coords(&self.lattice, &coord_diff);
+                        let cart_coord_delta = Self::get_cart_coords(&new_lattice, &coord_diff);
 
                         if cart_coord_delta[0].magnitude().abs() <= (pos_tol * 2.0) {
                             eq = true;
-- 
2.43.0


From 643255b4bf89a19890ca26fa320c2ceeefb8d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:57 +0000
Subject: [PATCH 09/17] fix: merge sites of the primitive cell by their
 distance in that cell

---
 src/reduce.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index e90b552..0083e2b 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -173,6 +173,12 @@ impl Reducer {
 
         let temp_frac_coords = Structure::get_frac_coords(&new_lattice, &temp_structure.coords);
 
+        let new_frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
 
         let mut new_species: Vec<String> = Vec::new();
@@ -181,9 +187,8 @@ impl Reducer {
             let mut eq = false;
             for new_coord in new_frac_coords.iter() {
                 let mut coord_diff = vec![coord - new_coord];
-                normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                let cart_coord_delta =
-                    Structure::get_cart_coords(&temp_structure.lattice, &coord_diff);
+                normalize_frac_vectors(&mut coord_diff, &new_frac_tols);
+                let cart_coord_delta = Structure::get_cart_coords(&new_lattice, &coord_diff);
 
                 if cart_coord_delta[0].magnitude().abs() <= (self.dtol * 2.0) {
                     eq = true;
-- 
2.43.0


From 320d760dcbd1f8e5e5405c0ee44582abd406e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:59 +0000
Subject: [PATCH 10/17] fix: find a third spanning translation whatever its
 sign

---
 src/reduce.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 0083e2b..c47b9c6 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -532,13 +532,17 @@ impl Reducer {
         }
 
         for (vec_num, cart_vec) in cart_vecs[(second_ind + 1)..].iter().enumerate() {
-            if cross_vec.dot(cart_vec) > self.dtol {
+            if cross_vec.dot(cart_vec).abs() > self.dtol {
                 third_ind = vec_num + second_ind + 1;
                 break;
             }
         }
 
-        let final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
+        let mut final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
+
+        if cross_vec.dot(&final_vecs[2]) < 0.0 {
+            final_vecs[2] *= -1.0;
+        }
 
         final_vecs
     }
-- 
2.43.0


From cbe1acbd653d46a2b978b5892eb9780423b72901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:01 +0000
Subject: [PATCH 11/17] fix: do not wrap the number of operations when looking
 up groups

---
 src/analyzer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index d649b6f..e3a1520 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -89,7 +89,8 @@ impl SymmetryAnalyzer {
         lattice_system: &LatticeSystem,
         frac_tols: &Vector3<f64>,
     ) -> Option<(u8, String)> {
-        let order = sg.operations.len() as u8;
+        let order = u8::try_from(sg.operations.len())
+            .expect("Too many operations to identify a space group!");
 
         let lattice_groups = SG_NUM_TO_FULL_MATRICES
             .get(&lattice_system)
-- 
2.43.0


From 2fa6e9fd27cc7cf990fd5f9c852e117dd1618e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:15 +0000
Subject: [PATCH 12/17] fix: drop rotations that are not integer matrices in
 the new axes

---
 src/spacegroup.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index e77a627..60998ae 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -61,6 +61,8 @@ impl SpaceGroup {
 
         let mut mult = 2;
         while (new_operations.len() as f64 / initial_num_ops) < volume_ratio {
+            initial_num_ops = self.operations.len() as f64;
+
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
@@ -76,7 +78,7 @@ impl SpaceGroup {
                 // Throw out non-integer rotation matrices
                 if !float_rot
                     .iter()
-                    .any(|val| (val.abs() < ZERO_TOL) || ((val.abs() - 1.0).abs() < ZERO_TOL))
+                    .all(|val| (val - val.round()).abs() < ZERO_TOL.max(frac_tols.max()))
                 {
                     initial_num_ops -= 1.0;
                     continue;
-- 
2.43.0


From 2a40d78f82d822d38768bd36c512ec663e04c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:18 +0000
Subject: [PATCH 13/17] fix: report symmetry operations in the same order on
 every call

---
 src/analyzer.rs   | 14 +++++++-------
 src/pointgroup.rs |  4 +++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index e3a1520..da92e49 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -10,8 +10,8 @@ use crate::spacegroup::SpaceGroup;
 use crate::structure::Structure;
 use crate::symmop::SymmOp;
 use crate::utils::{cust_eq, decode_spg_op, normalize_frac_vectors, num_negative_zero};
+use itertools::Itertools;
 use nalgebra::{Matrix3, Vector3};
-use std::collections::HashMap;
 
 #[derive(Debug, Clone)]
 pub struct SymmetryAnalyzer {
@@ -102,7 +102,7 @@ impl SymmetryAnalyzer {
 
         let mut output_data: Option<(u8, String)> = Option::None;
 
-        for (num, encoded_ops) in candidate_groups.iter() {
+        for (num, encoded_ops) in candidate_groups.iter().sorted() {
             let mut all_found = true;
             let is_a_centered = SG_NUM_TO_SYMBOL
                 .get(num)
@@ -194,7 +194,7 @@ impl SymmetryAnalyzer {
         // 3. If the occurance number of a particular vector is equal to number of sites,
         //    choose it as canonical translation for the operation.
         // NOTE: These translations include both instrinsic translation and origin shift.
-        let mut op_trans_vecs: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
+        let mut op_trans_vecs: Vec<(Matrix3<i8>, Vec<Vector3<f64>>)> = Vec::new();
 
         let (_, ele_inds, ele_counts) = prim_structure.get_min_element();
 
@@ -202,7 +202,7 @@ impl SymmetryAnalyzer {
             let float_op = Matrix3::from_iterator(op.iter().map(|&x| x as f64));
             let mut translation_vectors: Vec<Vector3<f64>> = Vec::new();
 
-            for (ele, ind) in ele_inds.iter() {
+            for (ele, ind) in ele_inds.iter().sorted() {
                 let start = ind.to_owned();
                 let end = start + ele_counts.get(ele).unwrap().to_owned();
 
@@ -220,7 +220,7 @@ impl SymmetryAnalyzer {
                 }
             }
 
-            op_trans_vecs.insert(op, translation_vectors);
+            op_trans_vecs.push((op, translation_vectors));
         }
 
         // Sort through candidate vectors and get counts
@@ -228,7 +228,7 @@ impl SymmetryAnalyzer {
         let mut matched;
 
         for (op, translation_vectors) in op_trans_vecs.iter() {
-            let mut translation_counts: HashMap<Vector3<i64>, u64> = HashMap::new();
+            let mut translation_counts: Vec<(Vector3<i64>, u64)> = Vec::new();
 
             for translation in translation_vectors.iter() {
                 let int_translation: Vector3<i64> = Vector3::from_iterator(
@@ -258,7 +258,7 @@ impl SymmetryAnalyzer {
                 }
 
                 if !matched {
-                    translation_counts.insert(int_translation, 1);
+                    translation_counts.push((int_translation, 1));
                 }
             }
 
diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 7f6e434..75c2470 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -75,7 +75,9 @@ impl PointGroup {
             new_ops = generated;
         }
 
-        let operations_vec: Vec<Matrix3<i8>> = Vec::from_iter(symm_ops);
+        // Hash sets iterate in random order
+        let mut operations_vec: Vec<Matrix3<i8>> = Vec::from_iter(symm_ops);
+        operations_vec.sort_by(|a, b| a.iter().cmp(b.iter()));
 
         operations_vec
     }
-- 
2.43.0


From 8a7b73ae9848b0d6663947d9ae621d6542a60308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:09 +0000
Subject: [PATCH 14/17] fix: leave out point group matrices that are not
 integer in the new axes

Rounding such a matrix reported an operation the group does not have.
---
 src/pointgroup.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 75c2470..89f2268 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -1,3 +1,4 @@
+use crate::data::core::ZERO_TOL;
 use crate::data::pointgroup::{PG_NUM_TO_GENERATOR_MATRICES, PG_NUM_TO_SYMBOL};
 use crate::utils::decode;
 use itertools::iproduct;
@@ -44,17 +45,35 @@ impl PointGroup {
             panic!("Transformation matrix is not invertible!");
         }
 
-        for op in self.operations.iter_mut() {
-            let mut float_op = op.cast::<f64>();
-            float_op = inv_trans_mat * float_op * transformation_matrix;
-            *op = Matrix3::from_iterator(float_op.iter().map(|&x| x.round() as i8));
-        }
+        self.operations =
+            Self::transform_matrices(&self.operations, transformation_matrix, &inv_trans_mat);
+        self.generators =
+            Self::transform_matrices(&self.generators, transformation_matrix, &inv_trans_mat);
+    }
 
-        for op in self.generators.iter_mut() {
+    /// Transform matrices to the new axes, leaving out those that are not integer matrices there.
+    fn transform_matrices(
+        matrices: &[Matrix3<i8>],
+        transformation_matrix: &Matrix3<f64>,
+        inv_trans_mat: &Matrix3<f64>,
+    ) -> Vec<Matrix3<i8>> {
+        let mut transformed: Vec<Matrix3<i8>> = Vec::new();
+
+        for op in matrices.iter() {
             let mut float_op = op.cast::<f64>();
             float_op = inv_trans_mat * float_op * transformation_matrix;
-            *op = Matrix3::from_iterator(float_op.iter().map(|&x| x.round() as i8));
+
+            if float_op
+                .iter()
+                .all(|val| (val - val.round()).abs() < ZERO_TOL)
+            {
+                transformed.push(Matrix3::from_iterator(
+                    float_op.iter().map(|&x| x.round() as i8),
+                ));
+            }
         }
+
+        transformed
     }
 
     fn generate_operations(generators: &[Matrix3<i8>]) -> Vec<Matrix3<i8>> {
-- 
2.43.0


From 3cd5bec3356f4e7acb83b050994a61b1a829a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:51 +0000
Subject: [PATCH 15/17] fix: keep a generator that is given twice only once in
 the group

---
 src/spacegroup.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 60998ae..f230ac0 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -135,8 +135,18 @@ impl SpaceGroup {
     }
 
     fn ops_from_generators(generators: &[SymmOp], frac_tols: &Vector3<f64>) -> Vec<SymmOp> {
-        let mut symm_ops: Vec<SymmOp> = generators.to_vec();
-        let mut new_ops: Vec<SymmOp> = generators.to_vec();
+        let mut symm_ops: Vec<SymmOp> = Vec::new();
+
+        for generator in generators.iter() {
+            if !(symm_ops
+                .iter()
+                .any(|symm_op| symm_op.is_approx_eq(generator, frac_tols)))
+            {
+                symm_ops.push(generator.clone());
+            }
+        }
+
+        let mut new_ops: Vec<SymmOp> = symm_ops.clone();
         while !new_ops.is_empty() {
             let mut generated: Vec<SymmOp> = Vec::new();
 
-- 
2.43.0


From c43e19ebdb4b88125e796013ecc913cf8c1c54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:28 +0000
Subject: [PATCH 16/17] fix: compare operations in the input axes with
 tolerances of those axes

---
 src/analyzer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index da92e49..e0e9a1b 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -79,7 +79,14 @@ impl SymmetryAnalyzer {
         let total_transformation =
             inv_prim_trans_mat * inv_conv_trans_mat * niggli_trans_mat * initial_trans_mat;
 
-        sg.apply_transformation(&total_transformation, &frac_tols);
+        let input_frac_tols = Vector3::from_iterator(
+            structure
+                .lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
+        sg.apply_transformation(&total_transformation, &input_frac_tols);
 
         (int_num, sg_symbol, sg)
     }
-- 
2.43.0


From 30ca7693c8c8b7e008f33769dcbdc6b805b6ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:14 +0000
Subject: [PATCH 17/17] fix: count and index sites of an element in usize

With more than 65535 sites a count overflowed and the index of an element's
first site silently wrapped around to another element's site.
---
 src/structure.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 05a69e8..f5af52a 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -310,18 +310,18 @@ impl Structure {
     }
 
     /// Get the element with the smallest amount of sites, alongside element-site index and element-count maps.
-    pub fn get_min_element(&self) -> (String, HashMap<String, u16>, HashMap<String, u16>) {
-        let mut type_count: HashMap<String, u16> = HashMap::new();
-        let mut ele_inds: HashMap<String, u16> = HashMap::new();
+    pub fn get_min_element(&self) -> (String, HashMap<String, usize>, HashMap<String, usize>) {
+        let mut type_count: HashMap<String, usize> = HashMap::new();
+        let mut ele_inds: HashMap<String, usize> = HashMap::new();
         let temp_ele = self.species.clone();
 
         for (ele_ind, ele) in temp_ele.iter().enumerate() {
             *type_count.entry(ele.clone()).or_insert(0) += 1;
-            ele_inds.entry(ele.clone()).or_insert(ele_ind as u16);
+            ele_inds.entry(ele.clone()).or_insert(ele_ind);
         }
 
         // Sorting ensures determinism when getting min
-        let mut sorted_pairs: Vec<(String, u16)> = Vec::from_iter(type_count.clone().into_iter());
+        let mut sorted_pairs: Vec<(String, usize)> = Vec::from_iter(type_count.clone().into_iter());
 
         sorted_pairs.sort_by(|a, b| a.0.cmp(&b.0));
 
-- 
2.43.0

