From 48fd5dff0d54c58050cbf34ca9f90bf39b4493d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 01/19] fix: descendant_edges returns an error (instead of
 panicking) for the id one past the last Edge

---
 src/fem_domain/domain/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 5430879..bb4dcc2 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -579,7 +579,7 @@ impl Mesh {
         edge_id: usize,
         include_starting_edge: bool,
     ) -> Result<Vec<usize>, MeshAccessError> {
-        if edge_id > self.edges.len() {
+        if edge_id >= self.edges.len() {
             Err(MeshAccessError::EdgeDoesNotExist(edge_id))
         } else {
             let mut descendants = Vec::new();
-- 
2.43.0


From e1ee74fe5335611de3d88f30169bfa7592d292bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 02/19] fix: get_basis_spec returns an error (instead of
 panicking) for the id one past the last Elem

---
 src/fem_domain/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain.rs b/src/fem_domain/domain.rs
index e58196b..f7c1da6 100644
--- a/src/fem_domain/domain.rs
+++ b/src/fem_domain/domain.rs
@@ -181,7 +181,7 @@ impl Domain {
     /// * An `Err` if the `elem` does not have a [BasisSpec] at the given `address`
     ///
     pub fn get_basis_spec(&self, bs_address: BSAddress) -> Result<&BasisSpec, String> {
-        if bs_address.elem_id > self.mesh.elems.len() {
+        if bs_address.elem_id >= self.mesh.elems.len() {
             Err(format!(
                 "Elem {} does not exist; cannot retrieve BasisSpec!",
                 bs_address.elem_id
-- 
2.43.0


From 4ac39bb2f3e1e736d3d52d1f9f1b1b08eda25b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 03/19] fix: h-refinements that cannot be completed leave the
 Mesh unmodified

A refinement that would drop below the minimum edge length, or an extended
refinement with an invalid child index, used to fail (or panic) after the Mesh
had been partially modified. All checks are now made beforehand.
---
 src/fem_domain/domain/mesh.rs | 43 +++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index bb4dcc2..9db6094 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -847,6 +847,10 @@ impl Mesh {
     ) -> Result<(), HRefError> {
         let mut refinements_map: BTreeMap<usize, HRef> = BTreeMap::new();
         for (elem_id, h_ref) in refinements {
+            if let HRef::U(Some(2..)) | HRef::V(Some(2..)) = h_ref {
+                return Err(HRefError::BisectionIdxExceeded);
+            }
+
             match self.elem_is_h_refineable(elem_id) {
                 Ok(true) => {
                     refinements_map
@@ -859,6 +863,11 @@ impl Mesh {
             }
         }
 
+        // check that every refinement can be completed before anything in the Mesh is modified
+        for (elem_id, refinement) in refinements_map.iter() {
+            self.validate_h_refinement(*elem_id, *refinement)?;
+        }
+
         let mut refinement_extensions: Vec<(usize, HRef)> = Vec::new();
         let mut elem_id_tracker = self.elems.len();
         let mut node_id_tracker = IdTracker::new(self.nodes.len());
@@ -913,6 +922,40 @@ impl Mesh {
         Ok(())
     }
 
+    // Check that an h-refinement (including its extension) can be executed on an h-refineable Elem
+    fn validate_h_refinement(&self, elem_id: usize, refinement: HRef) -> Result<(), HRefError> {
+        let (bisected_edges, extended_edges): (&[usize], &[usize]) = match refinement {
+            HRef::T => (&[0, 1, 2, 3], &[]),
+            HRef::U(None) => (&[0, 1], &[]),
+            HRef::V(None) => (&[2, 3], &[]),
+            HRef::U(Some(_)) => (&[0, 1], &[2, 3]),
+            HRef::V(Some(_)) => (&[2, 3], &[0, 1]),
+        };
+
+        let half_length = |edge_idx: &usize| {
+            let edge_id = self.elems[elem_id].edges[*edge_idx];
+            (edge_id, self.edges[edge_id].length / 2.0)
+        };
+
+        for (edge_id, length) in bisected_edges.iter().chain(extended_edges).map(half_length) {
+            if length < MIN_EDGE_LENGTH {
+                return Err(HRefError::MinEdgeLength(edge_id));
+            }
+        }
+
+        // the child Elem targeted by an extension must also be h-refineable
+        if !extended_edges.is_empty()
+            && bisected_edges
+                .iter()
+                .map(half_length)
+                .any(|(_, length)| length <= MIN_EDGE_LENGTH)
+        {
+            return Err(HRefError::ElemNotRefineable(elem_id));
+        }
+
+        Ok(())
+    }
+
     fn execute_t_refinement(
         &mut self,
         mut new_elems: Vec<ElemUninit>,
-- 
2.43.0


From 2d404a330ffb32dfdcd4607f3b539a26c183b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 04/19] fix: adding an extended HRef to a basic one no longer
 drops the extension

U + U->V(i) was U while U->V(i) + U was U->V(i) (likewise for V).
---
 src/fem_domain/domain/mesh/h_refinement.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/h_refinement.rs b/src/fem_domain/domain/mesh/h_refinement.rs
index 867656b..ebec88e 100644
--- a/src/fem_domain/domain/mesh/h_refinement.rs
+++ b/src/fem_domain/domain/mesh/h_refinement.rs
@@ -161,14 +161,14 @@ impl AddAssign for HRef {
         match self {
             HRef::T => (),
             HRef::U(None) => match rhs {
+                HRef::U(_) => *self = rhs,
                 HRef::V(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
             },
             HRef::V(None) => match rhs {
+                HRef::V(_) => *self = rhs,
                 HRef::U(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
             },
             HRef::U(Some(idx)) => match rhs {
                 HRef::U(Some(r_idx)) => {
-- 
2.43.0


From b75cef2d3dad75de406de8476dc50a2dccdf75de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 05/19] fix: sums of large p-refinement deltas no longer
 overflow

For example 127 + 127 wrapped to -2 (and was then accepted by the window check),
longer sums and PRef::from(-128, _) overflowed a u8/i8.
---
 src/fem_domain/domain/mesh/p_refinement.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ed413b4..a332faf 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -96,8 +96,9 @@ impl From<PolyOrders> for JsonValue {
 // the internal p-refinement type
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum PRefInt {
-    Increment(u8),
-    Decrement(u8),
+    // wider than the deltas of a single p-refinement, S.T. the sum of several can be represented
+    Increment(u32),
+    Decrement(u32),
     None,
 }
 
@@ -105,17 +106,17 @@ impl PRefInt {
     fn refine(&self, n: u8) -> Result<u8, PRefError> {
         match self {
             Self::Increment(delta) => {
-                if n + *delta > MAX_POLYNOMIAL_ORDER {
+                if u32::from(n) + *delta > u32::from(MAX_POLYNOMIAL_ORDER) {
                     Err(PRefError::ExceededMaxExpansion)
                 } else {
-                    Ok(n + *delta)
+                    Ok(n + *delta as u8)
                 }
             }
             Self::Decrement(delta) => {
-                if *delta >= n {
+                if *delta >= u32::from(n) {
                     Err(PRefError::NegExpansion)
                 } else {
-                    Ok(n - *delta)
+                    Ok(n - *delta as u8)
                 }
             }
             Self::None => Ok(n),
@@ -125,17 +126,18 @@ impl PRefInt {
     pub const fn from_i8(delta: i8) -> Self {
         match delta {
             0 => PRefInt::None,
-            d if d > 0 => PRefInt::Increment(d as u8),
-            d if d < 0 => PRefInt::Decrement(-d as u8),
+            d if d > 0 => PRefInt::Increment(d as u32),
+            d if d < 0 => PRefInt::Decrement(d.unsigned_abs() as u32),
             _ => unreachable!(),
         }
     }
 
+    // saturates if the delta cannot be represented by an i8
     pub fn as_i8(&self) -> i8 {
         match self {
             Self::None => 0,
-            Self::Increment(delta) => *delta as i8,
-            Self::Decrement(delta) => -1 * (*delta as i8),
+            Self::Increment(delta) => i8::try_from(*delta).unwrap_or(i8::MAX),
+            Self::Decrement(delta) => i8::try_from(-i64::from(*delta)).unwrap_or(i8::MIN),
         }
     }
 
-- 
2.43.0


From 3f571038332233d0f410c9a3618e340e07722b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 06/19] fix: PolyOrders::refine leaves both orders unmodified
 if either direction is out of range

---
 src/fem_domain/domain/mesh/p_refinement.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index a332faf..8d2a928 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -18,8 +18,11 @@ impl PolyOrders {
     ///
     /// Return an `Err` if the refinement causes the expansion orders to fall outside of the valid range
     pub fn refine(&mut self, refinement: PRef) -> Result<(), PRefError> {
-        self.ni = refinement.refine_i(self.ni)?;
-        self.nj = refinement.refine_j(self.nj)?;
+        let ni = refinement.refine_i(self.ni)?;
+        let nj = refinement.refine_j(self.nj)?;
+
+        self.ni = ni;
+        self.nj = nj;
 
         Ok(())
     }
-- 
2.43.0


From 77cb27fe7b4e2c94b07045f976320d6c9a217f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 07/19] fix: connect the Elem of a unit Mesh to its Edges and
 Nodes

As for a Mesh loaded from a file; the exported adjacency lists were empty.
---
 src/fem_domain/domain/mesh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 9db6094..acc52ab 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -67,18 +67,25 @@ impl Mesh {
         let unit_element = Arc::new(Element::new(0, points.clone(), Materials::default()));
         let unit_elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], unit_element.clone());
 
-        let nodes: Vec<Node> = points
+        let mut nodes: Vec<Node> = points
             .iter()
             .enumerate()
             .map(|(n_id, p)| Node::new(n_id, *p, true))
             .collect();
-        let edges: Vec<Edge> = vec![
+        let mut edges: Vec<Edge> = vec![
             Edge::new(0, [&nodes[0], &nodes[1]], true),
             Edge::new(1, [&nodes[2], &nodes[3]], true),
             Edge::new(2, [&nodes[0], &nodes[2]], true),
             Edge::new(3, [&nodes[1], &nodes[3]], true),
         ];
 
+        for edge in edges.iter_mut() {
+            edge.connect_elem(&unit_elem);
+        }
+        for node in nodes.iter_mut() {
+            node.connect_elem(&unit_elem);
+        }
+
         Self {
             elements: vec![unit_element],
             elems: vec![unit_elem],
-- 
2.43.0


From 09963f527eaf8cb05ce9739dc2372895599e965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 08/19] fix: fields on grids with different densities in u and
 v

Values were indexed past the end (a panic), and the VTK cells would have
connected the wrong points.
---
 src/fem_domain/domain/fields.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index ba34790..7bf7f13 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -80,8 +80,8 @@ impl<'d> UniformFieldSpace<'d> {
             let [i_max, j_max] = self.domain.mesh.max_expansion_orders();
 
             for shell_elem in self.domain.mesh.elems.iter().filter(|e| !e.has_children()) {
-                let mut x_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
-                let mut y_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut x_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
+                let mut y_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
 
                 for anc_elem_id in self
                     .domain
@@ -201,15 +201,15 @@ impl<'d> UniformFieldSpace<'d> {
         for k in 0..num_shell_elems {
             for i in 0..(nx - 1) {
                 for j in 0..(ny - 1) {
-                    let initial_pt = nx * i + j + (nx * ny) * k;
+                    let initial_pt = ny * i + j + (nx * ny) * k;
 
                     writeln!(
                         writer,
                         "4\t{}\t{}\t{}\t{}",
                         initial_pt,
                         initial_pt + 1,
-                        initial_pt + nx + 1,
-                        initial_pt + nx,
+                        initial_pt + ny + 1,
+                        initial_pt + ny,
                     )?;
                 }
             }
@@ -323,7 +323,7 @@ impl<'d> UniformFieldSpace<'d> {
             for ((shell_elem_id, elem_values_a), elem_values_b) in
                 q_a.values.iter().zip(q_b.values.values())
             {
-                let mut result_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut result_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
                 for m in 0..self.densities[0] {
                     for n in 0..self.densities[1] {
                         result_values[m][n] = expression(elem_values_a[m][n], elem_values_b[m][n]);
-- 
2.43.0


From 1df22dc952394b039ea07e7faf0354206baab791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 09/19] fix: slepc_solve_gep removes its files and returns an
 error when the solution is unreadable

The matrix and solution files were left behind if a file could not be written or
read, and a corrupt solution file (or an unrelated file whose name is not UTF-8)
caused a panic.
---
 src/fem_problem/linalg/slepc_solve.rs | 31 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 24e8c8b..0484773 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -8,7 +8,7 @@ use std::time::SystemTime;
 use bytes::{Buf, BytesMut};
 use std::env::var_os;
 use std::fs::File;
-use std::io::Read;
+use std::io::{Error, ErrorKind, Read};
 use std::process::Command;
 
 pub fn slepc_solve_gep(
@@ -20,7 +20,11 @@ pub fn slepc_solve_gep(
         let prefix = unique_prefix();
 
         // Write the matrices to files
-        gep.print_to_petsc_binary_files(&dir, &prefix)?;
+        if let Err(write_error) = gep.print_to_petsc_binary_files(&dir, &prefix) {
+            // best effort; the directory itself may be the reason for the failure
+            let _ = clean_directory(&dir, &prefix);
+            return Err(Box::new(write_error));
+        }
 
         // Run the solver
         let esolve_exit_status = Command::new("mpiexec")
@@ -38,9 +42,9 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix)?;
+                    let solution = retrieve_solution(&dir, &prefix);
                     clean_directory(&dir, &prefix)?;
-                    Ok(solution)
+                    Ok(solution?)
                 } else {
                     clean_directory(&dir, &prefix)?;
 
@@ -116,12 +120,19 @@ fn retrieve_eigenvector(path: String) -> std::io::Result<Vec<f64>> {
     header_bytes.resize(8, 0);
     vec_file.read_exact(&mut header_bytes)?;
 
-    assert_eq!(header_bytes.get_i32(), 1211214_i32); // ensure this is a PETSC vector file
-    let m = header_bytes.get_i32() as usize;
+    // ensure this is a PETSC vector file
+    if header_bytes.get_i32() != 1211214_i32 {
+        return Err(Error::new(ErrorKind::InvalidData, "not a PETSC vector file"));
+    }
+    let m = usize::try_from(header_bytes.get_i32())
+        .map_err(|_| Error::new(ErrorKind::InvalidData, "negative vector length"))?;
 
-    let mut value_bytes = BytesMut::new();
-    value_bytes.resize(m * 8, 0);
-    vec_file.read_exact(&mut value_bytes)?;
+    let mut value_bytes = Vec::new();
+    vec_file.read_to_end(&mut value_bytes)?;
+    if value_bytes.len() / 8 < m {
+        return Err(Error::from(ErrorKind::UnexpectedEof));
+    }
+    let mut value_bytes = value_bytes.as_slice();
 
     let mut values = Vec::with_capacity(m);
     for _ in 0..m {
@@ -156,7 +167,7 @@ fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Re
     for file in std::fs::read_dir(&format!("{}/tmp/", dir.as_ref()))? {
         let file = file?;
         let file_name_os = file.file_name();
-        let file_name = String::from(file_name_os.to_str().unwrap());
+        let file_name = file_name_os.to_string_lossy();
 
         if file_name.contains(prefix.as_ref()) {
             std::fs::remove_file(file.path())?;
-- 
2.43.0


From 6f063c496318625e8b9ead00e6f7348aea47c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 10/19] fix: take Gauss-Legendre weights from the points,
 eigenvectors are wrong for n = 136

---
 src/fem_problem/integration/glq.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/fem_problem/integration/glq.rs b/src/fem_problem/integration/glq.rs
index 3e2a076..8ad097c 100644
--- a/src/fem_problem/integration/glq.rs
+++ b/src/fem_problem/integration/glq.rs
@@ -193,17 +193,17 @@ pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (Vec<f64>,
 
     let eigen_decomp = SymmetricEigen::new(polymat);
 
+    // The weights are evaluated from the points: the eigenvectors are not reliable enough for this
+    // (for n = 136, two of them converge to a mixture and the weights are off by 1e-4)
     let mut xw: Vec<(f64, f64)> = eigen_decomp
         .eigenvalues
         .iter()
-        .cloned()
-        .zip(
-            eigen_decomp
-                .eigenvectors
-                .row(0)
-                .iter()
-                .map(|weight| (*weight).powi(2) * 2.0),
-        )
+        .map(|x| {
+            let (p, dp) = legendre_with_derivative(n, *x);
+            let x = x - p / dp;
+            let (_, dp) = legendre_with_derivative(n, x);
+            (x, 2.0 / ((1.0 - x * x) * dp * dp))
+        })
         .collect();
 
     xw.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
@@ -221,6 +221,19 @@ pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (Vec<f64>,
     (points, weights)
 }
 
+/// The Legendre polynomial of degree `n` and its first derivative at some `x` in `(-1, 1)`
+fn legendre_with_derivative(n: usize, x: f64) -> (f64, f64) {
+    let (mut prev, mut curr) = (1.0, x);
+    for k in 1..n {
+        let k = k as f64;
+        let next = ((2.0 * k + 1.0) * x * curr - k * prev) / (k + 1.0);
+        prev = curr;
+        curr = next;
+    }
+
+    (curr, n as f64 * (x * curr - prev) / (x * x - 1.0))
+}
+
 /// Scale a set of Gauss-Legendre-Quadrature Integration points to fall within a specific range
 ///
 /// ```
-- 
2.43.0


From 7e372623d346b3940a83ec4f36a3c2aa8b42a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 11/19] fix: report write errors that only show when the PETSc
 file is flushed

---
 src/fem_problem/linalg/sparse_matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 7010745..e8cc59f 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -260,7 +260,8 @@ impl AIJMatrixBinary {
         }
         writer.write_all(a_buf.as_ref())?;
 
-        Ok(())
+        // errors while dropping a BufWriter are ignored
+        writer.flush()
     }
 }
 
-- 
2.43.0


From dc9b430e8cd521435bd395fe14ff55b2d71ce2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 12/19] fix: return an error instead of panicking when
 GEP_SOLVE_DIR is not valid unicode

---
 src/fem_problem/linalg/slepc_solve.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 0484773..0498bed 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -6,7 +6,7 @@ use std::hash::{Hash, Hasher};
 use std::time::SystemTime;
 
 use bytes::{Buf, BytesMut};
-use std::env::var_os;
+use std::env::var;
 use std::fs::File;
 use std::io::{Error, ErrorKind, Read};
 use std::process::Command;
@@ -15,8 +15,7 @@ pub fn slepc_solve_gep(
     gep: GEP,
     target_eigenvalue: f64,
 ) -> Result<EigenPair, Box<dyn std::error::Error>> {
-    if let Some(esolve_dir) = var_os("GEP_SOLVE_DIR") {
-        let dir = esolve_dir.to_str().unwrap();
+    if let Ok(dir) = var("GEP_SOLVE_DIR") {
         let prefix = unique_prefix();
 
         // Write the matrices to files
@@ -36,7 +35,7 @@ pub fn slepc_solve_gep(
             .arg(&format!("{:.10}", target_eigenvalue))
             .arg("-fp")
             .arg(&prefix)
-            .current_dir(dir)
+            .current_dir(&dir)
             .status();
 
         match esolve_exit_status {
-- 
2.43.0


From 36869e243424d1d09ae0e004f2e4ca8db5d4dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 13/19] fix: simultaneous slepc_solve_gep calls no longer share
 a file prefix

---
 src/fem_problem/linalg/slepc_solve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 0498bed..b9dccaf 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -10,6 +10,7 @@ use std::env::var;
 use std::fs::File;
 use std::io::{Error, ErrorKind, Read};
 use std::process::Command;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 pub fn slepc_solve_gep(
     gep: GEP,
@@ -154,12 +155,14 @@ fn retrieve_eigenvalue(path: String) -> std::io::Result<f64> {
 }
 
 fn unique_prefix() -> String {
-    let t_now = SystemTime::now()
-        .duration_since(SystemTime::UNIX_EPOCH)
-        .unwrap();
+    // the clock alone cannot tell apart calls that start in the same instant
+    static CALLS: AtomicUsize = AtomicUsize::new(0);
+
     let mut hasher = DefaultHasher::new();
-    t_now.hash(&mut hasher);
-    format!("p_{}", hasher.finish().to_string().split_at(8).0)
+    SystemTime::now().hash(&mut hasher);
+    std::process::id().hash(&mut hasher);
+    CALLS.fetch_add(1, Ordering::Relaxed).hash(&mut hasher);
+    format!("p_{:08}", hasher.finish() % 100_000_000)
 }
 
 fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<()> {
-- 
2.43.0


From 338887675697a582f3156f0f951c75e82d876cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 14/19] fix: write_to_petsc_binary_format wrote an ASCII header
 and no entries

---
 src/fem_problem/linalg/sparse_matrix.rs | 37 ++-----------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index e8cc59f..f0fb572 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -126,42 +126,9 @@ impl SparseMatrix {
             .map(|(coords, value)| ([coords[0] as usize, coords[1] as usize], *value))
     }
 
+    /// Write the full matrix (both triangles) to a PETSc binary file
     pub fn write_to_petsc_binary_format(&self, path: impl AsRef<str>) -> std::io::Result<()> {
-        let file = File::create(path.as_ref())?;
-        let mut writer = BufWriter::new(file);
-
-        let mut full_sparse: BTreeMap<[u32; 2], f64> = self
-            .entries
-            .iter()
-            .map(|([r, c], v)| ([*c, *r], *v))
-            .collect();
-        full_sparse.append(&mut self.entries.clone());
-
-        let nnz = full_sparse.len();
-        let mut i = Vec::with_capacity(nnz);
-        let mut j = Vec::with_capacity(nnz);
-        let mut v = Vec::with_capacity(nnz);
-
-        for ([r, c], value) in full_sparse {
-            i.push(r);
-            j.push(c);
-            v.push(value);
-        }
-        let nnz = v.len();
-
-        // Write the header
-        writer.write_all(
-            format!("1211216 {} {} {}\n", self.dimension, self.dimension, nnz).as_bytes(),
-        )?;
-        let mut row_nnz = vec![0; self.dimension];
-        for (coordinates, _) in self.iter_upper_tri() {
-            row_nnz[coordinates[0]] += 1;
-        }
-        for rnz in row_nnz.iter() {
-            writer.write_all(format!("{} ", rnz).as_bytes())?;
-        }
-
-        Ok(())
+        AIJMatrixBinary::from(self.clone()).print_to_petsc_binary_file(path)
     }
 }
 
-- 
2.43.0


From 03291be9e6abe896eaa35cc007cc90b6114ecef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 15/19] fix: max_uv_ratio never returned the vu_ratio

---
 src/fem_domain/basis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index 5bafc72..eca7277 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -334,7 +334,7 @@ impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
     /// Maximum of `uv_ratio` and `vu_ratio`
     pub fn max_uv_ratio(&self, [m, n]: [usize; 2]) -> f64 {
         let r0 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
-        let r1 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
+        let r1 = self.jac[m][n].v[1] / self.jac[m][n].u[0];
         std::cmp::max_by(r0, r1, |a, b| a.partial_cmp(b).unwrap())
     }
     /// The ratio of the du/dx to dv/dy at some point (m, n)
-- 
2.43.0


From 758b23b2bfd561136d652c1d5ee37d81e4dba7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 16/19] fix: M2D * M2D multiplied by the transpose of its right
 operand

---
 src/fem_domain/domain/mesh/space.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index b1cd26b..1194dee 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -167,6 +167,7 @@ impl Div<f64> for M2D {
 impl Mul<Self> for M2D {
     type Output = Self;
     fn mul(self, other: Self) -> Self {
+        let other = other.transpose();
         Self {
             u: V2D::from([self.u.dot_with(&other.u), self.u.dot_with(&other.v)]),
             v: V2D::from([self.v.dot_with(&other.u), self.v.dot_with(&other.v)]),
-- 
2.43.0


From b736654354d5ac041a98a9e1b89b92dc7b8d7c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 17/19] fix: points within the uniqueness accuracy of zero
 differed by its sign

---
 src/fem_domain/domain/mesh/space.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index 1194dee..25baf0d 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -354,7 +354,7 @@ impl FloatRep {
         let total_rounded = integer_part + fractional_rounded;
 
         Self {
-            sign: value.is_sign_positive(),
+            sign: value.is_sign_positive() || total_rounded == 0.0,
             bits: total_rounded.to_bits(),
         }
     }
-- 
2.43.0


From 5101528e998bdc8dec72b5503b0b4714aa9faa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 18/19] fix: VTK export answered Ok although the end of the
 file could not be written

---
 src/fem_domain/domain/fields.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index 7bf7f13..31faba4 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -230,6 +230,9 @@ impl<'d> UniformFieldSpace<'d> {
         }
         writeln!(writer)?;
 
+        // errors while dropping a BufWriter are ignored
+        writer.flush()?;
+
         Ok(())
     }
 
-- 
2.43.0


From c29f105299b11002e6f83d2c347be8bccfb7e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 19/19] fix: mesh export answered Ok although the end of the
 file could not be written

---
 src/fem_domain/domain/mesh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index acc52ab..81812bf 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -29,7 +29,7 @@ use std::cmp::Ordering;
 use std::collections::BTreeMap;
 use std::fmt;
 use std::fs::{read_to_string, File};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::Arc;
 
 /// Minimum Edge length in parametric space. h-Refinements will fail after edges are smaller than this value.
@@ -354,7 +354,8 @@ impl Mesh {
 
         mesh_object.write_pretty(&mut w, 4)?;
 
-        Ok(())
+        // errors while dropping a BufWriter are ignored
+        w.flush()
     }
 
     // ----------------------------------------------------------------------------------------------------
-- 
2.43.0

