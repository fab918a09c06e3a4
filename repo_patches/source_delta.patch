From f78e36215b146def8090cb7f5c907199a624ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 1/5] fix: compare polynomials regardless of leading zero
 coefficients

Subtracting equal leading terms leaves zero coefficients behind, so that
p - p did not compare equal to zero.
---
 src/algebra/polynomial.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 3498866..ad57b3b 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -12,11 +12,24 @@ let p = Polynomial::from_coefficients(vec![1, 2, 3]); // p(x) = 1 + 2*x + 3*x^2
 assert_eq!(p.eval(2), 1 + 2*2 + 3*4);
 ```
 */
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone)]
 pub struct Polynomial<T: Ring> {
     a: Vec<T>,
 }
 
+/// Polynomials are equal, if all their coefficients are equal.
+/// Leading zero coefficients don't matter.
+impl<T: Ring> PartialEq for Polynomial<T> {
+    fn eq(&self, other: &Self) -> bool {
+        let n = self.a.len().min(other.a.len());
+        self.a[..n] == other.a[..n]
+            && self.a[n..].iter().all(|x| *x == T::zero())
+            && other.a[n..].iter().all(|x| *x == T::zero())
+    }
+}
+
+impl<T: Ring + Eq> Eq for Polynomial<T> {}
+
 impl<T: Ring> Polynomial<T> {
     /// Creates a new `Polynomial` from a vector of coefficients.
     ///
-- 
2.43.0


From 9b611614653b9e72eefcc05b6ffb2d3f370c9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 2/5] fix: reject out of range column indices of dynamic
 matrices

An index like [[0, 5]] into a 2x3 matrix silently addressed an element of
a later row.
---
 src/linalg/dmatrix.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index ac88116..d59c4b3 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -527,6 +527,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(col < self.num_cols, "The column index is out of bounds.");
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -550,6 +551,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(col < self.num_cols, "The column index is out of bounds.");
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -653,6 +655,10 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
+        assert!(
+            row_and_col[1] < self.num_cols,
+            "The column index is out of bounds."
+        );
         &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
@@ -668,6 +674,10 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
+        assert!(
+            row_and_col[1] < self.num_cols,
+            "The column index is out of bounds."
+        );
         &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
-- 
2.43.0


From 0e9a5b60aaa03303d3bc550ad954ae16f53d7440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 3/5] fix: reject mismatching shapes in compound assignment

+= and -= of dynamic matrices and vectors silently ignored surplus
elements of the right hand side, or panicked half way through.
---
 src/linalg/dmatrix.rs | 4 ++++
 src/linalg/dvector.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index d59c4b3..9b579a6 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -723,6 +723,8 @@ where
     Rhs: MatrixExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
@@ -766,6 +768,8 @@ where
     Rhs: MatrixExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index b597c57..f580816 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -597,6 +597,7 @@ where
     Rhs: VectorExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] += rhs.entry(index);
         }
@@ -635,6 +636,7 @@ where
     Rhs: VectorExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] -= rhs.entry(index);
         }
-- 
2.43.0


From 2b85495bbaafe77fb15318078ffd5d9da774414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 4/5] fix: reject inner products of vectors of different
 lengths

The surplus elements of the longer vector were silently ignored.
---
 src/linalg/dvector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index f580816..cc10641 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -676,6 +676,7 @@ where
     type Output = T;
 
     fn mul(self, rhs: Self) -> T {
+        assert_eq!(self.0.len(), rhs.0.len());
         self.0
             .iter()
             .zip(rhs.0.iter())
-- 
2.43.0


From 4f55ef56f2526426f1c891d28a0f0a356d8be732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 5/5] fix: reject row indices whose flattened position wraps
 around

---
 src/linalg/dmatrix.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index 9b579a6..5e12192 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -527,6 +527,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(row < self.num_rows, "The row index is out of bounds.");
         assert!(col < self.num_cols, "The column index is out of bounds.");
         self.data[row * self.num_cols + col].clone()
     }
@@ -551,6 +552,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(row < self.num_rows, "The row index is out of bounds.");
         assert!(col < self.num_cols, "The column index is out of bounds.");
         self.data[row * self.num_cols + col].clone()
     }
@@ -655,6 +657,10 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
+        assert!(
+            row_and_col[0] < self.num_rows,
+            "The row index is out of bounds."
+        );
         assert!(
             row_and_col[1] < self.num_cols,
             "The column index is out of bounds."
@@ -674,6 +680,10 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
+        assert!(
+            row_and_col[0] < self.num_rows,
+            "The row index is out of bounds."
+        );
         assert!(
             row_and_col[1] < self.num_cols,
             "The column index is out of bounds."
-- 
2.43.0

