From 26352e2576c9925ac8ef72f66f5db3688bc88342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 01/38] fix: matrices own their entries: initialise, drop and
 release each exactly once

---
 alg/src/lin_alg/matrix_impl.rs | 172 +++++++--------------------------
 1 file changed, 36 insertions(+), 136 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a520155..e4aad59 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -3,7 +3,6 @@ use crate::matrix;
 
 use std::fmt::{Display, Debug};
 use std::{
-    alloc,
     marker::PhantomData,
     mem,
     ptr,
@@ -138,14 +137,7 @@ impl<T: PID> SubMatrix<T> {
     }
 
     pub fn as_matrix(&self) -> Matrix<T> {
-        let mut out = Matrix::new(self.size().0, self.size().1);
-        for i in 0..self.size().0 {
-            for j in 0..self.size().1 {
-                out.write( (i,j), self[(i, j)].clone() );
-            }
-        }
-
-        out
+        Matrix::from_fn(self.size().0, self.size().1, |i, j| self[(i, j)].clone())
     }
 
     pub fn swap_rows(&mut self, r1: usize, r2: usize) {
@@ -336,13 +328,9 @@ macro_rules! submatrix_add_sub_impl {
             fn $bin_op_fn(self, rhs: Self) -> Self::Output {
                 if self.size() != rhs.size() { panic!(); }
 
-                let mut out = Matrix::new(self.size().0, self.size().1);
-                for i in 0..self.size().0 {
-                    for j in 0..self.size().1 {
-                        out[(i,j)] = $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone());
-                    }
-                }
-                out
+                Matrix::from_fn(self.size().0, self.size().1, |i, j| 
+                    $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone())
+                )
             }
         }
     )*}
@@ -388,13 +376,7 @@ submatrix_add_sub_assign_impl!((AddAssign, add_assign) (SubAssign, sub_assign));
 impl<T: PID> ops::Mul for &SubMatrix<T> {
     type Output = Matrix<T>;
     fn mul(self, rhs: Self) -> Self::Output {
-        let mut prod = Matrix::new(self.size().0, rhs.size().1);
-        for i in 0..prod.size().0 {
-            for j in 0..prod.size().1 {
-                prod[(i, j)] = self[(i, ..)].dot(&rhs[(.., j)]);
-            }
-        };
-        prod
+        Matrix::from_fn(self.size().0, rhs.size().1, |i, j| self[(i, ..)].dot(&rhs[(.., j)]))
     }
 }
 
@@ -487,13 +469,7 @@ impl<T: Field> ops::Div<T> for Matrix<T> {
 impl<T: PID> ops::Mul<T> for &SubMatrix<T> {
     type Output = Matrix<T>;
     fn mul(self, rhs: T) -> Self::Output {
-        let mut out = Matrix::new(self.size().0, self.size().1);
-        for i in 0..out.size().0 {
-            for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() * rhs.clone();
-            }
-        };
-        out
+        Matrix::from_fn(self.size().0, self.size().1, |i, j| self[(i,j)].clone() * rhs.clone())
     }
 }
 
@@ -513,13 +489,7 @@ scalar_mul_impl!{ isize i8 i16 i32 i64 i128 crate::commutative::Rational f64 }
 impl<T: Field> ops::Div<T> for &SubMatrix<T> {
     type Output = Matrix<T>;
     fn div(self, rhs: T) -> Self::Output {
-        let mut out = Matrix::new(self.size().0, self.size().1);
-        for i in 0..out.size().0 {
-            for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() / rhs.clone();
-            }
-        };
-        out
+        Matrix::from_fn(self.size().0, self.size().1, |i, j| self[(i,j)].clone() / rhs.clone())
     }
 }
 
@@ -591,33 +561,24 @@ impl<T: PID> Matrix<T> {
         self.size
     }
 
-    fn new(n: usize, m: usize) -> Self {
-        let mut mat = Matrix {
-            ptr: ptr::NonNull::dangling(),
+    // Creates the matrix whose (i,j) entry is 'f(i, j)'. Every entry is initialized by the time the matrix exists,
+    // and if 'f' panics then the entries created so far are dropped.
+    fn from_fn(n: usize, m: usize, mut f: impl FnMut(usize, usize) -> T) -> Self {
+        let len = n.checked_mul(m).expect("Allocation too large");
+        let mut entries = Vec::with_capacity(len);
+        for i in 0..n {
+            for j in 0..m {
+                entries.push( f(i, j) );
+            }
+        }
+
+        let entries: Box<[T]> = entries.into_boxed_slice();
+        Matrix {
+            ptr: unsafe { ptr::NonNull::new_unchecked( Box::into_raw(entries) as *mut T ) },
             _marker: PhantomData,
             size: (n, m),
             offsets: (m, 1),
-        };
-        mat.alloc();
-        mat
-    }
-
-    fn alloc(&mut self) {
-        let layout = alloc::Layout::array::<T>(self.size().0 * self.size().1).unwrap();
-        
-        // Ensure that the new allocation doesn't exceed `isize::MAX` bytes.
-        assert!(
-            layout.size() <= isize::MAX as usize,
-            "Allocation too large"
-        );
-        
-        let new_ptr = unsafe { alloc::alloc(layout) };
-        
-        // If allocation fails, `new_ptr` will be null, in which case we abort.
-        self.ptr = match ptr::NonNull::new(new_ptr as *mut T) {
-            Some(p) => p,
-            None => alloc::handle_alloc_error(layout),
-        };
+        }
     }
 
     fn is_diagonal(&self) -> bool {
@@ -661,14 +622,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-        let mut out = Matrix::new(size.0, size.1);
-        for i in 0..size.0 {
-            for j in 0..size.1 {
-                out[(i, j)] = v[i][j].clone();
-            }
-        }
-
-        out
+        Matrix::from_fn(size.0, size.1, |i, j| v[i][j].clone())
     }
 
     pub fn transpose(mut self) -> Self {
@@ -678,10 +632,6 @@ impl<T: PID> Matrix<T> {
 
         self
     }
-
-    fn write(&mut self, (i,j): (usize, usize), val: T) {
-        unsafe{ std::ptr::write( self.ptr().add(i*self.offsets().0 + j*self.offsets().1 ), val); }
-    }
 }
 
 
@@ -691,18 +641,12 @@ impl<T> Matrix<T>
     where T: PID, Standard: Distribution<T>
 {
     pub fn random(n: usize, m: usize) -> Matrix<T> {
-        let mut out = Matrix::new(n ,m);
         let mut rng = rand::thread_rng();
-        for i in 0..out.size().0 {
-            for j in 0..out.size().1 {
-                out[(i,j)] = rng.gen();
-            }
-        }
-        out
+        Matrix::from_fn(n, m, |_, _| rng.gen())
     }
 
     pub fn random_symmetric(n: usize, m: usize) -> Matrix<T> {
-        let mut out = Matrix::new(n ,m);
+        let mut out = Matrix::zero(n ,m);
         let mut rng = rand::thread_rng();
         for i in 0..out.size().0 {
             for j in i..out.size().1 {
@@ -734,16 +678,9 @@ impl<T: PID> ops::DerefMut for Matrix<T> {
 
 impl<T: PID> Drop for Matrix<T> {
     fn drop(&mut self) {
-        let elem_size = mem::size_of::<T>();
-
-        if elem_size != 0 {
-            unsafe {
-                alloc::dealloc(
-                    self.ptr.as_ptr() as *mut u8,
-                    alloc::Layout::array::<T>(self.size().0 * self.size().1).unwrap(),
-                );
-            }
-        }
+        // drops the entries and frees the memory allocated in 'from_fn()'
+        let entries = ptr::slice_from_raw_parts_mut( self.ptr.as_ptr(), self.size().0 * self.size().1 );
+        drop( unsafe { Box::from_raw(entries) } );
     }
 }
 
@@ -799,13 +736,7 @@ macro_rules! vector {
 impl <T: PID> Matrix<T> {
     pub fn zero(n: usize, m: usize) -> Self {
         assert!(n>0 && m>0, "the size of the matrix must be a pair positive integers but size=({n}, {m}).");
-        let mut out = Matrix::new(n, m);
-        for i in 0..n {
-            for j in 0..m {
-                out.write((i,j), T::zero());
-            }
-        }
-        out
+        Matrix::from_fn(n, m, |_, _| T::zero())
     }
 
     pub fn identity(size: usize) -> Self {
@@ -1163,11 +1094,8 @@ impl Matrix<f64> {
     }
 
     pub fn random_unit_vec(n: usize) -> Matrix<f64> {
-        let mut out = Matrix::new(n ,1);
         let mut r = thread_rng();
-        for i in 0..n {
-            out[(i,0)] = r.gen_range(-1.0..1.0);
-        }
+        let out: Matrix<f64> = Matrix::from_fn(n, 1, |_, _| r.gen_range(-1.0..1.0));
         &*out / (&*out).two_norm()
     }
 
@@ -1355,12 +1283,7 @@ impl Matrix<f64> {
         }
 
         out.sort_by(|x, y| x.partial_cmp(y).unwrap());
-        let out = {
-            let mut a = Matrix::new(n,1);
-            (0..n).for_each( |i| a[(i,0)]=out[i] );
-            a
-        };
-        out
+        Matrix::from_fn(n, 1, |i, _| out[i])
     }
 
     pub fn spectrum_with_invariant_space(self) -> (Matrix<f64>, Matrix<f64>) {
@@ -1370,13 +1293,8 @@ impl Matrix<f64> {
         let n = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(n, n);
         let elem = 1.0 / (n as f64).sqrt();
-        for i in 0..n {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::from_fn(n, n, |_, _| elem);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum();
@@ -1422,12 +1340,7 @@ impl Matrix<f64> {
         }
 
         out.sort_by(|x, y| x.partial_cmp(y).unwrap());
-        let out = {
-            let mut a = Matrix::new(n,1);
-            (0..n).for_each( |i| a[(i,0)]=out[i] );
-            a
-        };
-        out
+        Matrix::from_fn(n, 1, |i, _| out[i])
     }
 
     pub fn spectrum_with_invariant_space_symmetric(self) -> (Matrix<f64>, Matrix<f64>) {
@@ -1437,13 +1350,8 @@ impl Matrix<f64> {
         let n = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(n, n);
         let elem = 1.0 / (n as f64).sqrt();
-        for i in 0..n {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::from_fn(n, n, |_, _| elem);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
@@ -1475,13 +1383,8 @@ impl Matrix<f64> {
         let size = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(size, n);
         let elem = 1.0 / (size as f64).sqrt();
-        for i in 0..size {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::from_fn(size, n, |_, _| elem);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
@@ -1513,11 +1416,8 @@ impl Matrix<f64> {
         let size = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(size, 1);
         let elem = 1.0 / (size as f64).sqrt();
-        for i in 0..size {
-            eigen_vectors[(i,0)] = elem;
-        }
+        let mut eigen_vectors = Matrix::<f64>::from_fn(size, 1, |_, _| elem);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
-- 
2.43.0


From f23ecda7cf868b9bdd28b03a0115196255e683f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 02/38] fix: compare a submatrix with a matrix instead of
 recursing forever

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index e4aad59..24e06d6 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -544,7 +544,7 @@ impl<T: PID> cmp::PartialEq for SubMatrix<T> {
 
 impl<T: PID> cmp::PartialEq<Matrix<T>> for SubMatrix<T> {
     fn eq(&self, rhs: &Matrix<T>) -> bool {
-        self == rhs
+        *self == **rhs
     }
 }
 
-- 
2.43.0


From 37b53a6bb97429f0f498f846bcca44f14c2ee334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 03/38] fix: refuse every ragged array given to
 Matrix::from_array

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 24e06d6..ea8901b 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -618,7 +618,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid. Matrix must have positive dimension!")
         }
         let size = (v.len(), v[0].len());
-        if v.iter().map(|x| x.len()).all(|len| len != size.1) {
+        if v.iter().map(|x| x.len()).any(|len| len != size.1) {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-- 
2.43.0


From 72f4fc714288dc33f48ffbd9f2ad1b4fa33116f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 04/38] fix: the slice behind a view ends at its last entry,
 and is empty for an empty view

---
 alg/src/lin_alg/matrix_impl.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index ea8901b..113c541 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -57,10 +57,20 @@ pub const fn submatrix_from_raw_parts_mut<T: ?Sized>(
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
 
+// The number of entries from the first one to the last one (inclusive) of a view of this shape
+#[inline]
+const fn slice_len(size: (usize, usize), offsets: (usize, usize)) -> usize {
+    if size.0 == 0 || size.1 == 0 {
+        0
+    } else {
+        (size.0 - 1) * offsets.0 + (size.1 - 1) * offsets.1 + 1
+    }
+}
+
 #[inline]
 pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = slice_len(size, offsets);
     let data_address = unsafe{ PtrRepr{const_ptr: m as *const SubMatrix<T>}.components.data_address};
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.const_ptr }
 }
@@ -68,7 +78,7 @@ pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
 #[inline]
 pub fn slice_from_sub_matrix_mut<T: PID>(m: &mut SubMatrix<T>) -> *mut [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = slice_len(size, offsets);
     let data_address = unsafe{ PtrRepr{ mut_ptr: m as *mut SubMatrix<T> }.components.data_address };
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
-- 
2.43.0


From 844fa24a577efefe5f02af1e9bfdeebdbf80e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 05/38] fix: refuse matrices whose dimensions do not fit in the
 encoding of a view

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 113c541..186cafa 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -574,6 +574,10 @@ impl<T: PID> Matrix<T> {
     // Creates the matrix whose (i,j) entry is 'f(i, j)'. Every entry is initialized by the time the matrix exists,
     // and if 'f' panics then the entries created so far are dropped.
     fn from_fn(n: usize, m: usize, mut f: impl FnMut(usize, usize) -> T) -> Self {
+        // 'compress' packs the size and the offsets of a matrix in one word
+        let max = !0 >> (usize::BITS / 4 * 3);
+        assert!(n <= max && m <= max, "the size of a matrix must be at most ({max}, {max}) but size=({n}, {m}).");
+
         let len = n.checked_mul(m).expect("Allocation too large");
         let mut entries = Vec::with_capacity(len);
         for i in 0..n {
-- 
2.43.0


From bd237d09ffeea697d1bbad546af9fd9ade632258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 06/38] fix: refuse to build a symmetric matrix that is not
 square

---
 alg/src/lin_alg/matrix_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 186cafa..411f863 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -660,6 +660,7 @@ impl<T> Matrix<T>
     }
 
     pub fn random_symmetric(n: usize, m: usize) -> Matrix<T> {
+        assert!(n == m, "a symmetric matrix must be square but size=({n}, {m}).");
         let mut out = Matrix::zero(n ,m);
         let mut rng = rand::thread_rng();
         for i in 0..out.size().0 {
-- 
2.43.0


From 795218a3dae6debaf961c325d4cdf836acf8b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 07/38] fix: random unit vectors and orthogonal matrices draw
 again when all draws are zero

---
 alg/src/lin_alg/matrix_impl.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 411f863..0fcb03c 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1096,7 +1096,13 @@ impl Matrix<f64> {
         let mut out = Matrix::zero(n ,n);
         for i in 0..n {
             let mut random = Matrix::random(n-i,1);
-            random /= random.two_norm();
+            let mut norm = random.two_norm();
+            while norm == 0.0 {
+                // a zero vector has no direction: draw again
+                random = Matrix::random(n-i,1);
+                norm = random.two_norm();
+            }
+            random /= norm;
             out[(i..,i)].write_and_move( random );
         }
         for i in (0..n-1).rev() {
@@ -1110,8 +1116,14 @@ impl Matrix<f64> {
 
     pub fn random_unit_vec(n: usize) -> Matrix<f64> {
         let mut r = thread_rng();
-        let out: Matrix<f64> = Matrix::from_fn(n, 1, |_, _| r.gen_range(-1.0..1.0));
-        &*out / (&*out).two_norm()
+        loop {
+            let out: Matrix<f64> = Matrix::from_fn(n, 1, |_, _| r.gen_range(-1.0..1.0));
+            let norm = (&*out).two_norm();
+            if norm > 0.0 {
+                // a zero vector has no direction: draw again
+                return &*out / norm;
+            }
+        }
     }
 
     pub fn random_sparse_symmetric(n: usize, m: usize) -> Matrix<f64> {
-- 
2.43.0


From f0dfcbb8de6825778bfddcb741e989367db4a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 08/38] fix: the edge iterator of a graph does not report the
 edge [0, 1] where there is none

---
 topo_spaces/src/graph.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 447cbcb..611bf0c 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1474,12 +1474,16 @@ impl<'a> Iterator for EdgeIter<'a> {
 #[allow(unused)]
 impl<'a> RawSimpleGraph {
     pub fn edge_iter(&'a self) -> EdgeIter<'a> {
-        let edge = (0, 1);
-        EdgeIter {
+        let mut iter = EdgeIter {
             graph: self,
-            curr: edge,
+            curr: (0, 1),
             is_done: self.n_vertices() < 2,
+        };
+        // the iteration starts at the first edge that exists
+        if !iter.is_done && !self.contains(0, 1) {
+            iter.next();
         }
+        iter
     }
 
     pub fn vertex_iter(&'a self) -> VertexIter<'a> {
-- 
2.43.0


From a0af1ed4c0b300c2f1dfc61341068c57cf0324d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 09/38] fix: the midpoint of an edge subdivided once lies
 halfway along it

---
 topo_spaces/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 611bf0c..8cb3e6a 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1147,11 +1147,11 @@ impl SimpleGraph {
 
                 for (k, edge) in graph.data[i][j].iter().enumerate() {
                     subdivided_graph.data.add_edge(i, subdivided_graph.n_vertices());
-                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_marked_points-1))));
+                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_mid_vertices+1))));
 
                     for l in 2..=n_mid_vertices {
                         subdivided_graph.data.add_edge(subdivided_graph.n_vertices()-1, subdivided_graph.n_vertices());
-                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_marked_points-1))));
+                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_mid_vertices+1))));
                     }
 
                     subdivided_graph.data.add_edge(j, subdivided_graph.n_vertices()-1);
-- 
2.43.0


From 81b14ae18dfbe9446058d0e17b3ed7f11b208304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 10/38] fix: repeated loops are not counted as repeated
 non-loop edges

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 8cb3e6a..d39b158 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -80,7 +80,7 @@ impl<T: PID> Graph<T> {
             data[v_idx][w_idx].push(Edge::new());
 
             // update some members
-            if data[v_idx][w_idx].len() > 1 {
+            if v_idx != w_idx && data[v_idx][w_idx].len() > 1 {
                 n_non_loop_edges_up_to_multiplicity -= 1;
             } 
             if v_idx == w_idx {
-- 
2.43.0


From 15ea1f60003609b0236182e09d6c27d264ae8f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 11/38] fix: the rows and columns of a sparse matrix without
 entries can be iterated

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 32 +++++++--------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 459edfa..cb2e909 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -94,13 +94,6 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
         m.rows.sort_by(|x, y| x.start_node_idx().cmp( &y.start_node_idx() ) );
         m.cols.sort_by(|x, y| x.start_node_idx().cmp( &y.start_node_idx() ) );
 
-
-        // if 'rows' and 'cols' are empty, then add some elements to 'rows' so that the iter() does not panic.
-        if m.rows.is_empty() {
-            m.rows.push(SparseNode::End);
-            m.cols.push(SparseNode::End);
-        }
-
         m
     }
 }
@@ -108,8 +101,7 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
 
 
 pub struct Iter<'a, T: PID> {
-    data: &'a SparseNode<T>,
-    is_done: bool,
+    data: Option<&'a SparseNode<T>>,
     dir: bool,
 }
 
@@ -119,13 +111,11 @@ impl<T: PID> SparseMatrix<T> {
         let row = self.rows.binary_search_by(|f| f.start_node_idx().cmp(&i) );
         match row {
             Ok(x) => Iter{
-                data: &self.rows[x].start_ref(),
-                is_done: false,
+                data: Some(self.rows[x].start_ref()),
                 dir: !self.transposed,
             },
             Err(_) => Iter{
-                data: &self.rows[0], // Recall that 'rows' is not empty.
-                is_done: true,
+                data: None,
                 dir: !self.transposed
             }
         }
@@ -135,13 +125,11 @@ impl<T: PID> SparseMatrix<T> {
         let col = self.cols.binary_search_by(|f| f.start_node_idx().cmp(&i) );
         match col {
             Ok(x) => Iter {
-                data: &self.cols[x].start_ref(),
-                is_done: false,
+                data: Some(self.cols[x].start_ref()),
                 dir: self.transposed,
             },
             Err(_) => Iter {
-                data: &self.rows[0], // Recall that 'rows' is not empty.
-                is_done: true,
+                data: None,
                 dir: self.transposed,
             }
         }
@@ -164,20 +152,16 @@ impl<T: PID> SparseMatrix<T> {
 impl<'a, T: PID> Iterator for Iter<'a, T> {
     type Item = (usize, &'a T);
     fn next(&mut self) -> Option<Self::Item> {
-        if self.is_done {
-            return None
-        }
-
-        match self.data {
+        match self.data? {
             SparseNode::Start(..) => panic!(),
             SparseNode::Entry(idx, val, r) => {
                 let r = if self.dir {&r.0} else {&r.1};
-                self.data = &*r;
+                self.data = Some(&**r);
                 let idx = if self.dir {idx.1} else {idx.0};
                 Some((idx, val))
             },
             SparseNode::End => {
-                self.is_done = true;
+                self.data = None;
                 return None;
             }
         }
-- 
2.43.0


From 4d3e4d605f0c1d857fbd48800a9e5fef74b7e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 12/38] fix: compare sparse matrices entry by entry instead of
 along every path between entries

---
 alg/src/lin_alg.rs                    |  2 +-
 alg/src/lin_alg/sparse_matrix_impl.rs | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ed91b16..87713c4 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -14,7 +14,7 @@ pub struct Matrix<T: PID> {
 
 pub struct SubMatrix<T: PID>([T]);
 
-#[derive(Clone, PartialEq, Debug)]
+#[derive(Clone, Debug)]
 pub struct SparseMatrix<T: PID> {
     rows: Vec<SparseNode<T>>,
     cols: Vec<SparseNode<T>>,
diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index cb2e909..eabc2a7 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -168,6 +168,27 @@ impl<'a, T: PID> Iterator for Iter<'a, T> {
     }
 }
 
+impl<T: PID> std::cmp::PartialEq for SparseMatrix<T> {
+    // Compares entry by entry. An entry that is absent is equal to an entry that is zero.
+    fn eq(&self, other: &Self) -> bool {
+        if self.size() != other.size() {
+            return false;
+        }
+
+        (0..self.size().0).all(|i| {
+            let mut lhs = self.row_iter(i).filter(|(_, val)| **val != T::zero());
+            let mut rhs = other.row_iter(i).filter(|(_, val)| **val != T::zero());
+            loop {
+                match (lhs.next(), rhs.next()) {
+                    (None, None) => return true,
+                    (Some((j, x)), Some((k, y))) if j == k && x == y => continue,
+                    _ => return false,
+                }
+            }
+        })
+    }
+}
+
 impl<T: PID> std::cmp::PartialEq<Matrix<T>> for SparseMatrix<T> {
     fn eq(&self, other: &Matrix<T>) -> bool {
         if self.size() != other.size() {
-- 
2.43.0


From ff0333dd3e17794879fe8ce7f0c787339d7b2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 13/38] fix: the debug text of a sparse matrix shows every
 entry once

---
 alg/src/lin_alg.rs                    | 4 ++--
 alg/src/lin_alg/sparse_matrix_impl.rs | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 87713c4..2bb264e 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -14,7 +14,7 @@ pub struct Matrix<T: PID> {
 
 pub struct SubMatrix<T: PID>([T]);
 
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub struct SparseMatrix<T: PID> {
     rows: Vec<SparseNode<T>>,
     cols: Vec<SparseNode<T>>,
@@ -22,7 +22,7 @@ pub struct SparseMatrix<T: PID> {
     transposed: bool,
 }
 
-#[derive(PartialEq, Clone, Debug)]
+#[derive(PartialEq, Clone)]
 enum SparseNode<T: PID> {
     Start(usize, Rc<SparseNode<T>>),
     End,
diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index eabc2a7..a4749dd 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -287,6 +287,15 @@ impl<T: PID, S: PID> std::ops::Mul<SparseMatrix<T>> for Matrix<S>
 }
 
 
+impl<T: PID + std::fmt::Debug> std::fmt::Debug for SparseMatrix<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        write!(f, "SparseMatrix {:?} ", self.size())?;
+        f.debug_map()
+            .entries((0..self.size().0).flat_map(|i| self.row_iter(i).map(move |(j, val)| ((i, j), val))))
+            .finish()
+    }
+}
+
 impl<T: PID + Display> Display for SparseMatrix<T> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         for i in 0..self.size().0 {
-- 
2.43.0


From df01de47ee5fa31b4cbd2863bb924a53942b51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 14/38] fix: long chains of a sparse matrix are dropped without
 recursion

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index a4749dd..3bf3057 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -100,6 +100,23 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
 
 
 
+impl<T: PID> Drop for SparseMatrix<T> {
+    // Takes the nodes apart one by one: the chains may be too long to be dropped recursively.
+    fn drop(&mut self) {
+        let mut nodes: Vec<_> = self.rows.drain(..)
+            .chain(self.cols.drain(..))
+            .map(|node| node.start_ptr())
+            .collect();
+        while let Some(node) = nodes.pop() {
+            if let Ok(SparseNode::Entry(_, _, (next_in_row, next_in_col))) = Rc::try_unwrap(node) {
+                nodes.push(next_in_row);
+                nodes.push(next_in_col);
+            }
+        }
+    }
+}
+
+
 pub struct Iter<'a, T: PID> {
     data: Option<&'a SparseNode<T>>,
     dir: bool,
-- 
2.43.0


From 0b364fabcafe925257c22776efeb1fe1c0aa7c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 15/38] fix: merging two sorted lists keeps the order when both
 have several items left

---
 alg/src/lin_alg.rs | 46 ++++++++++++----------------------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 2bb264e..9f54787 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -1,5 +1,6 @@
 use crate::commutative::{PID, Field};
 use std::cmp::Ordering;
+use std::iter::Peekable;
 use std::marker::PhantomData;
 use std::ptr::NonNull;
 use std::rc::Rc;
@@ -291,9 +292,8 @@ struct Merge <T, I, J, F>
         J: Iterator<Item = T>,
         F: Fn(&T, &T)->Ordering
 {
-    curr: Option<T>,
-    i: I,
-    j: J,
+    i: Peekable<I>,
+    j: Peekable<J>,
     f: F
 }
 
@@ -305,41 +305,19 @@ impl<T, I, J, F> Iterator for Merge<T, I, J, F>
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut self_curr = None;
-        std::mem::swap(&mut self_curr, &mut self.curr);
-        if let Some(mut curr) = self_curr {
-            if let Some(mut next) = self.i.next() {
-                if (self.f)(&curr, &next) == Ordering::Less {
-                    std::mem::swap( &mut next, &mut curr );
-                }
-                self.curr = Some(curr);
-                Some(next)
-            } else if let Some(next) = self.j.next() { 
-                self.curr = Some(next);
-                Some(curr)
-            } else {
-                self.curr = None;
-                Some(curr)
-            }
-        } else {
-            None
+        match (self.i.peek(), self.j.peek()) {
+            (Some(x), Some(y)) if (self.f)(x, y) == Ordering::Greater => self.j.next(),
+            (Some(_), _) => self.i.next(),
+            (None, _) => self.j.next(),
         }
     }
 }
 
-fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(mut i: I, mut j: J, f: F) -> impl Iterator<Item = T> {
-    if let Some(next) = j.next() {
-        Merge{
-            curr: Some(next), 
-            i, j, f
-        }
-    } else {
-        Merge{
-            curr: i.next(),
-            i,
-            j,
-            f,
-        }
+fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(i: I, j: J, f: F) -> impl Iterator<Item = T> {
+    Merge {
+        i: i.peekable(),
+        j: j.peekable(),
+        f,
     }
 }
 
-- 
2.43.0


From 836895007e01d9dc46198b3c670a14d868416dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 16/38] fix: a formal sum made from a list with repeated basis
 elements adds up their coefficients

---
 alg/src/lin_alg.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 9f54787..f1e5485 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -187,19 +187,32 @@ impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> Vector<Coeff, Basis> {
     pub fn remove(&mut self, i: usize) -> (Coeff, Basis) {
         self.0.remove(i)
     }
+
+    // The sum of the given basis elements, where equal elements are next to each other.
+    fn from_sorted<I: IntoIterator<Item = Basis>>(summands: I) -> Self {
+        let mut out: Vec<(Coeff, Basis)> = Vec::new();
+        for basis in summands {
+            match out.last_mut() {
+                Some((coeff, last)) if *last == basis => *coeff += Coeff::one(),
+                _ => out.push((Coeff::one(), basis)),
+            }
+        }
+        out.retain(|(coeff, _)| *coeff != Coeff::zero());
+        Vector(out)
+    }
 }
 
 impl<const N: usize, Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<[Basis; N]> for Vector<Coeff, Basis> {
     fn from(mut summands: [Basis; N]) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        Vector::from_sorted(summands)
     }
 }
 
 impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<Vec<Basis>> for Vector<Coeff, Basis> {
     fn from(mut summands: Vec<Basis>) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        Vector::from_sorted(summands)
     }
 }
 
-- 
2.43.0


From 58989bff069e73dd086cc2f7cc26e62083c38a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 17/38] fix: compare and join simplicial cells of different
 lengths

Cells created before the complex grew past a multiple of 64 vertices have
fewer words. Words beyond the shorter cell were ignored, so an edge between
vertex 0 and vertex 64 counted as contained in vertex 0 and was dropped.
---
 topo_spaces/src/simplicial/mod_impl.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d099d4f..b8b0dd2 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -51,16 +51,15 @@ impl SimplicialCell {
     }
 
     pub fn join(&mut self, cell: &SimplicialCell) {
-        self.vertices = self.vertices
-            .iter()
-            .zip(cell.vertices.iter()).map(|(&x, &y)| x | y)
-            .collect();
-            
         if cell.vertices.len() > self.vertices.len() { 
-            (self.vertices.len()..cell.vertices.len()).
-                for_each(|i| self.vertices.push(cell.vertices[i]));
+            self.vertices.resize(cell.vertices.len(), 0);
         }
 
+        self.vertices
+            .iter_mut()
+            .zip(cell.vertices.iter())
+            .for_each(|(x, &y)| *x |= y);
+
         self.dim = SimplicialCell::dim(&self.vertices);
     }
 
@@ -109,6 +108,8 @@ impl SimplicialCell {
 
     pub fn contains(&self, cell: &SimplicialCell) -> bool {
         self.vertices.iter().zip(cell.vertices.iter()).all(|(&x, &y)| x | y == x)
+            // words that "self" does not have are empty
+            && cell.vertices.iter().skip(self.vertices.len()).all(|&y| y == 0)
     }
 
     pub fn get_face(&self) -> Vec<SimplicialCell> {
@@ -347,7 +348,11 @@ impl PartialEq for SimplicialCell {
         if self.vertices.len() == rhs.vertices.len() {
             return self.vertices == rhs.vertices
         } else {
-            self.vertices.iter().zip(rhs.vertices.iter()).all(|(&x, &y)| x==y)
+            // words that are missing are empty
+            let n_common = std::cmp::min(self.vertices.len(), rhs.vertices.len());
+            self.vertices[..n_common] == rhs.vertices[..n_common]
+                && self.vertices[n_common..].iter().all(|&x| x==0)
+                && rhs.vertices[n_common..].iter().all(|&x| x==0)
         }
     }
 }
-- 
2.43.0


From 374a6b5db5c31eda760370ca939bcdbd556c4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 18/38] fix: SimplicialCplx::attach leaves the complex alone
 when it fails

A malformed simplex, or a label that panics when compared or cloned, left
vertices (or only the vertex count) behind.
---
 topo_spaces/src/simplicial/mod_impl.rs | 37 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index b8b0dd2..bfa375f 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -187,25 +187,32 @@ impl<T: VertexLabel> SimplicialCplx<T>
     }
 
     pub fn attach(&mut self, simplex: Simplex<T>){
-        // add vertices to the complex if necessary
-        for v_label in simplex.vertices_labels.iter() {
-            if !self.vertices_labeling.contains(&v_label) {
-                self.size += 1;
-                self.vertices_labeling.push(v_label.clone());
-                self.maximal_cells.push(SimplicialCell::new(self.size, vec![self.size-1]));
-            }
-        }
-
-        // build the ordered simplex using Simplex data
-        let mut new_cell = SimplicialCell::new( self.size, 
-            simplex
+        // find the vertices of the simplex that are not in the complex yet
+        let mut new_labels: Vec<T> = Vec::new();
+        let raw_vertices: Vec<usize> = simplex
             .vertices_labels
             .into_iter()
             .map( |label1| {
-                self.vertices_labeling.iter().position(|label2|label1 == *label2).unwrap()
+                match self.vertices_labeling.iter().chain(new_labels.iter()).position(|label2|label1 == *label2) {
+                    Some(i) => i,
+                    None => {
+                        new_labels.push(label1);
+                        self.size + new_labels.len() - 1
+                    },
+                }
             })
-            .collect()
-        );
+            .collect();
+
+        // build the ordered simplex using Simplex data
+        // this panics if the simplex is malformed, hence the complex is not modified before this
+        let mut new_cell = SimplicialCell::new( self.size + new_labels.len(), raw_vertices );
+
+        // add vertices to the complex if necessary
+        for v_label in new_labels {
+            self.size += 1;
+            self.vertices_labeling.push(v_label);
+            self.maximal_cells.push(SimplicialCell::new(self.size, vec![self.size-1]));
+        }
 
         // if the new simplex is contained in the complex then do nothing
         if self.maximal_cells.iter()
-- 
2.43.0


From 28cf9c0c92009c98634ebb3ae8d099b7b2824ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 19/38] fix: SimplicialCplx::new_from_zero_skeleton with three
 or more vertices

The third vertex was out of range of the size given to its cell.
---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index bfa375f..43b3bff 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -165,7 +165,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             size: vertices_labels.len(),
             maximal_cells: 
                 (0..vertices_labels.len())
-                .map(|x| SimplicialCell::new(1, vec![x]))
+                .map(|x| SimplicialCell::new(x+1, vec![x]))
                 .collect(),
             vertices_labeling: vertices_labels,
         }
-- 
2.43.0


From cce2d91e38a784a9a43e6fa7d2386634eac3ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 20/38] fix: SimplicialCplx::is_connected does not print

The debug output made the query panic when standard output was closed.
---
 topo_spaces/src/simplicial/mod_impl.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 43b3bff..6c8d252 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -254,7 +254,6 @@ impl<T: VertexLabel> SimplicialCplx<T>
             let cells_connected_to_join: Vec<_> = self.maximal_cells.iter()
                 .filter(|&cell| cell.is_connected_with(&join))
                 .collect();
-            println!("cells_connected_to_join.len(): {}", cells_connected_to_join.len());
             cells_connected_to_join.iter().for_each(|cell| { join.join(cell); });
 
             // if the join eventually gets the join of all points, then the complex is connected
-- 
2.43.0


From d2be2ea342c8e2f5b5c395f049d7b526beef64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 21/38] fix: elementary divisors of homology modules are
 positive

The Smith normal form may have negative entries, which showed up as torsion
modules Z_-1 (not recognised as zero) and Z_-2.
---
 topo_spaces/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/lib.rs b/topo_spaces/src/lib.rs
index ab5e315..3dafa66 100644
--- a/topo_spaces/src/lib.rs
+++ b/topo_spaces/src/lib.rs
@@ -89,15 +89,16 @@ impl<T: Complex> IntegralHomology<T>
                 // update the variables for the computation of the lower homology
                 elem_divisors_of_higher_map = Vec::new();
                 (0..rank_of_lower_map).for_each(|i| {
-                    let divisor = boundary_map[( i,i )];
+                    // diagonal entries are determined up to sign only
+                    let divisor = boundary_map[( i,i )].abs();
                     if let Some((div, mul)) = elem_divisors_of_higher_map.last_mut()  {
                         if *div == divisor {
                             *mul+=1;
                         } else {
-                            elem_divisors_of_higher_map.push((boundary_map[( i,i )], 1)); 
+                            elem_divisors_of_higher_map.push((divisor, 1)); 
                         }
                     } else {
-                        elem_divisors_of_higher_map.push((boundary_map[( i,i )], 1)); 
+                        elem_divisors_of_higher_map.push((divisor, 1)); 
                     }
                 });
                 rank_of_higher_map = rank_of_lower_map;
-- 
2.43.0


From be6c962dec1e0313bbd32bcaeded755ee7b2a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 22/38] fix: H! accepts the dimension after max_dim=

---
 topo_spaces/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/lib.rs b/topo_spaces/src/lib.rs
index 3dafa66..ab0d6fb 100644
--- a/topo_spaces/src/lib.rs
+++ b/topo_spaces/src/lib.rs
@@ -187,8 +187,8 @@ macro_rules! H {
     ($complex:expr) => {
         IntegralHomology::new(&$complex, None)
     };
-    ($complex:expr, max_dim=) => {
-        IntegralHomology::new(&$complex, Some(max_dim))
+    ($complex:expr, max_dim=$max_dim:expr) => {
+        IntegralHomology::new(&$complex, Some($max_dim))
     };
 }
 
-- 
2.43.0


From 52191dd6632b282f8e6e78601a01577cb3ac2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 23/38] fix: rank_as_linear_map looks for pivots in the next
 row and column too

The search started two places after the diagonal, so the rank came out too
small, and rational Betti numbers too large.
---
 alg/src/lin_alg/matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 0fcb03c..f6f19ff 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1027,14 +1027,14 @@ impl <T:Field+Copy> Matrix<T> {
         let mut skipped = 0;
         for k in 0..shorter_side {
             if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
+                let result = (k+1..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
                 match result {
                     Some(j) => clone.col_operation(k, j, T::one()),
                     None => (),
                 }
             }
             if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
+                let result = (k+1..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
                 match result {
                     Some(i) => clone.row_operation(k, i, T::one()),
                     None => {
-- 
2.43.0


From f92aca916aa75da181dd2df21401705742a96a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 24/38] fix: cubes with overlapping factors are comparable

---
 topo_spaces/src/cubical.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index f2bfbad..26919c6 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -433,9 +433,28 @@ enum MorseProp {
 }
 
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Cube (Vec<CubeFactor>);
 
+// The order of factors is partial (factors that overlap are not comparable), but cubes have to be
+// comparable in any case in order to be the basis of a formal sum. Hence factors are compared by
+// their numbering, which agrees with the order of factors where it is defined, and then by kind.
+impl Ord for Cube {
+    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
+        for (f, g) in self.0.iter().zip(other.0.iter()) {
+            let ordering = f.get_order().cmp(&g.get_order()).then_with(|| f.cmp(g));
+            if ordering.is_ne() { return ordering; }
+        }
+        self.0.len().cmp(&other.0.len())
+    }
+}
+
+impl PartialOrd for Cube {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 formal_sum_impl!{ Cube }
 
 impl std::ops::Deref for Cube {
-- 
2.43.0


From 28ade0f73a2d617d943584201b23e435763ce85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 25/38] fix: boundary maps of a cubical complex come with their
 bases

---
 topo_spaces/src/cubical.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 26919c6..3e2b32c 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -330,13 +330,14 @@ mod cubical_cells {
 impl Complex for CubicalCplx {
     type Cell = Cube;
     fn boundary_map (&self) -> Vec< (Matrix<i64>, Vec<Self::Cell>) > {
-        let basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
+        let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
 
         let mut numbering = vec![0; self.data.len()];
         let mut counter = vec![0; self.dim+1];
         self.final_branch_indeces.iter().for_each(|&idx| {
             numbering[idx] = counter[self.dim_of(idx)];
             counter[self.dim_of(idx)] += 1;
+            basis[self.dim_of(idx)].push( Cube::from(self.get_cell_from_idx(idx).unwrap()) );
         });
 
         // instantiating the boundary maps
-- 
2.43.0


From e38a57892f63f404ed87e3275fdc8de447fd7815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 26/38] fix: the Morse complex consists of exactly the critical
 cells

An edge is order-respecting unless a vertex of the cell that flows to its
terminal vertex comes before its initial vertex; any vertex in between counted.
The smallest of the unblocked vertices and the initial vertices of the
order-respecting edges decides whether a cell is redundant or collapsible.
The vertex after a leaf of the tree was taken to be blocked by it, and with one
marked point the edges of the tree were taken to be critical.
---
 topo_spaces/src/cubical.rs | 39 ++++++++++++++++++++++++++------------
 topo_spaces/src/graph.rs   |  6 ++++++
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 3e2b32c..982c822 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -548,13 +548,14 @@ impl Cube {
     }
 
     fn property(&self, graph: &RawSimpleGraph) -> MorseProp {
+        // look for the smallest one among the unblocked vertices and the initial vertices of the order-respecting edges.
         let f = self.0.iter()
             .enumerate()
             .filter(|&(_, &f)| 
                 ( f.is_vertex() && !f.is_blocked(&self, graph) ) || 
-                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f)) ))
+                ( f.is_edge() && f.is_in_maximal_tree(graph) && !f.disrespects_any_of(&self.0, graph) )
             )
-            .next();
+            .min_by_key(|&(_, &f)| if f.is_vertex() { f.vertex() } else { f.initial().vertex() } );
         match f {
             Some((i, factor)) => if factor.is_vertex() { MorseProp::Redundant(i) } else { MorseProp::Collapsible(i) },
             None => MorseProp::Critical,
@@ -820,17 +821,17 @@ impl UdnMorseCplx {
         // println!("possible_factors: {}", possible_factors);
 
         // possible factors are provided by upstairs, so just collect them and make new_branches
-        let new_branches = if self.data.len()==0 {
+        let mut new_branches = if self.data.len()==0 {
             // if 'self.data.len()' is zero, then this is the initial call of this function
             possible_factors.iter().map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
         } else {
             // if this is not the initial call, then we need to take care of the upper bound and lower bound when collecting factors
             let unpaid_edges = {
-                let vertices:Vec<_> = self.factor_iter(branch_idx).filter(|&factor| factor.is_vertex() ).collect();
+                let factors: Vec<_> = self.factor_iter(branch_idx).collect();
                 self.factor_iter(branch_idx)
                     .filter(|&factor| factor.is_edge() ) // look only at the edges in the cell
                     .filter(|&factor| factor.is_in_maximal_tree(&self.factor_pool) )
-                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
+                    .filter(|&factor| !factor.disrespects_any_of(&factors, &self.factor_pool) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
                     .collect::<Vec<_>>()
             };
             let upper_bound = {
@@ -878,11 +879,6 @@ impl UdnMorseCplx {
                 new_branches.retain(|b| (**b).is_vertex() );
             }
 
-            // Similarly if the 'n_rem_factors' is 1, then we cannot add a non-order-respecting edge that is in the maximal tree anymore.
-            if n_rem_factors == 1 {
-                new_branches.retain(|b| (**b).is_vertex() || !(**b).is_in_maximal_tree(&self.factor_pool) );
-            }
-
             // Finally, if the dimention of the cell is already the upper dim, then we cannot add edges. Hence, we will remove them.
             if self.dim_of(branch_idx) == upper_dim {
                 new_branches.retain(|b| (**b).is_vertex() );
@@ -890,6 +886,19 @@ impl UdnMorseCplx {
             
             new_branches
         };
+
+        // if the 'n_rem_factors' is 1, then the cell is complete, so every edge in the maximal tree has to be paid back by now.
+        if n_rem_factors == 1 {
+            let prev_factors: Vec<_> = if self.data.is_empty() { Vec::new() } else { self.factor_iter(branch_idx).collect() };
+            new_branches.retain(|b| {
+                let mut factors = prev_factors.clone();
+                factors.push(b.val);
+                factors.iter()
+                    .filter(|factor| factor.is_edge() && factor.is_in_maximal_tree(&self.factor_pool) )
+                    .all(|factor| factor.disrespects_any_of(&factors, &self.factor_pool) )
+            });
+        }
+
         let new_branch_indeces: Vec<_> = (0..new_branches.len()).map( |i| i+self.data.len()).collect();
         if new_branch_indeces.is_empty() { return possible_factors; }
 
@@ -923,8 +932,11 @@ impl UdnMorseCplx {
 
             // modify 'possible_factors' for the factors downstairs.
             if curr_factor.is_vertex() { 
+                // add the next vertex if it is blocked by this vertex (it is not if this vertex is an end of the tree)
                 let new_vertex = curr_factor.vertex()+1;
-                if new_vertex < self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex( curr_factor.vertex()+1 ) ); }
+                if new_vertex < self.factor_pool.n_vertices() && CubeFactor::Vertex(new_vertex).flow(&self.factor_pool).terminal() == curr_factor {
+                    factors_added.push( CubeFactor::Vertex(new_vertex) );
+                }
             } else if curr_factor.is_in_maximal_tree(&self.factor_pool) {
                 // Coming here means that 'curr_factor' is an edge in the maximal tree.
                 let [_, j] = curr_factor.edge(); // get two ends of the edge
@@ -934,7 +946,10 @@ impl UdnMorseCplx {
                     .filter(|&v| v > curr_factor.terminal())
                     .filter(|&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
                     .for_each(|factor| factors_added.push(factor) ); 
-                if j+1<self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex(j+1) )}; // add a vertex blocked by the initial vertex of the edge
+                // add a vertex blocked by the initial vertex of the edge
+                if j+1 < self.factor_pool.n_vertices() && CubeFactor::Vertex(j+1).flow(&self.factor_pool).terminal() == curr_factor.initial() {
+                    factors_added.push( CubeFactor::Vertex(j+1) );
+                }
             } else {
                 // Coming here means that 'curr_factor' is an edge not in the maximal tree.
                 let [_, j] = curr_factor.edge(); // get two ends of the edge
diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index d39b158..5d9d83d 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1367,6 +1367,12 @@ impl CubeFactor {
         i<k && k<j
     }
 
+    // This function returns true if 'self', which must be an edge, jumps ahead of some vertex in 'factors', that is,
+    // if that vertex flows to the terminal vertex of 'self' but comes before its initial vertex.
+    pub fn disrespects_any_of(self, factors: &[CubeFactor], graph: &RawSimpleGraph) -> bool {
+        factors.iter().any(|&f| f.is_vertex() && f.is_disrespected_by(self) && f.flow(graph).terminal() == self.terminal() )
+    }
+
     pub fn is_blocked(self, factors: &[CubeFactor], graph: &RawSimpleGraph) -> bool {
         if let CubeFactor::Vertex(v) = self {
             // if this is the basepoint of the tree, then this is trivially blocked.
-- 
2.43.0


From f4cb99ea32f49b72c66078f3d1a7b9d926e391ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 27/38] fix: Permutation::swap of an empty or a preceding
 adjacent range

An empty range fell through to a permutation without cycles, and two adjacent
ranges given in decreasing order were not exchanged before being swapped.
---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f45bf0b..c0e2598 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -196,13 +196,13 @@ impl Permutation {
 
     pub fn swap(r1: std::ops::Range<usize>, r2: std::ops::Range<usize>) -> Self {
         // trivial cases:
-        if r1.is_empty() || r2.is_empty() { Self::identity(); }
+        if r1.is_empty() || r2.is_empty() { return Self::identity(); }
 
         // Two input ranges must be disjoint
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
 
         // Now r1.end <= r2.start || r2.end <= r1.start, i.e. two ranges are disjoint
-        if r2.end < r1.start { return Self::swap(r2, r1) };
+        if r2.end <= r1.start { return Self::swap(r2, r1) };
 
         // Now r1.end <= r2.start
         let r1_size = r1.end - r1.start;
-- 
2.43.0


From 4c4abbe56a16e2c20a44999b0bd36e532d066f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 28/38] fix: neighbours of a vertex are found without recursion

The iterator called itself once per vertex that is no neighbour, overflowing the stack on large sparse graphs.
---
 topo_spaces/src/graph.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 5d9d83d..13eadfd 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -450,26 +450,22 @@ impl<'a> Iterator for AdjacentVerticesIter<'a> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.curr >= self.raw_graph.n_vertices() { return None; }
+        while self.curr < self.raw_graph.n_vertices() {
+            let curr = self.curr;
+            self.curr += 1;
 
-        let mut out = None;
-
-        if self.vertex < self.curr {
-            if self.raw_graph.data.contains(RawSimpleGraph::raw_idx(self.vertex, self.curr)) {
-                out = Some(self.curr);
-            }
-        } else if self.vertex > self.curr {
-            if self.raw_graph.data.contains(RawSimpleGraph::raw_idx(self.curr, self.vertex)) {
-                out = Some(self.curr);
+            if self.vertex < curr {
+                if self.raw_graph.data.contains(RawSimpleGraph::raw_idx(self.vertex, curr)) {
+                    return Some(curr);
+                }
+            } else if self.vertex > curr {
+                if self.raw_graph.data.contains(RawSimpleGraph::raw_idx(curr, self.vertex)) {
+                    return Some(curr);
+                }
             }
         }
 
-        self.curr += 1;
-        if out == None {
-           self.next()
-        } else {
-            out
-        }
+        None
     }
 }
 
-- 
2.43.0


From e73aa91c0c86a34073b99a1ac0633d66548d2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 29/38] fix: tuple_iter(0) yields the empty tuple once instead
 of underflowing

---
 util/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/src/lib.rs b/util/src/lib.rs
index 92691c5..10ac93d 100644
--- a/util/src/lib.rs
+++ b/util/src/lib.rs
@@ -384,7 +384,7 @@ impl<'a, T> TupleIterator<'a, T> {
         TupleIterator{
             data: data,
             indeces: indeces,
-            curr_idx: size-1,
+            curr_idx: size.saturating_sub(1),
             is_done: is_done,
         }
     }
@@ -416,6 +416,12 @@ impl<'a, T: std::fmt::Debug> Iterator for TupleIterator<'a, T> {
             Some(self.indeces.iter().map(|&idx| &self.data[idx]).collect())
         };
 
+        // the empty tuple is the only one of size 0
+        if self.indeces.is_empty() {
+            self.is_done = true;
+            return out;
+        }
+
         if self.is_blocked() {
             while self.curr_idx > 0 && self.indeces[self.curr_idx]-self.indeces[self.curr_idx-1]==1 {
                 self.curr_idx-=1;
-- 
2.43.0


From bece103f68b6eba52ccc627ef0e41bc19e541bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 30/38] fix: rendering the cube without factors no longer
 panics

---
 topo_spaces/src/cubical.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 982c822..29917b7 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -592,7 +592,8 @@ impl Cube {
 impl std::fmt::Display for Cube {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut iter = self.iter();
-        write!(f, "{{{}", iter.next().unwrap())?;
+        write!(f, "{{")?;
+        if let Some(factor) = iter.next() { write!(f, "{}", factor)?; }
         while let Some(factor) = iter.next() {
             write!(f, ", {}", factor)?;
         }
-- 
2.43.0


From 5aea4458e32b12c6f4264ba35301550640c16131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 31/38] fix: random_unit_vec(0) is refused instead of drawing
 for ever

---
 alg/src/lin_alg/matrix_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index f6f19ff..c5e68f9 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1115,6 +1115,7 @@ impl Matrix<f64> {
     }
 
     pub fn random_unit_vec(n: usize) -> Matrix<f64> {
+        assert!(n > 0, "there is no unit vector without entries.");
         let mut r = thread_rng();
         loop {
             let out: Matrix<f64> = Matrix::from_fn(n, 1, |_, _| r.gen_range(-1.0..1.0));
-- 
2.43.0


From 5511752678ac250a0590b2622cbb8915c78e7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 32/38] fix: comparing two zero rationals divided by zero

---
 alg/src/commutative/rational_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 66fd8a7..4b93a43 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -66,6 +66,10 @@ impl Rational {
 
 impl Ord for Rational {
     fn cmp(&self, rhs: &Self) -> Ordering {
+        if self.numerator == 0 && rhs.numerator == 0 {
+            return Ordering::Equal;
+        }
+
         let gcd_of_n = gcd(self.numerator, rhs.numerator);
         let gcd_of_d = gcd(self.denominator, rhs.denominator);
         let a = (self.numerator/gcd_of_n) * (rhs.denominator/gcd_of_d);
-- 
2.43.0


From 0ae84f2d1e84ced62f659f5d5932e1e923452dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 33/38] fix: the negative of the rational 0 was not equal to 0

---
 alg/src/commutative/rational_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 4b93a43..7d76b32 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -183,7 +183,9 @@ op_assign_impl!( Rational, DivAssign, div_assign, Div, div );
 impl Neg for Rational {
     type Output = Rational;
     fn neg(mut self) -> Self::Output {
-        self.sign = !self.sign;
+        if self.numerator != 0 {
+            self.sign = !self.sign;
+        }
         self
     }
 }
-- 
2.43.0


From dc0506dec8a8c3745cba85f367435b8e72ca2d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 34/38] fix: every product of rationals by Iterator::product
 was 0

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 7d76b32..4448024 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -217,7 +217,7 @@ impl Sum for Rational {
 
 impl Product for Rational {
     fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
-        iter.fold(Rational::zero(), |accum, a| accum * a)
+        iter.fold(Rational::one(), |accum, a| accum * a)
     }
 }
 
-- 
2.43.0


From cc8ec0baa240536c05c6e4efd0e934017a30db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 35/38] fix: reducing an edge path panicked after everything so
 far had cancelled

---
 topo_spaces/src/cubical.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 29917b7..a724208 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1235,7 +1235,8 @@ impl EdgePath {
                     some_canceled = true;
 
                     out[i].remove(idx);
-                    if out[i].is_empty() {
+                    // keep at least one step: the following edges need it
+                    if out[i].is_empty() && out.len() > 1 {
                         out.remove(i);
                     }
                 } else if i+1 == out.len() {
-- 
2.43.0


From 828bb51ad5943c7a93172197bea5b08f95a26043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 36/38] fix: the inverse of a ConstPermutation or
 VecPermutation sent everything to 0

---
 alg/src/non_commutative/permutation.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index c0e2598..26991ee 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -657,10 +657,8 @@ impl<const N: usize> Group for ConstPermutation<N> {
 
     fn inverse(self) -> Self {
         let mut out = [0; N];
-        let mut curr = 0;
-        while curr != 0 {
+        for curr in 0..N {
             out[self.0[curr]] = curr;
-            curr = self.0[curr];
         }
         ConstPermutation(out)
     }
@@ -761,10 +759,8 @@ impl Group for VecPermutation {
 
     fn inverse(self) -> Self {
         let mut out = vec![0; self.0.len()];
-        let mut curr = 0;
-        while curr != 0 {
+        for curr in 0..self.0.len() {
             out[self.0[curr]] = curr;
-            curr = self.0[curr];
         }
         Self(out)
     }
-- 
2.43.0


From 6c5a23ee235f682b9bb8e5bdcd7f2aab819de647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 37/38] fix: the order of a VecPermutation was never found

---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 26991ee..4594200 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -774,9 +774,9 @@ impl VecPermutation {
     pub fn order(self) -> usize {
         let mut order = 1;
         let mut power = self.clone();
-        let id = Self::identity();
         
-        while power != id {
+        // the identity may have any number of explicit entries
+        while (0..power.0.len()).any(|i| power.0[i] != i) {
             power *= self.clone();
             order += 1;
         }
-- 
2.43.0


From 38e2ea1db75ea1a2751fe03352f6ab83ff60299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:27 +0000
Subject: [PATCH 38/38] fix: counting the cells of a simplicial complex
 overflowed from about 21 vertices on

---
 topo_spaces/src/simplicial/mod_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 6c8d252..9ed5549 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -283,7 +283,8 @@ impl<T: VertexLabel> SimplicialCplx<T>
             if x < y {
                 0
             } else {
-                (x-y+1..=x).product::<usize>() / (1..=y).product::<usize>()
+                // each step gives a binomial again, so that nothing much larger than the result occurs
+                (1..=y).fold(1_u128, |accum, i| accum * (x-y+i) as u128 / i as u128) as usize
             }
         };
 
-- 
2.43.0

