From a6c88dc0a0cf9e3defa0fea742122ddc2f9dbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 01/46] fix: accept i64::MIN when constructing a Rational

---
 alg/src/commutative/rational_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 66fd8a7..fe2c5bb 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -23,8 +23,8 @@ impl Rational {
         if d == 0 { panic!("Denumerators cannot be zero!") };
 
         let mut r = Rational {
-            numerator: n.abs() as u64,
-            denominator: d.abs() as u64,
+            numerator: n.unsigned_abs(),
+            denominator: d.unsigned_abs(),
             sign: (n>=0) == (d>=0),
         };
 
-- 
2.43.0


From 759a8adec88d61f61402e911b6b7df3cb461a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 02/46] fix: negating the rational zero must give zero

---
 alg/src/commutative/rational_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index fe2c5bb..c1bf89c 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -179,7 +179,8 @@ op_assign_impl!( Rational, DivAssign, div_assign, Div, div );
 impl Neg for Rational {
     type Output = Rational;
     fn neg(mut self) -> Self::Output {
-        self.sign = !self.sign;
+        // zero is always represented with a positive sign
+        self.sign = self.numerator == 0 || !self.sign;
         self
     }
 }
-- 
2.43.0


From d1efc8476389a5d9baad766007433e10d5afb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 03/46] fix: comparing two rational zeros divided by zero

---
 alg/src/commutative/rational_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index c1bf89c..0fa705d 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -66,7 +66,8 @@ impl Rational {
 
 impl Ord for Rational {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        let gcd_of_n = gcd(self.numerator, rhs.numerator);
+        // the gcd is zero when both numbers are zero
+        let gcd_of_n = gcd(self.numerator, rhs.numerator).max(1);
         let gcd_of_d = gcd(self.denominator, rhs.denominator);
         let a = (self.numerator/gcd_of_n) * (rhs.denominator/gcd_of_d);
         let b = (rhs.numerator/gcd_of_n) * (self.denominator/gcd_of_d);
-- 
2.43.0


From bcc2cf6a05b6648f25cc57b270d828f80b0b8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 04/46] fix: the product of rationals starts from one

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 0fa705d..5cb5ed2 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -213,7 +213,7 @@ impl Sum for Rational {
 
 impl Product for Rational {
     fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
-        iter.fold(Rational::zero(), |accum, a| accum * a)
+        iter.fold(Rational::one(), |accum, a| accum * a)
     }
 }
 
-- 
2.43.0


From fca509cf593be3a286fef66d2288043132fa880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 05/46] fix: test divisibility by remainder in is_prime and
 n_prime_factors

---
 alg/src/commutative.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index 213c972..b034d0d 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -126,16 +126,16 @@ macro_rules! pid_impl {
     ($($t:ty)*) => ($(
         impl PID for $t {
             fn is_prime(self) -> bool {
-                if self == Self::zero() || self == Self::one() { return false; }
-                (2..self).all(|x| self/x != 0)
+                if self <= Self::one() { return false; }
+                (2..self).all(|x| self%x != 0)
             }
 
             fn n_prime_factors(self) -> usize {
                 if self.is_prime() { return 1; }
                 let mut count = 0;
-                (0..self).filter(|&x| x.is_prime()).filter(|&x| self/x == 0).for_each(|x|{
+                (0..self).filter(|&x| x.is_prime()).filter(|&x| self%x == 0).for_each(|x|{
                     let mut num = self;
-                    while num/x==0 {
+                    while num%x==0 {
                         count += 1;
                         num /= x;
                     }
-- 
2.43.0


From 1ee672b1ece89033b240259c8846400fdcb69c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 06/46] fix: Permutation::swap with an empty range or with an
 adjacent preceding range

---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f45bf0b..c0e2598 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -196,13 +196,13 @@ impl Permutation {
 
     pub fn swap(r1: std::ops::Range<usize>, r2: std::ops::Range<usize>) -> Self {
         // trivial cases:
-        if r1.is_empty() || r2.is_empty() { Self::identity(); }
+        if r1.is_empty() || r2.is_empty() { return Self::identity(); }
 
         // Two input ranges must be disjoint
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
 
         // Now r1.end <= r2.start || r2.end <= r1.start, i.e. two ranges are disjoint
-        if r2.end < r1.start { return Self::swap(r2, r1) };
+        if r2.end <= r1.start { return Self::swap(r2, r1) };
 
         // Now r1.end <= r2.start
         let r1_size = r1.end - r1.start;
-- 
2.43.0


From 2ec35bbd101c5ebc2722d2ba6adc464fdfe3b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 07/46] fix: negative powers of permutations

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index c0e2598..aa89072 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -391,7 +391,7 @@ impl BitXor<i64> for Permutation {
             (1..=power).map(|_| self.clone()).product()
         } else { // if 'power < 0'
             let inv = self.inverse();
-            (1..=power).map(|_| inv.clone()).product()
+            (power..0).map(|_| inv.clone()).product()
         }
     }
 }
-- 
2.43.0


From a2c79da3aea74a098ab4154f453c1f8f5add8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 08/46] fix: inverse of array permutations

---
 alg/src/non_commutative/permutation.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index aa89072..466ba47 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -657,10 +657,8 @@ impl<const N: usize> Group for ConstPermutation<N> {
 
     fn inverse(self) -> Self {
         let mut out = [0; N];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for (i, &image) in self.0.iter().enumerate() {
+            out[image] = i;
         }
         ConstPermutation(out)
     }
@@ -761,10 +759,8 @@ impl Group for VecPermutation {
 
     fn inverse(self) -> Self {
         let mut out = vec![0; self.0.len()];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for (i, &image) in self.0.iter().enumerate() {
+            out[image] = i;
         }
         Self(out)
     }
-- 
2.43.0


From c437c1b9167fb8917be1326d36d03d3e65582b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 09/46] fix: VecPermutation::order never terminated

---
 alg/src/non_commutative/permutation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 466ba47..b6ed9eb 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -774,7 +774,8 @@ impl VecPermutation {
     pub fn order(self) -> usize {
         let mut order = 1;
         let mut power = self.clone();
-        let id = Self::identity();
+        // the identity on the same number of letters
+        let id = VecPermutation((0..self.0.len()).collect());
         
         while power != id {
             power *= self.clone();
-- 
2.43.0


From 27d093b4dbd3a1825356ff3067006c2fba179023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 10/46] fix: merge of sorted terms in sums of vectors

---
 alg/src/lin_alg.rs | 43 +++++++++++++------------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ed91b16..ef8140e 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -291,7 +291,8 @@ struct Merge <T, I, J, F>
         J: Iterator<Item = T>,
         F: Fn(&T, &T)->Ordering
 {
-    curr: Option<T>,
+    curr_i: Option<T>,
+    curr_j: Option<T>,
     i: I,
     j: J,
     f: F
@@ -305,41 +306,23 @@ impl<T, I, J, F> Iterator for Merge<T, I, J, F>
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut self_curr = None;
-        std::mem::swap(&mut self_curr, &mut self.curr);
-        if let Some(mut curr) = self_curr {
-            if let Some(mut next) = self.i.next() {
-                if (self.f)(&curr, &next) == Ordering::Less {
-                    std::mem::swap( &mut next, &mut curr );
-                }
-                self.curr = Some(curr);
-                Some(next)
-            } else if let Some(next) = self.j.next() { 
-                self.curr = Some(next);
-                Some(curr)
-            } else {
-                self.curr = None;
-                Some(curr)
-            }
+        let take_i = match (&self.curr_i, &self.curr_j) {
+            (Some(x), Some(y)) => (self.f)(x, y) != Ordering::Greater,
+            (x, _) => x.is_some(),
+        };
+        if take_i {
+            std::mem::replace(&mut self.curr_i, self.i.next())
         } else {
-            None
+            std::mem::replace(&mut self.curr_j, self.j.next())
         }
     }
 }
 
 fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(mut i: I, mut j: J, f: F) -> impl Iterator<Item = T> {
-    if let Some(next) = j.next() {
-        Merge{
-            curr: Some(next), 
-            i, j, f
-        }
-    } else {
-        Merge{
-            curr: i.next(),
-            i,
-            j,
-            f,
-        }
+    Merge{
+        curr_i: i.next(),
+        curr_j: j.next(),
+        i, j, f
     }
 }
 
-- 
2.43.0


From 1536c18aa025ceaa409f1130e62cfa4217a59633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 11/46] fix: comparing a submatrix with a matrix recursed
 forever

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a520155..908cb5d 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -574,7 +574,7 @@ impl<T: PID> cmp::PartialEq for SubMatrix<T> {
 
 impl<T: PID> cmp::PartialEq<Matrix<T>> for SubMatrix<T> {
     fn eq(&self, rhs: &Matrix<T>) -> bool {
-        self == rhs
+        *self == **rhs
     }
 }
 
-- 
2.43.0


From 7329352308fff6b0e932fbf9b844219be91ddaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 12/46] fix: matrix operations dropped uninitialised elements

---
 alg/src/lin_alg/matrix_impl.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 908cb5d..5dc35ff 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -339,7 +339,7 @@ macro_rules! submatrix_add_sub_impl {
                 let mut out = Matrix::new(self.size().0, self.size().1);
                 for i in 0..self.size().0 {
                     for j in 0..self.size().1 {
-                        out[(i,j)] = $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone());
+                        out.write((i,j), $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone()));
                     }
                 }
                 out
@@ -391,7 +391,7 @@ impl<T: PID> ops::Mul for &SubMatrix<T> {
         let mut prod = Matrix::new(self.size().0, rhs.size().1);
         for i in 0..prod.size().0 {
             for j in 0..prod.size().1 {
-                prod[(i, j)] = self[(i, ..)].dot(&rhs[(.., j)]);
+                prod.write((i, j), self[(i, ..)].dot(&rhs[(.., j)]));
             }
         };
         prod
@@ -490,7 +490,7 @@ impl<T: PID> ops::Mul<T> for &SubMatrix<T> {
         let mut out = Matrix::new(self.size().0, self.size().1);
         for i in 0..out.size().0 {
             for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() * rhs.clone();
+                out.write((i,j), self[(i,j)].clone() * rhs.clone());
             }
         };
         out
@@ -516,7 +516,7 @@ impl<T: Field> ops::Div<T> for &SubMatrix<T> {
         let mut out = Matrix::new(self.size().0, self.size().1);
         for i in 0..out.size().0 {
             for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() / rhs.clone();
+                out.write((i,j), self[(i,j)].clone() / rhs.clone());
             }
         };
         out
@@ -664,7 +664,7 @@ impl<T: PID> Matrix<T> {
         let mut out = Matrix::new(size.0, size.1);
         for i in 0..size.0 {
             for j in 0..size.1 {
-                out[(i, j)] = v[i][j].clone();
+                out.write((i, j), v[i][j].clone());
             }
         }
 
-- 
2.43.0


From d807d6548ffdd6ada1b595e5482947450209f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 13/46] fix: reject ragged arrays when constructing a matrix

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 5dc35ff..7cf15b3 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -657,7 +657,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid. Matrix must have positive dimension!")
         }
         let size = (v.len(), v[0].len());
-        if v.iter().map(|x| x.len()).all(|len| len != size.1) {
+        if v.iter().map(|x| x.len()).any(|len| len != size.1) {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-- 
2.43.0


From d910998b2dedaf0cd5fc3503b3734f5dc24bb698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 14/46] fix: inverse column operation of the Smith normal form

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 7cf15b3..474f16d 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1058,7 +1058,7 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
                 // A column operation to eliminate the entry at (r, s)
                 self.col_operation(s, r, -w * y);
                 c_op.col_operation(s, r, -w * y);
-                c_op_inv.row_operation(s, r, w * y);
+                c_op_inv.row_operation(r, s, w * y);
 
                 debug_assert!(self[(r,r)]==gcd);
                 debug_assert!(self[(r,s)]==T::zero());
-- 
2.43.0


From 5019a44c93a547afae724cf3bc27f3ae2fed1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 15/46] fix: rank of a matrix missed pivots

---
 alg/src/lin_alg/matrix_impl.rs | 44 +++++++++++++---------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 474f16d..032b62c 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1077,40 +1077,28 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
 impl <T:Field+Copy> Matrix<T> {
     pub fn rank_as_linear_map(&self) -> usize {
         let mut clone = self.clone();
-        let shorter_side = std::cmp::min(self.size().0, self.size().1);
-        let mut skipped = 0;
-        for k in 0..shorter_side {
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
-                match result {
-                    Some(j) => clone.col_operation(k, j, T::one()),
-                    None => (),
-                }
-            }
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
-                match result {
-                    Some(i) => clone.row_operation(k, i, T::one()),
-                    None => {
-                        skipped += 1;
-                        continue;
-                    },
-                }
+        let mut rank = 0;
+        for k in 0..self.size().1 {
+            // find a row at or below 'rank' with a nonzero element in the column 'k', and bring it to the row 'rank'
+            let pivot = match (rank..self.size().0).find(|&i| clone[(i, k)] != T::zero() ) {
+                Some(i) => i,
+                None => continue,
+            };
+            if pivot != rank {
+                clone.swap_rows(rank, pivot);
             }
 
-            // Now we have the nonzero element in (k, k)
-            let coeff = T::one() / clone[(k,k)];
-            clone.row_operation(k, k, coeff - T::one()); // Fix
-
-            for l in k+1..self.size().0 {
-                let minus_one = T::zero() - T::one();
+            // Now we have the nonzero element in (rank, k)
+            let minus_one = T::zero() - T::one();
+            for l in rank+1..self.size().0 {
                 let a_lk = clone[(l,k)];
-                if a_lk == T::zero() { continue; } 
-                clone.row_operation(l, k, minus_one * a_lk);
+                if a_lk == T::zero() { continue; }
+                clone.row_operation(l, rank, minus_one * a_lk / clone[(rank,k)]);
             }
+            rank += 1;
         };
 
-        shorter_side - skipped
+        rank
     }
 }
 
-- 
2.43.0


From 94499fff8b6b55bfffa76a40ff6c47dd36277d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 16/46] fix: reading a sparse matrix without entries panicked

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 459edfa..31f87e5 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -36,6 +36,15 @@ impl<T: PID> SparseNode<T> {
         }
     }
     
+    // compares the index of the start node with 'i'. The end node comes after every start node.
+    #[inline]
+    fn cmp_start_node_idx(&self, i: usize) -> std::cmp::Ordering {
+        match self {
+            Self::End => std::cmp::Ordering::Greater,
+            _ => self.start_node_idx().cmp(&i),
+        }
+    }
+
     #[inline]
     fn start_ref(&self) -> &SparseNode<T> {
         match self {
@@ -116,7 +125,7 @@ pub struct Iter<'a, T: PID> {
 impl<T: PID> SparseMatrix<T> {
     pub fn row_iter(&self, i: usize) -> Iter<'_, T> {
         // let row = self.rows.iter().find(|f| i == f.start_node_idx() );
-        let row = self.rows.binary_search_by(|f| f.start_node_idx().cmp(&i) );
+        let row = self.rows.binary_search_by(|f| f.cmp_start_node_idx(i) );
         match row {
             Ok(x) => Iter{
                 data: &self.rows[x].start_ref(),
@@ -132,7 +141,7 @@ impl<T: PID> SparseMatrix<T> {
     }
 
     pub fn col_iter(&self, i: usize) -> Iter<'_, T> {
-        let col = self.cols.binary_search_by(|f| f.start_node_idx().cmp(&i) );
+        let col = self.cols.binary_search_by(|f| f.cmp_start_node_idx(i) );
         match col {
             Ok(x) => Iter {
                 data: &self.cols[x].start_ref(),
-- 
2.43.0


From 1e8f302b69157faceaf77ab6ec982991772a4872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 17/46] fix: product of two sparse matrices

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 31f87e5..d785013 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -230,19 +230,17 @@ impl<T: PID> std::ops::Mul for SparseMatrix<T> {
                 let mut sum = T::zero();
                 let mut it1 = self.row_iter(i);
                 let mut it2 = rhs.col_iter(j);
-                let (mut k2, mut v2) = if let Some(next) = it2.next() {
-                    next
-                } else {
-                    continue;
-                };
+                let (mut next1, mut next2) = (it1.next(), it2.next());
 
-                while let Some((mut k1, mut v1)) = it1.next() {
+                while let (Some((k1, v1)), Some((k2, v2))) = (next1, next2) {
                     if k1 == k2 {
                         sum += v1.clone() * v2.clone();
-                    } else if k1 > k2 {
-                        std::mem::swap(&mut it1, &mut it2);
-                        std::mem::swap(&mut k1, &mut k2);
-                        std::mem::swap(&mut v1, &mut v2);
+                        next1 = it1.next();
+                        next2 = it2.next();
+                    } else if k1 < k2 {
+                        next1 = it1.next();
+                    } else {
+                        next2 = it2.next();
                     }
                 }
 
-- 
2.43.0


From 485441e37cb8b49707e956fa4aeea9072eaf5c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 18/46] fix: reflection of a negative multiple of the first
 axis was not orthogonal

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 032b62c..86f7f59 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1259,7 +1259,7 @@ impl Matrix<f64> {
         if a==0.0 && b>=0.0 {
             (self, 0.0)
         } else if a==0.0 && b<0.0 {
-            (self, -2.0)
+            (self, 2.0)
         } else {
             let u = (a+b*b).sqrt();
             self[(0,0)] = if b<=0.0 {
-- 
2.43.0


From 38aea3286de1b559dbec2c7bf8fc11f663d4e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 19/46] fix: determinant and linear solver failed on zero
 pivots

---
 alg/src/lin_alg/matrix_impl.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 86f7f59..473863a 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1128,10 +1128,11 @@ impl Matrix<f64> {
         };
 
         // this implementation of determinant is based on LU decomposition
-        self.lu();
+        let swaps = self[(..,..)].lu_with_pivoting();
+        let sign = if swaps.len() % 2 == 0 { 1.0 } else { -1.0 };
         (0..self.size().0)
             .map(|i| self[(i,i)])
-            .product()
+            .product::<f64>() * sign
     }
 
     pub fn random_orthogonal(n: usize) -> Matrix<f64> {
@@ -1306,7 +1307,9 @@ impl Matrix<f64> {
             b.size
         );
         let n = self.size().0;
-        self[(..,..)].lu();
+        for (i, j) in self[(..,..)].lu_with_pivoting() {
+            b[(.., 0)].swap_rows(i, j);
+        }
         
         // Solve Ly = b by forward substitution
         for i in 1..n {
@@ -1679,6 +1682,30 @@ impl SubMatrix<f64> {
         }
     }
 
+    // LU decomposition with partial pivoting. Returns the row swaps in the order they were made.
+    fn lu_with_pivoting(&mut self) -> Vec<(usize, usize)> {
+        assert_eq!(self.size().0, self.size().1, "Input has to this function has to be a square matrix.");
+
+        let n = self.size().0;
+        let mut swaps = Vec::new();
+        for i in 0..n-1 {
+            let pivot = (i..n).rev()
+                .max_by(|&k, &l| self[(k,i)].abs().total_cmp( &self[(l,i)].abs() ))
+                .unwrap();
+            if pivot != i {
+                self.swap_rows(i, pivot);
+                swaps.push((i, pivot));
+            }
+            if self[(i,i)] == 0.0 { continue; }
+
+            let update = &self[(i+1..n, i)] / self[(i,i)];
+            self[(i+1..n,i)].write_and_move( update );
+            let update = &self[(i+1..n,i+1..n)] - &self[(i+1..n,i)] * &self[(i, i+1..n)];
+            self[(i+1..n, i+1..n)].write_and_move( update );
+        }
+        swaps
+    }
+
     pub fn lu(&mut self) {
         assert_eq!(self.size().0, self.size().1, "Input has to this function has to be a square matrix.");
 
-- 
2.43.0


From 0b3805698863cd5974a5d641752274a4158881ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 20/46] fix: spectrum of a two-by-two block with equal
 eigenvalues

---
 alg/src/lin_alg/matrix_impl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 473863a..fc702d2 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1672,10 +1672,11 @@ impl SubMatrix<f64> {
 
     fn real_spectrum_of_two_by_two(&self) -> Option<(f64, f64)> {
         debug_assert_eq!( self.size(), (2,2) );
-        let det = self[(0,0)] * self[(1,1)] - self[(0,1)] * self[(1,0)];
+        let d = (self[(0,0)] - self[(1,1)]) / 2.0;
         let m = (self[(0,0)] + self[(1,1)]) / 2.0;
-        if m*m-det > 0.0 {
-            let rad = (m*m-det).sqrt();
+        let disc = d*d + self[(0,1)] * self[(1,0)];
+        if disc >= 0.0 {
+            let rad = disc.sqrt();
             Some((m-rad, m+rad))
         } else {
             None
-- 
2.43.0


From 1f62e1f8e895af6061128ce6ccc060ee57c1cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 21/46] fix: symmetric QR of matrices of size one and two

---
 alg/src/lin_alg/matrix_impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index fc702d2..cc54db6 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1865,7 +1865,7 @@ impl SubMatrix<f64> {
 
     pub fn householder_tridiagonalization(&mut self, with_op: bool) {
         let n = self.size().0;
-        for i in 0..n-2 {
+        for i in 0..n.saturating_sub(2) {
             let (v, b) = self[(i+1.., i)].householder_vec();
             let v = &*v;
             let p = (&self[(i+1.., i+1..)] * v) * b;
@@ -1963,12 +1963,12 @@ impl SubMatrix<f64> {
         let tolerance = 0.0000000001;
         let mut op = Matrix::identity(n);
         self.householder_tridiagonalization(with_op);
-        if with_op {
+        if with_op && n > 2 {
             op = Matrix::identity(n);
             op[(1..,1..)].write( &(self[(2..,..n-2)].extract_householder_vecs()) );
         };
 
-        for i in 0..n-2 {
+        for i in 0..n.saturating_sub(2) {
             for j in i+2..n{
                 self[(i, j)] = 0.0;
                 self[(j, i)] = 0.0;
@@ -1984,7 +1984,7 @@ impl SubMatrix<f64> {
                 }
             }
 
-            q = (0..n-2)
+            q = (0..n.saturating_sub(2))
                 .find( |&i| self[(n-i-1,n-i-2)].abs()>tolerance && self[(n-i-2,n-i-3)].abs()>tolerance )
                 .unwrap_or(n);
 
-- 
2.43.0


From d36b7e008daf849806b9d1ae4bb38b57b6a8245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 22/46] fix: orthogonal factor of a tridiagonalization with
 already reduced columns

---
 alg/src/lin_alg/matrix_impl.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index cc54db6..b73795f 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1866,6 +1866,9 @@ impl SubMatrix<f64> {
     pub fn householder_tridiagonalization(&mut self, with_op: bool) {
         let n = self.size().0;
         for i in 0..n.saturating_sub(2) {
+            // the column is already reduced, so there is no reflection to make
+            if (i+2..n).all(|j| self[(j, i)] == 0.0) { continue; }
+
             let (v, b) = self[(i+1.., i)].householder_vec();
             let v = &*v;
             let p = (&self[(i+1.., i+1..)] * v) * b;
@@ -1901,7 +1904,8 @@ impl SubMatrix<f64> {
 
         if n == 1 {
             let x = self[(0,0)];
-            let s = 2.0/(x*x+1.0);
+            // the zero vector stands for no reflection
+            let s = if x == 0.0 { 0.0 } else { 2.0/(x*x+1.0) };
             matrix!(f64;
                 [[1.0-s, -s*x],
                  [-s*x, 1.0-s*x*x]]
@@ -1909,7 +1913,9 @@ impl SubMatrix<f64> {
         } else {
             let mut m = Matrix::identity(n+1);
             let v = &self[(..,0)];
-            let s = 2.0 / (v.transpose().dot(v)+1.0);
+            // the zero vector stands for no reflection
+            let norm_squared = v.transpose().dot(v);
+            let s = if norm_squared == 0.0 { 0.0 } else { 2.0 / (norm_squared+1.0) };
             let q = self[(1.., 1..)].extract_householder_vecs();
             let q = &*q;
 
-- 
2.43.0


From 00d7ae8148e7259a0750bb86c1bbe18824fd101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 23/46] fix: orthogonal factor of the symmetric QR after the
 leading block is split off

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index b73795f..065d10f 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -2003,7 +2003,7 @@ impl SubMatrix<f64> {
                 debug_assert!( (n-q)-p > 2);
                 let givens = self[(p..n-q, p..n-q)].implicit_symmetric_qr_with_wilkinson_shift(with_op);
                 if with_op {
-                    for (i, c,s) in (0..givens.size.0).map(|i| (i, givens[(i,0)], givens[(i,1)])) {
+                    for (i, c,s) in (0..givens.size.0).map(|i| (p+i, givens[(i,0)], givens[(i,1)])) {
                         let givens =  matrix!(f64; [[c, -s],[s, c]]);
                         let givens = &*givens;
                         let update = givens * &op[(i..i+2, ..)];
-- 
2.43.0


From c3ee2b288d2ad76cd31252b9ffa48843e573b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 24/46] fix: eigenvectors when an eigenvalue is exact or the
 initial vector is orthogonal to them

---
 alg/src/lin_alg/matrix_impl.rs | 105 ++++++++++-----------------------
 1 file changed, 31 insertions(+), 74 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 065d10f..a5aefbd 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1354,6 +1354,30 @@ impl Matrix<f64> {
         out
     }
 
+    // Returns a unit eigenvector for the eigenvalue 'lambda'.
+    fn inverse_iteration(&self, lambda: f64) -> Matrix<f64> {
+        let n = self.size().0;
+
+        // the eigenvalue is slightly shifted, so that 'm' is not singular when 'lambda' is exact
+        let shift = lambda + 0.0000000001 * (1.0 + self.frobenius_norm());
+        let mut m = self.clone();
+        for i in 0..n {
+            m[(i,i)] -= shift;
+        }
+
+        // the entries of the initial vector differ, so that it is not orthogonal to the eigenvectors of a symmetrical input
+        let mut v = Matrix::<f64>::zero(n, 1);
+        for i in 0..n {
+            v[(i,0)] = 1.0 / (i as f64 + std::f64::consts::SQRT_2);
+        }
+
+        for _ in 0..3 {
+            v = m.clone().solve( v );
+            v /= v.two_norm();
+        }
+        v
+    }
+
     pub fn spectrum_with_invariant_space(self) -> (Matrix<f64>, Matrix<f64>) {
         assert_eq!( self.size().0, self.size().1,
             "Input to this function must be a square matrix."
@@ -1361,13 +1385,7 @@ impl Matrix<f64> {
         let n = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(n, n);
-        let elem = 1.0 / (n as f64).sqrt();
-        for i in 0..n {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum();
@@ -1376,17 +1394,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let mut m = self.clone();
-            for j in 0..n {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
+            eigen_vectors[(.., i)].write_and_move( self.inverse_iteration(lambda) );
         }
 
         (spectrum, eigen_vectors)
@@ -1428,13 +1436,7 @@ impl Matrix<f64> {
         let n = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(n, n);
-        let elem = 1.0 / (n as f64).sqrt();
-        for i in 0..n {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
@@ -1443,17 +1445,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let mut m = self.clone();
-            for j in 0..n {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
+            eigen_vectors[(.., i)].write_and_move( self.inverse_iteration(lambda) );
         }
 
         (spectrum, eigen_vectors)
@@ -1466,13 +1458,7 @@ impl Matrix<f64> {
         let size = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(size, n);
-        let elem = 1.0 / (size as f64).sqrt();
-        for i in 0..size {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::zero(size, n);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
@@ -1481,17 +1467,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let mut m = self.clone();
-            for j in 0..size {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
+            eigen_vectors[(.., i)].write_and_move( self.inverse_iteration(lambda) );
         }
 
         (spectrum, eigen_vectors)
@@ -1503,32 +1479,13 @@ impl Matrix<f64> {
         );
         let size = self.size().0;
 
-        // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(size, 1);
-        let elem = 1.0 / (size as f64).sqrt();
-        for i in 0..size {
-            eigen_vectors[(i,0)] = elem;
-        }
-
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
 
         // run the inverse iteration to get the eigenvector
         let lambda = spectrum[(n,0)];
 
-        let mut m = self.clone();
-        for j in 0..size {
-            m[(j,j)] -= lambda;
-        }
-
-        let mut update = m.clone().solve( eigen_vectors[(.., 0)].as_matrix() );
-        update /= update.two_norm();
-        eigen_vectors[(.., 0)].write_and_move( update );
-        let mut update = m.solve( eigen_vectors[(.., 0)].as_matrix() );
-        update /= update.two_norm();
-        eigen_vectors[(.., 0)].write_and_move( update );
-
-        (lambda, eigen_vectors)
+        (lambda, self.inverse_iteration(lambda))
     }
 
     // pub fn extremal_spectrum_symmetric(self, n_eigen: usize, small: bool) -> (Matrix<f64>, Matrix<f64>) {
-- 
2.43.0


From 12f957b0180b8b9e5c8b19d1ca8e89e22726541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 25/46] fix: QR iteration never ended on fixed points of the
 shifted step

---
 alg/src/lin_alg/matrix_impl.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a5aefbd..d6a9b29 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1705,6 +1705,14 @@ impl SubMatrix<f64> {
             "Input to this function must be a square matrix."
         );
         let n = self.size().0;
+        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
+        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
+        self.francis_step_with_shifts(s, t, return_op)
+    }
+
+    // 's' and 't' are the sum and the product of the two shifts
+    fn francis_step_with_shifts(&mut self, s: f64, t: f64, return_op: bool) -> Matrix<f64> {
+        let n = self.size().0;
 
         let op = if return_op {
             Matrix::identity(n)
@@ -1712,8 +1720,6 @@ impl SubMatrix<f64> {
             Matrix::identity(1)
         };
 
-        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
-        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
         let mut x = self[(0,0)]*self[(0,0)] + self[(0,1)]*self[(1,0)] -s*self[(0,0)] + t;
         let mut y = self[(1,0)] * (self[(0,0)] + self[(1,1)] - s);
         let mut z = self[(1,0)]*self[(2,1)];
@@ -1780,6 +1786,7 @@ impl SubMatrix<f64> {
         };
 
         let tolerance = 0.000000000000001;
+        let mut n_steps = 0;
         let mut q=0;
         let mut p;
 
@@ -1801,7 +1808,13 @@ impl SubMatrix<f64> {
 
             if q<n {
                 debug_assert!( (n-q)-p > 2);
-                if returns_op {
+                n_steps += 1;
+                if n_steps % 10 == 0 {
+                    // a matrix can be a fixed point of the usual step, so use exceptional shifts once in a while
+                    let w = self[(n-q-1, n-q-2)].abs() + self[(n-q-2, n-q-3)].abs();
+                    let step_op = self[(p..n-q, p..n-q)].francis_step_with_shifts(1.5*w, w*w, returns_op);
+                    if returns_op { op = op * step_op; }
+                } else if returns_op {
                     op = op * self[(p..n-q, p..n-q)].francis_step_with_op();
                 } else {
                     self[(p..n-q, p..n-q)].francis_step();
-- 
2.43.0


From 3face77c68d6ccd675bb7e535be3af86dac39d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 26/46] fix: rotations ignored small entries, so the symmetric
 QR could stall

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index d6a9b29..10c3eeb 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1275,7 +1275,7 @@ impl Matrix<f64> {
     }
 
     pub fn givens_rotation(a: f64, b: f64) -> (f64, f64) {
-        if b.abs()<0.000000000001 {
+        if b == 0.0 {
             return (1.0, 0.0)
         }
 
-- 
2.43.0


From 47bdebc1a604521e736e06004382fcf329e25f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 27/46] fix: torsion of integral homology with negative
 invariant factors

---
 topo_spaces/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/lib.rs b/topo_spaces/src/lib.rs
index ab5e315..5a02d7c 100644
--- a/topo_spaces/src/lib.rs
+++ b/topo_spaces/src/lib.rs
@@ -89,15 +89,15 @@ impl<T: Complex> IntegralHomology<T>
                 // update the variables for the computation of the lower homology
                 elem_divisors_of_higher_map = Vec::new();
                 (0..rank_of_lower_map).for_each(|i| {
-                    let divisor = boundary_map[( i,i )];
+                    let divisor = boundary_map[( i,i )].abs();
                     if let Some((div, mul)) = elem_divisors_of_higher_map.last_mut()  {
                         if *div == divisor {
                             *mul+=1;
                         } else {
-                            elem_divisors_of_higher_map.push((boundary_map[( i,i )], 1)); 
+                            elem_divisors_of_higher_map.push((divisor, 1)); 
                         }
                     } else {
-                        elem_divisors_of_higher_map.push((boundary_map[( i,i )], 1)); 
+                        elem_divisors_of_higher_map.push((divisor, 1)); 
                     }
                 });
                 rank_of_higher_map = rank_of_lower_map;
-- 
2.43.0


From 39eaea849f60a82a46ad10ee9cc047c3b69067de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 28/46] fix: SimplicialCplx::new_from_zero_skeleton panicked
 with three vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d099d4f..2d3a193 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -164,7 +164,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             size: vertices_labels.len(),
             maximal_cells: 
                 (0..vertices_labels.len())
-                .map(|x| SimplicialCell::new(1, vec![x]))
+                .map(|x| SimplicialCell::new(x+1, vec![x]))
                 .collect(),
             vertices_labeling: vertices_labels,
         }
-- 
2.43.0


From cce7b389701a826a5ece6955d614ffb1a23dbef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 29/46] fix: simplicial complexes with more than 64 vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 39 +++++++++++++++-----------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 2d3a193..121e4a1 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -51,15 +51,13 @@ impl SimplicialCell {
     }
 
     pub fn join(&mut self, cell: &SimplicialCell) {
-        self.vertices = self.vertices
-            .iter()
-            .zip(cell.vertices.iter()).map(|(&x, &y)| x | y)
-            .collect();
-            
         if cell.vertices.len() > self.vertices.len() { 
-            (self.vertices.len()..cell.vertices.len()).
-                for_each(|i| self.vertices.push(cell.vertices[i]));
+            self.vertices.resize(cell.vertices.len(), 0);
         }
+        self.vertices
+            .iter_mut()
+            .zip(cell.vertices.iter())
+            .for_each(|(x, &y)| *x |= y);
 
         self.dim = SimplicialCell::dim(&self.vertices);
     }
@@ -108,7 +106,17 @@ impl SimplicialCell {
     }
 
     pub fn contains(&self, cell: &SimplicialCell) -> bool {
-        self.vertices.iter().zip(cell.vertices.iter()).all(|(&x, &y)| x | y == x)
+        cell.vertices.iter().enumerate().all(|(i, &y)| {
+            let x = self.word(i);
+            x | y == x
+        })
+    }
+
+    // cells of the same complex may be stored with different numbers of words;
+    // the missing words contain no vertices
+    #[inline]
+    fn word(&self, i: usize) -> u64 {
+        self.vertices.get(i).copied().unwrap_or(0)
     }
 
     pub fn get_face(&self) -> Vec<SimplicialCell> {
@@ -344,11 +352,8 @@ impl<T: VertexLabel> SimplicialCplx<T>
 
 impl PartialEq for SimplicialCell {
     fn eq(&self, rhs: &Self) -> bool {
-        if self.vertices.len() == rhs.vertices.len() {
-            return self.vertices == rhs.vertices
-        } else {
-            self.vertices.iter().zip(rhs.vertices.iter()).all(|(&x, &y)| x==y)
-        }
+        let n_words = std::cmp::max(self.vertices.len(), rhs.vertices.len());
+        (0..n_words).all(|i| self.word(i) == rhs.word(i))
     }
 }
 
@@ -362,9 +367,11 @@ impl Ord for SimplicialCell {
         }
 
         // if self.dim == rhs.dim
-        let result = self.vertices.iter()
-            .zip(rhs.vertices.iter())
-            .map(|(x, y)| x.cmp(y))
+        // the largest vertices decide first, so that the faces of a cell are ordered as in
+        // the reverse of 'get_face()', which the signs of the boundary map depend on
+        let n_words = std::cmp::max(self.vertices.len(), rhs.vertices.len());
+        let result = (0..n_words).rev()
+            .map(|i| self.word(i).cmp(&rhs.word(i)))
             .find(|&cmp| cmp != Ordering::Equal);
         match result {
             Some(cmp) => cmp,
-- 
2.43.0


From 2932be2efbe0b5c8da906c953a4d14043b3f1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 30/46] fix: a repeated loop was taken off the count of joined
 pairs twice

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 447cbcb..fbd6468 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -80,7 +80,7 @@ impl<T: PID> Graph<T> {
             data[v_idx][w_idx].push(Edge::new());
 
             // update some members
-            if data[v_idx][w_idx].len() > 1 {
+            if data[v_idx][w_idx].len() > 1 && v_idx != w_idx {
                 n_non_loop_edges_up_to_multiplicity -= 1;
             } 
             if v_idx == w_idx {
-- 
2.43.0


From 31859ef5805a3d583f3f69d00cd5c15463fa3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 31/46] fix: position of the vertex subdividing an edge for two
 marked points

---
 topo_spaces/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index fbd6468..8dd6ecf 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1147,11 +1147,11 @@ impl SimpleGraph {
 
                 for (k, edge) in graph.data[i][j].iter().enumerate() {
                     subdivided_graph.data.add_edge(i, subdivided_graph.n_vertices());
-                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_marked_points-1))));
+                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_mid_vertices+1))));
 
                     for l in 2..=n_mid_vertices {
                         subdivided_graph.data.add_edge(subdivided_graph.n_vertices()-1, subdivided_graph.n_vertices());
-                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_marked_points-1))));
+                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_mid_vertices+1))));
                     }
 
                     subdivided_graph.data.add_edge(j, subdivided_graph.n_vertices()-1);
-- 
2.43.0


From 175c2a30eb27d620f80e52ce7f0e798f9a98fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 32/46] fix: edge_iter listed the edge [0 1] of a graph that
 does not have it

---
 topo_spaces/src/graph.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 8dd6ecf..10f7eb7 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1445,13 +1445,9 @@ impl<'a> Iterator for EdgeIter<'a> {
     type Item = CubeFactor;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.is_done {
-            return None;
-        };
+        while !self.is_done {
+            let [i, j] = [self.curr.0, self.curr.1];
 
-        let out = CubeFactor::Edge([self.curr.0, self.curr.1]);
-        
-        loop {
             if self.curr.0 == 0 {
                 self.curr.0 = self.curr.1;
                 self.curr.1 += 1;
@@ -1461,13 +1457,14 @@ impl<'a> Iterator for EdgeIter<'a> {
 
             if self.curr.1 >= self.graph.n_vertices() {
                 self.is_done = true;
-                break;
-            } else if self.graph.contains(self.curr.0, self.curr.1) {
-                break;
+            }
+
+            if self.graph.contains(i, j) {
+                return Some(CubeFactor::Edge([i, j]));
             };
         }
 
-        Some(out)
+        None
     }
 }
 
-- 
2.43.0


From aeb9639bb0a8bff12bb422a7c0a0aedd86ab4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 33/46] fix: boundary maps of CubicalCplx came without their
 bases

---
 topo_spaces/src/cubical.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index f2bfbad..b690358 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -330,13 +330,14 @@ mod cubical_cells {
 impl Complex for CubicalCplx {
     type Cell = Cube;
     fn boundary_map (&self) -> Vec< (Matrix<i64>, Vec<Self::Cell>) > {
-        let basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
+        let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
 
         let mut numbering = vec![0; self.data.len()];
         let mut counter = vec![0; self.dim+1];
         self.final_branch_indeces.iter().for_each(|&idx| {
             numbering[idx] = counter[self.dim_of(idx)];
             counter[self.dim_of(idx)] += 1;
+            basis[self.dim_of(idx)].push( Cube( self.get_cell_from_idx(idx).unwrap() ) );
         });
 
         // instantiating the boundary maps
-- 
2.43.0


From beb527d8980708cab00471b3e150a80eac539749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 34/46] fix: UdnMorseCplx listed collapsible edges as critical
 for one marked point

---
 topo_spaces/src/cubical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index b690358..2b734c1 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -803,7 +803,11 @@ impl UdnMorseCplx {
         // possible factors are provided by upstairs, so just collect them and make new_branches
         let new_branches = if self.data.len()==0 {
             // if 'self.data.len()' is zero, then this is the initial call of this function
-            possible_factors.iter().map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
+            possible_factors.iter()
+                // if there is only one factor to choose, then an edge in the maximal tree cannot be paid back
+                .filter(|&&factor| factor.is_vertex() || n_rem_factors > 1 || !factor.is_in_maximal_tree(&self.factor_pool) )
+                .map(|&factor| Branch::new_parent(factor) )
+                .collect::<Vec<_>>()
         } else {
             // if this is not the initial call, then we need to take care of the upper bound and lower bound when collecting factors
             let unpaid_edges = {
-- 
2.43.0


From ae7fb6c9c1307042c0b19b787faa46b5c5227fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 35/46] fix: UdnMorseCplx ignored a dimension limit of zero

---
 topo_spaces/src/cubical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 2b734c1..5cbae06 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -805,6 +805,7 @@ impl UdnMorseCplx {
             // if 'self.data.len()' is zero, then this is the initial call of this function
             possible_factors.iter()
                 // if there is only one factor to choose, then an edge in the maximal tree cannot be paid back
+                .filter(|&&factor| factor.is_vertex() || upper_dim > 0 )
                 .filter(|&&factor| factor.is_vertex() || n_rem_factors > 1 || !factor.is_in_maximal_tree(&self.factor_pool) )
                 .map(|&factor| Branch::new_parent(factor) )
                 .collect::<Vec<_>>()
-- 
2.43.0


From 465d615c2e0b3e1e0b329e46641af48074cdf214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 36/46] fix: reduce_to_geodesic panicked when the path so far
 cancelled completely

---
 topo_spaces/src/cubical.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 5cbae06..664395e 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1167,7 +1167,7 @@ impl EdgePath {
         Self(Vec::new())
     }
     pub fn reduce_to_geodesic(self) -> Self {
-        let mut out = vec![Vec::new()];
+        let mut out: Vec<Vec<[usize; 2]>> = Vec::new();
 
         let commute = |v: &[[usize; 2]], w: &[usize; 2]| -> bool {
             for i in v {
@@ -1213,6 +1213,8 @@ impl EdgePath {
                 } else {
                     out[i+1].push(step);
                 }
+            } else if out.is_empty() {
+                out.push(vec![step]);
             } else {
                 out[0].push(step);
             };
-- 
2.43.0


From 201371881691c06ebad8e3dc1360e27990341f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 37/46] fix: edges were disrespected by vertices deeper in a
 smaller branch, giving extra critical cells

---
 topo_spaces/src/cubical.rs | 11 ++++++-----
 topo_spaces/src/graph.rs   |  6 ++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 664395e..bca8527 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -529,13 +529,14 @@ impl Cube {
     }
 
     fn property(&self, graph: &RawSimpleGraph) -> MorseProp {
+        // the factors are considered in the order of their vertex or, for edges, of their initial vertex
         let f = self.0.iter()
             .enumerate()
             .filter(|&(_, &f)| 
                 ( f.is_vertex() && !f.is_blocked(&self, graph) ) || 
-                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f)) ))
+                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f, graph)) ))
             )
-            .next();
+            .min_by_key(|&(_, &f)| if f.is_edge() { f.initial().vertex() } else { f.vertex() });
         match f {
             Some((i, factor)) => if factor.is_vertex() { MorseProp::Redundant(i) } else { MorseProp::Collapsible(i) },
             None => MorseProp::Critical,
@@ -816,7 +817,7 @@ impl UdnMorseCplx {
                 self.factor_iter(branch_idx)
                     .filter(|&factor| factor.is_edge() ) // look only at the edges in the cell
                     .filter(|&factor| factor.is_in_maximal_tree(&self.factor_pool) )
-                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
+                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor, &self.factor_pool) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
                     .collect::<Vec<_>>()
             };
             let upper_bound = {
@@ -860,8 +861,8 @@ impl UdnMorseCplx {
 
             // further, if the 'n_rem_factor' equals the number of debts, then we need to pay back right now, so remove all the factors that do not pay for unpaid edges.
             let n_debts = unpaid_edges.len();
-            if n_rem_factors == n_debts {
-                new_branches.retain(|b| (**b).is_vertex() );
+            if n_rem_factors <= n_debts {
+                new_branches.retain(|b| n_rem_factors == n_debts && (**b).is_vertex() && unpaid_edges.iter().any(|&e| (**b).is_disrespected_by(e, &self.factor_pool)) );
             }
 
             // Similarly if the 'n_rem_factors' is 1, then we cannot add a non-order-respecting edge that is in the maximal tree anymore.
diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 10f7eb7..e0bab70 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1359,12 +1359,14 @@ impl CubeFactor {
         return j - i == 1
     }
 
-    pub fn is_disrespected_by(self, other: CubeFactor) -> bool {
+    pub fn is_disrespected_by(self, other: CubeFactor, graph: &RawSimpleGraph) -> bool {
         // 'self' must be a vertex, and 'other' has to be an edge
         let [i, j] = other.edge();
         let k = self.vertex();
 
-        i<k && k<j
+        // only the vertices adjacent to the terminal of 'other' in the maximal tree are disrespected. 
+        // The ones deeper in a smaller branch do not wait for the terminal.
+        i<k && k<j && self.flow(graph).terminal() == other.terminal()
     }
 
     pub fn is_blocked(self, factors: &[CubeFactor], graph: &RawSimpleGraph) -> bool {
-- 
2.43.0


From 1914e50eb37d425028b2acea3e01d2784a7bec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 38/46] fix: UdnMorseCplx offered vertices that are not blocked
 as factors of critical cells

---
 topo_spaces/src/cubical.rs | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index bca8527..5089894 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -905,33 +905,13 @@ impl UdnMorseCplx {
         // for each branch...
         for (idx, branch) in new_branch_indeces.into_iter().zip( new_branches.iter() ) {
             let curr_factor = **branch;
+            // modify 'possible_factors' for the factors downstairs: a vertex becomes possible once it is blocked by 'curr_factor' (no edges will be added).
             // record the factors added to 'possible_factors' in order to recover it later.
-            let mut factors_added = Vec::new(); 
-
-            // modify 'possible_factors' for the factors downstairs.
-            if curr_factor.is_vertex() { 
-                let new_vertex = curr_factor.vertex()+1;
-                if new_vertex < self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex( curr_factor.vertex()+1 ) ); }
-            } else if curr_factor.is_in_maximal_tree(&self.factor_pool) {
-                // Coming here means that 'curr_factor' is an edge in the maximal tree.
-                let [_, j] = curr_factor.edge(); // get two ends of the edge
-                // add vertices (no edges will be added)
-                self.factor_pool
-                    .vertex_iter()
-                    .filter(|&v| v > curr_factor.terminal())
-                    .filter(|&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
-                    .for_each(|factor| factors_added.push(factor) ); 
-                if j+1<self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex(j+1) )}; // add a vertex blocked by the initial vertex of the edge
-            } else {
-                // Coming here means that 'curr_factor' is an edge not in the maximal tree.
-                let [_, j] = curr_factor.edge(); // get two ends of the edge
-                // add vertices (no edges will be added)
-                self.factor_pool
-                    .vertex_iter()
-                    .filter(|&v| v > curr_factor.terminal())
-                    .filter( |&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
-                    .for_each(|factor| factors_added.push(factor) ); 
-            }
+            let factors_added = self.factor_pool
+                .vertex_iter()
+                .filter(|&v| v != CubeFactor::Vertex(0) )
+                .filter(|&v| !v.flow(&self.factor_pool).terminal().is_disjoint_from(curr_factor) )
+                .collect::<Vec<_>>();
 
             factors_added.iter().for_each( |&factor| possible_factors.add( factor ));
 
-- 
2.43.0


From 995b26183c080619840a43609e3322aba494c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 39/46] fix: delaunay_triangulation panicked without points

---
 geom/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom/src/lib.rs b/geom/src/lib.rs
index 75ae283..1e38d06 100644
--- a/geom/src/lib.rs
+++ b/geom/src/lib.rs
@@ -63,7 +63,7 @@ pub fn delaunay_triangulation(points: &[ConstVector<f64, 2>]) -> (Vec<Triangle>,
         let r = points.iter()
             .map(|p| (*p-center).two_norm())
             .max_by(|p, q| p.partial_cmp(q).unwrap())
-            .unwrap()
+            .unwrap_or(0.0)
              + 1_f64;
         let p1 = center + ConstVector::<f64, 2>::from( [0_f64, 2.0*r] );
         let p2 = center + ConstVector::<f64, 2>::from( [3_f64.sqrt()*r, -r] );
-- 
2.43.0


From 8df6fc6ab082fb46cd63a561b6eb1edbc007a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 40/46] fix: delaunay_triangulation missed triangles at the
 boundary of the convex hull

---
 geom/src/lib.rs | 53 +++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/geom/src/lib.rs b/geom/src/lib.rs
index 1e38d06..49dd04a 100644
--- a/geom/src/lib.rs
+++ b/geom/src/lib.rs
@@ -56,37 +56,42 @@ impl Triangle {
 }
 
 pub fn delaunay_triangulation(points: &[ConstVector<f64, 2>]) -> (Vec<Triangle>, Vec<[usize; 3]>) {
-    let original_points = {
-        let center = points.iter()
-            .fold(ConstVector::<f64, 2>::zero(), |accum, x| accum+*x )
-            / points.len() as f64;
-        let r = points.iter()
-            .map(|p| (*p-center).two_norm())
-            .max_by(|p, q| p.partial_cmp(q).unwrap())
-            .unwrap_or(0.0)
-             + 1_f64;
-        let p1 = center + ConstVector::<f64, 2>::from( [0_f64, 2.0*r] );
-        let p2 = center + ConstVector::<f64, 2>::from( [3_f64.sqrt()*r, -r] );
-        let p3 = center + ConstVector::<f64, 2>::from( [-3_f64.sqrt()*r, -r] );
-        [p1,p2,p3]
+    // twice the signed area of the triangle 'a', 'b', 'c'
+    let area = |a: ConstVector<f64, 2>, b: ConstVector<f64, 2>, c: ConstVector<f64, 2>| {
+        (b[0]-a[0]) * (c[1]-a[1]) - (b[1]-a[1]) * (c[0]-a[0])
     };
-    
-    let index = |i: usize| {
-        if i<points.len(){
-            points[i]
-        } else {
-            original_points[i-points.len()]
+
+    // start from the first three points that are not on a line
+    let first = points.iter().position(|&p| p != points[0]).and_then(|j|
+        points.iter().position(|&p| area(points[0], points[j], p) != 0.0).map(|k| [0, j, k])
+    );
+    let Some(mut first) = first else { return (Vec::new(), Vec::new()) };
+    first.sort();
+    let interior = (points[first[0]] + points[first[1]] + points[first[2]]) / 3.0;
+
+    // 'infinity' is a vertex joined to every edge on the boundary of the convex hull.
+    // The circum circle of [a, b, infinity] is the outer side of the edge [a, b].
+    let infinity = points.len();
+    let circum_circle_contains = |t: [usize; 3], p: ConstVector<f64, 2>| {
+        if t[2] != infinity {
+            return Triangle::new([points[t[0]], points[t[1]], points[t[2]]]).circum_circle_contains(p);
         }
+        let (a, b) = (points[t[0]], points[t[1]]);
+        let side = area(a, b, p) * area(a, b, interior).signum();
+        side < 0.0 || ( side == 0.0 && (0..2).map(|i| (p[i]-a[i]) * (p[i]-b[i])).sum::<f64>() < 0.0 )
     };
 
-    let original_triangle = [points.len(), points.len()+1, points.len()+2];
-    let mut triangulation: Vec<[usize; 3]> = vec![original_triangle];
+    let mut triangulation: Vec<[usize; 3]> = vec![
+        first, 
+        [first[0], first[1], infinity], 
+        [first[0], first[2], infinity], 
+        [first[1], first[2], infinity],
+    ];
 
-    for i in 0..points.len() {
+    for i in (0..points.len()).filter(|i| !first.contains(i)) {
         let mut bad_triangles = Vec::new();
         for &t in &triangulation {
-            let triangle = Triangle::new([index(t[0]), index(t[1]), index(t[2])]);
-            if triangle.circum_circle_contains(points[i]) {
+            if circum_circle_contains(t, points[i]) {
                 bad_triangles.push( t );
             }
         }
-- 
2.43.0


From 8d8469d3d36c81ea1cfede15b4a2ccc7343138bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 41/46] fix: circum_circle_contains put cocircular points
 inside, giving overlapping triangles

---
 geom/src/lib.rs | 50 ++++++++++---------------------------------------
 1 file changed, 10 insertions(+), 40 deletions(-)

diff --git a/geom/src/lib.rs b/geom/src/lib.rs
index 49dd04a..e0e19ae 100644
--- a/geom/src/lib.rs
+++ b/geom/src/lib.rs
@@ -1,20 +1,7 @@
-use alg::lin_alg::{ConstVector, ConstMatrix};
+use alg::lin_alg::ConstVector;
 use util::TupleIterable;
 
 
-#[derive(Clone, Copy, PartialEq)]
-struct Sphere {
-    radius: f64,
-    center: ConstVector<f64, 2>,
-}
-
-impl Sphere {
-    fn contains(&self, p: ConstVector<f64, 2>) -> bool {
-        (p - self.center).two_norm() < self.radius
-    }
-}
-
-
 #[derive(Clone, Copy, PartialEq)]
 pub struct Triangle {
     data: [ConstVector<f64, 2>; 3]
@@ -22,32 +9,15 @@ pub struct Triangle {
 
 impl Triangle {
     pub fn circum_circle_contains(&self, p: ConstVector<f64, 2>) -> bool {
-        let orthogonal = |mut m: ConstVector<f64, 2>| {
-            let tmp = m[0];
-            m[0] = -m[1];
-            m[1] = tmp;
-            m
-        };
-        let inverse = |m: ConstMatrix<f64, 2, 2>| {
-            let det = m[0][0] * m[1][1] - m[1][0] * m[0][1];
-            ConstMatrix::from(
-                [[ m[1][1], -m[0][1]],
-                [-m[1][0],  m[0][0]]]
-            ) / det
-        };
-        let a = self.data[0] + (self.data[1]-self.data[0]) / 2.0;
-        let b = orthogonal( self.data[1]-self.data[0] );
-        let c = self.data[0] + (self.data[2]-self.data[0]) / 2.0;
-        let d = orthogonal( self.data[2]-self.data[0] );
-        
-        let m = ConstMatrix::from([b, d*(-1.0)]);
-        let m_inv = inverse(m);
-        let t = m_inv[0][0] * (c-a)[0] + m_inv[0][1] * (c-a)[1];
-
-        let center = a + b*t;
-        let radius = (self.data[0] - center).two_norm();
-
-        Sphere { radius, center }.contains(p)
+        // compare signs of two determinants: unlike the distance to a computed center, 
+        // this leaves no rounding error for points with short coordinates, so that ties are recognized
+        let [a, b, c] = self.data.map( |q| q - p );
+        let cross = |u: ConstVector<f64, 2>, v: ConstVector<f64, 2>| u[0] * v[1] - u[1] * v[0];
+        let square = |u: ConstVector<f64, 2>| u[0] * u[0] + u[1] * u[1];
+
+        let in_circle = square(a) * cross(b, c) + square(b) * cross(c, a) + square(c) * cross(a, b);
+        let orientation = cross(b-a, c-a);
+        (in_circle > 0.0 && orientation > 0.0) || (in_circle < 0.0 && orientation < 0.0)
     }
 
     pub fn new(data: [ConstVector<f64, 2>; 3]) -> Self {
-- 
2.43.0


From 3adff7de7c1dedc7b000da8c0d3baa2746f8457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 42/46] fix: matrices with a side beyond 16 bits were given
 another shape

---
 alg/src/lin_alg/matrix_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 10c3eeb..5eae093 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -592,6 +592,9 @@ impl<T: PID> Matrix<T> {
     }
 
     fn new(n: usize, m: usize) -> Self {
+        // sizes and offsets must fit in the metadata of a submatrix
+        assert_eq!( extract(compress((n, m), (m, 1))), ((n, m), (m, 1)), "The matrix of size {:?} is too large.", (n, m) );
+
         let mut mat = Matrix {
             ptr: ptr::NonNull::dangling(),
             _marker: PhantomData,
-- 
2.43.0


From 55ba9c1654eca61d5c75339e7d2b57411d9728eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 43/46] fix: n_cells_of_dim overflowed for simplices with more
 than 20 vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 121e4a1..10fd995 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -284,7 +284,8 @@ impl<T: VertexLabel> SimplicialCplx<T>
             if x < y {
                 0
             } else {
-                (x-y+1..=x).product::<usize>() / (1..=y).product::<usize>()
+                // dividing in each step, so that the intermediate values stay small
+                (0..y.min(x-y)).fold(1, |accum, i| accum * (x-i) / (i+1))
             }
         };
 
-- 
2.43.0


From 5d81e340539f6c3ee9b4564a5f055f1906bccaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:28 +0000
Subject: [PATCH 44/46] fix: accumulate the reflections of a Francis step when
 the operation is asked for

---
 alg/src/lin_alg/matrix_impl.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 5eae093..a7cb723 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1717,7 +1717,7 @@ impl SubMatrix<f64> {
     fn francis_step_with_shifts(&mut self, s: f64, t: f64, return_op: bool) -> Matrix<f64> {
         let n = self.size().0;
 
-        let op = if return_op {
+        let mut op = if return_op {
             Matrix::identity(n)
         } else {
             Matrix::identity(1)
@@ -1743,6 +1743,10 @@ impl SubMatrix<f64> {
             self[(0..r, k..k+3)].write_and_move(
                 update
             );
+            if return_op {
+                let update = &op[(.., k..k+3)] - (&op[(.., k..k+3)] * v) * (v.transpose()*b);
+                op[(.., k..k+3)].write_and_move( update );
+            }
             x = self[(k+1, k)];
             y = self[(k+2, k)];
             if k < n-3 {
@@ -1759,6 +1763,10 @@ impl SubMatrix<f64> {
         let update = &self[(0..n, n-2..n)] -
             (&self[(0..n, n-2..n)] * v) * (v.transpose()*b);
         self[(0..n, n-2..n)].write_and_move( update );
+        if return_op {
+            let update = &op[(.., n-2..n)] - (&op[(.., n-2..n)] * v) * (v.transpose()*b);
+            op[(.., n-2..n)].write_and_move( update );
+        }
 
         op
     }
-- 
2.43.0


From c0ea0c4a50e4774aa0f0f51bf35d62ca6bc58f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:03 +0000
Subject: [PATCH 45/46] fix: return the operation of the QR iteration and apply
 it to the whole matrix

---
 alg/src/lin_alg/matrix_impl.rs | 52 ++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a7cb723..b1564fa 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1681,15 +1681,25 @@ impl SubMatrix<f64> {
 
 
     pub fn hessenberg_form(&mut self) {
+        self.raw_hessenberg_form(false);
+    }
+
+    fn raw_hessenberg_form(&mut self, return_op: bool) -> Matrix<f64> {
         if self.size().0 != self.size().1 {
             panic!("Input to this function must be a square matrix.");
         }
 
-        if self.size().0 < 2 {
-            return;
+        let n = self.size().0; // = self.size().1
+        let mut op = if return_op {
+            Matrix::identity(n)
+        } else {
+            Matrix::identity(1)
+        };
+
+        if n < 2 {
+            return op;
         }
 
-        let n = self.size().0; // = self.size().1
         for k in 0..n-2 {
             let (v, b) = self[(k+1..n, k)].householder_vec();
             let v = &*v;
@@ -1700,7 +1710,14 @@ impl SubMatrix<f64> {
 
             let update = &self[(0..n, k+1..n)] - (&self[(0..n, k+1..n)]*v)*v_t*b;
             self[(0..n, k+1..n)].write_and_move( update );
+
+            if return_op {
+                let update = &op[(0..n, k+1..n)] - (&op[(0..n, k+1..n)]*v)*v_t*b;
+                op[(0..n, k+1..n)].write_and_move( update );
+            }
         };
+
+        op
     }
 
     pub fn raw_francis_step(&mut self, return_op: bool) -> Matrix<f64> {
@@ -1789,12 +1806,7 @@ impl SubMatrix<f64> {
             return Matrix::identity(1);
         }
 
-        self.hessenberg_form();
-        let mut op = if returns_op {
-            Matrix::identity(n)
-        } else {
-            Matrix::identity(1)
-        };
+        let mut op = self.raw_hessenberg_form(returns_op);
 
         let tolerance = 0.000000000000001;
         let mut n_steps = 0;
@@ -1820,16 +1832,26 @@ impl SubMatrix<f64> {
             if q<n {
                 debug_assert!( (n-q)-p > 2);
                 n_steps += 1;
-                if n_steps % 10 == 0 {
+                let step_op = if n_steps % 10 == 0 {
                     // a matrix can be a fixed point of the usual step, so use exceptional shifts once in a while
                     let w = self[(n-q-1, n-q-2)].abs() + self[(n-q-2, n-q-3)].abs();
-                    let step_op = self[(p..n-q, p..n-q)].francis_step_with_shifts(1.5*w, w*w, returns_op);
-                    if returns_op { op = op * step_op; }
-                } else if returns_op {
-                    op = op * self[(p..n-q, p..n-q)].francis_step_with_op();
+                    self[(p..n-q, p..n-q)].francis_step_with_shifts(1.5*w, w*w, returns_op)
                 } else {
-                    self[(p..n-q, p..n-q)].francis_step();
+                    self[(p..n-q, p..n-q)].raw_francis_step(returns_op)
                 };
+                if returns_op {
+                    // the step changed the block only, so change the rest of its rows and columns as well
+                    if p > 0 {
+                        let update = &self[(0..p, p..n-q)] * &*step_op;
+                        self[(0..p, p..n-q)].write_and_move( update );
+                    }
+                    if q > 0 {
+                        let update = (*step_op).transpose() * &self[(p..n-q, n-q..n)];
+                        self[(p..n-q, n-q..n)].write_and_move( update );
+                    }
+                    let update = &op[(0..n, p..n-q)] * &*step_op;
+                    op[(0..n, p..n-q)].write_and_move( update );
+                }
             }
         };
 
-- 
2.43.0


From b97c3049adb776447009920665af766a79229de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 46/46] fix: release the nodes of a sparse matrix without
 recursion

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index d785013..e829982 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -170,6 +170,24 @@ impl<T: PID> SparseMatrix<T> {
     }
 }
 
+// The nodes are released one by one: releasing the first node of a row or of a column would otherwise
+// recurse through all the nodes after it and overflow the stack if there are many of them.
+impl<T: PID> Drop for SparseMatrix<T> {
+    fn drop(&mut self) {
+        let mut ptrs: Vec<_> = self.rows.drain(..).chain(self.cols.drain(..))
+            .filter(|node| *node != SparseNode::End)
+            .map(|node| node.start_ptr())
+            .collect();
+
+        while let Some(ptr) = ptrs.pop() {
+            if let Ok(SparseNode::Entry(_, _, (next_in_row, next_in_col))) = Rc::try_unwrap(ptr) {
+                ptrs.push(next_in_row);
+                ptrs.push(next_in_col);
+            }
+        }
+    }
+}
+
 impl<'a, T: PID> Iterator for Iter<'a, T> {
     type Item = (usize, &'a T);
     fn next(&mut self) -> Option<Self::Item> {
-- 
2.43.0

