From a271bdf2466dda89d8dd2aaf0ab0b2ab8388b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 01/34] fix: is_prime and n_prime_factors of the integers test
 divisibility by the remainder, not the quotient

---
 alg/src/commutative.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index 213c972..76de01e 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -127,15 +127,15 @@ macro_rules! pid_impl {
         impl PID for $t {
             fn is_prime(self) -> bool {
                 if self == Self::zero() || self == Self::one() { return false; }
-                (2..self).all(|x| self/x != 0)
+                (2..self).all(|x| self%x != 0)
             }
 
             fn n_prime_factors(self) -> usize {
                 if self.is_prime() { return 1; }
                 let mut count = 0;
-                (0..self).filter(|&x| x.is_prime()).filter(|&x| self/x == 0).for_each(|x|{
+                (0..self).filter(|&x| x.is_prime()).filter(|&x| self%x == 0).for_each(|x|{
                     let mut num = self;
-                    while num/x==0 {
+                    while num%x==0 {
                         count += 1;
                         num /= x;
                     }
-- 
2.43.0


From 7f8fe48fcd2487b241b531a9f06c9c9a71f183f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 02/34] fix: the negative of the rational zero is the canonical
 zero

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 66fd8a7..51b5a86 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -179,7 +179,7 @@ op_assign_impl!( Rational, DivAssign, div_assign, Div, div );
 impl Neg for Rational {
     type Output = Rational;
     fn neg(mut self) -> Self::Output {
-        self.sign = !self.sign;
+        self.sign = !self.sign || self.numerator == 0;
         self
     }
 }
-- 
2.43.0


From 87f2f4a9a9d382a98c9a6402484d63b3c3e3545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 03/34] fix: comparing two zero rationals no longer divides by
 zero

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 51b5a86..357a3fa 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -66,7 +66,7 @@ impl Rational {
 
 impl Ord for Rational {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        let gcd_of_n = gcd(self.numerator, rhs.numerator);
+        let gcd_of_n = gcd(self.numerator, rhs.numerator).max(1);
         let gcd_of_d = gcd(self.denominator, rhs.denominator);
         let a = (self.numerator/gcd_of_n) * (rhs.denominator/gcd_of_d);
         let b = (rhs.numerator/gcd_of_n) * (self.denominator/gcd_of_d);
-- 
2.43.0


From 26078a7e466f6dea26b6a40f2f8306b6719ce735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 04/34] fix: the product of rationals starts from one

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 357a3fa..e72dd71 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -211,7 +211,7 @@ impl Sum for Rational {
 
 impl Product for Rational {
     fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
-        iter.fold(Rational::zero(), |accum, a| accum * a)
+        iter.fold(Rational::one(), |accum, a| accum * a)
     }
 }
 
-- 
2.43.0


From 1420b43978086259db7db4c334fcbff2cd865312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 05/34] fix: Rational::new accepts i64::MIN

---
 alg/src/commutative/rational_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index e72dd71..73afae2 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -23,8 +23,8 @@ impl Rational {
         if d == 0 { panic!("Denumerators cannot be zero!") };
 
         let mut r = Rational {
-            numerator: n.abs() as u64,
-            denominator: d.abs() as u64,
+            numerator: n.unsigned_abs(),
+            denominator: d.unsigned_abs(),
             sign: (n>=0) == (d>=0),
         };
 
-- 
2.43.0


From b6eae3c4b5d4ac7babc889d0055a83031ccdabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 06/34] fix: Permutation::swap of an empty range is the
 identity, and adjacent ranges may come in either order

---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f45bf0b..c0e2598 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -196,13 +196,13 @@ impl Permutation {
 
     pub fn swap(r1: std::ops::Range<usize>, r2: std::ops::Range<usize>) -> Self {
         // trivial cases:
-        if r1.is_empty() || r2.is_empty() { Self::identity(); }
+        if r1.is_empty() || r2.is_empty() { return Self::identity(); }
 
         // Two input ranges must be disjoint
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
 
         // Now r1.end <= r2.start || r2.end <= r1.start, i.e. two ranges are disjoint
-        if r2.end < r1.start { return Self::swap(r2, r1) };
+        if r2.end <= r1.start { return Self::swap(r2, r1) };
 
         // Now r1.end <= r2.start
         let r1_size = r1.end - r1.start;
-- 
2.43.0


From d95d9e6a2f7305fd1157a38a1fdfef9c44f56e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 07/34] fix: a negative power of a permutation is a power of
 the inverse

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index c0e2598..54553b7 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -391,7 +391,7 @@ impl BitXor<i64> for Permutation {
             (1..=power).map(|_| self.clone()).product()
         } else { // if 'power < 0'
             let inv = self.inverse();
-            (1..=power).map(|_| inv.clone()).product()
+            (0..power.unsigned_abs()).map(|_| inv.clone()).product()
         }
     }
 }
-- 
2.43.0


From 348af56365f514e06f7b252fdd7c06eb621fdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 08/34] fix: the inverse of ConstPermutation and VecPermutation
 was the zero map

---
 alg/src/non_commutative/permutation.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 54553b7..39679b8 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -657,10 +657,8 @@ impl<const N: usize> Group for ConstPermutation<N> {
 
     fn inverse(self) -> Self {
         let mut out = [0; N];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for i in 0..N {
+            out[self.0[i]] = i;
         }
         ConstPermutation(out)
     }
@@ -761,10 +759,8 @@ impl Group for VecPermutation {
 
     fn inverse(self) -> Self {
         let mut out = vec![0; self.0.len()];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for i in 0..self.0.len() {
+            out[self.0[i]] = i;
         }
         Self(out)
     }
-- 
2.43.0


From 8ed70220acdb36be93b25faa2bf6a251b6f9f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 09/34] fix: VecPermutation::order terminates

---
 alg/src/non_commutative/permutation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 39679b8..f5b2d84 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -774,7 +774,8 @@ impl VecPermutation {
     pub fn order(self) -> usize {
         let mut order = 1;
         let mut power = self.clone();
-        let id = Self::identity();
+        // 'identity()' is the empty list, but the powers of 'self' keep the length of 'self'
+        let id = Self((0..self.0.len()).collect());
         
         while power != id {
             power *= self.clone();
-- 
2.43.0


From 717dd2526706f7dc5626ef2c99d5b8cf3c873edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 10/34] fix: the empty cycle is the identity

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f5b2d84..ac2300a 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -42,7 +42,7 @@ impl Cycle {
     }
 
     pub fn from(data: Vec<usize>) -> Cycle {
-        if data.len() == 1 { return Cycle::identity(); }
+        if data.len() <= 1 { return Cycle::identity(); }
 
         let mut cycle = Cycle {
             data: data,
-- 
2.43.0


From fb5679482203bce3b70d162d2ec7611cfcaac782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 11/34] fix: merge_by merges in order, so sums of four and more
 vectors are right

---
 alg/src/lin_alg.rs | 43 +++++++++++++------------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ed91b16..7baec9f 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -291,7 +291,8 @@ struct Merge <T, I, J, F>
         J: Iterator<Item = T>,
         F: Fn(&T, &T)->Ordering
 {
-    curr: Option<T>,
+    curr_i: Option<T>,
+    curr_j: Option<T>,
     i: I,
     j: J,
     f: F
@@ -305,41 +306,23 @@ impl<T, I, J, F> Iterator for Merge<T, I, J, F>
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut self_curr = None;
-        std::mem::swap(&mut self_curr, &mut self.curr);
-        if let Some(mut curr) = self_curr {
-            if let Some(mut next) = self.i.next() {
-                if (self.f)(&curr, &next) == Ordering::Less {
-                    std::mem::swap( &mut next, &mut curr );
-                }
-                self.curr = Some(curr);
-                Some(next)
-            } else if let Some(next) = self.j.next() { 
-                self.curr = Some(next);
-                Some(curr)
-            } else {
-                self.curr = None;
-                Some(curr)
-            }
+        let takes_i = match (&self.curr_i, &self.curr_j) {
+            (Some(x), Some(y)) => (self.f)(x, y) != Ordering::Greater,
+            (x, _) => x.is_some(),
+        };
+        if takes_i {
+            std::mem::replace(&mut self.curr_i, self.i.next())
         } else {
-            None
+            std::mem::replace(&mut self.curr_j, self.j.next())
         }
     }
 }
 
 fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(mut i: I, mut j: J, f: F) -> impl Iterator<Item = T> {
-    if let Some(next) = j.next() {
-        Merge{
-            curr: Some(next), 
-            i, j, f
-        }
-    } else {
-        Merge{
-            curr: i.next(),
-            i,
-            j,
-            f,
-        }
+    Merge {
+        curr_i: i.next(),
+        curr_j: j.next(),
+        i, j, f
     }
 }
 
-- 
2.43.0


From 20605b5bc249eb0a542b2343fb0dff31a31aa4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 12/34] fix: Vector::from collects repeated basis elements into
 one term

---
 alg/src/lin_alg.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 7baec9f..be7b250 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -189,16 +189,22 @@ impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> Vector<Coeff, Basis> {
 }
 
 impl<const N: usize, Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<[Basis; N]> for Vector<Coeff, Basis> {
-    fn from(mut summands: [Basis; N]) -> Self {
-        summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+    fn from(summands: [Basis; N]) -> Self {
+        Self::from(summands.into_iter().collect::<Vec<_>>())
     }
 }
 
 impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<Vec<Basis>> for Vector<Coeff, Basis> {
     fn from(mut summands: Vec<Basis>) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        let mut out: Vec<(Coeff, Basis)> = Vec::new();
+        for b in summands {
+            match out.last_mut() {
+                Some((coeff, last)) if *last == b => *coeff += Coeff::one(),
+                _ => out.push((Coeff::one(), b)),
+            }
+        }
+        Vector(out)
     }
 }
 
-- 
2.43.0


From 9ac904d947662b929ed190327ef755b7e049cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 13/34] fix: Matrix::from_array rejects rows of different
 lengths

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a520155..c25932b 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -657,7 +657,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid. Matrix must have positive dimension!")
         }
         let size = (v.len(), v[0].len());
-        if v.iter().map(|x| x.len()).all(|len| len != size.1) {
+        if v.iter().map(|x| x.len()).any(|len| len != size.1) {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-- 
2.43.0


From 76f23934314cdd874cc1391708c41a3e56d3ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 14/34] fix: comparing a SubMatrix to a Matrix recursed forever

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index c25932b..cfe69c3 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -574,7 +574,7 @@ impl<T: PID> cmp::PartialEq for SubMatrix<T> {
 
 impl<T: PID> cmp::PartialEq<Matrix<T>> for SubMatrix<T> {
     fn eq(&self, rhs: &Matrix<T>) -> bool {
-        self == rhs
+        *self == **rhs
     }
 }
 
-- 
2.43.0


From 6b9ca288f883f0df245d75949c152cf8e0b963aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 15/34] fix: the slice under a submatrix was too long, and
 underflowed for an empty one

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index cfe69c3..6b1c143 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -61,7 +61,7 @@ pub const fn submatrix_from_raw_parts_mut<T: ?Sized>(
 #[inline]
 pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = if size.0 == 0 || size.1 == 0 { 0 } else { (size.0 - 1) * offsets.0 + (size.1 - 1) * offsets.1 + 1 };
     let data_address = unsafe{ PtrRepr{const_ptr: m as *const SubMatrix<T>}.components.data_address};
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.const_ptr }
 }
@@ -69,7 +69,7 @@ pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
 #[inline]
 pub fn slice_from_sub_matrix_mut<T: PID>(m: &mut SubMatrix<T>) -> *mut [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = if size.0 == 0 || size.1 == 0 { 0 } else { (size.0 - 1) * offsets.0 + (size.1 - 1) * offsets.1 + 1 };
     let data_address = unsafe{ PtrRepr{ mut_ptr: m as *mut SubMatrix<T> }.components.data_address };
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
-- 
2.43.0


From 485e4b90894a09d3a3a84f61a0e983ee8588d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 16/34] fix: reject matrices whose size does not fit the
 submatrix metadata

---
 alg/src/lin_alg/matrix_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 6b1c143..580df27 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -592,6 +592,7 @@ impl<T: PID> Matrix<T> {
     }
 
     fn new(n: usize, m: usize) -> Self {
+        assert_eq!( extract(compress((n, m), (m, 1))), ((n, m), (m, 1)), "a matrix of size ({n}, {m}) is too large" );
         let mut mat = Matrix {
             ptr: ptr::NonNull::dangling(),
             _marker: PhantomData,
-- 
2.43.0


From a87b375e2709e0b56c5aacee6dae078cab826249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 17/34] fix: smith_normal_form returned a wrong inverse column
 operation

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 580df27..4990a01 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1059,7 +1059,7 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
                 // A column operation to eliminate the entry at (r, s)
                 self.col_operation(s, r, -w * y);
                 c_op.col_operation(s, r, -w * y);
-                c_op_inv.row_operation(s, r, w * y);
+                c_op_inv.row_operation(r, s, w * y);
 
                 debug_assert!(self[(r,r)]==gcd);
                 debug_assert!(self[(r,s)]==T::zero());
-- 
2.43.0


From 284eec4fb436965a4a89ffba454d2dd82907fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 18/34] fix: rank_as_linear_map missed pivots

---
 alg/src/lin_alg/matrix_impl.rs | 46 +++++++++++++---------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 4990a01..7791d56 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1078,40 +1078,28 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
 impl <T:Field+Copy> Matrix<T> {
     pub fn rank_as_linear_map(&self) -> usize {
         let mut clone = self.clone();
-        let shorter_side = std::cmp::min(self.size().0, self.size().1);
-        let mut skipped = 0;
-        for k in 0..shorter_side {
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
-                match result {
-                    Some(j) => clone.col_operation(k, j, T::one()),
-                    None => (),
-                }
-            }
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
-                match result {
-                    Some(i) => clone.row_operation(k, i, T::one()),
-                    None => {
-                        skipped += 1;
-                        continue;
-                    },
-                }
-            }
+        let mut rank = 0;
+        for j in 0..self.size().1 {
+            if rank == self.size().0 { break; }
 
-            // Now we have the nonzero element in (k, k)
-            let coeff = T::one() / clone[(k,k)];
-            clone.row_operation(k, k, coeff - T::one()); // Fix
+            // bring a nonzero element of the 'j'th column to 'rank'th row, if there is any
+            let pivot = (rank..self.size().0).find(|&i| clone[(i, j)] != T::zero() );
+            match pivot {
+                Some(i) => clone.swap_rows(rank, i),
+                None => continue,
+            }
 
-            for l in k+1..self.size().0 {
-                let minus_one = T::zero() - T::one();
-                let a_lk = clone[(l,k)];
-                if a_lk == T::zero() { continue; } 
-                clone.row_operation(l, k, minus_one * a_lk);
+            // eliminate the elements below
+            for l in rank+1..self.size().0 {
+                let a_lj = clone[(l, j)];
+                if a_lj == T::zero() { continue; }
+                let ratio = a_lj / clone[(rank, j)];
+                clone.row_operation(l, rank, T::zero() - ratio);
             }
+            rank += 1;
         };
 
-        shorter_side - skipped
+        rank
     }
 }
 
-- 
2.43.0


From 7d8d92d79e26baf9cf4b12f1c1ae54aca34bec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 19/34] fix: iterating over an empty SparseMatrix panicked

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 459edfa..18ceacb 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -32,6 +32,7 @@ impl<T: PID> SparseNode<T> {
     fn start_node_idx(&self) -> usize {
         match self {
             Self::Start(i, _) => *i,
+            Self::End => usize::MAX, // the placeholder in the 'rows' and 'cols' of the zero matrix
             _ => panic!("Failed to unwwrap: The node is not a start node.")
         }
     }
-- 
2.43.0


From dcbed03db24df413cc9ea5a37b3f1294f1a9bd8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 20/34] fix: a simplicial cell contained every cell that agrees
 with it on its first words

After the 64th vertex, attach skipped new simplices as already contained.
---
 topo_spaces/src/simplicial/mod_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d099d4f..d345dc8 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -109,6 +109,7 @@ impl SimplicialCell {
 
     pub fn contains(&self, cell: &SimplicialCell) -> bool {
         self.vertices.iter().zip(cell.vertices.iter()).all(|(&x, &y)| x | y == x)
+            && cell.vertices.iter().skip(self.vertices.len()).all(|&y| y == 0)
     }
 
     pub fn get_face(&self) -> Vec<SimplicialCell> {
-- 
2.43.0


From f3ce308685d1830bf23b9fd34d61b3f8d9e0a1fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 21/34] fix: SimplicialCell::join dropped vertices beyond the
 shorter cell

is_connected was wrong for complexes with 64 and more vertices.
---
 topo_spaces/src/simplicial/mod_impl.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d345dc8..450d0e7 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -51,10 +51,9 @@ impl SimplicialCell {
     }
 
     pub fn join(&mut self, cell: &SimplicialCell) {
-        self.vertices = self.vertices
-            .iter()
-            .zip(cell.vertices.iter()).map(|(&x, &y)| x | y)
-            .collect();
+        self.vertices
+            .iter_mut()
+            .zip(cell.vertices.iter()).for_each(|(x, &y)| *x |= y);
             
         if cell.vertices.len() > self.vertices.len() { 
             (self.vertices.len()..cell.vertices.len()).
-- 
2.43.0


From 61a1695a4f2fb855c4bf5e018b5f43ebc924877b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 22/34] fix: new_from_zero_skeleton panicked for three and more
 vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 450d0e7..5267bd4 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -164,7 +164,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             size: vertices_labels.len(),
             maximal_cells: 
                 (0..vertices_labels.len())
-                .map(|x| SimplicialCell::new(1, vec![x]))
+                .map(|x| SimplicialCell::new(x+1, vec![x]))
                 .collect(),
             vertices_labeling: vertices_labels,
         }
-- 
2.43.0


From e5206ed6a6cf560399a9aa63329690bf61da95d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 23/34] fix: n_cells_of_dim overflowed for simplices of
 dimension 20 and more

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 5267bd4..7e6bace 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -276,7 +276,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             if x < y {
                 0
             } else {
-                (x-y+1..=x).product::<usize>() / (1..=y).product::<usize>()
+                (1..=y).fold(1, |accum, i| accum * (x-y+i) / i)
             }
         };
 
-- 
2.43.0


From ce39dc3bce230803d78e9e843804a7d763bc330b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 24/34] fix: negative elementary divisors made the integral
 homology wrong

The homology of a triangulated sphere was printed with a summand Z_-1.
---
 topo_spaces/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/lib.rs b/topo_spaces/src/lib.rs
index ab5e315..5a02d7c 100644
--- a/topo_spaces/src/lib.rs
+++ b/topo_spaces/src/lib.rs
@@ -89,15 +89,15 @@ impl<T: Complex> IntegralHomology<T>
                 // update the variables for the computation of the lower homology
                 elem_divisors_of_higher_map = Vec::new();
                 (0..rank_of_lower_map).for_each(|i| {
-                    let divisor = boundary_map[( i,i )];
+                    let divisor = boundary_map[( i,i )].abs();
                     if let Some((div, mul)) = elem_divisors_of_higher_map.last_mut()  {
                         if *div == divisor {
                             *mul+=1;
                         } else {
-                            elem_divisors_of_higher_map.push((boundary_map[( i,i )], 1)); 
+                            elem_divisors_of_higher_map.push((divisor, 1)); 
                         }
                     } else {
-                        elem_divisors_of_higher_map.push((boundary_map[( i,i )], 1)); 
+                        elem_divisors_of_higher_map.push((divisor, 1)); 
                     }
                 });
                 rank_of_higher_map = rank_of_lower_map;
-- 
2.43.0


From ea43d518a6ad29a4a1c5913562a3b489800ede31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:10 +0000
Subject: [PATCH 25/34] fix: RawSimpleGraph::new(0) underflowed

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 447cbcb..fd6f0b2 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -255,7 +255,7 @@ pub struct RawSimpleGraph {
 impl RawSimpleGraph {
     pub fn new(n_vertices: usize) -> RawSimpleGraph {
         RawSimpleGraph {
-            data: BinaryPool::new(n_vertices * (n_vertices-1)/2),
+            data: BinaryPool::new(n_vertices * n_vertices.saturating_sub(1) / 2),
             n_vertices: n_vertices,
             is_maximal_tree_chosen: false,
         }
-- 
2.43.0


From e02be344907606339e6c9986dc5fb4d0357b5eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:10 +0000
Subject: [PATCH 26/34] fix: two loops at a vertex were counted as parallel
 non-loop edges

---
 topo_spaces/src/graph.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index fd6f0b2..1f9353d 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -80,13 +80,12 @@ impl<T: PID> Graph<T> {
             data[v_idx][w_idx].push(Edge::new());
 
             // update some members
-            if data[v_idx][w_idx].len() > 1 {
-                n_non_loop_edges_up_to_multiplicity -= 1;
-            } 
             if v_idx == w_idx {
                 n_loops += 1;
                 n_non_loop_edges -= 1;
                 n_non_loop_edges_up_to_multiplicity -= 1;
+            } else if data[v_idx][w_idx].len() > 1 {
+                n_non_loop_edges_up_to_multiplicity -= 1;
             }
         });
 
-- 
2.43.0


From 036d5861056fe0eb99d3148a0896646b31670478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:10 +0000
Subject: [PATCH 27/34] fix: edge_iter yielded the edge (0, 1) even if the
 graph does not contain it

---
 topo_spaces/src/graph.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 1f9353d..2707c6a 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1473,11 +1473,13 @@ impl<'a> Iterator for EdgeIter<'a> {
 #[allow(unused)]
 impl<'a> RawSimpleGraph {
     pub fn edge_iter(&'a self) -> EdgeIter<'a> {
-        let edge = (0, 1);
+        let first_edge = (1..self.n_vertices())
+            .flat_map(|j| (0..j).rev().map(move |i| (i, j)))
+            .find(|&(i, j)| self.contains(i, j));
         EdgeIter {
             graph: self,
-            curr: edge,
-            is_done: self.n_vertices() < 2,
+            curr: first_edge.unwrap_or((0, 1)),
+            is_done: first_edge.is_none(),
         }
     }
 
-- 
2.43.0


From 6dbce1383fb6d1842d83cf5c5e28d285041cb336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:10 +0000
Subject: [PATCH 28/34] fix: the middle of an edge subdivided for two marked
 points was placed at its end

---
 topo_spaces/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 2707c6a..b77b736 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1146,11 +1146,11 @@ impl SimpleGraph {
 
                 for (k, edge) in graph.data[i][j].iter().enumerate() {
                     subdivided_graph.data.add_edge(i, subdivided_graph.n_vertices());
-                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_marked_points-1))));
+                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_mid_vertices+1))));
 
                     for l in 2..=n_mid_vertices {
                         subdivided_graph.data.add_edge(subdivided_graph.n_vertices()-1, subdivided_graph.n_vertices());
-                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_marked_points-1))));
+                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_mid_vertices+1))));
                     }
 
                     subdivided_graph.data.add_edge(j, subdivided_graph.n_vertices()-1);
-- 
2.43.0


From b0149c620f4ff980d3a7fc96eddbba7b06027314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:10 +0000
Subject: [PATCH 29/34] fix: the last branch at a vertex was taken to reach to
 the end of the graph

---
 topo_spaces/src/graph.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index b77b736..b6c25b2 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -878,8 +878,10 @@ impl RawSimpleGraph {
             if self.degree_of(i) <= 2 { continue; }
 
             // Now i is an essential vertex
+            // The branches at i occupy the vertices i+1..subtree_end; the vertices after that are attached to the tree below i.
+            let subtree_end = (i+1..self.n_vertices()).find(|&j| (i..j).all(|k| !self.contains(k, j))).unwrap_or(self.n_vertices());
             let mut start = i+1;
-            let mut branches: Vec<_> = (i+2..self.n_vertices())
+            let mut branches: Vec<_> = (i+2..subtree_end)
                 .filter(|&j| self.contains(i,j) )
                 .filter(|&j| self.maximal_tree_contains([i,j]) )
                 .map(|j| { 
@@ -892,13 +894,13 @@ impl RawSimpleGraph {
 
             // add the last branch
             {
-                let range = start..self.n_vertices();
-                let i_j_is_separating = (0..i).any(|k| (start..self.n_vertices()).any(|l| self.contains(k, l)));
+                let range = start..subtree_end;
+                let i_j_is_separating = (0..i).any(|k| (start..subtree_end).any(|l| self.contains(k, l)));
                 branches.push((range, i_j_is_separating));
             }
 
             // we order the branshes in such a way that any branch with the second element 'false' comes earlier than that with 'true';
-            let mut end = self.n_vertices();
+            let mut end = subtree_end;
             let action = branches.iter()
                 .rev()
                 .filter(|&&(_, i_j_is_separating)| i_j_is_separating)
-- 
2.43.0


From e339bb7720fbe23a265ba4c7e3b89ed0c5a3dd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:53 +0000
Subject: [PATCH 30/34] fix: the boundary maps of CubicalCplx came with empty
 bases

---
 topo_spaces/src/cubical.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index f2bfbad..5bb7708 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -330,13 +330,14 @@ mod cubical_cells {
 impl Complex for CubicalCplx {
     type Cell = Cube;
     fn boundary_map (&self) -> Vec< (Matrix<i64>, Vec<Self::Cell>) > {
-        let basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
+        let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
 
         let mut numbering = vec![0; self.data.len()];
         let mut counter = vec![0; self.dim+1];
         self.final_branch_indeces.iter().for_each(|&idx| {
             numbering[idx] = counter[self.dim_of(idx)];
             counter[self.dim_of(idx)] += 1;
+            basis[self.dim_of(idx)].push( Cube::from(self.get_cell_from_idx(idx).unwrap()) );
         });
 
         // instantiating the boundary maps
-- 
2.43.0


From 9e0bdb2d2bbbdc8cc5b2e0766515eeac61fbf73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:53 +0000
Subject: [PATCH 31/34] fix: reducing a path panicked after the first moves
 canceled

---
 topo_spaces/src/cubical.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 5bb7708..7ca1023 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1162,7 +1162,7 @@ impl EdgePath {
         Self(Vec::new())
     }
     pub fn reduce_to_geodesic(self) -> Self {
-        let mut out = vec![Vec::new()];
+        let mut out: Vec<Vec<[usize; 2]>> = Vec::new();
 
         let commute = |v: &[[usize; 2]], w: &[usize; 2]| -> bool {
             for i in v {
@@ -1208,6 +1208,8 @@ impl EdgePath {
                 } else {
                     out[i+1].push(step);
                 }
+            } else if out.is_empty() {
+                out.push(vec![step]);
             } else {
                 out[0].push(step);
             };
-- 
2.43.0


From 0d1f00108b2e7d49d96dd770752e596eac75948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:53 +0000
Subject: [PATCH 32/34] fix: edges of the maximal tree were taken as critical
 for vertices that do not flow to them

---
 topo_spaces/src/cubical.rs | 8 +++++---
 topo_spaces/src/graph.rs   | 6 ++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 7ca1023..0efb933 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -533,9 +533,9 @@ impl Cube {
             .enumerate()
             .filter(|&(_, &f)| 
                 ( f.is_vertex() && !f.is_blocked(&self, graph) ) || 
-                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f)) ))
+                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_critically_disrespected_by(f, graph)) ))
             )
-            .next();
+            .min_by_key(|&(_, f)| if f.is_edge() { f.edge()[1] } else { f.vertex() });
         match f {
             Some((i, factor)) => if factor.is_vertex() { MorseProp::Redundant(i) } else { MorseProp::Collapsible(i) },
             None => MorseProp::Critical,
@@ -811,7 +811,7 @@ impl UdnMorseCplx {
                 self.factor_iter(branch_idx)
                     .filter(|&factor| factor.is_edge() ) // look only at the edges in the cell
                     .filter(|&factor| factor.is_in_maximal_tree(&self.factor_pool) )
-                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
+                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_critically_disrespected_by(factor, &self.factor_pool) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
                     .collect::<Vec<_>>()
             };
             let upper_bound = {
@@ -862,6 +862,8 @@ impl UdnMorseCplx {
             // Similarly if the 'n_rem_factors' is 1, then we cannot add a non-order-respecting edge that is in the maximal tree anymore.
             if n_rem_factors == 1 {
                 new_branches.retain(|b| (**b).is_vertex() || !(**b).is_in_maximal_tree(&self.factor_pool) );
+                // and the last factor has to pay back every remaining debt.
+                new_branches.retain(|b| unpaid_edges.iter().all(|&edge| (**b).is_vertex() && (**b).is_critically_disrespected_by(edge, &self.factor_pool)) );
             }
 
             // Finally, if the dimention of the cell is already the upper dim, then we cannot add edges. Hence, we will remove them.
diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index b6c25b2..dd023f0 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1368,6 +1368,12 @@ impl CubeFactor {
         i<k && k<j
     }
 
+    // Whether 'self', which must be a vertex, makes the edge 'other' of the maximal tree disrespect the order:
+    // 'self' flows directly to the terminal of 'other' and is smaller than the initial of 'other'.
+    pub fn is_critically_disrespected_by(self, other: CubeFactor, graph: &RawSimpleGraph) -> bool {
+        self.is_disrespected_by(other) && self.flow(graph).terminal() == other.terminal()
+    }
+
     pub fn is_blocked(self, factors: &[CubeFactor], graph: &RawSimpleGraph) -> bool {
         if let CubeFactor::Vertex(v) = self {
             // if this is the basepoint of the tree, then this is trivially blocked.
-- 
2.43.0


From a8ea10d5d22911d4538a99fc43c3731b3dcf37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:53 +0000
Subject: [PATCH 33/34] fix: the first factor of a critical cell was chosen
 without regard to the upper dimension and to the number of points

---
 topo_spaces/src/cubical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 0efb933..085dd31 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -803,7 +803,11 @@ impl UdnMorseCplx {
         // possible factors are provided by upstairs, so just collect them and make new_branches
         let new_branches = if self.data.len()==0 {
             // if 'self.data.len()' is zero, then this is the initial call of this function
-            possible_factors.iter().map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
+            possible_factors.iter()
+                .filter(|&&factor| factor.is_vertex() || upper_dim > 0 )
+                .filter(|&&factor| factor.is_vertex() || n_rem_factors > 1 || !factor.is_in_maximal_tree(&self.factor_pool) )
+                .map(|&factor| Branch::new_parent(factor) )
+                .collect::<Vec<_>>()
         } else {
             // if this is not the initial call, then we need to take care of the upper bound and lower bound when collecting factors
             let unpaid_edges = {
-- 
2.43.0


From 3141bbff1807942a19bea750f73dc45c995454e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 34/34] fix: vertices next to a leaf of the maximal tree were
 taken as blocked

---
 topo_spaces/src/cubical.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 085dd31..12f38e8 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -910,8 +910,8 @@ impl UdnMorseCplx {
 
             // modify 'possible_factors' for the factors downstairs.
             if curr_factor.is_vertex() { 
-                let new_vertex = curr_factor.vertex()+1;
-                if new_vertex < self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex( curr_factor.vertex()+1 ) ); }
+                let new_vertex = CubeFactor::Vertex( curr_factor.vertex()+1 );
+                if new_vertex.vertex() < self.factor_pool.n_vertices() && new_vertex.flow(&self.factor_pool).terminal() == curr_factor { factors_added.push( new_vertex ); }
             } else if curr_factor.is_in_maximal_tree(&self.factor_pool) {
                 // Coming here means that 'curr_factor' is an edge in the maximal tree.
                 let [_, j] = curr_factor.edge(); // get two ends of the edge
@@ -921,7 +921,8 @@ impl UdnMorseCplx {
                     .filter(|&v| v > curr_factor.terminal())
                     .filter(|&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
                     .for_each(|factor| factors_added.push(factor) ); 
-                if j+1<self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex(j+1) )}; // add a vertex blocked by the initial vertex of the edge
+                let new_vertex = CubeFactor::Vertex(j+1);
+                if j+1<self.factor_pool.n_vertices() && new_vertex.flow(&self.factor_pool).terminal() == curr_factor.initial() { factors_added.push( new_vertex )}; // add a vertex blocked by the initial vertex of the edge
             } else {
                 // Coming here means that 'curr_factor' is an edge not in the maximal tree.
                 let [_, j] = curr_factor.edge(); // get two ends of the edge
-- 
2.43.0

