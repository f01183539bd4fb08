From bf9034d2a8c80e16b7c93b2992037afa29527c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:58 +0000
Subject: [PATCH 01/24] fix: clear the whole letter field when setting a letter
 of a tensor key

The mask was shifted by the letter position instead of its bit offset, so key
iteration left stale bits behind (e.g. (3, 3) was followed by (1, 3, 1)).
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8d01534..1a14344 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -112,7 +112,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if letter >= self.size() {
             panic!("Index {} exceeds length of word", letter);
         }
-        let mask = !make_mask(Self::bits_per_letter(), letter);
+        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);
         let mut data = self.data();
         data &= mask;
         data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
-- 
2.43.0


From 12609b91768bb62a39a1129d7eee899a844a702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:58 +0000
Subject: [PATCH 02/24] fix: compute start_of_degree without division by zero
 or overflow

A one letter alphabet divided by zero, and for wide alphabets N^deg overflowed
although the start index itself is representable.
---
 src/free_tensor/tensor_basis/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 6928fdf..f725dd7 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -28,7 +28,13 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     pub(crate) const fn start_of_degree(deg: DegreeType) -> DimensionType
     {
-        (((NLETTERS as DimensionType).pow(deg) - 1) / (NLETTERS as DimensionType - 1)) as DimensionType
+        let mut result: DimensionType = 0;
+        let mut d = 0;
+        while d < deg {
+            result = result * (NLETTERS as DimensionType) + 1;
+            d += 1;
+        }
+        result
     }
 
     pub(crate) const fn degree_range(deg: DegreeType) -> Range<DimensionType>
-- 
2.43.0


From ee57fb415fc68f9900a262a65dcfb804291a590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:58 +0000
Subject: [PATCH 03/24] fix: order tensor words by length before comparing
 letters

Comparing the packed letters only made (1) equal to () and (3) greater than (1, 1).
---
 src/free_tensor/tensor_basis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index f725dd7..dde316a 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -75,7 +75,7 @@ impl<const NLETTERS: DegreeType> OrderedBasis for TensorBasis<NLETTERS> {
     type KeyIterator = TensorBasisIterator<NLETTERS>;
 
     fn compare(lhs: &Self::KeyType, rhs: &Self::KeyType) -> Ordering {
-        Ord::cmp(&lhs.data(), &rhs.data())
+        Ord::cmp(&(lhs.size(), lhs.data()), &(rhs.size(), rhs.data()))
     }
 
     fn iter_keys() -> Self::KeyIterator {
-- 
2.43.0


From 6feefc9ca8e507a3212856003575be96f97d018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:58 +0000
Subject: [PATCH 04/24] fix: displaying a tensor key recursed without end

---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 1a14344..20552c1 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -47,7 +47,7 @@ impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {
 impl<const NLETTERS: u32> Display for TensorKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         // In this case, the displayed key should be the same as the debug output
-        Display::fmt(self, f)
+        Debug::fmt(self, f)
     }
 }
 
-- 
2.43.0


From cc4441ce8d187f74355d5d0d2f5218df2ba7df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:58 +0000
Subject: [PATCH 05/24] fix: reject concatenations beyond the maximum depth

The letters were shifted out silently, giving a key of a length it cannot hold.
A full depth right operand of a 2^31 letter alphabet also overflowed the shift.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 20552c1..a56c39d 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -158,6 +158,13 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub const fn concatenate(&self, other: &Self) -> Self
     {
+        if self.size() + other.size() > Self::max_depth() {
+            panic!("Number of letters exceeds maximum depth");
+        }
+        if self.size() == 0 {
+            // The shift below can be as wide as the data if other is of maximum depth.
+            return Self { size: other.size(), data: other.data() };
+        }
         Self {
             size: self.size() + other.size(),
             data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
-- 
2.43.0


From bf06e420efc0eadc1a95485d3cb4c9ee8615d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:53 +0000
Subject: [PATCH 06/24] fix: dense vectors store inserted coefficients

insert_single dropped the value and insert was unimplemented.
---
 src/vector/implementation/simple_dense_vector.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 2d74d32..ff402d2 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -241,11 +241,17 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     {
         let idx = B::key_to_index(key);
 
+        if idx >= self.size() {
+            self.resize(B::vector_dimension_for_key(key));
+        }
 
+        self.as_mut_slice()[idx] = value.into();
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (key, value) in iterator {
+            self.insert_single(&key, value);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>)
-- 
2.43.0


From 63a87b743b2d4f119cbe030ef3d56dc0222a909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:53 +0000
Subject: [PATCH 07/24] fix: implement swap, to_owned, insert and erase of
 sparse vectors

All four panicked, and with them every operation that copies a vector.
---
 src/vector/implementation/simple_sparse_vector.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 9141516..34133ef 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -2,6 +2,7 @@
 
 use std::collections::{HashMap, hash_map::{Iter as HashMapIter, IterMut as HashMapIterMut}};
 use std::marker::PhantomData;
+use std::mem;
 use std::iter::IntoIterator;
 
 use crate::basis::{Basis};
@@ -107,12 +108,12 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
 
-    fn swap(&mut self, other: impl BorrowMut<Self>) {
-        todo!()
+    fn swap(&mut self, mut other: impl BorrowMut<Self>) {
+        mem::swap(&mut self.0, &mut other.borrow_mut().0);
     }
 
     fn to_owned(&self) -> Self {
-        todo!()
+        Self(self.0.clone(), PhantomData)
     }
 
     fn clear(&mut self) {
@@ -132,11 +133,11 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        self.0.extend(iterator);
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-        todo!()
+        self.0.remove(key.borrow());
     }
 
     fn uminus_inplace(&mut self) -> &mut Self {
-- 
2.43.0


From a0dbd8a594e5312d61d8ed6cedaad0b45416771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:00 +0000
Subject: [PATCH 08/24] fix: sum repeated keys when building a sparse vector

Dense vectors sum them (and a test says so); sparse vectors kept the last one only.
---
 src/vector/implementation/simple_sparse_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 34133ef..a697354 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -103,7 +103,7 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         let mut inner = HashMap::<K, S>::new();
 
         for (key, val) in iterator.into_iter() {
-            inner.insert(key, val);
+            S::add_inplace(inner.entry(key).or_insert(S::ZERO), &val);
         }
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
-- 
2.43.0


From c0be5a834088483044e3df564c1d9ef90e902d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:00 +0000
Subject: [PATCH 09/24] fix: sub_scalar_divide added instead of subtracting for
 stored keys

The scalar is already negative one over the divisor.
---
 src/vector/traits/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/traits/extension.rs b/src/vector/traits/extension.rs
index 307553c..bdda918 100644
--- a/src/vector/traits/extension.rs
+++ b/src/vector/traits/extension.rs
@@ -57,7 +57,7 @@ pub trait VectorKeyExt<'vec> : Vector<'vec> {
     {
         let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::MONE, &val.into());
         if let Some(v) = self.get_mut(key.borrow()) {
-            <Self::ScalarType as CoefficientField>::sub_inplace(v, &sca);
+            <Self::ScalarType as CoefficientField>::add_inplace(v, &sca);
         } else {
             self.insert_single(key.borrow().clone(), sca);
         }
-- 
2.43.0


From 59d3b9de615cbde5cd37567c561b2a133c2eaab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:00 +0000
Subject: [PATCH 10/24] fix: get and get_mut of wrapped vectors recursed
 without end

---
 src/vector/implementation/deref_impl.rs | 30 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/vector/implementation/deref_impl.rs b/src/vector/implementation/deref_impl.rs
index bb0aaae..46a978e 100644
--- a/src/vector/implementation/deref_impl.rs
+++ b/src/vector/implementation/deref_impl.rs
@@ -4,33 +4,37 @@ use std::ops::{Deref, DerefMut};
 use crate::vector::traits::IntoVectorIterator;
 use crate::vector::*;
 
+// The wrapped type is spelled as a projection, rather than as a type parameter of its own,
+// so that it is known to live as long as any reference to the wrapper.
+type Target<V> = <V as Deref>::Target;
 
 
-impl<'vec, U, V> Vector<'vec> for V
-    where V: 'vec + Deref<Target=U> + DerefMut<Target=U> + From<U> + PartialEq,
+
+impl<'vec, V> Vector<'vec> for V
+    where V: 'vec + DerefMut + From<Target<V>> + PartialEq,
           //  + IntoVectorIterator<'vec, U::KeyType, U::ScalarType>,
-          U: Vector<'vec>
+          Target<V>: Sized + Vector<'vec>
 {
-    type BasisType = U::BasisType;
-    type KeyType = U::KeyType;
-    type ScalarType = U::ScalarType;
-    type RationalType = U::RationalType; 
+    type BasisType = <Target<V> as Vector<'vec>>::BasisType;
+    type KeyType = <Target<V> as Vector<'vec>>::KeyType;
+    type ScalarType = <Target<V> as Vector<'vec>>::ScalarType;
+    type RationalType = <Target<V> as Vector<'vec>>::RationalType; 
 
     fn new() -> Self
     {
-        Self::from(U::new())
+        Self::from(Target::<V>::new())
     }
 
     fn from_key(key: impl Into<Self::KeyType>) -> Self {
-        Self::from(U::from_key(key))
+        Self::from(Target::<V>::from_key(key))
     }
 
     fn from_key_scalar(key: impl Into<Self::KeyType>, scalar: impl Into<Self::ScalarType>) -> Self {
-        Self::from(U::from_key_scalar(key, scalar))
+        Self::from(Target::<V>::from_key_scalar(key, scalar))
     }
 
     fn from_iterator(iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) -> Self {
-        Self::from(U::from_iterator(iterator))
+        Self::from(Target::<V>::from_iterator(iterator))
     }
 
     fn swap(&mut self, mut other: impl BorrowMut<Self>) {
@@ -46,11 +50,11 @@ impl<'vec, U, V> Vector<'vec> for V
     }
 
     fn get(&self, key: impl Borrow<Self::KeyType>) -> Option<&Self::ScalarType> {
-        self.borrow().get(key)
+        self.deref().get(key)
     }
 
     fn get_mut(&mut self, key: impl Borrow<Self::KeyType>) -> Option<&mut Self::ScalarType> {
-        self.borrow_mut().get_mut(key)
+        self.deref_mut().get_mut(key)
     }
 
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>) {
-- 
2.43.0


From 0194e12cad373a523fe353e5d0e4a1f1afa7d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:39 +0000
Subject: [PATCH 11/24] fix: in-place tensor products computed wrong and out of
 bounds coefficients

multiply_into_impl never wrote the constant term, paired the wrong degrees,
overwrote coefficients it still needed and subtracted past zero. Compute the
product in a buffer with the out-of-place kernel instead.
---
 src/free_tensor/implementation/dense.rs | 109 ++----------------------
 1 file changed, 6 insertions(+), 103 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 12769a4..f6c1d82 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -78,19 +78,6 @@ mod tensor_mul_impl {
         }
     }
 
-    pub(super) unsafe fn dense_tensor_multiply_inplace<S: CoefficientField>(
-        out: &mut [S],
-        rhs: &[S],
-        func: &mut impl FnMut(&S) -> S
-    )
-    {
-        for out_ptr in out {
-            for rhs_v in rhs {
-                *out_ptr = func(&S::mul(out_ptr, rhs_v));
-            }
-        }
-    }
-
 }
 
 
@@ -322,99 +309,15 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     fn multiply_into_impl(
         &mut self,
         rhs: impl Borrow<Self>,
-        mut func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
+        func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::*;
-
-        let rhs_r = rhs.borrow();
-
-        let lhs_deg = self.degree();
-        let rhs_deg = rhs_r.degree();
-
-        let max_deg = cmp::min(
-            to_degree.expect("Max degree should be set for tensor types"),
-            lhs_deg + rhs_deg
-        );
-
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
-        }
-
-        let (offset, assign) = match rhs_r.as_slice().get(0) {
-            Some(val) if *val == S::ZERO => (1, true),
-            Some(val) if *val == S::ONE => (1, false),
-            _ => (0, true)
-        };
-
-        for out_deg in (1..=max_deg).rev() {
-            let lhs_deg_min = cmp::max(0, out_deg - rhs_deg);
-
-            let lhs_deg_max = cmp::min(out_deg - offset, lhs_deg);
-
-            let mut reduce = 0;
-
-            if assign {
-                reduce = 1;
-
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_deg_max);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg);
-
-                if offset == 1 {
-                    let lhs_deg_range =
-                        TensorBasis::<NLETTERS>::degree_range(lhs_deg_max);
-                    let lhs_as_slice = self.as_mut_slice();
-                    let (a, b) = lhs_as_slice.split_at_mut(
-                        TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-
-                    unsafe {
-                        dense_tensor_multiply_into_buffer(
-                            b.get_unchecked_mut(out_deg_range),
-                            a.get_unchecked(lhs_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                } else if offset == 0 {
-                    unsafe {
-                        dense_tensor_multiply_inplace(
-                            self.as_mut_slice().get_unchecked_mut(out_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                }
-            }
-
-
-            for lhs_d in (lhs_deg_min..=(lhs_deg_max - reduce)).rev() {
-                let rhs_d = out_deg - lhs_d;
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_d);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(rhs_d);
-                let lhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(lhs_d);
-
-                let lhs_as_slice = self.as_mut_slice();
-                let (a, b) = lhs_as_slice.split_at_mut(
-                    TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        b.get_unchecked_mut(out_deg_range),
-                        a.get_unchecked(lhs_deg_range),
-                        rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                        &mut func,
-                    );
-                }
-            }
-
-        }
+        // Every coordinate of the product depends on several coordinates of self, so the product
+        // is computed in a buffer of its own.
+        let mut result = Self::new();
+        result.multiply_and_add_into_impl(&*self, rhs.borrow(), func, to_degree);
+        *self = result;
     }
 
 }
-- 
2.43.0


From 1fad64d9f4fc1cffc5d13174da1a874e6d9ad21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:07 +0000
Subject: [PATCH 12/24] fix: mul_rat_rdiv multiplied by its divisor

It now takes a rational and divides, like mul_rat_ldiv; the series that use it
build the rational from the degree.
---
 src/algebra/mod.rs     | 4 ++--
 src/free_tensor/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mod.rs b/src/algebra/mod.rs
index 89d570a..04dd2a2 100644
--- a/src/algebra/mod.rs
+++ b/src/algebra/mod.rs
@@ -145,14 +145,14 @@ pub trait Algebra<'vec> : Vector<'vec> {
     fn mul_rat_rdiv(
         &mut self,
         rhs: impl Borrow<Self>,
-        scalar: impl Into<Self::ScalarType>,
+        scalar: impl Into<<Self::ScalarType as CoefficientField>::RationalType>,
         to_degree: Option<DegreeType>
     ) -> &mut Self
     {
         let sca = scalar.into();
         self.multiply_into_impl(
             rhs.borrow(),
-            move |v| { <Self::ScalarType as CoefficientField>::mul(v, &sca) },
+            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
             to_degree
         );
         self
diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 5602daa..ef993e7 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -30,7 +30,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let borrowed_result = result.borrow_mut();
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            borrowed_result.mul_rat_rdiv(self, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE));
+            borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
         result
@@ -48,7 +48,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         }
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            self.mul_rat_rdiv(&x, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
+            self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
 
-- 
2.43.0


From 69c3f4eab5dc3cf988a5b306d726ec285e1d3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 13/24] fix: tensor products with empty or incomplete levels
 left their storage

The kernel assumed that every level of both operands and of the result is
complete, and read and wrote past the end otherwise.
---
 src/free_tensor/implementation/dense.rs | 37 ++++++++++++++++++-------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index f6c1d82..8389da9 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -58,13 +58,22 @@ impl<'a, S, const NLETTERS: DegreeType> From<SimpleDenseVector<'a, TensorBasis<N
 
 
 mod tensor_mul_impl {
+    use std::cmp;
+    use std::ops::Range;
+
     use crate::coefficients::CoefficientField;
-    
+    use crate::DimensionType;
 
+    /// Add the product of a level of the left hand side with a level of the right hand side to
+    /// the buffer.
+    ///
+    /// Either level can be incomplete, so the number of elements in a complete level of the right
+    /// hand side must be given too. The buffer must have space for the product of complete levels.
     pub(super) unsafe fn dense_tensor_multiply_into_buffer<S: CoefficientField>(
         out: &mut [S],
         lhs: &[S],
         rhs: &[S],
+        rhs_level_size: DimensionType,
         func: &mut impl FnMut(&S) -> S,
     )
     {
@@ -75,9 +84,17 @@ mod tensor_mul_impl {
                 S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
                 out_ptr = out_ptr.add(1);
             }
+            out_ptr = out_ptr.add(rhs_level_size - rhs.len());
         }
     }
 
+    /// The part of a range of indices that is present in the data.
+    pub(super) fn stored_part<S>(data: &[S], range: Range<DimensionType>) -> &[S]
+    {
+        let end = cmp::min(range.end, data.len());
+        &data[cmp::min(range.start, end)..end]
+    }
+
 }
 
 
@@ -256,7 +273,7 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::dense_tensor_multiply_into_buffer;
+        use tensor_mul_impl::{dense_tensor_multiply_into_buffer, stored_part};
 
         let rhs_r = rhs.borrow();
         let lhs_r = lhs.borrow();
@@ -269,8 +286,9 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
             lhs_deg + rhs_deg
         );
 
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
+        let min_dim = TensorBasis::<NLETTERS>::start_of_degree(max_deg+1);
+        if self.as_slice().len() < min_dim {
+            self.resize(min_dim);
         }
 
 
@@ -288,17 +306,16 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
 
             for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                 let rhs_d = out_deg - lhs_d;
+                let rhs_range = TensorBasis::<NLETTERS>::degree_range(rhs_d);
                 unsafe {
                     dense_tensor_multiply_into_buffer(
                         self.as_mut_slice()
                             .get_unchecked_mut(
                                 TensorBasis::<NLETTERS>::degree_range(out_deg)),
-                        lhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(lhs_d)),
-                        rhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(rhs_d)),
+                        stored_part(lhs_r.as_slice(),
+                                    TensorBasis::<NLETTERS>::degree_range(lhs_d)),
+                        stored_part(rhs_r.as_slice(), rhs_range.clone()),
+                        rhs_range.len(),
                         &mut func
                     );
                 }
-- 
2.43.0


From 6c560f689cccb2075c2a38bb8e49125d60230a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 14/24] fix: the tensor exponential missed its last term

---
 src/free_tensor/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index ef993e7..f0a174d 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -29,7 +29,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let mut result = Self::from_key(Self::KeyType::new());
         let borrowed_result = result.borrow_mut();
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
-- 
2.43.0


From 31e434f030cdb9836efa3cc80a451df4991b49a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 15/24] fix: the fused multiply-exponential missed its last
 term

---
 src/free_tensor/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index f0a174d..52d403e 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -47,7 +47,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
-- 
2.43.0


From df91c4773806a730b7dfd965cbe23627c1601df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:51 +0000
Subject: [PATCH 16/24] fix: the tensor logarithm dropped every product and its
 last term

---
 src/free_tensor/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 52d403e..0893d81 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -67,13 +67,13 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             if i % 2 == 0 {
                 rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             } else {
                 rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             }
-            rv.multiply(&x, Some(Self::MAX_DEGREE));
+            rv.multiply_inplace(&x, Some(Self::MAX_DEGREE));
         }
 
         rv
-- 
2.43.0


From 9d4cf03262b1c83540171b43c1f23f855e450e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:33 +0000
Subject: [PATCH 17/24] verif: cfg(rustyalgebra_verif) hooks giving access to
 private items

---
 src/free_tensor/tensor_basis/tensor_key.rs       | 10 ++++++++++
 src/lie/lie_basis/mod.rs                         |  8 ++++++++
 src/lie/mod.rs                                   |  5 ++++-
 src/vector/implementation/simple_dense_vector.rs | 16 ++++++++++++++++
 4 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index a56c39d..a60d6d3 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -226,6 +226,16 @@ impl<'a, const NLETTERS: DegreeType> TensorKeyIterator<'a, NLETTERS> {
 }
 
 
+#[cfg(rustyalgebra_verif)]
+impl<const NLETTERS: DegreeType> TensorKey<NLETTERS> {
+
+    /// The letters of the word in order, for external verification.
+    pub fn verif_letters(&self) -> TensorKeyIterator<'_, NLETTERS>
+    {
+        TensorKeyIterator::new(self)
+    }
+}
+
 impl<'a, const NLETTERS: DegreeType> Iterator for TensorKeyIterator<'a, NLETTERS> {
     type Item = LetterType;
 
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index dc0456e..330a070 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -11,3 +11,11 @@ use hall_set::{get_hall_set};
 
 
 mod hall_key;
+
+/// Access to the private Hall basis types for external verification.
+#[cfg(rustyalgebra_verif)]
+pub mod verif {
+    pub use super::degree_range_map::{DegreeRangeMap, DegreeRangeMapError};
+    pub use super::hall_key::HallKey;
+    pub use super::hall_set::{get_hall_set, HallSet, HallSetError, HallSetObject};
+}
diff --git a/src/lie/mod.rs b/src/lie/mod.rs
index c29d3c4..ceb6e29 100644
--- a/src/lie/mod.rs
+++ b/src/lie/mod.rs
@@ -1 +1,4 @@
-mod lie_basis;
\ No newline at end of file
+mod lie_basis;
+
+#[cfg(rustyalgebra_verif)]
+pub use lie_basis::verif;
diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index ff402d2..db15d14 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -100,6 +100,22 @@ impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
 }
 
 
+#[cfg(rustyalgebra_verif)]
+impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
+
+    /// A vector viewing shared data, for external verification.
+    pub fn verif_borrowed(data: &'a [S]) -> Self
+    {
+        SimpleDenseVector(Borrowed(data), PhantomData)
+    }
+
+    /// A vector viewing mutable data, for external verification.
+    pub fn verif_borrowed_mut(data: &'a mut [S]) -> Self
+    {
+        SimpleDenseVector(BorrowedMut(data), PhantomData)
+    }
+}
+
 impl<'a, B: OrderedBasisWithDegree, S: CoefficientField> SimpleDenseVector<'a, B, S> {
 
     fn from_degree(deg: DegreeType) -> Self
-- 
2.43.0


From 3842758f3cd4c4af0ff08208e084ba105e1299cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:13 +0000
Subject: [PATCH 18/24] fix: the Moebius function recursed without end on
 composite square-free numbers

The level sizes of the Hall basis from degree 6 on overflowed the stack.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 530f374..e38e537 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -27,7 +27,7 @@ mod compute {
         if divisor == n {
             -1
         } else if n % divisor == 0 {
-            mobius(n) * mobius(n / divisor)
+            mobius(divisor) * mobius(n / divisor)
         } else {
             mobius_impl(n, divisor+1)
         }
-- 
2.43.0


From 3bee4605eb1365fdbd292d243d9e8eb65e8e32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:32 +0000
Subject: [PATCH 19/24] fix: divide the Witt sum by the degree once, not term
 by term

The terms are not multiples of the degree, so the truncated quotients did not
add up to the number of Hall basis elements.
---
 src/lie/lie_basis/degree_range_map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index e38e537..ad8c488 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -51,8 +51,7 @@ mod compute {
     ) -> SignedDimensionType
     {
         mobius(divisor) *
-            (width as SignedDimensionType).pow((level/divisor) as u32) /
-            (level as SignedDimensionType)
+            (width as SignedDimensionType).pow((level/divisor) as u32)
     }
 
     const fn hall_set_level_size_impl(
@@ -81,7 +80,7 @@ mod compute {
 
     const fn hall_set_level_size(width: DimensionType, depth: DimensionType) -> DimensionType
     {
-        hall_set_level_size_impl(width, depth, 1) as DimensionType
+        (hall_set_level_size_impl(width, depth, 1) / (depth as SignedDimensionType)) as DimensionType
     }
 
     const fn hall_set_size_impl(
-- 
2.43.0


From 94d88a8ea6d41819472d092b33a3cf970bdbd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:32 +0000
Subject: [PATCH 20/24] fix: the last Hall basis element of a degree was given
 the next degree

---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index ad8c488..e6f6e72 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -195,7 +195,7 @@ impl<const NLETTERS: DegreeType> DegreeRangeMap<NLETTERS> {
                 return Err(DegreeOutOfBounds);
             }
 
-            Ok(self.0.partition_point(move |&v| v <= dkey) as DegreeType)
+            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)
         }
 
 }
-- 
2.43.0


From e118d0ff3fd479fc5b41793647114c57662bb19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:32 +0000
Subject: [PATCH 21/24] fix: the first request for a Hall set deadlocked on the
 cache lock

---
 src/lie/lie_basis/hall_set.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 9e1f479..61170c5 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -249,10 +249,14 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
 
 pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
 {
-    if let Some(val) = HALL_SET_CACHE.read()
+    // The read lock must be released before the write lock is requested.
+    let cached = HALL_SET_CACHE.read()
         .expect("Error retrieving from hall set cache")
-        .get(&NLETTERS) {
-        val.clone()
+        .get(&NLETTERS)
+        .cloned();
+
+    if let Some(val) = cached {
+        val
     } else {
         let mut inner = HallSetInner::<NLETTERS>::new();
 
@@ -264,8 +268,9 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 
         let new_hs = HallSetObject::new(inner);
         HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
-            .insert(NLETTERS, new_hs.clone());
-        new_hs
+            .entry(NLETTERS)
+            .or_insert(new_hs)
+            .clone()
     }
 
 }
-- 
2.43.0


From 556a286562049ae92600fbe9cbfb7e57f5e8c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:32 +0000
Subject: [PATCH 22/24] verif: cfg(rustyalgebra_verif) hook comparing Hall set
 handles

---
 src/lie/lie_basis/hall_set.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 61170c5..abb37a4 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -82,6 +82,13 @@ impl HallSetObject {
     {
         Self(Arc::new(RwLock::new(obj)))
     }
+
+    /// Whether the two handles refer to the same Hall set.
+    #[cfg(rustyalgebra_verif)]
+    pub fn verif_same(&self, other: &Self) -> bool
+    {
+        Arc::ptr_eq(&self.0, &other.0)
+    }
 }
 
 impl HallSet for HallSetObject {
-- 
2.43.0


From a1d1c1808a4c54666ad788fd99d25afceb4678be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 23/24] fix: prepending beyond the maximum depth is rejected in
 every build

push_front only checked the depth with debug assertions on; without them a
word could grow past the maximum depth, and past 64 bits its letters were
added into each other.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index a60d6d3..61feec8 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -193,7 +193,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub fn push_front(&mut self, letter: LetterType) -> &mut Self
     {
-        debug_assert!(self.size() < Self::max_depth());
+        assert!(self.size() < Self::max_depth(), "Number of letters exceeds maximum depth");
         debug_assert!(letter >= 1 && letter <= NLetters,
                       "Expected letter between 1 and {}, got {}", NLetters, letter);
         self.push_front_raw(letter - 1)
-- 
2.43.0


From 0c6640a6fb783f70aefc580d3b2dc1237dfe75b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:38 +0000
Subject: [PATCH 24/24] verif: cfg(rustyalgebra_verif) hook making Hall keys of
 their parts

---
 src/lie/lie_basis/hall_key.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lie/lie_basis/hall_key.rs b/src/lie/lie_basis/hall_key.rs
index 98bb6a8..d1926ec 100644
--- a/src/lie/lie_basis/hall_key.rs
+++ b/src/lie/lie_basis/hall_key.rs
@@ -100,6 +100,16 @@ impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
 }
 
 
+#[cfg(rustyalgebra_verif)]
+impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
+
+    /// A key made of its parts, for external verification.
+    pub fn verif_from_parts(key: DataType, lparent: DataType, rparent: DataType, size: DegreeType) -> Self
+    {
+        Self(Self::make_key_data(key, lparent, rparent, size))
+    }
+}
+
 impl<const NLETTERS: DegreeType> Debug for HallKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         write!(f, "HallKey(key={}, lparent={}, rparent={}, size={})",
-- 
2.43.0

