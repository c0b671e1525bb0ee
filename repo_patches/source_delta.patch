From ff2b21da77bcbebaf7bee6d9754de8ccc9752d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 01/16] fix: reserve and shrink by bytes for sized elements,
 including zero-sized ones

---
 src/inner/sized.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 0c661b7..6027a00 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -69,12 +69,15 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         additional_bytes: usize,
         _align: (),
     ) -> Result<(), TryReserveError> {
+        // Zero-sized elements never need any bytes.
+        if mem::size_of::<T>() == 0 || additional_bytes == 0 {
+            return Ok(());
+        }
+
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
-        let needed = additional_bytes
-            .saturating_add(free)
-            .div_ceil(mem::size_of::<T>());
-        Ok(self.try_reserve_exact(needed.saturating_sub(free))?)
+        let needed = additional_bytes.div_ceil(mem::size_of::<T>());
+        Ok(self.try_reserve_exact(free.saturating_add(needed))?)
     }
 
     #[inline]
@@ -84,6 +87,10 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         min_byte_capacity: usize,
         _align: (),
     ) {
+        if mem::size_of::<T>() == 0 {
+            return;
+        }
+
         let min_capacity = cmp::max(
             min_capacity,
             min_byte_capacity.div_ceil(mem::size_of::<T>()),
-- 
2.43.0


From 04cc71239945d6f57f734c18f95a8c16d328f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 02/16] fix: insert moves bytes at the element's offset, not at
 its index

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a8f2705..fc921db 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -251,7 +251,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index da84c87..242b3a0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From 1dedc791d7b229e3c021094bc191cf2fdeb9ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 03/16] fix: unsize records the end offset of each element, not
 its start

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index fc921db..9021eb1 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -661,7 +661,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSize::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSize::new_unchecked((index + 1).unchecked_mul(mem::size_of::<S>()))
                 },
             })
             .collect();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 242b3a0..9e31761 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1052,7 +1052,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSizeUnaligned::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSizeUnaligned::new_unchecked(
+                        (index + 1).unchecked_mul(mem::size_of::<S>()),
+                    )
                 },
             })
             .collect();
-- 
2.43.0


From 0d9a6a527a04f7c0944490eeca421d0ae02c47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 04/16] fix: iterators keep the front offset in nth and
 next_back

---
 src/inner/aligned.rs   | 4 ++--
 src/inner/unaligned.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 9021eb1..a374771 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -734,7 +734,7 @@ macro_rules! iter_ref {
                     .checked_sub(1)
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 let ElementInfo {
                     metadata,
@@ -776,7 +776,7 @@ macro_rules! iter_ref {
                     .elems_info
                     .as_slice()
                     .last()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 // SAFETY: end of element can't be smaller than start
                 let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 9e31761..a6befee 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1132,7 +1132,7 @@ macro_rules! iter_ref {
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
@@ -1181,7 +1181,7 @@ macro_rules! iter_ref {
                     .as_slice()
                     .last()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
-- 
2.43.0


From a58437927b8eb81ee5d7279e22f900092aa5548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 05/16] fix: insert at the end and removal of the last element
 with trailing padding

---
 src/inner/unaligned.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index a6befee..8df50d9 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -604,7 +604,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: preconditions of function
         unsafe {
             let start_offset = self.start_offset_of_unchecked(index);
-            let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
+            let how_much_to_move = self.aligned_byte_len().unchecked_sub(start_offset);
 
             let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
@@ -691,10 +691,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 // SAFETY: getting pointer to element
                 let ptr_to_elem = unsafe { self.ptr.cast::<u8>().as_ptr().add(start_offset.get()) };
 
-                let unaligned_len = self.unaligned_byte_len();
+                let aligned_len = self.aligned_byte_len();
 
                 // SAFETY: by precondition of function
-                let num_bytes_to_shift = unsafe { unaligned_len.unchecked_sub(start_offset) };
+                let num_bytes_to_shift = unsafe { aligned_len.unchecked_sub(start_offset) };
 
                 let shifter_backer = ElementShifterBacker {
                     ptr_to_index: ptr_to_elem,
@@ -827,10 +827,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             }
         }
 
-        let unaligned_len = self.unaligned_byte_len();
+        let aligned_len = self.aligned_byte_len();
 
         // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { unaligned_len.unchecked_sub(start_offset) };
+        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
 
         // SAFETY: copying elements back where they belong
         unsafe {
-- 
2.43.0


From 9b5e94ae32f91a312db0afeaa8f4b1831cc5f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 06/16] fix: lowering the alignment updates the element offsets

---
 src/inner/unaligned.rs | 54 +++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 8df50d9..8e32f03 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -256,49 +256,29 @@ impl<T: ?Sized> UnalignedVecInner<T> {
         //
         // This is a lot simpler than `realign_up`, we can do everyting in a single pass.
 
-        let mut shift_back = ValidSizeUnaligned::ZERO;
-        for &[
-            ElementInfo {
-                end_offset: prev_new_end_offset,
-                ..
-            },
-            ElementInfo {
-                end_offset: old_end_offset,
-                ..
-            },
-        ] in self.elems_info.array_windows::<2>()
-        {
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let new_end_offset = unsafe { old_end_offset.unchecked_sub(shift_back) };
-
-            // SAFETY: can't overflow, or else unshifted allocation would have overflowed
-            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
-
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let old_start_offset = unsafe { new_start_offset.unchecked_sub(shift_back) };
+        let start_of_alloc = self.ptr.as_ptr().cast::<u8>();
+        let mut old_start_offset = ValidSizeUnaligned::ZERO;
+        let mut new_start_offset = ValidSizeUnaligned::ZERO;
 
-            // SAFETY: End offset >= start offset
-            let size_of_val = unsafe { new_end_offset.unchecked_sub(new_start_offset) };
-
-            // SAFETY: moving element to new correct position, as computed above
+        for ElementInfo { end_offset, .. } in self.elems_info.iter_mut() {
+            // SAFETY: See comments inside block
             unsafe {
+                // SAFETY: End offset >= start offset
+                let size_of_val = end_offset.unchecked_sub(old_start_offset);
+
+                // SAFETY: moving element to new correct position,
+                // which can't be after the old one
                 ptr::copy(
-                    self.ptr.as_ptr().cast::<u8>().add(old_start_offset.get()),
-                    self.ptr.as_ptr().cast::<u8>().add(new_start_offset.get()),
+                    start_of_alloc.add(old_start_offset.get()),
+                    start_of_alloc.add(new_start_offset.get()),
                     size_of_val.get(),
                 );
-            }
 
-            // SAFETY: pads can't overfolow as otherwise old offsets would be invalid.
-            // Sub can't overflow as new_align < old_align.
-            // Add can't overflow as we can't shift more than the entire size of the allocation.
-            shift_back = unsafe {
-                shift_back.unchecked_add(
-                    new_end_offset
-                        .unchecked_pad_to(old_align)
-                        .unchecked_sub(new_end_offset.unchecked_pad_to(new_align)),
-                )
-            };
+                // SAFETY: pads and adds can't overflow, as otherwise old offsets would be invalid.
+                old_start_offset = end_offset.unchecked_pad_to(old_align);
+                *end_offset = new_start_offset.unchecked_add(size_of_val);
+                new_start_offset = end_offset.unchecked_pad_to(new_align);
+            }
         }
     }
 }
-- 
2.43.0


From a5ea9205b9a52eaa74f8d982cdf8e90d04633515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 07/16] fix: shrinking keeps the byte capacity a multiple of
 the alignment

---
 src/inner/unaligned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 8e32f03..d3b5baa 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -481,12 +481,14 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         let new_byte_capacity = cmp::max(
             // SAFETY: `old_byte_capacity` is a valid
             // `ValidSizeUnaligned`, and result of `cmp::min`
-            // can't be bigger than it
+            // can't be bigger than it. Padding can't make the result bigger either,
+            // as `old_byte_capacity` is a multiple of `old_align >= new_align`
             unsafe {
                 ValidSizeUnaligned::new_unchecked(cmp::min(
                     min_byte_capacity,
                     old_byte_capacity.get(),
                 ))
+                .unchecked_pad_to(new_align)
             },
             new_aligned_byte_len,
         );
-- 
2.43.0


From c4bba6da626727b3779aba9acaa25ac4c7d3ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 08/16] fix: raising the alignment of a vector without bytes is
 recorded

---
 src/inner/unaligned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index d3b5baa..a6df86d 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -450,6 +450,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             } else {
                 self.ptr = new_align.dangling_thin();
+                self.align = new_align;
             }
         }
         Ok(())
-- 
2.43.0


From bbe50cde9e3aa106ec086e257519287ba43fc629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 09/16] fix: push_with and insert_with use spare byte capacity

---
 src/inner/aligned.rs   | 14 ++++++++++++--
 src/inner/unaligned.rs | 19 +++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a374771..7be2b88 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -317,9 +317,14 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
+                // SAFETY: len <= capacity
+                let unused_byte_cap =
+                    unsafe { self.byte_capacity.unchecked_sub(self.byte_len()) }.get();
+                let needed_bytes = layout.size().saturating_sub(unused_byte_cap);
+
                 let reserve_result = self
                     .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                    .and_then(|()| self.try_reserve_additional_bytes_align(needed_bytes, ()));
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: precondition of function
@@ -503,9 +508,14 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
+                // SAFETY: len <= capacity
+                let unused_byte_cap =
+                    unsafe { self.byte_capacity.unchecked_sub(self.byte_len()) }.get();
+                let needed_bytes = layout.size().saturating_sub(unused_byte_cap);
+
                 let reserve_result = self
                     .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                    .and_then(|()| self.try_reserve_additional_bytes_align(needed_bytes, ()));
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.byte_len();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index a6df86d..8b5b550 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -653,14 +653,16 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         let emplacable_closure = value.into_fn();
 
         let emplacer_closure =
-            &mut |layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
+            &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
 
+                // SAFETY: len <= capacity
+                let unused_byte_cap =
+                    unsafe { self.byte_capacity.unchecked_sub(self.aligned_byte_len()) }.get();
+                let needed_bytes = layout.size().saturating_sub(unused_byte_cap);
+
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(
-                        unaligned_size_of_val.get(),
-                        align_of_val,
-                    )
+                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
@@ -862,8 +864,13 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, align_of_val) = decompose(layout);
 
+                // SAFETY: len <= capacity
+                let unused_byte_cap =
+                    unsafe { self.byte_capacity.unchecked_sub(self.aligned_byte_len()) }.get();
+                let needed_bytes = layout.size().saturating_sub(unused_byte_cap);
+
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(layout.size(), align_of_val)
+                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
-- 
2.43.0


From 11e792ea86cbc27054374d4bd0a49cfc474c5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 10/16] fix: shrink_to shrinks sized vectors

---
 src/inner.rs           | 4 ++++
 src/inner/aligned.rs   | 5 +++++
 src/inner/sized.rs     | 5 +++++
 src/inner/unaligned.rs | 5 +++++
 src/lib.rs             | 6 +-----
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 4257f49..38060ca 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -138,6 +138,10 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         align: Self::Align,
     ) -> Result<(), TryReserveError>;
 
+    /// Shrinks the elementwise capacity only
+    /// (for sized elements, that is the only capacity there is).
+    fn shrink_capacity_to(&mut self, min_capacity: usize);
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 7be2b88..15284ed 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -204,6 +204,11 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 6027a00..aa6b23b 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -80,6 +80,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         Ok(self.try_reserve_exact(free.saturating_add(needed))?)
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 8b5b550..6f49385 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -456,6 +456,11 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/lib.rs b/src/lib.rs
index 203b052..c3f43da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -687,11 +687,7 @@ impl<T: ?Sized> UnsizedVec<T> {
     /// [`shrink_capacity_bytes_to`]: UnsizedVec::shrink_capacity_bytes_to
     #[inline]
     pub fn shrink_to(&mut self, min_capacity: usize) {
-        self.inner.shrink_capacity_bytes_align_to(
-            min_capacity,
-            usize::MAX,
-            to_align::<T>(1 << (usize::BITS - 1)),
-        );
+        self.inner.shrink_capacity_to(min_capacity);
     }
 
     /// Shrinks the elementwise and byte capacities of the vector with
-- 
2.43.0


From e695bc1d672c065b58e0293176e7335610adb007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 11/16] fix: try_reserve returns the error instead of failing a
 debug assertion

---
 src/lib.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c3f43da..7b40b27 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -578,13 +578,8 @@ impl<T: ?Sized> UnsizedVec<T> {
             }
         }
 
-        let result = self
-            .inner
-            .try_reserve_additional_bytes_align(needed_bytes, align);
-
-        debug_assert!(self.byte_capacity() >= self.byte_len() + additional_bytes);
-
-        result
+        self.inner
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Reserves capacity for at least `additional` more elements to be inserted
-- 
2.43.0


From ebf55a5642895e0583171844707fbd2bcd9abc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 12/16] fix: reserve_exact reserves only what is missing

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7b40b27..1ab3ee3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -655,11 +655,13 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.inner.try_reserve(additional)?;
+        self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
 
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
+
         self.inner
-            .try_reserve_additional_bytes_align(additional_bytes, align)
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Shrinks all the capacities of the vec as much as possible.
-- 
2.43.0


From 286f3b4ad48c49a80c6e5d1e441016a6590e4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 13/16] fix: an emplacable from a slice of Copy elements copies
 the elements

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a624aa7..a6ffadd 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -774,7 +774,7 @@ impl<T: Copy> CopyToBuf for T {
         // SAFETY: copying value where it belongs. safe to write to
         // `buf` by preconditions of function
         unsafe {
-            ptr::copy_nonoverlapping(addr_of!(slice).cast(), buf, slice.len());
+            ptr::copy_nonoverlapping(slice.as_ptr(), buf, slice.len());
         }
     }
 }
-- 
2.43.0


From c9526280afeb0d4bbd0e7c38d4699c29943e994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 14/16] fix: an emplacable from a Vec has the layout of its
 slice

---
 emplacable/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a6ffadd..7816c6d 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1087,10 +1087,12 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
                     mem::align_of::<T>(),
                 )
             };
+            let slice_layout = Layout::for_value(&**vec);
 
             // SAFETY: we fulfill the preconditions
             let emplacer_closure = unsafe { emplacer.into_fn() };
-            emplacer_closure(layout, len, &mut |out_ptr| {
+            // The consumer gets the layout of the slice, not the one of the `Vec`'s allocation.
+            emplacer_closure(slice_layout, len, &mut |out_ptr| {
                 if !out_ptr.is_null() {
                     // SAFETY: checked for null, copying correct number of bytes.
                     // `Vec` is in a `ManuallyDrop`, so no double drop
-- 
2.43.0


From c5a8c624fafd7b3660e412540fe09a6631446ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 15/16] fix: CStr has the alignment of CStr, not of a reference
 to it

---
 src/marker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4eda8c9..11ace36 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -39,5 +39,5 @@ unsafe impl Aligned for str {
 
 // SAFETY: All `CStrs`s have the same alignment
 unsafe impl Aligned for CStr {
-    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(&c"")).unwrap();
+    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(c"")).unwrap();
 }
-- 
2.43.0


From bc30be5802a1ae0a70ab46e2a265266f8237cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 16/16] fix: remove_into closes the gap when a destructor or
 the emplacer unwinds

---
 src/inner/aligned.rs   | 91 ++++++++++++++++++++++++++++-------------
 src/inner/sized.rs     | 56 +++++++++++++++----------
 src/inner/unaligned.rs | 93 ++++++++++++++++++++++++++++--------------
 3 files changed, 161 insertions(+), 79 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 15284ed..c7c8f7c 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -391,6 +391,54 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Closes the gap left by the element once it is gone,
+        /// even if the emplacer or the element's destructor unwinds.
+        struct GapCloser<'a, T: ?Sized + Aligned> {
+            vec: &'a mut AlignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSize<T>,
+            size_of_val: ValidSize<T>,
+            elem_is_gone: bool,
+        }
+
+        impl<T: ?Sized + Aligned> Drop for GapCloser<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if !self.elem_is_gone {
+                    return;
+                }
+
+                // FIXME elide bounds check
+                self.vec.elems_info.remove(self.index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_offset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(self.size_of_val);
+                    }
+                }
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move =
+                    unsafe { self.vec.byte_len().unchecked_sub(self.start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let gap = self
+                        .vec
+                        .ptr
+                        .as_ptr()
+                        .cast::<u8>()
+                        .add(self.start_offset.get());
+                    ptr::copy(gap.add(self.size_of_val.get()), gap, how_much_to_move.get());
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // We can't remove the metadata yet, as `emplacer_closure` might unwind,
@@ -421,6 +469,15 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 .add(start_offset.get())
         };
 
+        let mut gap_closer = GapCloser {
+            vec: self,
+            index,
+            start_offset,
+            size_of_val,
+            elem_is_gone: false,
+        };
+        let elem_is_gone = &mut gap_closer.elem_is_gone;
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -439,42 +496,20 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                         size_of_val.get(),
                     );
                 }
+                *elem_is_gone = true;
             } else {
+                *elem_is_gone = true;
+
                 let wide_ptr: *mut T =
                     ptr::from_raw_parts_mut(thin_ptr_to_elem.cast_mut(), metadata);
 
-                // SAFETY: We forget the element right after by copying over it and adjusting vec metadata
+                // SAFETY: `gap_closer` forgets the element by copying over it and adjusting vec metadata
                 unsafe { wide_ptr.drop_in_place() }
             }
         });
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(size_of_val);
-            }
-        }
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { self.byte_len().unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(size_of_val.get()),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        // If the inner closure wasn't run, the element is forgotten.
+        gap_closer.elem_is_gone = true;
     }
 
     unsafe fn push_unchecked(&mut self, value: T, size_of_val: ValidSize<T>) {
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index aa6b23b..6f31c5a 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -187,22 +187,41 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
-        debug_assert!(index < self.len());
-
-        // SAFETY: precondition of function
-        let new_len = unsafe { self.len().unchecked_sub(1) };
+        /// Closes the gap left by the element once it is gone,
+        /// even if the emplacer or the element's destructor unwinds.
+        struct GapCloser<'a, T> {
+            vec: &'a mut ::alloc::vec::Vec<T>,
+            index: usize,
+            elem_is_gone: bool,
+        }
 
-        // Set new length of vector
+        impl<T> Drop for GapCloser<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if self.elem_is_gone {
+                    // SAFETY: `index < len`, and the element there was moved out or dropped
+                    unsafe {
+                        let new_len = self.vec.len().unchecked_sub(1);
+                        self.vec.set_len(new_len);
+                        let gap = self.vec.as_mut_ptr().add(self.index);
+                        ptr::copy(gap.add(1), gap, new_len.unchecked_sub(self.index));
+                    }
+                }
+            }
+        }
 
-        // SAFETY: new_len < old_len
-        unsafe { self.set_len(new_len) };
+        debug_assert!(index < self.len());
 
         // Get pointer to the element we are popping out of the vec
         // SAFETY: offset comes from vec
-        let thin_ptr_to_elem = unsafe { self.as_ptr().add(index) };
+        let thin_ptr_to_elem = unsafe { self.as_mut_ptr().add(index) };
 
-        // SAFETY: old_len > index, so old_len - 1 == new_len >= index
-        let how_much_to_move = unsafe { new_len.unchecked_sub(index) };
+        let mut gap_closer = GapCloser {
+            vec: self,
+            index,
+            elem_is_gone: false,
+        };
+        let elem_is_gone = &mut gap_closer.elem_is_gone;
 
         // Copy element into the place
 
@@ -216,23 +235,18 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
                 unsafe {
                     ptr::copy_nonoverlapping(thin_ptr_to_elem, out_ptr.cast(), 1);
                 }
+                *elem_is_gone = true;
             } else {
-                let typed_ptr_to_elem: *mut T = thin_ptr_to_elem.cast_mut().cast();
+                *elem_is_gone = true;
 
-                // SAFETY: we adusted vec metadata earlier, and copy elements back right after,
+                // SAFETY: `gap_closer` adjusts the vec's length and copies elements back,
                 // so this won't be double-dropped
-                unsafe { typed_ptr_to_elem.drop_in_place() }
+                unsafe { thin_ptr_to_elem.drop_in_place() }
             }
         });
 
-        // SAFETY: copy elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(1),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move,
-            );
-        }
+        // If the inner closure wasn't run, the element is forgotten.
+        gap_closer.elem_is_gone = true;
     }
 
     #[inline]
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 6f49385..79782c8 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -736,6 +736,54 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Closes the gap left by the element once it is gone,
+        /// even if the emplacer or the element's destructor unwinds.
+        struct GapCloser<'a, T: ?Sized> {
+            vec: &'a mut UnalignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSizeUnaligned,
+            aligned_size_of_val: ValidSizeUnaligned,
+            elem_is_gone: bool,
+        }
+
+        impl<T: ?Sized> Drop for GapCloser<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if !self.elem_is_gone {
+                    return;
+                }
+
+                // FIXME elide bounds check
+                self.vec.elems_info.remove(self.index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_offset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(self.aligned_size_of_val);
+                    }
+                }
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move =
+                    unsafe { self.vec.aligned_byte_len().unchecked_sub(self.start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let gap = self
+                        .vec
+                        .ptr
+                        .as_ptr()
+                        .cast::<u8>()
+                        .add(self.start_offset.get());
+                    ptr::copy(gap.add(self.aligned_size_of_val.get()), gap, how_much_to_move.get());
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // We can't remove the metadata yet, as `emplacer_closure` might unwind,
@@ -774,6 +822,15 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: the element is still initialized at this point
         let align_of_val = ValidAlign::of_val(unsafe { &*wide_ptr_to_elem });
 
+        let mut gap_closer = GapCloser {
+            vec: self,
+            index,
+            start_offset,
+            aligned_size_of_val,
+            elem_is_gone: false,
+        };
+        let elem_is_gone = &mut gap_closer.elem_is_gone;
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -794,42 +851,18 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                             unaligned_size_of_val.get(),
                         );
                     }
+                    *elem_is_gone = true;
                 } else {
-                    // SAFETY: we adjust vec metadata right after, so this won't be double-dropped
+                    *elem_is_gone = true;
+
+                    // SAFETY: `gap_closer` adjusts vec metadata, so this won't be double-dropped
                     unsafe { wide_ptr_to_elem.cast_mut().drop_in_place() }
                 }
             },
         );
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(aligned_size_of_val);
-            }
-        }
-
-        let aligned_len = self.aligned_byte_len();
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                ptr_to_elem.add(aligned_size_of_val.get()),
-                ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        // If the inner closure wasn't run, the element is forgotten.
+        gap_closer.elem_is_gone = true;
     }
 
     #[inline]
-- 
2.43.0

