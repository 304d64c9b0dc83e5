From 27ea4acde0cf2b6e3d7a780d15df58c313785bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 01/57] fix: collecting into a VectorBuffer keeps exactly the
 points the iterator yields

The length of the buffer was taken from the upper bound of the iterator's size hint, so filtered
iterators left zeroed points behind the collected ones.
---
 pasture-core/src/containers/point_buffer.rs | 45 +++++----------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 335dd8d..dd20b6e 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -849,41 +849,18 @@ where
 
 impl<T: PointType> FromIterator<T> for VectorBuffer {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let point_layout = T::layout();
         let iter = iter.into_iter();
-        let (_, maybe_known_length) = iter.size_hint();
-        if let Some(known_length) = maybe_known_length {
-            let num_bytes = known_length * point_layout.size_of_point_entry() as usize;
-            let storage = vec![0; num_bytes];
-            let mut buffer = Self {
-                point_layout,
-                storage,
-                length: known_length,
-            };
-            // Overwrite the preallocated memory of the buffer with the points in the iterator:
-            iter.enumerate().for_each(|(index, point)| {
-                let point_bytes = bytemuck::bytes_of(&point);
-                // Safe because we created `buffer` from `T::layout()`, so we know the layouts match
-                unsafe {
-                    buffer.set_point(index, point_bytes);
-                }
-            });
-            buffer
-        } else {
-            let mut buffer = Self {
-                point_layout,
-                storage: Default::default(),
-                length: 0,
-            };
-            iter.for_each(|point| {
-                let point_bytes = bytemuck::bytes_of(&point);
-                // Safe because we know that `buffer` has the same layout as `T`
-                unsafe {
-                    buffer.push_points(point_bytes);
-                }
-            });
-            buffer
-        }
+        // The size hint is only a hint: the number of points is however many points the iterator yields
+        let (min_length, _) = iter.size_hint();
+        let mut buffer = Self::with_capacity(min_length, T::layout());
+        iter.for_each(|point| {
+            let point_bytes = bytemuck::bytes_of(&point);
+            // Safe because we know that `buffer` has the same layout as `T`
+            unsafe {
+                buffer.push_points(point_bytes);
+            }
+        });
+        buffer
     }
 }
 
-- 
2.43.0


From 8bae7f8c959efc3a4d2e093ef812e0d8e0b2380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 02/57] fix: refuse to commit attributes that were pushed more
 than once into a HashMapBuffer

---
 pasture-core/src/containers/point_buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index dd20b6e..e81e431 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -928,12 +928,12 @@ impl<'a> HashMapBufferAttributePusher<'a> {
             return;
         }
 
-        // Check that all attributes are complete! We don't have to check the exact size of the vectors,
-        // as this is checked in `push_attribute_range`, it is sufficient to verify that no vector is empty
+        // Check that all attributes are complete! Each call to `push_attribute_range` is checked on its own,
+        // but an attribute might have been pushed more than once or not at all
         assert!(self
             .attributes_storage
-            .values()
-            .all(|vector| !vector.is_empty()));
+            .iter()
+            .all(|(attribute, data)| data.len() == num_new_points * attribute.size() as usize));
 
         for (attribute, mut data) in self.attributes_storage {
             // Can safely unwrap, because self.attributes_storage was initialized from the `PointLayout` of the buffer!
-- 
2.43.0


From 0f8d5869e0d0e89c931160907a26ca803d1c7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 03/57] fix: pushing no points into a HashMapBuffer with an
 empty layout does not divide by zero

---
 pasture-core/src/containers/point_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index e81e431..f60d982 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1255,6 +1255,10 @@ where
 {
     unsafe fn push_points(&mut self, point_bytes: &[u8]) {
         let point_size = self.point_layout.size_of_point_entry() as usize;
+        if point_size == 0 {
+            assert_eq!(0, point_bytes.len());
+            return;
+        }
         assert_eq!(point_bytes.len() % point_size, 0);
         let num_points_added = point_bytes.len() / point_size;
         for attribute in self.point_layout.attributes() {
-- 
2.43.0


From 36341d77f84465f50e0ab44f2bd98fcb3b6c8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 04/57] fix: mutable slices refuse indices and ranges outside
 of the slice

The checks compared slice-local indices with the end of the slice within the underlying buffer, so
a slice that does not start at zero gave access to points behind its end.
---
 pasture-core/src/containers/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 5f764a5..7477e07 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -219,12 +219,12 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     }
 
     fn get_and_check_global_point_index(&self, local_index: usize) -> usize {
-        assert!(local_index < self.point_range.end);
+        assert!(local_index < self.len());
         local_index + self.point_range.start
     }
 
     fn get_and_check_global_point_range(&self, local_range: Range<usize>) -> Range<usize> {
-        assert!(local_range.end <= self.point_range.end);
+        assert!(local_range.end <= self.len());
         if local_range.start >= local_range.end {
             // Doesn't matter what range we return, as long as it is empty
             self.point_range.end..self.point_range.end
-- 
2.43.0


From 617bbe0a6eec2e83307bf76fdd14c51b4445bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 05/57] fix: slices can be sliced up to and including their
 last point

Slicing a slice refused every range that ends at the end of the slice.
---
 pasture-core/src/containers/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 7477e07..bc3aa4f 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -187,8 +187,8 @@ impl<'a, T: BorrowedBuffer<'a> + Sized> SliceBuffer<'a> for BufferSlice<'a, T> {
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&self, range: Range<usize>) -> BufferSlice<'a, T> {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -424,8 +424,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBuffer<'a>
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&'a self, range: Range<usize>) -> Self::SliceType {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -444,8 +444,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBufferMut<'
     type SliceTypeMut = BufferSliceMut<'a, T>;
 
     fn slice_mut(&'a mut self, range: Range<usize>) -> Self::SliceTypeMut {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
-- 
2.43.0


From 7b1cbe4701b6765070c6e9686a25df15239fac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 06/57] fix: slicing a buffer out of bounds is refused

A slice with a range past the end of its buffer (or with start > end) could be created and reported
a length that the buffer does not have.
---
 pasture-core/src/containers/slice.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index bc3aa4f..888e397 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -82,7 +82,13 @@ pub struct BufferSlice<'a, T: BorrowedBuffer<'a>> {
 
 impl<'a, T: BorrowedBuffer<'a>> BufferSlice<'a, T> {
     /// Creates a new `BufferSlice` for the given `point_range` in the given `buffer`
+    ///
+    /// # Panics
+    ///
+    /// If `point_range` is not a valid range of points in `buffer`
     pub fn new(buffer: &'a T, point_range: Range<usize>) -> Self {
+        assert!(point_range.start <= point_range.end);
+        assert!(point_range.end <= buffer.len());
         Self {
             buffer,
             point_range,
@@ -211,7 +217,13 @@ pub struct BufferSliceMut<'a, T: BorrowedMutBuffer<'a>> {
 
 impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     /// Creates a new `BufferSliceMut` for the given `point_range` in the given `buffer`
+    ///
+    /// # Panics
+    ///
+    /// If `point_range` is not a valid range of points in `buffer`
     pub fn new(buffer: &'a mut T, point_range: Range<usize>) -> Self {
+        assert!(point_range.start <= point_range.end);
+        assert!(point_range.end <= buffer.len());
         Self {
             buffer,
             point_range,
-- 
2.43.0


From 9f754923e90206c507a5b502cc6800790a128e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 07/57] fix: refuse point indices whose byte offset overflows

With overflow checks disabled, the multiplication of a huge index with the size of a point (or
attribute) wrapped around, and accesses with such an index returned or changed a different point.
---
 pasture-core/src/containers/point_buffer.rs   | 31 +++++++++++++------
 .../src/containers/raw_attribute_view.rs      | 14 ++++++---
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index f60d982..70ab7f2 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -578,6 +578,17 @@ pub trait ColumnarBufferMut<'a>: ColumnarBuffer<'a> + BorrowedMutBuffer<'a> {
     }
 }
 
+/// Returns the byte range of the given `range` of entries that each have `entry_size` bytes
+///
+/// # Panics
+///
+/// If the byte range does not fit into the address space. Such a range is always out of bounds, but without
+/// this check the multiplication might wrap around to a byte range that is not
+pub(crate) fn byte_range_of_entries(range: Range<usize>, entry_size: usize) -> Range<usize> {
+    let byte_offset = |index: usize| index.checked_mul(entry_size).expect("Index out of bounds");
+    byte_offset(range.start)..byte_offset(range.end)
+}
+
 /// A point buffer that uses a `Vec<u8>` as its underlying storage. It stores point data in interleaved memory
 /// layout and generally behaves like an untyped vector.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -601,12 +612,12 @@ impl VectorBuffer {
 
     fn get_byte_range_of_point(&self, point_index: usize) -> Range<usize> {
         let size_of_point = self.point_layout.size_of_point_entry() as usize;
-        (point_index * size_of_point)..((point_index + 1) * size_of_point)
+        byte_range_of_entries(point_index..point_index.saturating_add(1), size_of_point)
     }
 
     fn get_byte_range_of_points(&self, points_range: Range<usize>) -> Range<usize> {
         let size_of_point = self.point_layout.size_of_point_entry() as usize;
-        (points_range.start * size_of_point)..(points_range.end * size_of_point)
+        byte_range_of_entries(points_range, size_of_point)
     }
 
     fn get_byte_range_of_attribute(
@@ -614,8 +625,8 @@ impl VectorBuffer {
         point_index: usize,
         attribute: &PointAttributeMember,
     ) -> Range<usize> {
-        let start_byte = (point_index * self.point_layout.size_of_point_entry() as usize)
-            + attribute.offset() as usize;
+        let point_bytes = self.get_byte_range_of_point(point_index);
+        let start_byte = point_bytes.start + attribute.offset() as usize;
         let end_byte = start_byte + attribute.size() as usize;
         start_byte..end_byte
     }
@@ -1060,7 +1071,7 @@ impl HashMapBuffer {
         attribute: &PointAttributeDefinition,
     ) -> Range<usize> {
         let attribute_size = attribute.size() as usize;
-        (point_index * attribute_size)..((point_index + 1) * attribute_size)
+        byte_range_of_entries(point_index..point_index.saturating_add(1), attribute_size)
     }
 
     fn get_byte_range_for_attributes(
@@ -1068,7 +1079,7 @@ impl HashMapBuffer {
         attribute: &PointAttributeDefinition,
     ) -> Range<usize> {
         let attribute_size = attribute.size() as usize;
-        (points_range.start * attribute_size)..(points_range.end * attribute_size)
+        byte_range_of_entries(points_range, attribute_size)
     }
 }
 
@@ -1450,12 +1461,12 @@ impl<T: AsRef<[u8]>> ExternalMemoryBuffer<T> {
 
     fn get_byte_range_for_point(&self, point_index: usize) -> Range<usize> {
         let size_of_point = self.point_layout.size_of_point_entry() as usize;
-        (point_index * size_of_point)..((point_index + 1) * size_of_point)
+        byte_range_of_entries(point_index..point_index.saturating_add(1), size_of_point)
     }
 
     fn get_byte_range_for_point_range(&self, point_range: Range<usize>) -> Range<usize> {
         let size_of_point = self.point_layout.size_of_point_entry() as usize;
-        (point_range.start * size_of_point)..(point_range.end * size_of_point)
+        byte_range_of_entries(point_range, size_of_point)
     }
 
     fn get_byte_range_of_attribute(
@@ -1463,8 +1474,8 @@ impl<T: AsRef<[u8]>> ExternalMemoryBuffer<T> {
         point_index: usize,
         attribute: &PointAttributeMember,
     ) -> Range<usize> {
-        let start_byte = (point_index * self.point_layout.size_of_point_entry() as usize)
-            + attribute.offset() as usize;
+        let point_bytes = self.get_byte_range_for_point(point_index);
+        let start_byte = point_bytes.start + attribute.offset() as usize;
         let end_byte = start_byte + attribute.size() as usize;
         start_byte..end_byte
     }
diff --git a/pasture-core/src/containers/raw_attribute_view.rs b/pasture-core/src/containers/raw_attribute_view.rs
index 9daea58..a9b2e2a 100644
--- a/pasture-core/src/containers/raw_attribute_view.rs
+++ b/pasture-core/src/containers/raw_attribute_view.rs
@@ -2,7 +2,10 @@ use std::ops::{Index, IndexMut};
 
 use crate::layout::{PointAttributeDefinition, PointAttributeMember};
 
-use super::{ColumnarBuffer, ColumnarBufferMut, InterleavedBuffer, InterleavedBufferMut};
+use super::{
+    point_buffer::byte_range_of_entries, ColumnarBuffer, ColumnarBufferMut, InterleavedBuffer,
+    InterleavedBufferMut,
+};
 
 /// A view over raw memory for a point attribute. This view can be obtained from any buffer that
 /// is either interleaved or columnar, and will be more efficient than calling `get_attribute` on
@@ -64,7 +67,8 @@ impl<'a> Index<usize> for RawAttributeView<'a> {
 
     #[inline]
     fn index(&self, index: usize) -> &Self::Output {
-        let start = self.offset + (self.stride * index);
+        let entry = byte_range_of_entries(index..index.saturating_add(1), self.stride);
+        let start = entry.start + self.offset;
         let end = start + self.size_of_attribute;
         &self.point_data[start..end]
     }
@@ -118,7 +122,8 @@ impl<'a> Index<usize> for RawAttributeViewMut<'a> {
 
     #[inline]
     fn index(&self, index: usize) -> &Self::Output {
-        let start = self.offset + (self.stride * index);
+        let entry = byte_range_of_entries(index..index.saturating_add(1), self.stride);
+        let start = entry.start + self.offset;
         let end = start + self.size_of_attribute;
         &self.point_data[start..end]
     }
@@ -127,7 +132,8 @@ impl<'a> Index<usize> for RawAttributeViewMut<'a> {
 impl<'a> IndexMut<usize> for RawAttributeViewMut<'a> {
     #[inline]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
-        let start = self.offset + (self.stride * index);
+        let entry = byte_range_of_entries(index..index.saturating_add(1), self.stride);
+        let start = entry.start + self.offset;
         let end = start + self.size_of_attribute;
         &mut self.point_data[start..end]
     }
-- 
2.43.0


From 6390ab062303d94170ad30783d449e8e2df35aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 08/57] fix: skipping past the end of point and attribute
 iterators ends the iteration

---
 pasture-core/src/containers/attribute_iterators.rs | 12 +++++++++---
 pasture-core/src/containers/point_iterators.rs     | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index a36ac4e..99fe818 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -55,7 +55,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -97,7 +97,10 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.attribute_data.len());
         self.next()
     }
 }
@@ -141,7 +144,10 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.attribute_data.len());
         self.next()
     }
 }
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index dedacdf..477f0f3 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -42,7 +42,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -80,7 +80,10 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.point_data.len());
         self.next()
     }
 }
@@ -123,7 +126,10 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.point_data.len());
         self.next()
     }
 }
-- 
2.43.0


From 5fef6507a05d2b9b79095aa08948a8e0110a93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 09/57] fix: iterating or sorting a buffer that never held any
 points does not panic

---
 .../src/containers/attribute_iterators.rs     |  8 ++++---
 pasture-core/src/containers/buffer_views.rs   |  6 ++---
 pasture-core/src/containers/point_buffer.rs   | 23 +++++++++++++++++++
 .../src/containers/point_iterators.rs         |  8 ++++---
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index 99fe818..bdbac63 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -2,7 +2,9 @@ use std::marker::PhantomData;
 
 use crate::layout::{PointAttributeDefinition, PointAttributeMember, PrimitiveType};
 
-use super::point_buffer::{BorrowedBuffer, ColumnarBuffer, ColumnarBufferMut};
+use super::point_buffer::{
+    cast_memory, cast_memory_mut, BorrowedBuffer, ColumnarBuffer, ColumnarBufferMut,
+};
 
 /// An iterator over strongly typed attribute data in a point buffer. Returns attribute data
 /// by value and makes assumptions about the memory layout of the underlying buffer
@@ -77,7 +79,7 @@ impl<'a, T: PrimitiveType> AttributeIteratorByRef<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_ref(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice(attribute_memory),
+            attribute_data: cast_memory(attribute_memory),
             current_index: 0,
         }
     }
@@ -122,7 +124,7 @@ impl<'a, T: PrimitiveType> AttributeIteratorByMut<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_mut(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice_mut(attribute_memory),
+            attribute_data: cast_memory_mut(attribute_memory),
             current_index: 0,
         }
     }
diff --git a/pasture-core/src/containers/buffer_views.rs b/pasture-core/src/containers/buffer_views.rs
index b44ed20..bba7478 100644
--- a/pasture-core/src/containers/buffer_views.rs
+++ b/pasture-core/src/containers/buffer_views.rs
@@ -11,8 +11,8 @@ use super::{
         AttributeIteratorByMut, AttributeIteratorByRef, AttributeIteratorByValue,
     },
     point_buffer::{
-        BorrowedBuffer, BorrowedMutBuffer, ColumnarBuffer, ColumnarBufferMut, InterleavedBuffer,
-        InterleavedBufferMut,
+        cast_memory_mut, BorrowedBuffer, BorrowedMutBuffer, ColumnarBuffer, ColumnarBufferMut,
+        InterleavedBuffer, InterleavedBufferMut,
     },
     point_iterators::{PointIteratorByMut, PointIteratorByRef, PointIteratorByValue},
     OwningBuffer,
@@ -236,7 +236,7 @@ impl<'a, 'b, B: InterleavedBufferMut<'a>, T: PointType> PointViewMut<'a, 'b, B,
     /// Sorts the point buffer using the given `comparator` function
     pub fn sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, comparator: F) {
         let typed_points: &mut [T] =
-            bytemuck::cast_slice_mut(self.buffer.get_point_range_mut(0..self.buffer.len()));
+            cast_memory_mut(self.buffer.get_point_range_mut(0..self.buffer.len()));
         typed_points.sort_by(comparator);
     }
 }
diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 70ab7f2..aaf52ad 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -589,6 +589,29 @@ pub(crate) fn byte_range_of_entries(range: Range<usize>, entry_size: usize) -> R
     byte_offset(range.start)..byte_offset(range.end)
 }
 
+/// Reinterprets the given memory as a slice of `T`. Empty memory is always valid, even if it is not aligned
+/// for `T`, as is the case for the memory of a buffer that never held any points
+///
+/// # Panics
+///
+/// If `memory` is not empty and cannot be reinterpreted as a slice of `T`
+pub(crate) fn cast_memory<T: bytemuck::AnyBitPattern>(memory: &[u8]) -> &[T] {
+    if memory.is_empty() {
+        return &[];
+    }
+    bytemuck::cast_slice(memory)
+}
+
+/// Like [`cast_memory`], but for mutable memory
+pub(crate) fn cast_memory_mut<T: bytemuck::NoUninit + bytemuck::AnyBitPattern>(
+    memory: &mut [u8],
+) -> &mut [T] {
+    if memory.is_empty() {
+        return &mut [];
+    }
+    bytemuck::cast_slice_mut(memory)
+}
+
 /// A point buffer that uses a `Vec<u8>` as its underlying storage. It stores point data in interleaved memory
 /// layout and generally behaves like an untyped vector.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index 477f0f3..24dd183 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -2,7 +2,9 @@ use std::marker::PhantomData;
 
 use crate::layout::PointType;
 
-use super::point_buffer::{BorrowedBuffer, InterleavedBuffer, InterleavedBufferMut};
+use super::point_buffer::{
+    cast_memory, cast_memory_mut, BorrowedBuffer, InterleavedBuffer, InterleavedBufferMut,
+};
 
 /// Iterator over strongly typed points by value
 pub struct PointIteratorByValue<'a, 'b, T: PointType, B: BorrowedBuffer<'a>>
@@ -60,7 +62,7 @@ where
     fn from(value: &'a B) -> Self {
         let points_memory = value.get_point_range_ref(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice(points_memory),
+            point_data: cast_memory(points_memory),
             current_index: 0,
         }
     }
@@ -103,7 +105,7 @@ where
     fn from(value: &'a mut B) -> Self {
         let memory_for_all_points = value.get_point_range_mut(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice_mut(memory_for_all_points),
+            point_data: cast_memory_mut(memory_for_all_points),
             current_index: 0,
             _phantom: Default::default(),
         }
-- 
2.43.0


From 051adb2ac97249b8f763f86513056bf82be8f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 10/57] fix: impossible attribute conversions are reported as
 None/Err instead of a panic

get_generic_converter returns an Option, and AttributeViewConverting and UntypedPoint
return errors for types that can not be converted, but they all panicked.
---
 pasture-core/src/containers/buffer_views.rs   |  9 +++------
 pasture-core/src/containers/untyped_point.rs  | 10 +++++-----
 .../layout/conversion/attribute_conversion.rs | 19 ++++++++++++-------
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/pasture-core/src/containers/buffer_views.rs b/pasture-core/src/containers/buffer_views.rs
index bba7478..1d473f5 100644
--- a/pasture-core/src/containers/buffer_views.rs
+++ b/pasture-core/src/containers/buffer_views.rs
@@ -2,7 +2,7 @@ use anyhow::{anyhow, Result};
 use std::{cell::RefCell, marker::PhantomData};
 
 use crate::layout::{
-    conversion::{convert_unit, get_converter_for_attributes, AttributeConversionFn},
+    conversion::{convert_unit, get_generic_converter, AttributeConversionFn},
     PointAttributeDefinition, PointAttributeMember, PointType, PrimitiveType,
 };
 
@@ -540,11 +540,8 @@ impl<'a, 'b, B: BorrowedBuffer<'a>, T: PrimitiveType> AttributeViewConverting<'a
         let converter_fn = if attribute_in_layout.datatype() == T::data_type() {
             convert_unit
         } else {
-            get_converter_for_attributes(
-                attribute_in_layout.attribute_definition(),
-                &attribute.with_custom_datatype(T::data_type()),
-            )
-            .ok_or(anyhow!("Conversion between attribute types is impossible"))?
+            get_generic_converter(attribute_in_layout.datatype(), T::data_type())
+                .ok_or(anyhow!("Conversion between attribute types is impossible"))?
         };
         let converter_buffer = vec![0; attribute_in_layout.size() as usize];
         Ok(Self {
diff --git a/pasture-core/src/containers/untyped_point.rs b/pasture-core/src/containers/untyped_point.rs
index a804179..1b81f03 100644
--- a/pasture-core/src/containers/untyped_point.rs
+++ b/pasture-core/src/containers/untyped_point.rs
@@ -1,4 +1,4 @@
-use crate::layout::conversion::get_converter_for_attributes;
+use crate::layout::conversion::get_generic_converter;
 use crate::layout::{PointAttributeDefinition, PointLayout, PrimitiveType};
 use anyhow::{bail, Context, Result};
 use std::io::Cursor;
@@ -111,7 +111,7 @@ impl UntypedPoint for UntypedPointBuffer<'_> {
         if T::data_type() != attribute.datatype() {
             let target_attribute_definition =
                 PointAttributeDefinition::with_custom_datatype(attribute, T::data_type());
-            let converter = match get_converter_for_attributes(attribute, &target_attribute_definition ) {
+            let converter = match get_generic_converter(attribute.datatype(), T::data_type()) {
                         Some(c) => c,
                         None => bail!("Can't convert from attribute {} to attribute {} because no valid conversion exists", attribute, target_attribute_definition),
                     };
@@ -133,7 +133,7 @@ impl UntypedPoint for UntypedPointBuffer<'_> {
         if T::data_type() != attribute.datatype() {
             let source_attribute_definition =
                 PointAttributeDefinition::with_custom_datatype(attribute, T::data_type());
-            let converter = get_converter_for_attributes(&source_attribute_definition, attribute)
+            let converter = get_generic_converter(T::data_type(), attribute.datatype())
                     .ok_or_else(|| anyhow::anyhow!("Can't convert from attribute {} to attribute {} because no valid conversion exists", 
                     attribute, source_attribute_definition))?;
             unsafe { converter(value_byte_slice, self.get_raw_attribute_mut(attribute)?) };
@@ -186,7 +186,7 @@ impl UntypedPoint for UntypedPointSlice<'_> {
         if T::data_type() != attribute.datatype() {
             let target_attribute_definition =
                 PointAttributeDefinition::with_custom_datatype(attribute, T::data_type());
-            let converter = match get_converter_for_attributes(attribute, &target_attribute_definition ) {
+            let converter = match get_generic_converter(attribute.datatype(), T::data_type()) {
                         Some(c) => c,
                         None => bail!("Can't convert from attribute {} to attribute {} because no valid conversion exists", attribute, target_attribute_definition),
                     };
@@ -270,7 +270,7 @@ impl UntypedPoint for UntypedPointSlice<'_> {
         if T::data_type() != attribute.datatype() {
             let source_attribute_definition =
                 PointAttributeDefinition::with_custom_datatype(attribute, T::data_type());
-            let converter = get_converter_for_attributes(&source_attribute_definition, attribute)
+            let converter = get_generic_converter(T::data_type(), attribute.datatype())
                     .ok_or_else(|| anyhow::anyhow!("Can't convert from attribute {} to attribute {} because no valid conversion exists", 
                     attribute, source_attribute_definition))?;
             unsafe { converter(value_byte_slice, self.get_raw_attribute_mut(attribute)?) };
diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 3e11e2d..f2990cd 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -128,7 +128,15 @@ pub fn get_converter_for_attributes(
         return None;
     }
 
-    get_generic_converter(from_attribute.datatype(), to_attribute.datatype())
+    let converter = get_generic_converter(from_attribute.datatype(), to_attribute.datatype())
+        .unwrap_or_else(|| {
+            panic!(
+                "Invalid conversion {} -> {}",
+                from_attribute.datatype(),
+                to_attribute.datatype()
+            )
+        });
+    Some(converter)
 }
 
 macro_rules! insert_scalar_converter_using_as {
@@ -180,7 +188,8 @@ macro_rules! insert_vec3_converter_using_as {
 }
 
 /// Returns a generic converter that can convert between primitive types. These functions implement primitive type conversions
-/// as if using the `as` operator, using the [`num_traits::AsPrimitive`] trait
+/// as if using the `as` operator, using the [`num_traits::AsPrimitive`] trait. Returns `None` if there is no conversion
+/// from `from_type` to `to_type`
 pub fn get_generic_converter(
     from_type: PointAttributeDataType,
     to_type: PointAttributeDataType,
@@ -263,11 +272,7 @@ pub fn get_generic_converter(
         };
     }
 
-    let key = (from_type, to_type);
-    let f = GENERIC_CONVERTERS
-        .get(&key)
-        .unwrap_or_else(|| panic!("Invalid conversion {} -> {}", from_type, to_type));
-    Some(*f)
+    GENERIC_CONVERTERS.get(&(from_type, to_type)).copied()
 }
 
 /// Unit conversion function (when from and to represent the same datatype)
-- 
2.43.0


From b05bc1e42bd10eb6692c56772d73b142a20dff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 11/57] fix: RawPointConverter copies attributes with identical
 datatypes

---
 .../src/layout/conversion/attribute_conversion.rs      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index f2990cd..bee365b 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -74,10 +74,12 @@ impl RawPointConverter {
                 let to_attribute = to_layout
                     .get_attribute_by_name(from_attribute.name())
                     .unwrap();
-                let conversion_fn = get_converter_for_attributes(
-                    from_attribute.attribute_definition(),
-                    to_attribute.attribute_definition(),
-                );
+                let conversion_fn: Option<AttributeConversionFn> =
+                    if from_attribute.datatype() == to_attribute.datatype() {
+                        Some(convert_unit)
+                    } else {
+                        get_generic_converter(from_attribute.datatype(), to_attribute.datatype())
+                    };
                 conversion_fn.map(|conversion_fn| {
                     RawAttributeConverter::new(
                         conversion_fn,
-- 
2.43.0


From fe509d95fa4d37cbf1ba496e06ecb3af56a83ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 12/57] fix: UntypedPoint::set_raw_attribute refuses values of
 the wrong size with an error

---
 pasture-core/src/containers/untyped_point.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pasture-core/src/containers/untyped_point.rs b/pasture-core/src/containers/untyped_point.rs
index 1b81f03..e3f74a0 100644
--- a/pasture-core/src/containers/untyped_point.rs
+++ b/pasture-core/src/containers/untyped_point.rs
@@ -82,6 +82,9 @@ impl UntypedPoint for UntypedPointBuffer<'_> {
         if self.buffer.len() < end {
             bail!("Buffer size to small.");
         }
+        if value_byte_slice.len() != end - start {
+            bail!("Value has wrong size.");
+        }
         self.buffer[start..end].copy_from_slice(value_byte_slice);
         Ok(())
     }
@@ -243,6 +246,9 @@ impl UntypedPoint for UntypedPointSlice<'_> {
         if self.slice.len() < end {
             bail!("Buffer size to small.");
         }
+        if value.len() != end - start {
+            bail!("Value has wrong size.");
+        }
         self.slice[start..end].copy_from_slice(value);
         Ok(())
     }
-- 
2.43.0


From 07c5e30a0c178f82c326850a6e849a720403618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 13/57] fix: packed point layouts get the alignment of their
 strictest field

FieldAlignment::Packed(n) always lowered the alignment of the layout to that of the layout
so far (initially 1), so packed(n) layouts were not padded as repr(packed(n)) structs are.
---
 pasture-core/src/layout/point_layout.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 97bd11a..8734a38 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -821,15 +821,8 @@ impl PointLayout {
             .align_to(alignment_requirement_of_field);
 
         let current_max_alignment = self.memory_layout.align() as u64;
-        let new_max_alignment = match field_alignment {
-            FieldAlignment::Default => std::cmp::max(
-                current_max_alignment,
-                point_attribute.datatype().min_alignment(),
-            ),
-            FieldAlignment::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, current_max_alignment)
-            }
-        };
+        let new_max_alignment =
+            std::cmp::max(current_max_alignment, alignment_requirement_of_field);
 
         self.attributes
             .push(point_attribute.at_offset_in_type(offset));
-- 
2.43.0


From e5f70dd16e37d64d7447d289a9b5bb99f18ecb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 14/57] fix: adding an attribute to a layout with reordered
 attributes does not overlap them

---
 pasture-core/src/layout/point_layout.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 8734a38..eaa5e78 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -1001,14 +1001,13 @@ impl PointLayout {
     /// Returns the offset of the next field that could be added to this `PointLayout`, without any alignment
     /// requirements
     fn packed_offset_of_next_field(&self) -> u64 {
-        if self.attributes.is_empty() {
-            0
-        } else {
-            // If there are previous attributes, the offset to this attribute is equal to the offset
-            // to the previous attribute plus the previous attribute's size
-            let last_attribute = self.attributes.last().unwrap();
-            last_attribute.offset() + last_attribute.size()
-        }
+        // The attributes might be in a different order in memory, so the last attribute does not have to be
+        // the one with the greatest offset
+        self.attributes
+            .iter()
+            .map(|attribute| attribute.offset() + attribute.size())
+            .max()
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 7fdb0d1fe8d0d8d7adf08ce7b8f3e8c81a02a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 15/57] fix: derived point layouts use the offsets and
 alignment the compiler chose

---
 pasture-derive/src/layout.rs |  77 +++--------------------
 pasture-derive/src/lib.rs    | 116 ++++++++---------------------------
 2 files changed, 35 insertions(+), 158 deletions(-)

diff --git a/pasture-derive/src/layout.rs b/pasture-derive/src/layout.rs
index d33a1f1..9bdfab0 100644
--- a/pasture-derive/src/layout.rs
+++ b/pasture-derive/src/layout.rs
@@ -1,12 +1,6 @@
 use syn::{Attribute, DataStruct, Error};
 use syn::{NestedMeta, Result};
 
-#[derive(Debug)]
-pub(crate) enum StructMemberLayout {
-    C,
-    Packed(u64),
-}
-
 /// Is the given Attribute a #[repr(...)] attribute?
 fn is_repr_attribute(attribute: &Attribute) -> bool {
     attribute
@@ -43,61 +37,11 @@ fn arg_is_packed(arg: &NestedMeta) -> bool {
     }
 }
 
-fn get_packing_from_arg(arg: &NestedMeta) -> Result<u64> {
-    match arg {
-        NestedMeta::Meta(meta) => {
-            match meta {
-                syn::Meta::Path(_) => Ok(1),
-                syn::Meta::List(list) => {
-                    let packed_value = match list.nested.first() {
-                    Some(f) => f,
-                    None => return Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]. packed List attribute has no nested members")),
-                };
-
-                    match packed_value {
-                        NestedMeta::Meta(meta) => match meta {
-                            syn::Meta::Path(path) => {
-                                let val_str = path
-                                    .get_ident()
-                                    .map(|ident| ident.to_string())
-                                    .ok_or_else(|| {
-                                        Error::new_spanned(
-                                            arg,
-                                            "Expected #[repr(packed(N))]. Could not get ident",
-                                        )
-                                    })?;
-                                val_str.parse::<u64>().map_err(|_| {
-                                    Error::new_spanned(
-                                        arg,
-                                        "Expected #[repr(packed(N))]. Could not parse number",
-                                    )
-                                })
-                            }
-                            _ => Err(Error::new_spanned(
-                                arg,
-                                "Expected #[repr(packed(N))]. Meta is no Path",
-                            )),
-                        },
-                        NestedMeta::Lit(literal) => match literal {
-                            syn::Lit::Int(int_literal) => Ok(int_literal.base10_parse::<u64>()?),
-                            _ => Err(Error::new_spanned(
-                                arg,
-                                "Expected #[repr(packed(N))], but argument N is no integer literal",
-                            )),
-                        },
-                    }
-                }
-                _ => Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]")),
-            }
-        }
-        _ => Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]")),
-    }
-}
-
-pub(crate) fn get_struct_member_layout(
+/// Checks that the `#[repr(...)]` attribute of the struct permits deriving `PointType`
+pub(crate) fn check_struct_member_layout(
     struct_attributes: &[Attribute],
     data_struct: &DataStruct,
-) -> Result<StructMemberLayout> {
+) -> Result<()> {
     // Do we have a #[repr(...)] attribute?
     let maybe_repr_attribute = struct_attributes.iter().find(|a| is_repr_attribute(a));
     if maybe_repr_attribute.is_none() {
@@ -119,15 +63,12 @@ pub(crate) fn get_struct_member_layout(
             // Several combinations of those are possible! So first we look for either
             // the 'C' or 'packed'/'packed(N)' arguments
 
-            let maybe_packed = list.nested.iter().find(|arg| arg_is_packed(arg));
-            if let Some(packed_arg) = maybe_packed {
-                let packing = get_packing_from_arg(packed_arg)?;
-                return Ok(StructMemberLayout::Packed(packing));
-            }
-
-            let maybe_repr_c = list.nested.iter().find(|arg| arg_is_c(arg));
-            if maybe_repr_c.is_some() {
-                return Ok(StructMemberLayout::C);
+            if list
+                .nested
+                .iter()
+                .any(|arg| arg_is_packed(arg) || arg_is_c(arg))
+            {
+                return Ok(());
             }
 
             //Ok(StructMemberLayout::Rust)
diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index 701e9fe..89f9c33 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -2,13 +2,13 @@ extern crate proc_macro;
 use std::collections::HashSet;
 
 //use anyhow::{anyhow, bail, Result};
-use layout::{get_struct_member_layout, StructMemberLayout};
+use layout::check_struct_member_layout;
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::DeriveInput;
 use syn::{
-    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit,
-    NestedMeta, PathArguments, Result, Type, TypePath,
+    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Index, Lit,
+    Member, NestedMeta, PathArguments, Result, Type, TypePath,
 };
 
 mod layout;
@@ -33,48 +33,6 @@ enum PasturePrimitiveType {
 }
 
 impl PasturePrimitiveType {
-    fn min_alignment(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 1,
-            PasturePrimitiveType::Vec3u16 => 2,
-            PasturePrimitiveType::Vec3f32 => 4,
-            PasturePrimitiveType::Vec3f64 => 8,
-            PasturePrimitiveType::Vec3i32 => 4,
-            &PasturePrimitiveType::Vec4u8 => 1,
-        }
-    }
-
-    fn size(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 3,
-            PasturePrimitiveType::Vec3u16 => 6,
-            PasturePrimitiveType::Vec3f32 => 12,
-            PasturePrimitiveType::Vec3f64 => 24,
-            PasturePrimitiveType::Vec3i32 => 12,
-            &PasturePrimitiveType::Vec4u8 => 4,
-        }
-    }
-
     fn as_token_stream(&self) -> quote::__private::TokenStream {
         match self {
             PasturePrimitiveType::U8 => quote! {pasture_core::layout::PointAttributeDataType::U8},
@@ -304,6 +262,7 @@ fn get_attribute_name_from_field(field: &Field) -> Result<String> {
 /// Describes a single field within a `PointType` struct. Contains the name of the field, the point attribute
 /// that the field maps to, as well as the primitive type of the field
 struct FieldLayoutDescription {
+    pub member: Member,
     pub attribute_name: String,
     pub primitive_type: PasturePrimitiveType,
 }
@@ -311,12 +270,18 @@ struct FieldLayoutDescription {
 fn get_field_layout_descriptions(fields: &Fields) -> Result<Vec<FieldLayoutDescription>> {
     fields
         .iter()
-        .map(|field| match field.ty {
+        .enumerate()
+        .map(|(index, field)| match field.ty {
             Type::Path(ref type_path) => {
                 let primitive_type = type_path_to_primitive_type(type_path)?;
                 let attribute_name = get_attribute_name_from_field(field)?;
+                let member = match &field.ident {
+                    Some(ident) => Member::Named(ident.clone()),
+                    None => Member::Unnamed(Index::from(index)),
+                };
 
                 Ok(FieldLayoutDescription {
+                    member,
                     attribute_name,
                     primitive_type,
                 })
@@ -343,41 +308,14 @@ fn field_parameters(data: &Data, ident: &Ident) -> Result<Vec<FieldLayoutDescrip
     }
 }
 
-fn calculate_offsets_and_alignment(
-    fields: &[FieldLayoutDescription],
-    data: &Data,
-    ident: &Ident,
-    type_attributes: &[Attribute],
-) -> Result<(Vec<u64>, u64)> {
-    let struct_data = match data {
-        Data::Struct(struct_data) => struct_data,
-        _ => {
-            return Err(Error::new_spanned(
-                ident,
-                "#[derive(PointType)] is only valid for structs",
-            ))
-        }
-    };
-    let struct_layout = get_struct_member_layout(type_attributes, struct_data)?;
-
-    let mut current_offset = 0;
-    let mut max_alignment = 1;
-    let mut offsets = vec![];
-    for field in fields {
-        let min_alignment = match struct_layout {
-            StructMemberLayout::C => field.primitive_type.min_alignment(),
-            StructMemberLayout::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, field.primitive_type.min_alignment())
-            }
-        };
-        max_alignment = std::cmp::max(min_alignment, max_alignment);
-
-        let aligned_offset = ((current_offset + min_alignment - 1) / min_alignment) * min_alignment;
-        offsets.push(aligned_offset);
-        current_offset = aligned_offset + field.primitive_type.size();
+fn check_repr(data: &Data, ident: &Ident, type_attributes: &[Attribute]) -> Result<()> {
+    match data {
+        Data::Struct(struct_data) => check_struct_member_layout(type_attributes, struct_data),
+        _ => Err(Error::new_spanned(
+            ident,
+            "#[derive(PointType)] is only valid for structs",
+        )),
     }
-
-    Ok((offsets, max_alignment))
 }
 
 /// Custom `derive` macro that implements the [`PointType`](pasture_core::layout::PointType) trait for the type that it is applied to.
@@ -445,19 +383,17 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             return why.to_compile_error().into();
         }
     };
-    let (offsets, type_alignment) =
-        match calculate_offsets_and_alignment(&fields, &input.data, name, input.attrs.as_slice()) {
-            Ok(inner) => inner,
-            Err(why) => {
-                return why.to_compile_error().into();
-            }
-        };
+    if let Err(why) = check_repr(&input.data, name, input.attrs.as_slice()) {
+        return why.to_compile_error().into();
+    }
 
-    let attribute_descriptions = fields.iter().zip(offsets.iter()).map(|(field, offset)| {
+    // The compiler knows the true offsets and alignment for every combination of #[repr(...)] arguments
+    let attribute_descriptions = fields.iter().map(|field| {
         let attribute_name = &field.attribute_name;
         let primitive_type = &field.primitive_type.as_token_stream();
+        let member = &field.member;
         quote! {
-            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(#offset)
+            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(std::mem::offset_of!(#name, #member) as u64)
         }
     });
 
@@ -466,7 +402,7 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             fn layout() -> pasture_core::layout::PointLayout {
                 pasture_core::layout::PointLayout::from_members_and_alignment(&[
                     #(#attribute_descriptions ,)*
-                ], #type_alignment)
+                ], std::mem::align_of::<#name>() as u64)
             }
         }
     };
-- 
2.43.0


From bde0780dcfde3768301a019165d55c2410bca45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 16/57] fix: rounding up to an alignment does not overflow when
 the result fits

---
 pasture-core/src/math/arithmetic.rs | 30 +++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/math/arithmetic.rs b/pasture-core/src/math/arithmetic.rs
index 1017a43..6a93898 100644
--- a/pasture-core/src/math/arithmetic.rs
+++ b/pasture-core/src/math/arithmetic.rs
@@ -15,7 +15,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -25,7 +28,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -35,7 +41,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -45,7 +54,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -55,7 +67,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -65,7 +80,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 68707477384e6f105933e99c9fb38ae9d39cc421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 17/57] fix: voxel-grid filtering of an empty point cloud does
 not panic

---
 pasture-algorithms/src/voxel_grid.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 96e62fd..fdec35e 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -118,8 +118,11 @@ pub fn voxelgrid_filter<'a, 'b, PB: BorrowedBuffer<'a>, PBW: OwningBuffer<'b>>(
         panic!("The PointBuffer does not have the attribute attributes::POSITION_3D which is needed for the creation of the voxel grid.");
     }
 
-    // get the bounding box of the pointcloud
-    let aabb = calculate_bounds(buffer).unwrap();
+    // get the bounding box of the pointcloud. An empty pointcloud has no voxels
+    let aabb = match calculate_bounds(buffer) {
+        Some(aabb) => aabb,
+        None => return,
+    };
 
     // create arrays with all markers of one axis
     let (markers_x, markers_y, markers_z) =
-- 
2.43.0


From 9d17ecbbfeed2f82ac4384066740a5fd68715905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 18/57] fix: the maximum of a voxel's values is exact for
 negative and 64-bit values

---
 pasture-algorithms/src/voxel_grid.rs | 56 +++++-----------------------
 1 file changed, 10 insertions(+), 46 deletions(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index fdec35e..8f3cdac 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -4,7 +4,7 @@ use pasture_core::{
     containers::{BorrowedBuffer, OwningBuffer, UntypedPoint, UntypedPointBuffer},
     layout::{
         attributes::{self, POSITION_3D},
-        PointAttributeDataType, PointAttributeDefinition, PointLayout,
+        PointAttributeDataType, PointAttributeDefinition, PointLayout, PrimitiveType,
     },
     nalgebra::Vector3,
 };
@@ -166,48 +166,15 @@ pub fn voxelgrid_filter<'a, 'b, PB: BorrowedBuffer<'a>, PBW: OwningBuffer<'b>>(
 }
 
 /// calculates the attribute attribute_definition via max-pooling
-fn centroid_max_pool<'a, T: BorrowedBuffer<'a>>(
+fn centroid_max_pool<'a, V: PrimitiveType + PartialOrd, T: BorrowedBuffer<'a>>(
     v: &Voxel,
     buffer: &'a T,
     attribute_definition: &PointAttributeDefinition,
-    point_type: PointAttributeDataType,
-) -> f64 {
-    let mut curr_max = 0.0;
-    let mut value;
-    for p in &v.points {
-        match point_type {
-            PointAttributeDataType::U8 => {
-                value = buffer.view_attribute::<u8>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::I8 => {
-                value = buffer.view_attribute::<i8>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::U16 => {
-                value = buffer.view_attribute::<u16>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::I16 => {
-                value = buffer.view_attribute::<i16>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::U32 => {
-                value = buffer.view_attribute::<u32>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::I32 => {
-                value = buffer.view_attribute::<i32>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::U64 => {
-                value = buffer.view_attribute::<u64>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::I64 => {
-                value = buffer.view_attribute::<i64>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::F32 => {
-                value = buffer.view_attribute::<f32>(attribute_definition).at(*p) as f64;
-            }
-            PointAttributeDataType::F64 => {
-                value = buffer.view_attribute::<f64>(attribute_definition).at(*p);
-            }
-            _ => unimplemented!(),
-        }
+) -> V {
+    let values = buffer.view_attribute::<V>(attribute_definition);
+    let mut curr_max = values.at(v.points[0]);
+    for p in &v.points[1..] {
+        let value = values.at(*p);
         if value > curr_max {
             curr_max = value;
         }
@@ -500,9 +467,7 @@ fn set_all_attributes<'a, PB: BorrowedBuffer<'a>>(
         } else if a.name() == attributes::CLASSIFICATION_FLAGS.name()
             && a.datatype() == attributes::CLASSIFICATION_FLAGS.datatype()
         {
-            let max =
-                centroid_max_pool::<PB>(v, buffer, &attributes::CLASSIFICATION_FLAGS, a.datatype())
-                    as u8;
+            let max = centroid_max_pool::<u8, PB>(v, buffer, &attributes::CLASSIFICATION_FLAGS);
             let m_slice = bytemuck::bytes_of(&max);
             centroid
                 .set_raw_attribute(&attributes::CLASSIFICATION_FLAGS, m_slice)
@@ -603,7 +568,7 @@ fn set_all_attributes<'a, PB: BorrowedBuffer<'a>>(
         } else if a.name() == attributes::GPS_TIME.name()
             && a.datatype() == attributes::GPS_TIME.datatype()
         {
-            let max = centroid_max_pool::<PB>(v, buffer, &attributes::GPS_TIME, a.datatype());
+            let max = centroid_max_pool::<f64, PB>(v, buffer, &attributes::GPS_TIME);
             let m_slice = bytemuck::bytes_of(&max);
             centroid
                 .set_raw_attribute(&attributes::GPS_TIME, m_slice)
@@ -662,8 +627,7 @@ fn set_all_attributes<'a, PB: BorrowedBuffer<'a>>(
         } else if a.name() == attributes::POINT_ID.name()
             && a.datatype() == attributes::POINT_ID.datatype()
         {
-            let max =
-                centroid_max_pool::<PB>(v, buffer, &attributes::POINT_ID, a.datatype()) as u64;
+            let max = centroid_max_pool::<u64, PB>(v, buffer, &attributes::POINT_ID);
             let m_slice = bytemuck::bytes_of(&max);
             centroid
                 .set_raw_attribute(&attributes::POINT_ID, m_slice)
-- 
2.43.0


From 4eccfe2092427674551e6eefa484d382e72fa227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 19/57] fix: convex hulls of positions that are not stored as
 f64 do not panic

---
 pasture-algorithms/src/convexhull.rs | 52 ++++++++++++++--------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 01f2390..c9cdb89 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -93,25 +93,26 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
         }
     };
 
-    let mut pointid: usize = 0;
-    if position_attribute.datatype() == POSITION_3D.datatype() {
-        for point in buffer.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+    let positions: Vec<Vector3<f64>> = if position_attribute.datatype() == POSITION_3D.datatype() {
+        buffer
+            .view_attribute::<Vector3<f64>>(&POSITION_3D)
+            .into_iter()
+            .collect()
     } else {
-        for point in buffer
+        buffer
             .view_attribute_with_conversion::<Vector3<f64>>(&POSITION_3D)
             .expect("Can't convert POSITION_3D attribute")
-        {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+            .into_iter()
+            .collect()
     };
+    for (pointid, point) in positions.iter().enumerate() {
+        iteration(&positions, pointid, *point, &mut triangles);
+    }
     triangles
 }
 
 /// Performs a single iteration of the cunvex hull algorithm.
+/// `positions`: the positions of all points in the buffer
 /// `pointid`: current index within the buffer
 /// `point`: current point to be checked against the convex hull, possibly extends the convex hull
 /// `triangles`: the set of triangles forming the convex hull
@@ -120,8 +121,8 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
 /// If the point lies outside of the current convex hull the hull has to be extended to include the current point.
 /// If 'triangles' contain only one entry: no full triangle has been found yet. In case of linearily dependant points no second triangle is added.
 /// If all 'triangles' are in a plane with 'point' a special triangulation procedure is needed to prevent a degenerated triangle mesh.
-fn iteration<'a, T: BorrowedBuffer<'a>>(
-    buffer: &'a T,
+fn iteration(
+    positions: &[Vector3<f64>],
     pointid: usize,
     point: Vector3<f64>,
     triangles: &mut Vec<Triangle>,
@@ -138,8 +139,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         if pointid == 1 {
             first.b = pointid;
         } else {
-            let first_a = buffer.view_attribute(&POSITION_3D).at(first.a);
-            let first_b = buffer.view_attribute(&POSITION_3D).at(first.b);
+            let first_a = positions[first.a];
+            let first_b = positions[first.b];
             let ab: Vector3<f64> = first_b - first_a;
             let ab_mag_sqr = ab.magnitude_squared();
             if ab_mag_sqr == 0.0 {
@@ -176,7 +177,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         let mut planar_triangles = Vec::new();
 
         triangles.retain(|tri| {
-            let tri_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(tri.a);
+            let tri_a: Vector3<f64> = positions[tri.a];
             let pa: Vector3<f64> = tri_a - point;
             let dot = pa.dot(&tri.normal);
             if dot < 0.0 {
@@ -192,8 +193,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
 
         if !outer_edges.is_empty() || !inner_edges.is_empty() {
             for edge in outer_edges.iter() {
-                let edge_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.a);
-                let edge_b: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.b);
+                let edge_a: Vector3<f64> = positions[edge.a];
+                let edge_b: Vector3<f64> = positions[edge.b];
                 triangles.push(Triangle {
                     a: edge.a,
                     b: edge.b,
@@ -205,11 +206,10 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             // Find all edges of the triangle of which the edge-normal is facing the point.
             let mut edges_facing_point = Vec::new();
             let mut edge_triangle_id = Vec::new();
-            let position_view = buffer.view_attribute(&POSITION_3D);
             for (i, pt) in planar_triangles.iter().enumerate() {
-                let planar_a = position_view.at(pt.a);
-                let planar_b = position_view.at(pt.b);
-                let planar_c = position_view.at(pt.c);
+                let planar_a = positions[pt.a];
+                let planar_b = positions[pt.b];
+                let planar_c = positions[pt.c];
                 let dist_ab = dist_point_to_edge(point, planar_a, planar_b, pt.normal);
                 if dist_ab >= 0.0 {
                     edges_facing_point.push(Edge { a: pt.a, b: pt.b });
@@ -235,8 +235,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             let mut edge_triangle_normals = Vec::new();
             for i in (0..edges_facing_point.len()).rev() {
                 let edg = edges_facing_point[i];
-                let edg_a: Vector3<f64> = position_view.at(edg.a);
-                let edg_b: Vector3<f64> = position_view.at(edg.b);
+                let edg_a: Vector3<f64> = positions[edg.a];
+                let edg_b: Vector3<f64> = positions[edg.b];
                 let dist_edg_a_p = (edg_a - point).magnitude_squared();
                 let dist_edg_b_p = (edg_b - point).magnitude_squared();
                 let dist_edg_p = dist_point_to_line_segment(point, edg_a, edg_b);
@@ -249,8 +249,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                             planar_triangles[edge_triangle_id[other_edge_id]].normal;
                         if edg_triangle_normal.dot(&other_edg_triangle_normal) > 0.0 {
                             let other_edg = edges_facing_point[other_edge_id];
-                            let other_edg_a: Vector3<f64> = position_view.at(other_edg.a);
-                            let other_edg_b: Vector3<f64> = position_view.at(other_edg.b);
+                            let other_edg_a: Vector3<f64> = positions[other_edg.a];
+                            let other_edg_b: Vector3<f64> = positions[other_edg.b];
                             let point_other_edg_a = other_edg_a - point;
                             let point_other_edg_b = other_edg_b - point;
                             let point_other_edg_a_norm =
-- 
2.43.0


From 8e67079f9d8aa7a38b4aa753d40029e6ac814b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 20/57] fix: the convex hull of no points has no points

---
 pasture-algorithms/src/convexhull.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index c9cdb89..25c4a31 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -69,8 +69,7 @@ pub fn convex_hull_as_points<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<us
             points.insert(tri.b);
             points.insert(tri.c);
         }
-    } else {
-        let tri = triangles[0];
+    } else if let Some(tri) = triangles.first() {
         points.insert(tri.a);
         points.insert(tri.b);
         if tri.c != 0 {
-- 
2.43.0


From 1a6ba0bf6b800b1402aa42f0e595071ddb8975c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 21/57] fix: points on one line are recognised when building a
 convex hull

---
 pasture-algorithms/src/convexhull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 25c4a31..d6b798d 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -148,7 +148,7 @@ fn iteration(
                 let ac: Vector3<f64> = point - first_a;
                 let ab_norm = ab.normalize();
                 let ac_ab_projected_length = ac.dot(&ab_norm);
-                if f64::abs(ac_ab_projected_length) == ac.magnitude() {
+                if ab.cross(&ac).magnitude_squared() == 0.0 {
                     if ac_ab_projected_length >= 0.0 {
                         if ac.magnitude_squared() > ab_mag_sqr {
                             first.b = pointid;
-- 
2.43.0


From 2b73e38aaeaba7844809726b1dbd5ba5f84e8f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 22/57] fix: points in the plane of a convex hull's triangle
 leave no degenerate triangles or holes

---
 pasture-algorithms/src/convexhull.rs | 250 ++++-----------------------
 1 file changed, 36 insertions(+), 214 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index d6b798d..dee37d7 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -1,7 +1,7 @@
 use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::{layout::attributes::POSITION_3D, nalgebra::Vector3};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
 use std::hash::{Hash, Hasher};
 use std::usize;
 
@@ -173,24 +173,24 @@ fn iteration(
     } else {
         let mut outer_edges = HashSet::new();
         let mut inner_edges = HashSet::new();
-        let mut planar_triangles = Vec::new();
+        let facing_point = |tri: &Triangle| (positions[tri.a] - point).dot(&tri.normal);
+        let is_outside = triangles.iter().any(|tri| facing_point(tri) < 0.0);
+        let is_in_plane = triangles.iter().all(|tri| facing_point(tri) == 0.0);
 
         triangles.retain(|tri| {
-            let tri_a: Vector3<f64> = positions[tri.a];
-            let pa: Vector3<f64> = tri_a - point;
-            let dot = pa.dot(&tri.normal);
-            if dot < 0.0 {
+            let dot = facing_point(tri);
+            // Triangles in a plane with a point outside of the hull are replaced together with the triangles that face
+            // the point, otherwise the new triangles at their edges could have no area.
+            if dot < 0.0 || (is_outside && dot == 0.0) {
                 add_edge_to_outer_or_inner_edges(tri.a, tri.b, &mut outer_edges, &mut inner_edges);
                 add_edge_to_outer_or_inner_edges(tri.b, tri.c, &mut outer_edges, &mut inner_edges);
                 add_edge_to_outer_or_inner_edges(tri.c, tri.a, &mut outer_edges, &mut inner_edges);
                 return false;
-            } else if dot == 0.0 {
-                planar_triangles.push(*tri);
             }
             true
         });
 
-        if !outer_edges.is_empty() || !inner_edges.is_empty() {
+        if is_outside {
             for edge in outer_edges.iter() {
                 let edge_a: Vector3<f64> = positions[edge.a];
                 let edge_b: Vector3<f64> = positions[edge.b];
@@ -201,190 +201,36 @@ fn iteration(
                     normal: calc_normal(edge_a, edge_b, point),
                 });
             }
-        } else {
-            // Find all edges of the triangle of which the edge-normal is facing the point.
-            let mut edges_facing_point = Vec::new();
-            let mut edge_triangle_id = Vec::new();
-            for (i, pt) in planar_triangles.iter().enumerate() {
-                let planar_a = positions[pt.a];
-                let planar_b = positions[pt.b];
-                let planar_c = positions[pt.c];
-                let dist_ab = dist_point_to_edge(point, planar_a, planar_b, pt.normal);
-                if dist_ab >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.a, b: pt.b });
-                    edge_triangle_id.push(i);
-                }
-                let dist_bc = dist_point_to_edge(point, planar_b, planar_c, pt.normal);
-                if dist_bc >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.b, b: pt.c });
-                    edge_triangle_id.push(i);
-                }
-                let dist_ca = dist_point_to_edge(point, planar_c, planar_a, pt.normal);
-                if dist_ca >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.c, b: pt.a });
-                    edge_triangle_id.push(i);
-                }
-                if dist_ab < 0.0 && dist_bc < 0.0 && dist_ca < 0.0 {
-                    edges_facing_point.clear();
-                    break;
-                }
-            }
-
-            // Remove all edges occluded by other edges.
-            let mut edge_triangle_normals = Vec::new();
-            for i in (0..edges_facing_point.len()).rev() {
-                let edg = edges_facing_point[i];
-                let edg_a: Vector3<f64> = positions[edg.a];
-                let edg_b: Vector3<f64> = positions[edg.b];
-                let dist_edg_a_p = (edg_a - point).magnitude_squared();
-                let dist_edg_b_p = (edg_b - point).magnitude_squared();
-                let dist_edg_p = dist_point_to_line_segment(point, edg_a, edg_b);
-                let edg_triangle_normal: Vector3<f64> =
-                    planar_triangles[edge_triangle_id[i]].normal;
-                let mut remove = false;
-                for other_edge_id in 0..edges_facing_point.len() {
-                    if other_edge_id != i {
-                        let other_edg_triangle_normal =
-                            planar_triangles[edge_triangle_id[other_edge_id]].normal;
-                        if edg_triangle_normal.dot(&other_edg_triangle_normal) > 0.0 {
-                            let other_edg = edges_facing_point[other_edge_id];
-                            let other_edg_a: Vector3<f64> = positions[other_edg.a];
-                            let other_edg_b: Vector3<f64> = positions[other_edg.b];
-                            let point_other_edg_a = other_edg_a - point;
-                            let point_other_edg_b = other_edg_b - point;
-                            let point_other_edg_a_norm =
-                                other_edg_triangle_normal.cross(&point_other_edg_a);
-                            let point_other_edg_b_norm =
-                                other_edg_triangle_normal.cross(&point_other_edg_b);
-                            let edg_a_other_edg_a = edg_a - other_edg_a;
-                            let edg_a_other_edg_b = edg_a - other_edg_b;
-                            let edg_b_other_edg_a = edg_b - other_edg_a;
-                            let edg_b_other_edg_b = edg_b - other_edg_b;
-                            let ea_oea_dot_border_a =
-                                point_other_edg_a_norm.dot(&edg_a_other_edg_a);
-                            let eb_oea_dot_border_a =
-                                point_other_edg_a_norm.dot(&edg_b_other_edg_a);
-                            let ea_oeb_dot_border_b =
-                                point_other_edg_b_norm.dot(&edg_a_other_edg_b);
-                            let eb_oeb_dot_border_b =
-                                point_other_edg_b_norm.dot(&edg_b_other_edg_b);
-                            if ea_oea_dot_border_a < 0.0 && ea_oeb_dot_border_b > 0.0 {
-                                let dist_other_edg_p = f64::min(
-                                    point_other_edg_a.magnitude_squared(),
-                                    point_other_edg_b.magnitude_squared(),
-                                );
-                                if dist_edg_a_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                            if eb_oea_dot_border_a < 0.0 && eb_oeb_dot_border_b > 0.0 {
-                                let dist_other_edg_p = f64::min(
-                                    point_other_edg_a.magnitude_squared(),
-                                    point_other_edg_b.magnitude_squared(),
-                                );
-                                if dist_edg_b_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                            if (ea_oea_dot_border_a < 0.0 && eb_oeb_dot_border_b > 0.0)
-                                || (eb_oea_dot_border_a < 0.0 && ea_oeb_dot_border_b > 0.0)
-                            {
-                                let dist_other_edg_p =
-                                    dist_point_to_line_segment(point, other_edg_a, other_edg_b);
-                                if dist_edg_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                        }
-                    }
-                }
-                if remove {
-                    edges_facing_point.remove(i);
-                    edge_triangle_id.remove(i);
-                } else {
-                    edge_triangle_normals.insert(0, -edg_triangle_normal);
-                }
+        } else if is_in_plane {
+            // All triangles lie in one plane: Find the border edges of the side the first triangle belongs to.
+            let normal = triangles[0].normal;
+            for tri in triangles.iter().filter(|tri| tri.normal.dot(&normal) > 0.0) {
+                add_edge_to_outer_or_inner_edges(tri.a, tri.b, &mut outer_edges, &mut inner_edges);
+                add_edge_to_outer_or_inner_edges(tri.b, tri.c, &mut outer_edges, &mut inner_edges);
+                add_edge_to_outer_or_inner_edges(tri.c, tri.a, &mut outer_edges, &mut inner_edges);
             }
-
-            // Remove all triangles with vertices that are contained in two edges facing point
-            let edgenum = edges_facing_point.len();
-            if edgenum > 2 {
-                let mut edges_to_remove = HashSet::new();
-                let mut vertices_on_one_edge_start = HashMap::new();
-                let mut vertices_on_one_edge_end = HashMap::new();
-                let mut vertices_on_two_edges = HashMap::new();
-                for facing_edge in edges_facing_point.iter() {
-                    let res_a = vertices_on_one_edge_start
-                        .insert(facing_edge.a, (facing_edge.b, *facing_edge));
-                    if let Some(res_a) = res_a {
-                        if res_a.0 != facing_edge.b {
-                            vertices_on_one_edge_start.remove(&facing_edge.a);
-                            vertices_on_two_edges.insert(facing_edge.a, (res_a.1, *facing_edge));
-                        }
-                    }
-                    let res_b = vertices_on_one_edge_end
-                        .insert(facing_edge.b, (facing_edge.a, *facing_edge));
-                    if let Some(res_b) = res_b {
-                        if res_b.0 != facing_edge.a {
-                            vertices_on_one_edge_end.remove(&facing_edge.b);
-                            vertices_on_two_edges.insert(facing_edge.b, (res_b.1, *facing_edge));
-                        }
-                    }
-                }
-                let mut triangles_to_remove = Vec::new();
-                for t_id in 0..triangles.len() {
-                    let tri = triangles.get(t_id).unwrap();
-                    let res_a = vertices_on_two_edges.get(&tri.a);
-                    let res_b = vertices_on_two_edges.get(&tri.b);
-                    let res_c = vertices_on_two_edges.get(&tri.c);
-                    let a_on_two_edges = res_a.is_some();
-                    let b_on_two_edges = res_b.is_some();
-                    let c_on_two_edges = res_c.is_some();
-                    if a_on_two_edges || b_on_two_edges || c_on_two_edges {
-                        triangles_to_remove.push(t_id);
-                        if c_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.a, b: tri.b });
-                            edges_to_remove.insert(Edge { a: tri.b, b: tri.c });
-                            edges_to_remove.insert(Edge { a: tri.c, b: tri.a });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                        if b_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.c, b: tri.a });
-                            edges_to_remove.insert(Edge { a: tri.a, b: tri.b });
-                            edges_to_remove.insert(Edge { a: tri.b, b: tri.c });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                        if a_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.b, b: tri.c });
-                            edges_to_remove.insert(Edge { a: tri.c, b: tri.a });
-                            edges_to_remove.insert(Edge { a: tri.a, b: tri.b });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                    }
-                }
-                for t_id_remove in triangles_to_remove.iter().rev() {
-                    triangles.remove(*t_id_remove);
-                }
-                for efp in (0..edges_facing_point.len()).rev() {
-                    if edges_to_remove.contains(edges_facing_point.get(efp).unwrap()) {
-                        edges_facing_point.remove(efp);
-                        edge_triangle_normals.remove(efp);
-                    }
+            let dist_to_edge = |edge: &Edge| {
+                dist_point_to_edge(point, positions[edge.a], positions[edge.b], normal)
+            };
+
+            // If the point lies outside of the border, connect it to all border edges that do not face it, on both sides.
+            if outer_edges.iter().any(|edge| dist_to_edge(edge) > 0.0) {
+                triangles.clear();
+                for edge in outer_edges.iter().filter(|edge| dist_to_edge(edge) < 0.0) {
+                    triangles.push(Triangle {
+                        a: edge.a,
+                        b: edge.b,
+                        c: pointid,
+                        normal,
+                    });
+                    triangles.push(Triangle {
+                        a: edge.b,
+                        b: edge.a,
+                        c: pointid,
+                        normal: -normal,
+                    });
                 }
             }
-
-            for i in 0..edges_facing_point.len() {
-                let edg = edges_facing_point[i];
-                triangles.push(Triangle {
-                    a: edg.a,
-                    b: edg.b,
-                    c: pointid,
-                    normal: edge_triangle_normals[i],
-                });
-            }
         }
     }
 }
@@ -406,30 +252,6 @@ fn dist_point_to_edge(
     edge_ab_normal.dot(&pa)
 }
 
-/// Calculates the distance of a point to a line segment.
-/// `point`: the point that lies in the same plane as the edge
-/// `line_a`: first vertex of the line segment
-/// `line_b`: second vertex of the line segment
-fn dist_point_to_line_segment(
-    point: Vector3<f64>,
-    segment_a: Vector3<f64>,
-    segment_b: Vector3<f64>,
-) -> f64 {
-    let ab: Vector3<f64> = segment_b - segment_a;
-    let ap: Vector3<f64> = point - segment_a;
-
-    if ap.dot(&ab) <= 0.0 {
-        return ap.magnitude();
-    }
-
-    let bp = point - segment_b;
-    if bp.dot(&ab) >= 0.0 {
-        return bp.magnitude();
-    }
-
-    ab.cross(&ap).magnitude() / ab.magnitude()
-}
-
 /// Adds the given edge to the set of outer edges. If the given edge is already contained in the set of outer edges it is removed and added to the set of inner edges.
 /// `a`: first vertex of the edge
 /// `b`: second vertex of the edge
-- 
2.43.0


From c02d8708c29829e0b903c5067d061f485bbcec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 23/57] fix: centroids ignore infinite coordinates like they
 ignore NaN

---
 pasture-algorithms/src/normal_estimation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 3bf9f89..3909ea2 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -127,10 +127,10 @@ where
     points_with_normals_curvature
 }
 
-/// checks whether a given point cloud has points with coordinates that are Not a Number
+/// checks whether all points of a given point cloud have finite coordinates
 fn is_dense<'a, T: BorrowedBuffer<'a>>(point_cloud: &'a T) -> bool {
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-        if point.x.is_nan() || point.y.is_nan() || point.z.is_nan() {
+        if !is_finite(&point) {
             return false;
         }
     }
-- 
2.43.0


From bb51c6a27d0f0529d438e7b3f8552a4e00ee1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 24/57] fix: normals and curvature use the eigenvalues of the
 scaled covariance matrix

---
 pasture-algorithms/src/normal_estimation.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 3909ea2..d6ffd94 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -425,26 +425,25 @@ fn get_largest_eigen_vector(scaled_matrix: &DMatrix<f64>) -> Vector3<f64> {
 
 /// for a given 3x3 matrix the functions calculates the eigen vector of the smallest eigen value that can be found
 fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
-    let scale = covariance_matrix.abs().max();
-    let mut covariance_matrix_scaled = DMatrix::<f64>::zeros(3, 3);
-    for i in 0..covariance_matrix.len() {
-        covariance_matrix_scaled[i] = covariance_matrix[i] / scale;
+    let mut scale = covariance_matrix.abs().max();
+    if scale <= f64::MIN_POSITIVE {
+        scale = 1.0;
     }
+    let mut covariance_matrix_scaled = DMatrix::<f64>::zeros(3, 3);
 
     // scale the matrix down
     for (index, value) in covariance_matrix.iter().enumerate() {
         covariance_matrix_scaled[index] = value / scale;
     }
 
-    let eigen_values = solve_polynomial(covariance_matrix);
+    let eigen_values = solve_polynomial(&covariance_matrix_scaled);
     // undo scale for smallest eigen vector
     let eigen_value = eigen_values[0] * scale;
 
     // subtract the smallest eigen value from the diagonal of the matrix
-    covariance_matrix_scaled
-        .diagonal()
-        .iter_mut()
-        .for_each(|x| *x -= eigen_values[0]);
+    for i in 0..3 {
+        covariance_matrix_scaled[(i, i)] -= eigen_values[0];
+    }
 
     let eigen_vector = get_largest_eigen_vector(&covariance_matrix_scaled);
     (eigen_value, eigen_vector)
-- 
2.43.0


From 5db632b73bee8af17d350a23752f7cd9c364fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 25/57] fix: normals are estimated from all of the k nearest
 points

---
 pasture-algorithms/src/normal_estimation.rs | 41 ++++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index d6ffd94..a3bd46b 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -5,6 +5,7 @@ use num_traits::{self};
 use pasture_core::containers::{BorrowedBuffer, BorrowedMutBuffer, HashMapBuffer, OwningBuffer};
 use pasture_core::layout::{attributes::POSITION_3D, PointType};
 use pasture_core::nalgebra::{DMatrix, Vector3};
+use std::cmp::Ordering;
 use std::result::Result;
 
 /// Normal Estimation Algorithm
@@ -103,7 +104,7 @@ where
     // iterate over all points in the point cloud and and calculate the k nearest neighbors with the constructed kd tree
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
         let r: &[f64; 3] = point.as_ref();
-        let nearest_points = cloud_as_kd_tree.nearests(r, k_nn);
+        let nearest_points = k_nearest_points(&cloud_as_kd_tree, r, k_nn);
 
         // stores the k nearest neighbors in a PointStorage
         let mut k_nn_buffer =
@@ -111,10 +112,9 @@ where
         k_nn_buffer.resize(nearest_points.len());
 
         for (index, point) in nearest_points.iter().enumerate() {
-            k_nn_buffer.view_attribute_mut(&POSITION_3D).set_at(
-                index,
-                Vector3::new(point.item[0], point.item[1], point.item[2]),
-            );
+            k_nn_buffer
+                .view_attribute_mut(&POSITION_3D)
+                .set_at(index, Vector3::new(point[0], point[1], point[2]));
         }
 
         // coordinates of the surface normal and curvature
@@ -127,6 +127,37 @@ where
     points_with_normals_curvature
 }
 
+/// finds the k points of the kd tree that are closest to the given point (or all points, if the tree has less than k points)
+fn k_nearest_points<'t>(
+    kd_tree: &'t KdTree<[f64; 3]>,
+    query: &[f64; 3],
+    k_nn: usize,
+) -> Vec<&'t [f64; 3]> {
+    // `nearests` skips branches of the tree even if it didn't find k points yet. Its result can miss points, but the distance
+    // of its k-th point bounds the distance of the k nearest points
+    let nearests = kd_tree.nearests(query, k_nn);
+    let mut points: Vec<&[f64; 3]> = if nearests.len() < k_nn {
+        kd_tree.iter().collect()
+    } else {
+        let radius = nearests[k_nn - 1].squared_distance.sqrt();
+        kd_tree.within_by_cmp(|item, axis| {
+            let diff = item[axis] - query[axis];
+            if diff < -radius {
+                Ordering::Less
+            } else if diff > radius {
+                Ordering::Greater
+            } else {
+                Ordering::Equal
+            }
+        })
+    };
+    let distance_squared =
+        |point: &[f64; 3]| -> f64 { (0..3).map(|i| (point[i] - query[i]).powi(2)).sum() };
+    points.sort_by(|a, b| distance_squared(a).total_cmp(&distance_squared(b)));
+    points.truncate(k_nn);
+    points
+}
+
 /// checks whether all points of a given point cloud have finite coordinates
 fn is_dense<'a, T: BorrowedBuffer<'a>>(point_cloud: &'a T) -> bool {
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-- 
2.43.0


From 7e747adbf3cb78f1e67d956fc639e7bcfda307cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 26/57] fix: reprojection between unknown reference systems is
 refused

---
 pasture-algorithms/src/reprojection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index 8496ed4..55ff6f5 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -1,6 +1,6 @@
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{bail, Result};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::math::AABB;
 use pasture_core::nalgebra::{Point3, Vector3};
@@ -26,6 +26,10 @@ impl Projection {
                 target_cstr.as_ptr(),
                 std::ptr::null_mut(),
             );
+            if projection.is_null() {
+                proj_sys::proj_context_destroy(proj_context);
+                bail!("Can't transform from \"{source_crs}\" to \"{target_crs}\"");
+            }
 
             Ok(Self {
                 proj_context,
-- 
2.43.0


From 6ff2afc4e21538b004106b7221e9ff9e58e617a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 27/57] fix: transformed bounds contain all transformed corners

---
 pasture-algorithms/src/reprojection.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index 55ff6f5..00124c5 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -51,16 +51,26 @@ impl Projection {
     /// Transforms the given bounding box using the associated `Projection`. This keeps the bounding box axis-aligned,
     /// the size might change though
     pub fn transform_bounds(&self, bounds: &AABB<f64>) -> AABB<f64> {
-        let transformed_min =
-            self.transform(Vector3::new(bounds.min().x, bounds.min().y, bounds.min().z));
-        let transformed_max =
-            self.transform(Vector3::new(bounds.max().x, bounds.max().y, bounds.max().z));
+        let (min, max) = (bounds.min(), bounds.max());
+        let transformed_min = self.transform(Vector3::new(min.x, min.y, min.z));
 
-        let bounds: AABB<f64> = AABB::from_min_max_unchecked(
+        let mut transformed_bounds: AABB<f64> = AABB::from_min_max_unchecked(
             Point3::from(transformed_min),
             Point3::from(transformed_min),
         );
-        AABB::extend_with_point(&bounds, &Point3::from(transformed_max))
+        // The axes can be swapped, flipped or rotated, so all corners contribute to the bounds
+        for corner in 1..8 {
+            let position = Vector3::new(
+                if corner & 1 == 0 { min.x } else { max.x },
+                if corner & 2 == 0 { min.y } else { max.y },
+                if corner & 4 == 0 { min.z } else { max.z },
+            );
+            transformed_bounds = AABB::extend_with_point(
+                &transformed_bounds,
+                &Point3::from(self.transform(position)),
+            );
+        }
+        transformed_bounds
     }
 }
 
-- 
2.43.0


From 34c3564a19228ec212d26c3699ee94476eba9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 28/57] fix: ASCII writer wrote the return number into the
 classification and user data columns

---
 pasture-io/src/ascii/raw_writer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 4e8da8c..281bc2e 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -124,15 +124,14 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
                         }
                         PointDataType::Classification => {
                             let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
+                                point.get_attribute::<u64>(&attributes::CLASSIFICATION)?;
                             self.writer
                                 .write_all(classification.to_string().as_bytes())?;
                         }
                         PointDataType::UserData => {
-                            let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
-                            self.writer
-                                .write_all(classification.to_string().as_bytes())?;
+                            let user_data =
+                                point.get_attribute::<u64>(&attributes::USER_DATA)?;
+                            self.writer.write_all(user_data.to_string().as_bytes())?;
                         }
                         PointDataType::ColorR => {
                             let color =
-- 
2.43.0


From 111d769c507e28d685f8a4439eca46c745c3ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 29/57] fix: ASCII reader returned the requested instead of the
 actual number of points

---
 pasture-io/src/ascii/raw_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index a7fdf0c..cab5e24 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -302,6 +302,7 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
         let layout = point_buffer.point_layout().clone();
         let mut temp_point = UntypedPointBuffer::new(&layout);
         //read line by line
+        let mut num_points_read = 0;
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
             let line = line?;
             //parse the line in an untypedpoint
@@ -311,8 +312,9 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
             unsafe {
                 point_buffer.set_point(index, temp_point.get_buffer());
             }
+            num_points_read += 1;
         }
-        Ok(count)
+        Ok(num_points_read)
     }
 
     fn get_default_point_layout(&self) -> &PointLayout {
-- 
2.43.0


From 4ea22aec08cb79b809cfe482af3bf40335ef61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 30/57] fix: two ASCII readers for the same format had
 different default point layouts

---
 pasture-io/src/ascii/raw_reader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index cab5e24..516b138 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -6,9 +6,7 @@ use pasture_core::layout::attributes;
 use pasture_core::layout::PointAttributeDefinition;
 use pasture_core::layout::PointLayout;
 use pasture_core::meta::Metadata;
-use std::collections::HashSet;
 use std::io::{BufRead, Read};
-use std::iter::FromIterator;
 use std::str::FromStr;
 
 use super::AsciiMetadata;
@@ -39,7 +37,7 @@ impl<T: Read + BufRead> RawAsciiReader<T> {
     }
 
     fn get_point_layout_from_parse_layout(parse_layout: &[PointDataType]) -> PointLayout {
-        let hashset = parse_layout
+        let point_attributes = parse_layout
             .iter()
             .filter(|data_type| !matches!(data_type, PointDataType::Skip))
             .map(|data_type| match data_type {
@@ -62,8 +60,9 @@ impl<T: Read + BufRead> RawAsciiReader<T> {
                 PointDataType::Nir => attributes::NIR,
                 PointDataType::Skip => panic!("Skip should be filtered"),
             })
-            .collect::<HashSet<_>>();
-        PointLayout::from_attributes(&Vec::from_iter(hashset))
+            .unique()
+            .collect_vec();
+        PointLayout::from_attributes(&point_attributes)
     }
 
     fn parse_point(
-- 
2.43.0


From c2a279ef69b7b1c1c4a9c8fbbf5e12c78a75c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 31/57] fix: ASCII reader silently left attributes zero that
 have another data type in the target layout

---
 pasture-io/src/ascii/raw_reader.rs | 60 ++++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index 516b138..ebfac3e 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -3,6 +3,7 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use itertools::{EitherOrBoth::*, Itertools};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::layout::attributes;
+use pasture_core::layout::conversion::{get_generic_converter, AttributeConversionFn};
 use pasture_core::layout::PointAttributeDefinition;
 use pasture_core::layout::PointLayout;
 use pasture_core::meta::Metadata;
@@ -65,6 +66,43 @@ impl<T: Read + BufRead> RawAsciiReader<T> {
         PointLayout::from_attributes(&point_attributes)
     }
 
+    /// Returns the attributes that exist in both layouts, together with a converter for those attributes that have a
+    /// different data type in the `target_layout`
+    #[allow(clippy::type_complexity)]
+    fn get_attribute_conversions(
+        source_layout: &PointLayout,
+        target_layout: &PointLayout,
+    ) -> Result<
+        Vec<(
+            PointAttributeDefinition,
+            PointAttributeDefinition,
+            Option<AttributeConversionFn>,
+        )>,
+    > {
+        let mut conversions = vec![];
+        for target in target_layout.attributes() {
+            let target = target.attribute_definition();
+            let source = match source_layout.get_attribute_by_name(target.name()) {
+                Some(source) => source.attribute_definition(),
+                None => continue,
+            };
+            let converter = if source.datatype() == target.datatype() {
+                None
+            } else {
+                let converter = get_generic_converter(source.datatype(), target.datatype())
+                    .with_context(|| {
+                        format!(
+                            "Can't convert from attribute {} to attribute {} because no valid conversion exists",
+                            source, target
+                        )
+                    })?;
+                Some(converter)
+            };
+            conversions.push((source.clone(), target.clone(), converter));
+        }
+        Ok(conversions)
+    }
+
     fn parse_point(
         point: &mut UntypedPointBuffer,
         line: &str,
@@ -299,14 +337,30 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
         'a: 'b,
     {
         let layout = point_buffer.point_layout().clone();
+        // Lines are parsed into the default layout and converted to the layout of the buffer from there
+        let mut parsed_point = UntypedPointBuffer::new(&self.point_layout);
         let mut temp_point = UntypedPointBuffer::new(&layout);
-        //read line by line
+        let conversions = Self::get_attribute_conversions(&self.point_layout, &layout)?;
+
         let mut num_points_read = 0;
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
             let line = line?;
             //parse the line in an untypedpoint
-            Self::parse_point(&mut temp_point, &line, &self.delimiter, &self.parse_layout)
-                .with_context(|| format!("ReadError in line {}.", index))?;
+            Self::parse_point(
+                &mut parsed_point,
+                &line,
+                &self.delimiter,
+                &self.parse_layout,
+            )
+            .with_context(|| format!("ReadError in line {}.", index))?;
+            for (source_attribute, target_attribute, converter) in &conversions {
+                let source = parsed_point.get_raw_attribute(source_attribute)?;
+                let target = temp_point.get_raw_attribute_mut(target_attribute)?;
+                match converter {
+                    Some(converter) => unsafe { converter(source, target) },
+                    None => target.copy_from_slice(source),
+                }
+            }
             //put it in the buffer
             unsafe {
                 point_buffer.set_point(index, temp_point.get_buffer());
-- 
2.43.0


From 8e775fcfb0029ff75435b81bdae2a8c6bb2c6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 32/57] fix: PntsWriter lost parts of its headers when the
 destination accepted only some of the bytes

---
 pasture-io/src/tiles3d/common.rs      | 2 +-
 pasture-io/src/tiles3d/pnts_writer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/common.rs b/pasture-io/src/tiles3d/common.rs
index 3a885c1..462b927 100644
--- a/pasture-io/src/tiles3d/common.rs
+++ b/pasture-io/src/tiles3d/common.rs
@@ -46,7 +46,7 @@ pub fn write_json_header<W: Write>(
 
     if num_padding_bytes > 0 {
         writer
-            .write(&vec![0x20; num_padding_bytes])
+            .write_all(&vec![0x20; num_padding_bytes])
             .context("Could not write padding bytes of JSON header to writer")?;
     }
 
diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 18bdfd9..cb2ed7b 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -214,11 +214,11 @@ impl<W: Write + Seek> PntsWriter<W> {
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
-            .write(feature_table_blob.as_slice())
+            .write_all(feature_table_blob.as_slice())
             .context("Error while writing FeatureTable header")?;
         self.write_feature_table_body()?;
         self.writer
-            .write(batch_table_blob.as_slice())
+            .write_all(batch_table_blob.as_slice())
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
-- 
2.43.0


From 2103d2fe17454a68fbb493b4ae6a967abca7b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 33/57] fix: PntsMetadata reported a batch length that the file
 does not have

---
 pasture-io/src/tiles3d/pnts_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/tiles3d/pnts_metadata.rs b/pasture-io/src/tiles3d/pnts_metadata.rs
index 083b2b3..dfac8d8 100644
--- a/pasture-io/src/tiles3d/pnts_metadata.rs
+++ b/pasture-io/src/tiles3d/pnts_metadata.rs
@@ -67,7 +67,7 @@ impl Metadata for PntsMetadata {
                 .quantized_volume_scale
                 .map(|v| -> Box<dyn Any> { Box::new(v) }),
             "CONSTANT_RGBA" => self.constant_rgba.map(|v| -> Box<dyn Any> { Box::new(v) }),
-            "BATCH_LENGTH" => Some(Box::new(self.batch_length)),
+            "BATCH_LENGTH" => self.batch_length.map(|v| -> Box<dyn Any> { Box::new(v) }),
             _ => None,
         }
     }
-- 
2.43.0


From d1433e2d7c5a4a98460f3f02d15a3abe63d0a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 34/57] fix: points and RTC_CENTER that PntsWriter got after a
 flush were never written

---
 pasture-io/src/tiles3d/pnts_writer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index cb2ed7b..d6b4cb5 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -2,7 +2,7 @@ use std::{
     borrow::Cow,
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, Seek, Write},
+    io::{Cursor, Seek, SeekFrom, Write},
 };
 
 use anyhow::{Context, Result};
@@ -72,6 +72,8 @@ pub struct PntsWriter<W: Write + Seek> {
     attribute_converters: HashMap<String, Option<AttributeConversionFn>>,
     rtc_center: Option<Vector3<f64>>,
     requires_flush: bool,
+    /// Position of the file within `writer`, known as soon as it was written once
+    start_of_file: Option<u64>,
 }
 
 impl<W: Write + Seek> PntsWriter<W> {
@@ -91,6 +93,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             attribute_converters,
             rtc_center: None,
             requires_flush: true,
+            start_of_file: None,
         }
     }
 
@@ -99,6 +102,7 @@ impl<W: Write + Seek> PntsWriter<W> {
     /// **does not automatically translate points relative to this center!** This has to be done prior to calling `write`!
     pub fn set_rtc_center(&mut self, rtc_center: Vector3<f64>) {
         self.rtc_center = Some(rtc_center);
+        self.requires_flush = true;
     }
 
     /// Makes the given `PointLayout` compatible with the supported point semantics of the 3D Tiles .pnts format. Doing
@@ -211,6 +215,14 @@ impl<W: Write + Seek> PntsWriter<W> {
                 .expect("Size of BatchTable binary body exceeds maximum size of 4GiB!"),
         );
 
+        // The file is always written as a whole: if it was written before, the new version replaces the previous one
+        match self.start_of_file {
+            Some(position) => {
+                self.writer.seek(SeekFrom::Start(position))?;
+            }
+            None => self.start_of_file = Some(self.writer.stream_position()?),
+        }
+
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
@@ -338,6 +350,8 @@ impl<W: Write + Seek> PointWriter for PntsWriter<W> {
             panic!("PointLayout of buffer does not match the PointLayout that this PntsReader was constructed with! Make sure that you only pass PointBuffers with the same layout as the one you used to create this PntsWriter!");
         }
 
+        self.requires_flush = true;
+
         if points.point_layout() == self.cached_points.point_layout() {
             self.cached_points.append(points);
         } else {
-- 
2.43.0


From 758d618531b4e30bdd053bb59fcc569206bb672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 35/57] fix: flushing a PntsWriter did not flush the underlying
 writer

---
 pasture-io/src/tiles3d/pnts_writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index d6b4cb5..bd0c16d 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -234,6 +234,8 @@ impl<W: Write + Seek> PntsWriter<W> {
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
+        self.writer.flush().context("Error while flushing writer")?;
+
         self.requires_flush = false;
 
         Ok(())
-- 
2.43.0


From ac0d72d5ba1e372632efff0a9a36212091c5c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 36/57] fix: PntsReader added RTC_CENTER to points in the
 buffer that it had not read

---
 pasture-io/src/tiles3d/pnts_reader.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index c81ca47..f48a9eb 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -244,13 +244,24 @@ impl<R: BufRead + Seek> PntsReader<R> {
         ))
     }
 
+    /// Applies the RTC_CENTER offset to the first `num_points` points in `point_buffer`, which are the ones that were read
     fn apply_rtc_center_offset<'a, 'b, B: BorrowedMutBuffer<'a>>(
         &self,
         point_buffer: &'b mut B,
+        num_points: usize,
     ) -> Result<()>
     where
         'a: 'b,
     {
+        // Without positions in the file, the positions in the buffer are none that we have read
+        if self
+            .layout
+            .get_attribute_by_name(POSITION_3D.name())
+            .is_none()
+        {
+            return Ok(());
+        }
+
         let maybe_position = point_buffer
             .point_layout()
             .get_attribute_by_name(POSITION_3D.name());
@@ -264,7 +275,10 @@ impl<R: BufRead + Seek> PntsReader<R> {
             match position_attribute.datatype() {
                 PointAttributeDataType::Vec3f32 => point_buffer.transform_attribute(
                     position_attribute.attribute_definition(),
-                    |_, position: Vector3<f32>| -> Vector3<f32> {
+                    |point_index, position: Vector3<f32>| -> Vector3<f32> {
+                        if point_index >= num_points {
+                            return position;
+                        }
                         Vector3::new(
                             (position.x as f64 + rtc_center.x) as f32,
                             (position.y as f64 + rtc_center.y) as f32,
@@ -274,7 +288,12 @@ impl<R: BufRead + Seek> PntsReader<R> {
                 ),
                 PointAttributeDataType::Vec3f64 => point_buffer.transform_attribute(
                     position_attribute.attribute_definition(),
-                    |_, position: Vector3<f64>| -> Vector3<f64> { position + rtc_center },
+                    |point_index, position: Vector3<f64>| -> Vector3<f64> {
+                        if point_index >= num_points {
+                            return position;
+                        }
+                        position + rtc_center
+                    },
                 ),
                 other => bail!("Unsupported datatype {other} for POSITION_3D attribute"),
             }
@@ -358,7 +377,7 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         self.current_point_index += num_to_read;
 
         if let PntsReadPositionsMode::Absolute = self.read_positions_mode {
-            self.apply_rtc_center_offset(point_buffer)
+            self.apply_rtc_center_offset(point_buffer, num_to_read)
                 .context("Failed to apply RTC_CENTER offset")?;
         }
 
-- 
2.43.0


From 0b919e45d0a4a7d8f64f8ca5ba92eaf509252430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 37/57] fix: a rewritten .pnts file ended with a part of its
 previous, longer version

---
 pasture-io/src/tiles3d/pnts_writer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index bd0c16d..3e2abe2 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -74,6 +74,8 @@ pub struct PntsWriter<W: Write + Seek> {
     requires_flush: bool,
     /// Position of the file within `writer`, known as soon as it was written once
     start_of_file: Option<u64>,
+    /// Size of the file when it was last written
+    byte_length: usize,
 }
 
 impl<W: Write + Seek> PntsWriter<W> {
@@ -94,6 +96,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             rtc_center: None,
             requires_flush: true,
             start_of_file: None,
+            byte_length: 0,
         }
     }
 
@@ -189,6 +192,13 @@ impl<W: Write + Seek> PntsWriter<W> {
             start_of_batch_table_header,
         )
         .context("Error serializing BatchTable header")?;
+        // A shorter file (the new RTC_CENTER can have fewer digits) would leave a part of the previous one at its end.
+        // We can't truncate the file, but trailing spaces of the header are padding
+        let min_batch_table_byte_size =
+            self.byte_length.saturating_sub(start_of_batch_table_header);
+        if batch_table_blob.len() < min_batch_table_byte_size {
+            batch_table_blob.resize(min_batch_table_byte_size, 0x20);
+        }
         let batch_table_byte_size = batch_table_blob.len();
         //TODO Support batch table body
         let batch_table_body_byte_size: usize = 0;
@@ -236,6 +246,7 @@ impl<W: Write + Seek> PntsWriter<W> {
 
         self.writer.flush().context("Error while flushing writer")?;
 
+        self.byte_length = total_byte_length;
         self.requires_flush = false;
 
         Ok(())
-- 
2.43.0


From 48509f8824ad2caa808f8c61f91541ecf0afd0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 38/57] fix: LAS/LAZ writers truncated positions to the grid of
 the file instead of rounding them to it

---
 pasture-io/src/las/write_helpers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/write_helpers.rs b/pasture-io/src/las/write_helpers.rs
index ecb420b..18b930b 100644
--- a/pasture-io/src/las/write_helpers.rs
+++ b/pasture-io/src/las/write_helpers.rs
@@ -12,9 +12,9 @@ pub(crate) fn write_position_as_las_position<T: Write>(
     las_header: &las::raw::Header,
     mut writer: T,
 ) -> Result<()> {
-    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
     writer.write_i32::<LittleEndian>(local_x)?;
     writer.write_i32::<LittleEndian>(local_y)?;
     writer.write_i32::<LittleEndian>(local_z)?;
-- 
2.43.0


From 5fb877f2d308f6453b2c5b509ffe469573a995d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 39/57] fix: LAS/LAZ files written from a custom PointLayout
 had no points per return in the header

---
 pasture-io/src/las/raw_writers.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 1d580b2..90d139e 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -466,9 +466,13 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                 self.writer
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -489,7 +493,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
@@ -1003,9 +1007,13 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                 las_point_write
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -1026,7 +1034,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
-- 
2.43.0


From 260d53dcf2fb20b808854b51e9262db43f441939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 40/57] fix: RawLAZWriter compressed 50000 points per chunk
 from a custom PointLayout, however few there were

---
 pasture-io/src/las/raw_writers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 90d139e..3973701 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1112,7 +1112,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
             las_point_buffer = las_point_write.into_inner();
             self.writer.compress_many(
-                &las_point_buffer[0..num_points_in_chunk
+                &las_point_buffer[0..points_in_cur_chunk
                     * self.current_header.point_data_record_length as usize],
             )?;
 
-- 
2.43.0


From a8553261c0971ec67ca793eb395245226810f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 41/57] fix: RawLASWriter panicked for headers with padding
 after the VLRs

---
 pasture-io/src/las/raw_writers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 3973701..40df544 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -136,6 +136,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             let raw_vlr = vlr.clone().into_raw(false)?;
             raw_vlr.write_to(&mut write)?;
         }
+        write.write_all(header.vlr_padding())?;
 
         let point_start_index = write.stream_position()?;
         assert_eq!(point_start_index, raw_header.offset_to_point_data as u64);
-- 
2.43.0


From 161705f35daff2bebfd173fd4196f1227b716c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:21 +0000
Subject: [PATCH 42/57] fix: RawLAZWriter lost the VLRs of the header and wrote
 a wrong offset to the points for headers with VLR padding

---
 pasture-io/src/las/raw_writers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 40df544..5392f24 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -673,7 +673,16 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
         };
 
         let mut header_builder = Builder::new(raw_header)?;
+        // The raw header knows neither the VLRs nor the padding after them. If the header comes from a LAZ file, it
+        // already contains a LAZ VLR, which is replaced
+        header_builder.vlrs = header
+            .vlrs()
+            .iter()
+            .filter(|vlr| vlr.user_id != laz_vlr.user_id || vlr.record_id != laz_vlr.record_id)
+            .cloned()
+            .collect();
         header_builder.vlrs.push(laz_vlr);
+        header_builder.vlr_padding = header.vlr_padding().clone();
         let header_with_laz_vlr = header_builder.into_header()?;
         header_with_laz_vlr
             .clone()
-- 
2.43.0


From 71c34f90f9a2cdb10f3e4c30e74eea14d67579ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 43/57] fix: LAS/LAZ files with EVLRs had a wrong offset to
 (or, in LAZ files, no trace of) the EVLRs in the header

---
 pasture-io/src/las/raw_writers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 5392f24..1ac6d4f 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -604,6 +604,10 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
         }
 
         let current_index = self.writer.stream_position()?;
+        // The EVLRs come right after the points, so their offset in the header has to be updated
+        if let Some(evlr) = self.current_header.evlr.as_mut() {
+            evlr.start_of_first_evlr = current_index;
+        }
         self.write_header()?;
         self.write_evlrs()?;
         self.writer.seek(SeekFrom::Start(current_index))?;
@@ -683,6 +687,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
             .collect();
         header_builder.vlrs.push(laz_vlr);
         header_builder.vlr_padding = header.vlr_padding().clone();
+        header_builder.evlrs = header.evlrs().to_vec();
         let header_with_laz_vlr = header_builder.into_header()?;
         header_with_laz_vlr
             .clone()
@@ -1165,6 +1170,10 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
     fn do_flush(&mut self) -> Result<()> {
         self.writer.done()?;
+        // The EVLRs come right after the points, so their offset in the header has to be updated
+        if let Some(evlr) = self.current_header.evlr.as_mut() {
+            evlr.start_of_first_evlr = self.writer.get_mut().stream_position()?;
+        }
         self.write_evlrs()?;
         self.write_header()
     }
-- 
2.43.0


From ec2d7dbcccff1ec46dd88c08abc04c156a0561bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 44/57] fix: flushing a RawLAZWriter twice wrote the chunk
 table and the EVLRs twice

---
 pasture-io/src/las/raw_writers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 1ac6d4f..358c301 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -713,7 +713,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                 .iter()
                 .map(|evlr| evlr.clone().into_raw(true))
                 .collect::<Result<Vec<_>, _>>()?,
-            requires_flush: false,
+            requires_flush: true,
         })
     }
 
@@ -1169,13 +1169,21 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
     }
 
     fn do_flush(&mut self) -> Result<()> {
+        if !self.requires_flush {
+            return Ok(());
+        }
+
         self.writer.done()?;
         // The EVLRs come right after the points, so their offset in the header has to be updated
         if let Some(evlr) = self.current_header.evlr.as_mut() {
             evlr.start_of_first_evlr = self.writer.get_mut().stream_position()?;
         }
         self.write_evlrs()?;
-        self.write_header()
+        self.write_header()?;
+
+        self.requires_flush = false;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 790a2c3cb4cdd1384422dd9b217c3155acc3233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 45/57] fix: the layout for LAS points with undescribed extra
 bytes had the wrong size

---
 pasture-io/src/las/las_layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 439008f..3d0b9f7 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -174,7 +174,7 @@ pub fn point_layout_from_las_metadata(
         base_layout.add_attribute(
             PointAttributeDefinition::custom(
                 Cow::Borrowed("UndescribedExtraBytes"),
-                PointAttributeDataType::ByteArray(num_described_bytes as u64),
+                PointAttributeDataType::ByteArray(num_undescribed_bytes as u64),
             ),
             FieldAlignment::Packed(1),
         );
-- 
2.43.0


From 0f37451878ecb8ab2fb4dac00816b44694fbe684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 46/57] fix: an Extra Bytes VLR that describes more bytes than
 the point records have caused an overflow

---
 pasture-io/src/las/las_layout.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 3d0b9f7..a640aa1 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -155,6 +155,15 @@ pub fn point_layout_from_las_metadata(
         .iter()
         .map(|attribute| attribute.size() as usize)
         .sum::<usize>();
+    let num_undescribed_bytes = (format.extra_bytes as usize)
+        .checked_sub(num_described_bytes)
+        .ok_or_else(|| {
+            anyhow!(
+                "Extra bytes VLR describes {} bytes, but the point records have only {} extra bytes",
+                num_described_bytes,
+                format.extra_bytes
+            )
+        })?;
 
     // Add the extra bytes attributes with a 1-byte alignment, because the base LAS point types are all tightly packed
     // Currently, the RawLASReader and RawLAZReader both rely on this fact when reading chunks in the default layout
@@ -168,7 +177,6 @@ pub fn point_layout_from_las_metadata(
         base_layout.add_attribute(extra_byte_attribute, FieldAlignment::Packed(1));
     }
 
-    let num_undescribed_bytes = format.extra_bytes as usize - num_described_bytes;
     if num_undescribed_bytes > 0 {
         // Add a PointAttributeDefinition describing a raw byte array for all undescribed extra bytes
         base_layout.add_attribute(
-- 
2.43.0


From 1e12241fa948c3abf1ddec46f9897ee5c993bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 47/57] fix: extra bytes with the name of another attribute in
 the point records caused a panic

---
 pasture-io/src/las/las_layout.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index a640aa1..6e899bc 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -1,6 +1,6 @@
 use std::{borrow::Cow, collections::HashSet};
 
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use las::point::Format;
 use lazy_static::lazy_static;
 use pasture_core::{
@@ -141,7 +141,7 @@ pub fn point_layout_from_las_metadata(
         return Ok(base_layout);
     }
 
-    let extra_byte_attributes = las_metadata
+    let mut extra_byte_attributes = las_metadata
         .extra_bytes_vlr()
         .map(|vlr| {
             vlr.entries()
@@ -165,6 +165,14 @@ pub fn point_layout_from_las_metadata(
             )
         })?;
 
+    if num_undescribed_bytes > 0 {
+        // Add a PointAttributeDefinition describing a raw byte array for all undescribed extra bytes
+        extra_byte_attributes.push(PointAttributeDefinition::custom(
+            Cow::Borrowed("UndescribedExtraBytes"),
+            PointAttributeDataType::ByteArray(num_undescribed_bytes as u64),
+        ));
+    }
+
     // Add the extra bytes attributes with a 1-byte alignment, because the base LAS point types are all tightly packed
     // Currently, the RawLASReader and RawLAZReader both rely on this fact when reading chunks in the default layout
 
@@ -174,20 +182,15 @@ pub fn point_layout_from_las_metadata(
     //      uses Vector3<i32>... So it might be worthwhile to change this once we have support for reading positions in
     //      Vector3<i32> using the LASReader
     for extra_byte_attribute in extra_byte_attributes {
+        if base_layout.has_attribute_with_name(extra_byte_attribute.name()) {
+            bail!(
+                "Extra bytes have the same name as another attribute of the point records: {}",
+                extra_byte_attribute.name()
+            );
+        }
         base_layout.add_attribute(extra_byte_attribute, FieldAlignment::Packed(1));
     }
 
-    if num_undescribed_bytes > 0 {
-        // Add a PointAttributeDefinition describing a raw byte array for all undescribed extra bytes
-        base_layout.add_attribute(
-            PointAttributeDefinition::custom(
-                Cow::Borrowed("UndescribedExtraBytes"),
-                PointAttributeDataType::ByteArray(num_undescribed_bytes as u64),
-            ),
-            FieldAlignment::Packed(1),
-        );
-    }
-
     Ok(base_layout)
 }
 
-- 
2.43.0


From d0a25711e8127188d870558265bfdd49c3910b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 48/57] fix: LAS files with extra bytes were written without
 the extra bytes, but with the record length that includes them

---
 pasture-io/src/las/raw_writers.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 358c301..6fc4fb0 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1,14 +1,18 @@
 use std::{
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, SeekFrom},
+    io::{Cursor, Read, SeekFrom},
 };
 
 use anyhow::{anyhow, Context, Result};
 use byteorder::{LittleEndian, NativeEndian, ReadBytesExt, WriteBytesExt};
 use las_rs::{point::Format, Builder, Vlr};
 use laz::{LasZipCompressor, LazItemRecordBuilder, LazVlr};
-use pasture_core::{containers::BorrowedBuffer, layout::PointLayout, nalgebra::Vector3};
+use pasture_core::{
+    containers::{BorrowedBuffer, VectorBuffer},
+    layout::{conversion::BufferLayoutConverter, PointLayout},
+    nalgebra::Vector3,
+};
 
 use crate::base::PointWriter;
 
@@ -97,6 +101,7 @@ pub(crate) struct RawLASWriter<T: std::io::Write + std::io::Seek> {
     current_header: las::raw::Header,
     evlrs: Vec<las::raw::Vlr>,
     _point_start_index: u64,
+    num_extra_bytes: usize,
     requires_flush: bool,
 }
 
@@ -151,6 +156,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                 .map(|evlr| evlr.clone().into_raw(true))
                 .collect::<Result<Vec<_>, _>>()?,
             _point_start_index: point_start_index,
+            num_extra_bytes: header.point_format().extra_bytes as usize,
             requires_flush: true,
         })
     }
@@ -199,6 +205,8 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
         let mut chunk_buffer: Vec<u8> = vec![0; num_points_in_chunk * size_of_single_point];
 
         let source_format = Format::new(self.current_header.point_data_record_format)?;
+        // Extra bytes come after all other attributes and are copied as they are
+        let mut extra_bytes = vec![0; self.num_extra_bytes];
 
         let mut points_by_return: HashMap<u8, u64> = HashMap::new();
         let max_return_number = if self.current_header.large_file.is_some() {
@@ -329,6 +337,9 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     self.writer.write_f32::<LittleEndian>(py)?;
                     self.writer.write_f32::<LittleEndian>(pz)?;
                 }
+
+                point_read.read_exact(&mut extra_bytes)?;
+                self.writer.write_all(&extra_bytes)?;
             }
 
             chunk_buffer = point_read.into_inner();
@@ -593,6 +604,13 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
     fn write<'a, B: BorrowedBuffer<'a>>(&mut self, points: &'a B) -> Result<()> {
         if *points.point_layout() == self.default_layout {
             self.write_points_default_layout(points)
+        } else if self.num_extra_bytes > 0 {
+            let converted_points = BufferLayoutConverter::for_layouts_with_default(
+                points.point_layout(),
+                &self.default_layout,
+            )
+            .convert::<VectorBuffer, _>(points);
+            self.write_points_default_layout(&converted_points)
         } else {
             self.write_points_custom_layout(points)
         }
-- 
2.43.0


From cfe001109e146472415940a9480b645089313af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 49/57] fix: las_point_format_from_point_layout returned
 formats that do not exist in the LAS specification

---
 pasture-io/src/las/las_layout.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 6e899bc..9d22209 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -239,6 +239,18 @@ pub fn las_point_format_from_point_layout(point_layout: &PointLayout) -> Format
         format.is_extended = true;
     }
 
+    // Not every combination is a valid LAS point format. If there is no format with exactly these attributes, use the
+    // smallest format that has all of them
+    if format.is_extended || format.has_waveform {
+        format.has_gps_time = true;
+    }
+    if format.has_nir {
+        format.has_color = true;
+    }
+    if format.is_extended && format.has_color && format.has_waveform {
+        format.has_nir = true;
+    }
+
     format
 }
 
-- 
2.43.0


From 72c86b3fe62c274d0faf3103bbd2fdc063135642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 50/57] fix: min, max and no-data value of floating point extra
 bytes could not be accessed, and displaying them panicked

---
 pasture-io/src/las/las_metadata.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index f53bfa8..2483fda 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -434,7 +434,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn min_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -465,7 +465,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn max_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -496,7 +496,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn no_data_value_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -559,7 +559,10 @@ impl Display for ExtraBytesEntry {
                 self.no_data_value_as_unsigned().unwrap()
             ))
         } else {
-            Some(format!("No-data value (raw bytes): {:#?}", self.min_value))
+            Some(format!(
+                "No-data value (raw bytes): {:#?}",
+                self.no_data_value
+            ))
         };
         let helper_array = [scale_str, offset_str, min_str, max_str, no_value_str];
         let combined_strings = helper_array
-- 
2.43.0


From 731baf6f83868635b446847e667dc1a76acb2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 51/57] fix: reading the Extra Bytes VLR panicked if its data
 was empty or not aligned

---
 pasture-io/src/las/las_metadata.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 2483fda..0bcd7bf 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -714,10 +714,14 @@ impl TryFrom<&'_ Vlr> for ExtraBytesVlr {
             bail!("VLR data size ({} bytes) is not a multiple of the size of an EXTRA_BYTES entry ({} bytes)", value.data.len(), RAW_EXTRA_BYTES_ENTRY_SIZE);
         }
 
-        let raw_entries: &[RawExtraBytesEntry] = bytemuck::cast_slice(&value.data);
-        let entries = raw_entries
-            .iter()
-            .map(|raw_entry| raw_entry.try_into())
+        // The VLR data has no alignment guarantees
+        let entries = value
+            .data
+            .chunks_exact(RAW_EXTRA_BYTES_ENTRY_SIZE)
+            .map(|chunk| {
+                let raw_entry: RawExtraBytesEntry = bytemuck::pod_read_unaligned(chunk);
+                (&raw_entry).try_into()
+            })
             .collect::<Result<_, _>>()?;
 
         Ok(Self { entries })
-- 
2.43.0


From cba0d56d746fee71830ccfc7ddd3424aec778fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 52/57] fix: descriptions in the Classification Lookup VLR
 included their null terminators

---
 pasture-io/src/las/las_metadata.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 0bcd7bf..403ebf7 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -130,9 +130,14 @@ impl TryFrom<&Vlr> for ClassificationLookup {
             entries: array_init::array_init(|_| Default::default()),
         };
         for (index, raw_entry) in data_as_raw_entries.iter().enumerate().take(256) {
+            let description = raw_entry
+                .description
+                .split(|byte| *byte == 0)
+                .next()
+                .unwrap_or_default();
             ret.entries[index] = ClassificationLookupEntry {
                 classification: raw_entry.class_number,
-                description: String::from_utf8_lossy(&raw_entry.description).into_owned(),
+                description: String::from_utf8_lossy(description).into_owned(),
             };
         }
         Ok(ret)
-- 
2.43.0


From f9257e7311bc1ebce9cbaa0cb936ec22a398b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 53/57] fix: LAZ files with an upper-case file extension were
 treated as LAS files

---
 pasture-io/src/las/las_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 403ebf7..4be1478 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -67,7 +67,7 @@ pub fn pasture_bounds_to_las_bounds(bounds: &AABB<f64>) -> Bounds {
 pub fn path_is_compressed_las_file<P: AsRef<Path>>(path: P) -> Result<bool> {
     path.as_ref()
         .extension()
-        .map(|extension| extension == "laz")
+        .map(|extension| extension.eq_ignore_ascii_case("laz"))
         .ok_or(anyhow!(
             "Could not determine file extension of file {}",
             path.as_ref().display()
-- 
2.43.0


From a28de0898155d2228850a0a11a6addb0686050ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 54/57] fix: read_all_into overwrote the points in the buffer,
 or panicked, instead of appending to them

---
 pasture-io/src/base/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/base/mod.rs b/pasture-io/src/base/mod.rs
index 31f8716..da76846 100644
--- a/pasture-io/src/base/mod.rs
+++ b/pasture-io/src/base/mod.rs
@@ -1,7 +1,9 @@
 use anyhow::{Context, Result};
 use pasture_core::containers::BorrowedBuffer;
+use pasture_core::containers::InterleavedBuffer;
 use pasture_core::containers::MakeBufferFromLayout;
 use pasture_core::containers::OwningBuffer;
+use pasture_core::containers::VectorBuffer;
 
 mod reader;
 use std::path::Path;
@@ -49,7 +51,14 @@ pub fn read_all_into<'a, B: OwningBuffer<'a>, P: AsRef<Path>>(
         "Could not determine number of points in point cloud file {}",
         path.as_ref().display()
     ))?;
-    reader.read_into(buffer, num_points)
+    let mut points = VectorBuffer::with_capacity(num_points, buffer.point_layout().clone());
+    points.resize(num_points);
+    let num_points_read = reader.read_into(&mut points, num_points)?;
+    // Safe because `points` has the same `PointLayout` as `buffer`
+    unsafe {
+        buffer.push_points(points.get_point_range_ref(0..num_points_read));
+    }
+    Ok(num_points_read)
 }
 
 /// Writes all points in the given `buffer` into the file at `path`
-- 
2.43.0


From f708545944decfe3771ab3769050dc122171e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 55/57] fix: too long names of extra bytes could be cut inside
 of a character, which made them unreadable

---
 pasture-io/src/las/write_helpers.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pasture-io/src/las/write_helpers.rs b/pasture-io/src/las/write_helpers.rs
index 18b930b..1a01377 100644
--- a/pasture-io/src/las/write_helpers.rs
+++ b/pasture-io/src/las/write_helpers.rs
@@ -57,11 +57,10 @@ pub(crate) fn write_rust_string_into_las_ascii_array<const N: usize>(
     rust_str: &str,
     las_array: &mut [u8; N],
 ) {
-    if rust_str.as_bytes().len() >= N {
-        let dst_slice = &rust_str.as_bytes()[..N];
-        las_array.copy_from_slice(dst_slice);
-    } else {
-        let src_slice = &mut las_array[..rust_str.as_bytes().len()];
-        src_slice.copy_from_slice(rust_str.as_bytes());
+    // Never cut a multi-byte character in half, the result would not be a valid string
+    let mut length = rust_str.len().min(N);
+    while !rust_str.is_char_boundary(length) {
+        length -= 1;
     }
+    las_array[..length].copy_from_slice(&rust_str.as_bytes()[..length]);
 }
-- 
2.43.0


From 661f00ef550401726703d76dce5c72d3b4570681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:31 +0000
Subject: [PATCH 56/57] fix: info -d panicked for every file because it read
 points into an empty buffer

---
 pasture-tools/src/bin/info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-tools/src/bin/info.rs b/pasture-tools/src/bin/info.rs
index bd0c64b..6d53fa5 100644
--- a/pasture-tools/src/bin/info.rs
+++ b/pasture-tools/src/bin/info.rs
@@ -119,9 +119,9 @@ fn analyze_file<R: PointReader + SeekToPoint>(reader: &mut R) -> Result<()> {
     // TODO Waveform data
 
     for idx in 0..num_chunks {
-        buffer.clear();
-
         let num_points_in_chunk = std::cmp::min(chunk_size, total_points - (idx * chunk_size));
+        // `read_into` overwrites existing points, so the buffer must have the size of the chunk
+        buffer.resize(num_points_in_chunk);
         reader.read_into(&mut buffer, num_points_in_chunk)?;
 
         minmax_chunk!(minmax_position, buffer, POSITION_3D, Vector3<f64>);
-- 
2.43.0


From 6c91694116670aa014a3fb4ec59055d60237861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:31 +0000
Subject: [PATCH 57/57] fix: info -d panicked for attributes that the file
 stores with another datatype than the builtin one

---
 pasture-tools/src/bin/info.rs | 38 ++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/pasture-tools/src/bin/info.rs b/pasture-tools/src/bin/info.rs
index 6d53fa5..5fa33fa 100644
--- a/pasture-tools/src/bin/info.rs
+++ b/pasture-tools/src/bin/info.rs
@@ -15,7 +15,7 @@ use pasture_core::{
     layout::attributes::{
         CLASSIFICATION, COLOR_RGB, EDGE_OF_FLIGHT_LINE, GPS_TIME, INTENSITY, POSITION_3D,
     },
-    layout::PointLayout,
+    layout::{FieldAlignment, PointLayout},
     math::MinMax,
     nalgebra::Vector3,
 };
@@ -63,6 +63,36 @@ fn print_attributes(point_layout: &PointLayout) {
     }
 }
 
+/// Returns the given `PointLayout` with all attributes that `analyze_file` investigates having the datatypes of the
+/// corresponding builtin attributes. File formats are free to store these attributes with other datatypes (e.g. positions
+/// as `Vector3<f32>`), the readers convert between them
+fn layout_with_builtin_datatypes(point_layout: &PointLayout) -> PointLayout {
+    let builtin_attributes = [
+        POSITION_3D,
+        INTENSITY,
+        RETURN_NUMBER,
+        NUMBER_OF_RETURNS,
+        SCAN_DIRECTION_FLAG,
+        EDGE_OF_FLIGHT_LINE,
+        CLASSIFICATION,
+        SCAN_ANGLE_RANK,
+        USER_DATA,
+        POINT_SOURCE_ID,
+        COLOR_RGB,
+        GPS_TIME,
+        NIR,
+    ];
+    let mut layout = PointLayout::default();
+    for attribute in point_layout.attributes() {
+        let attribute = builtin_attributes
+            .iter()
+            .find(|builtin_attribute| builtin_attribute.name() == attribute.name())
+            .unwrap_or_else(|| attribute.attribute_definition());
+        layout.add_attribute(attribute.clone(), FieldAlignment::Packed(1));
+    }
+    layout
+}
+
 macro_rules! minmax_chunk {
     ($minmax_tuple:ident, $buffer:ident, $attribute:expr, $type:ty) => {
         if $buffer
@@ -96,8 +126,10 @@ fn analyze_file<R: PointReader + SeekToPoint>(reader: &mut R) -> Result<()> {
     println!("Analyzing minimum and maximum values for all point attributes...");
 
     let chunk_size = 1_000_000;
-    let mut buffer =
-        VectorBuffer::with_capacity(chunk_size, reader.get_default_point_layout().clone());
+    let mut buffer = VectorBuffer::with_capacity(
+        chunk_size,
+        layout_with_builtin_datatypes(reader.get_default_point_layout()),
+    );
     let num_chunks = (total_points + chunk_size - 1) / chunk_size;
     //let num_chunks = 4;
 
-- 
2.43.0

