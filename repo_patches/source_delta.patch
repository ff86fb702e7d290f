From f115abf0f13ef7444f1454c796218421fc6d82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 01/16] fix: read object key offsets without assuming alignment
 or native endianness

---
 src/builder/object.rs | 46 +++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index d282995..255c4fb 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -11,6 +11,7 @@ use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
+use std::cmp::Ordering;
 use std::ptr;
 
 pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
@@ -71,16 +72,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
             return true;
         }
 
-        let begin = self.start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + self.element_count as usize * KEY_OFFSET_SIZE;
-
         let bytes = self.bytes.as_mut();
-        let key_offsets_bytes = bytes[begin..end].as_mut_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / 4) };
 
-        for i in 0..key_offsets.len() - 1 {
-            let cur_key = Self::read_key_by_offset(bytes, key_offsets[i] as usize, self.start_pos);
-            let next_key = Self::read_key_by_offset(bytes, key_offsets[i + 1] as usize, self.start_pos);
+        for i in 0..self.element_count as usize - 1 {
+            let cur_key = Self::read_key_by_offset(bytes, Self::key_offset(bytes, i, self.start_pos), self.start_pos);
+            let next_key =
+                Self::read_key_by_offset(bytes, Self::key_offset(bytes, i + 1, self.start_pos), self.start_pos);
             if cur_key.len() > next_key.len() || (cur_key.len() == next_key.len() && cur_key > next_key) {
                 return false;
             }
@@ -153,21 +150,28 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn binary_search(target: &str, bytes: &[u8], start_pos: usize, value_count: usize) -> usize {
-        let begin = start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + value_count * KEY_OFFSET_SIZE;
-
-        let key_offsets_bytes = bytes[begin..end].as_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };
+        let mut left = 0;
+        let mut right = value_count;
+
+        while left < right {
+            let mid = left + (right - left) / 2;
+            let key = Self::read_key_by_offset(bytes, Self::key_offset(bytes, mid, start_pos), start_pos);
+            match cmp_key(key, target) {
+                Ordering::Less => left = mid + 1,
+                Ordering::Equal => return mid,
+                Ordering::Greater => right = mid,
+            }
+        }
 
-        let found = key_offsets.binary_search_by(|key_offset| {
-            let key = Self::read_key_by_offset(bytes, *key_offset as usize, start_pos);
-            cmp_key(key, target)
-        });
+        left
+    }
 
-        match found {
-            Ok(v) => v,
-            Err(v) => v,
-        }
+    // The key offsets are little-endian and may not be aligned in the buffer.
+    #[inline]
+    fn key_offset(bytes: &[u8], index: usize, start_pos: usize) -> usize {
+        let begin = start_pos + ELEMENT_COUNT_SIZE + index * KEY_OFFSET_SIZE;
+        let offset_bytes = &bytes[begin..begin + KEY_OFFSET_SIZE];
+        u32::from_le_bytes(offset_bytes.try_into().unwrap()) as usize
     }
 
     #[inline]
-- 
2.43.0


From 2f706db77078f52ddfdf18a3217171d7ef53d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 02/16] fix: shift key offsets without writing past the slice
 the pointer came from

---
 src/builder/object.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index 255c4fb..b0ac772 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -12,7 +12,6 @@ use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
 use std::cmp::Ordering;
-use std::ptr;
 
 pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
     bytes: B,
@@ -127,10 +126,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
             if pos < self.value_count as usize {
                 let count = (self.value_count as usize - pos) * KEY_OFFSET_SIZE;
-                let src = bytes[offset_pos..offset_pos + count].as_mut_ptr();
-                let dst = unsafe { src.add(KEY_OFFSET_SIZE) };
-
-                unsafe { ptr::copy(src, dst, count) }
+                bytes.copy_within(offset_pos..offset_pos + count, offset_pos + KEY_OFFSET_SIZE);
             }
             bytes.write_offset(key_offset as u32, offset_pos);
             bytes.push_key(key);
-- 
2.43.0


From 3adbc82eb7f849704dd52eecdeaa59f21395c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:55 +0000
Subject: [PATCH 03/16] fix: let [last - n] select the first element and
 nothing from an empty array

---
 src/path/query.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 1270cd4..0039d34 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -163,7 +163,7 @@ impl<'a, 'b> Selector<'a, 'b> {
             DataType::Array => {
                 let array = unsafe { value.array()? };
                 let len = array.len()?;
-                if len - 1 > minus {
+                if minus < len {
                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                     return self.query_internal(val, step_index + 1);
                 }
@@ -236,7 +236,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                                 }
                             }
                             SingleIndex::Last(minus) => {
-                                if len - 1 > *minus {
+                                if *minus < len {
                                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                                     let found = self.query_internal(val, step_index + 1)?;
                                     if self.for_exists && found {
-- 
2.43.0


From 84c1f25c8bf4da061027603c4650be4df5da1c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:57 +0000
Subject: [PATCH 04/16] fix: match array ranges on a non-array as on a
 one-element array, and on an empty array not at all

---
 src/path/query.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 0039d34..dc8455c 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -380,13 +380,7 @@ fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
             },
 
             SingleStep::Range(left_field, right_field) => {
-                let (left, right) = match (left_field, right_field) {
-                    (SingleIndex::Index(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Index(i1), SingleIndex::Last(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Last(i2)) => (i1, i2),
-                };
-                if *left == 0 || *right == 0 {
+                if find_range(left_field, right_field, 1).is_some() {
                     return true;
                 }
             }
@@ -401,9 +395,16 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
     fn inner(u1: usize, u2: usize, len: usize) -> Option<(usize, usize)> {
         let b = u1.min(u2);
         let e = u1.max(u2).min(len - 1);
+        if b > e {
+            return None;
+        }
         Some((b, e))
     }
 
+    if len == 0 {
+        return None;
+    }
+
     let last = len - 1;
     match (begin, end) {
         (SingleIndex::Index(i1), SingleIndex::Index(i2)) => inner(*i1, *i2, len),
-- 
2.43.0


From 76a2f2f1a0c62d142730d165525d6d73dbcbfdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 05/16] fix: do not expose uninitialized or stale buffer
 contents in encoded values

---
 src/vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 454c0cd..cf5853c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -75,27 +75,21 @@ impl VecExt for Vec<u8> {
     fn skip_size(&mut self) {
         let new_len = self.len() + OBJECT_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
     fn skip_key_offset(&mut self, element_count: usize) {
         let new_len = self.len() + element_count * KEY_OFFSET_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
     fn skip_value_entry(&mut self, element_count: usize) {
         let new_len = self.len() + element_count * VALUE_ENTRY_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
@@ -146,15 +140,11 @@ impl VecExt for Vec<u8> {
         let value_pos = length_pos + NUMBER_LENGTH_SIZE;
         let new_len = value_pos + MAX_BINARY_SIZE;
         debug_assert!(NUMBER_LENGTH_SIZE + MAX_BINARY_SIZE <= self.capacity() - self.len());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
         let bytes = &mut self[value_pos..value_pos + MAX_BINARY_SIZE];
         // SAFETY: Because we have ensured that the memory is sufficient before encoding.
         let size = value.compact_encode(bytes).expect("failed to encode number");
         self[length_pos] = size as u8;
-        unsafe {
-            self.set_len(value_pos + size);
-        }
+        self.truncate(value_pos + size);
     }
 }
-- 
2.43.0


From 05cecd504a9ac44e3ea258077c5ce900215be8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 06/16] fix: reject a push beyond the declared element count
 instead of overwriting encoded data

---
 src/builder/array.rs  | 6 ++++++
 src/builder/object.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0865bd8..dbaa4ee 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -84,6 +84,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
diff --git a/src/builder/object.rs b/src/builder/object.rs
index b0ac772..3b93cef 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -114,6 +114,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From f8e99b0ce31855f9204faef29361b5af4f265cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 07/16] fix: reject object keys longer than the key length
 field instead of truncating the length

---
 src/binary.rs         | 1 +
 src/builder/object.rs | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index fb5b2b1..40a8503 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -13,4 +13,5 @@ pub const VALUE_ENTRY_SIZE: usize = DATA_TYPE_SIZE + size_of::<u32>();
 pub const KEY_LENGTH_SIZE: usize = size_of::<u16>();
 pub const MAX_DATA_LENGTH_SIZE: usize = size_of::<u32>();
 pub const MAX_STRING_SIZE: usize = 268435455; // 2^28 - 1
+pub const MAX_KEY_SIZE: usize = u16::MAX as usize;
 pub const NUMBER_LENGTH_SIZE: usize = size_of::<u8>();
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 3b93cef..5888933 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -121,6 +121,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
             });
         }
 
+        if key.len() > MAX_KEY_SIZE {
+            return Err(BuildError::StringTooLong(key.len()));
+        }
+
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
 
-- 
2.43.0


From ead20cb2697bc99f9e07ce4a52bcec5ad99177b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:42 +0000
Subject: [PATCH 08/16] fix: leave a builder unchanged when a pushed string is
 too long

---
 src/builder/array.rs  | 6 +++++-
 src/builder/object.rs | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index dbaa4ee..29fbc08 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -1,7 +1,8 @@
 //! Array builder.
 
 use crate::binary::{
-    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE, VALUE_ENTRY_SIZE,
+    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE,
+    VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -128,6 +129,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_string(&mut self, value: &str) -> BuildResult<()> {
+        if value.len() > MAX_STRING_SIZE {
+            return Err(BuildError::StringTooLong(value.len()));
+        }
         let size = MAX_DATA_LENGTH_SIZE + value.len();
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 5888933..d732872 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -214,6 +214,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_string(&mut self, key: &str, value: &str) -> BuildResult<()> {
+        if value.len() > MAX_STRING_SIZE {
+            return Err(BuildError::StringTooLong(value.len()));
+        }
         let size = KEY_LENGTH_SIZE + key.len() + DATA_TYPE_SIZE + MAX_DATA_LENGTH_SIZE + value.len();
         let f = |bytes: &mut Vec<u8>| {
             bytes.push_data_type(DataType::String);
-- 
2.43.0


From 03ea5e58c9272f82d450dd321f7efe275bc7e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:04 +0000
Subject: [PATCH 09/16] fix: leave a builder unchanged when an embedded value
 would be nested too deeply

---
 src/builder/array.rs  | 8 ++++++++
 src/builder/object.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 29fbc08..f47debc 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -105,6 +105,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
@@ -117,6 +121,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
diff --git a/src/builder/object.rs b/src/builder/object.rs
index d732872..d196383 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -198,6 +198,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         element_count: u16,
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+
         let size = key.len() + KEY_LENGTH_SIZE;
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
@@ -206,6 +210,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+
         let size = key.len() + KEY_LENGTH_SIZE;
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
-- 
2.43.0


From 1ef6c192a1024f5506232910e463c59fa03d2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:26 +0000
Subject: [PATCH 10/16] fix: refuse to build objects and arrays longer than
 their size field can hold

---
 src/binary.rs         |  1 +
 src/builder/array.rs  | 12 +++++++++---
 src/builder/mod.rs    |  2 ++
 src/builder/object.rs |  9 ++++++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/binary.rs b/src/binary.rs
index 40a8503..b3a2d3e 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -14,4 +14,5 @@ pub const KEY_LENGTH_SIZE: usize = size_of::<u16>();
 pub const MAX_DATA_LENGTH_SIZE: usize = size_of::<u32>();
 pub const MAX_STRING_SIZE: usize = 268435455; // 2^28 - 1
 pub const MAX_KEY_SIZE: usize = u16::MAX as usize;
+pub const MAX_TOTAL_SIZE: usize = i32::MAX as usize;
 pub const NUMBER_LENGTH_SIZE: usize = size_of::<u8>();
diff --git a/src/builder/array.rs b/src/builder/array.rs
index f47debc..1b8a3c6 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -1,8 +1,8 @@
 //! Array builder.
 
 use crate::binary::{
-    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE,
-    VALUE_ENTRY_SIZE,
+    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, MAX_STRING_SIZE, MAX_TOTAL_SIZE,
+    NUMBER_LENGTH_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -70,6 +70,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
         let bytes = self.bytes.as_mut();
         let total_size = bytes.len() - self.start_pos;
+        if total_size > MAX_TOTAL_SIZE {
+            return Err(BuildError::DocumentTooLong(total_size));
+        }
         bytes.write_total_size(total_size as i32, self.start_pos - ARRAY_SIZE);
 
         self.total_nested_depth.decrease();
@@ -93,8 +96,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
-        bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
         let offset = bytes.len() - self.start_pos;
+        if offset > MAX_TOTAL_SIZE {
+            return Err(BuildError::DocumentTooLong(offset));
+        }
+        bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
 
         f(bytes, offset as u32, self.value_entry_pos)?;
 
diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 8412077..5015e7e 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -44,6 +44,7 @@ pub enum BuildError {
     JsonError(serde_json::Error),
     NumberError(NumberError),
     NestedTooDeeply,
+    DocumentTooLong(usize),
 }
 
 impl Display for BuildError {
@@ -61,6 +62,7 @@ impl Display for BuildError {
             BuildError::JsonError(e) => write!(f, "{}", e),
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
+            BuildError::DocumentTooLong(e) => write!(f, "object or array too long, length is {}", e),
         }
     }
 }
diff --git a/src/builder/object.rs b/src/builder/object.rs
index d196383..87af868 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, MAX_STRING_SIZE, MAX_TOTAL_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -98,6 +98,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
         let bytes = self.bytes.as_mut();
         let total_size = bytes.len() - self.start_pos;
+        if total_size > MAX_TOTAL_SIZE {
+            return Err(BuildError::DocumentTooLong(total_size));
+        }
         bytes.write_total_size(total_size as i32, self.start_pos - OBJECT_SIZE);
 
         self.total_nested_depth.decrease();
@@ -126,6 +129,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
+        let offset = bytes.len() - self.start_pos;
+        if offset > MAX_TOTAL_SIZE {
+            return Err(BuildError::DocumentTooLong(offset));
+        }
         bytes.try_reserve(reserved_size)?;
 
         if !self.key_sorted {
-- 
2.43.0


From 1297885ff2d8dd4b91e7e0f92a9082a5e718546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 11/16] fix: report element counts over the format limit
 instead of truncating them or panicking

---
 src/builder/mod.rs | 10 ++++++++++
 src/json.rs        | 18 +++++++++---------
 src/path/mod.rs    |  3 ++-
 src/yason/mod.rs   |  4 +++-
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 5015e7e..051138e 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -45,6 +45,7 @@ pub enum BuildError {
     NumberError(NumberError),
     NestedTooDeeply,
     DocumentTooLong(usize),
+    TooManyElements(usize),
 }
 
 impl Display for BuildError {
@@ -63,6 +64,7 @@ impl Display for BuildError {
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
             BuildError::DocumentTooLong(e) => write!(f, "object or array too long, length is {}", e),
+            BuildError::TooManyElements(e) => write!(f, "too many elements, count is {}", e),
         }
     }
 }
@@ -78,6 +80,14 @@ impl From<TryReserveError> for BuildError {
 
 pub type BuildResult<T> = std::result::Result<T, BuildError>;
 
+#[inline]
+pub(crate) fn checked_element_count(count: usize) -> BuildResult<u16> {
+    if count > u16::MAX as usize {
+        return Err(BuildError::TooManyElements(count));
+    }
+    Ok(count as u16)
+}
+
 pub(crate) enum Depth<'a> {
     Owned(usize),
     Borrowed(&'a mut usize),
diff --git a/src/json.rs b/src/json.rs
index ce41127..45119ad 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -1,6 +1,6 @@
 //! Json to Yason
 
-use crate::builder::{ArrBuilder, BuildResult, NumberError, ObjBuilder};
+use crate::builder::{checked_element_count, ArrBuilder, BuildResult, NumberError, ObjBuilder};
 use crate::{
     ArrayBuilder, ArrayRefBuilder, BuildError, Number, ObjectBuilder, ObjectRefBuilder, Scalar, Yason, YasonBuf,
 };
@@ -21,12 +21,12 @@ impl TryFrom<&serde_json::Value> for YasonBuf {
             Value::Number(val) => Scalar::number(number2decimal(val, &mut buf)?),
             Value::String(val) => Scalar::string(val),
             Value::Array(val) => {
-                let mut array_builder = ArrayBuilder::try_new(val.len() as u16)?;
+                let mut array_builder = ArrayBuilder::try_new(checked_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, &mut buf)?;
                 array_builder.finish()
             }
             Value::Object(val) => {
-                let mut object_builder = ObjectBuilder::try_new(val.len() as u16, false)?;
+                let mut object_builder = ObjectBuilder::try_new(checked_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, &mut buf)?;
                 object_builder.finish()
             }
@@ -56,12 +56,12 @@ impl Yason {
             Value::Number(val) => Scalar::number_with_vec(number2decimal(val, &mut buf)?, bytes),
             Value::String(val) => Scalar::string_with_vec(val, bytes),
             Value::Array(array) => {
-                let mut builder = ArrayRefBuilder::try_new(bytes, array.len() as u16)?;
+                let mut builder = ArrayRefBuilder::try_new(bytes, checked_element_count(array.len())?)?;
                 write_array(&mut builder, array, &mut buf)?;
                 builder.finish()
             }
             Value::Object(object) => {
-                let mut builder = ObjectRefBuilder::try_new(bytes, object.len() as u16, false)?;
+                let mut builder = ObjectRefBuilder::try_new(bytes, checked_element_count(object.len())?, false)?;
                 write_object(&mut builder, object, &mut buf)?;
                 builder.finish()
             }
@@ -86,12 +86,12 @@ fn write_array<T: ArrBuilder>(builder: &mut T, array: &[serde_json::Value], buf:
                 builder.push_string(val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(val.len() as u16)?;
+                let mut array_builder = builder.push_array(checked_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(checked_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
@@ -121,12 +121,12 @@ fn write_object<T: ObjBuilder>(
                 builder.push_string(key, val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(key, val.len() as u16)?;
+                let mut array_builder = builder.push_array(key, checked_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(key, val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(key, checked_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
diff --git a/src/path/mod.rs b/src/path/mod.rs
index 263e2e6..6ec8fea 100644
--- a/src/path/mod.rs
+++ b/src/path/mod.rs
@@ -7,6 +7,7 @@ use std::str::FromStr;
 use crate::yason::YasonResult;
 use crate::{ArrayRefBuilder, DataType, Number, Value, Yason, YasonError};
 
+use crate::builder::checked_element_count;
 use crate::format::{CompactFormatter, FormatResult, Formatter, PrettyFormatter};
 use crate::path::query::Selector;
 pub use parse::PathParseError;
@@ -196,7 +197,7 @@ fn push_value<'a>(buf: &mut Vec<Value<'a>>, value: Value<'a>) -> YasonResult<()>
 
 #[inline]
 fn values_to_yason<'a>(values: &[Value], bytes: &'a mut Vec<u8>) -> YasonResult<&'a Yason> {
-    let mut builder = ArrayRefBuilder::try_new(bytes, values.len() as u16)?;
+    let mut builder = ArrayRefBuilder::try_new(bytes, checked_element_count(values.len())?)?;
     for value in values {
         match value {
             Value::Object(object) => unsafe { builder.push_object_or_array(object.yason(), DataType::Object)? },
diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index f2abfd1..8b8ee21 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -27,6 +27,7 @@ pub enum YasonError {
     MultiValuesWithoutWrapper,
     TryReserveError(TryReserveError),
     InvalidPathExpression,
+    BuildError(BuildError),
 }
 
 impl fmt::Display for YasonError {
@@ -45,6 +46,7 @@ impl fmt::Display for YasonError {
             }
             YasonError::TryReserveError(e) => write!(f, "{}", e),
             YasonError::InvalidPathExpression => write!(f, "invalid path expression"),
+            YasonError::BuildError(e) => write!(f, "{}", e),
         }
     }
 }
@@ -54,7 +56,7 @@ impl From<BuildError> for YasonError {
     fn from(err: BuildError) -> Self {
         match err {
             BuildError::TryReserveError(e) => YasonError::TryReserveError(e),
-            _ => unreachable!(),
+            e => YasonError::BuildError(e),
         }
     }
 }
-- 
2.43.0


From 043e8961a14c330b05f110451cc96fbe722b921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 12/16] fix: escape every control character so that formatted
 strings are valid JSON

---
 src/format/mod.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 3ee24fa..e68df69 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -326,12 +326,41 @@ const BS: &[u8] = b"\\\\"; // \x5C
 const SS: &[u8] = b"\\/"; // \x2F
 const __: &[u8] = b"";
 
+// Control characters without a short escape sequence.
+const U00: &[u8] = b"\\u0000";
+const U01: &[u8] = b"\\u0001";
+const U02: &[u8] = b"\\u0002";
+const U03: &[u8] = b"\\u0003";
+const U04: &[u8] = b"\\u0004";
+const U05: &[u8] = b"\\u0005";
+const U06: &[u8] = b"\\u0006";
+const U07: &[u8] = b"\\u0007";
+const U0B: &[u8] = b"\\u000b";
+const U0E: &[u8] = b"\\u000e";
+const U0F: &[u8] = b"\\u000f";
+const U10: &[u8] = b"\\u0010";
+const U11: &[u8] = b"\\u0011";
+const U12: &[u8] = b"\\u0012";
+const U13: &[u8] = b"\\u0013";
+const U14: &[u8] = b"\\u0014";
+const U15: &[u8] = b"\\u0015";
+const U16: &[u8] = b"\\u0016";
+const U17: &[u8] = b"\\u0017";
+const U18: &[u8] = b"\\u0018";
+const U19: &[u8] = b"\\u0019";
+const U1A: &[u8] = b"\\u001a";
+const U1B: &[u8] = b"\\u001b";
+const U1C: &[u8] = b"\\u001c";
+const U1D: &[u8] = b"\\u001d";
+const U1E: &[u8] = b"\\u001e";
+const U1F: &[u8] = b"\\u001f";
+
 // Lookup table of escape sequences. A value of b"x" at index i means that byte
 // i is escaped as "x" in Yason. A value of b"" means that byte i is not escaped.
 static ESCAPE: [&[u8]; 256] = [
     //   1   2   3   4   5   6   7   8   9   A   B   C   D   E   F
-    __, __, __, __, __, __, __, __, BB, TT, NN, __, FF, RR, __, __, // 0
-    __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 1
+    U00, U01, U02, U03, U04, U05, U06, U07, BB, TT, NN, U0B, FF, RR, U0E, U0F, // 0
+    U10, U11, U12, U13, U14, U15, U16, U17, U18, U19, U1A, U1B, U1C, U1D, U1E, U1F, // 1
     __, __, QU, __, __, __, __, __, __, __, __, __, __, __, __, SS, // 2
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 3
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 4
-- 
2.43.0


From 64383b89529484bdb3d2be26998cb1caf5316f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 13/16] fix: indent pretty output deeper than one hundred
 levels

---
 src/format/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/pretty.rs b/src/format/pretty.rs
index 358867c..b5840f6 100644
--- a/src/format/pretty.rs
+++ b/src/format/pretty.rs
@@ -145,6 +145,11 @@ impl Formatter for PrettyFormatter<'_> {
 #[inline]
 fn indent<W: fmt::Write>(level: usize, indent: usize, writer: &mut W) -> FormatResult<()> {
     const SPACE_BUF: [u8; 200] = [b' '; 200];
-    writer.write_bytes(&SPACE_BUF[..level * indent])?;
+    let mut remaining = level * indent;
+    while remaining > SPACE_BUF.len() {
+        writer.write_bytes(&SPACE_BUF)?;
+        remaining -= SPACE_BUF.len();
+    }
+    writer.write_bytes(&SPACE_BUF[..remaining])?;
     Ok(())
 }
-- 
2.43.0


From 409600a86ba6ac2beec2700e7d12535ad46dc7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:16 +0000
Subject: [PATCH 14/16] fix: parse array subscript lists without recursing once
 per subscript

---
 src/path/parse.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index fa57038..7029047 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -237,29 +237,30 @@ impl<'a> PathParser<'a> {
 
     #[inline]
     fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<()> {
-        let begin = self.parse_last_or_index()?;
-        steps
-            .try_reserve(std::mem::size_of::<Step>())
-            .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
+        loop {
+            let begin = self.parse_last_or_index()?;
+            steps
+                .try_reserve(std::mem::size_of::<Step>())
+                .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
 
-        self.eat_whitespaces();
-        if self.has_keyword(TO) {
-            self.advance(TO.len());
             self.eat_whitespaces();
+            if self.has_keyword(TO) {
+                self.advance(TO.len());
+                self.eat_whitespaces();
 
-            let end = self.parse_last_or_index()?;
-            steps.push(SingleStep::Range(begin, end));
-        } else {
-            steps.push(SingleStep::Single(begin));
-        }
+                let end = self.parse_last_or_index()?;
+                steps.push(SingleStep::Range(begin, end));
+            } else {
+                steps.push(SingleStep::Single(begin));
+            }
 
-        self.eat_whitespaces();
-        if self.peek() == Some(COMMA) {
+            self.eat_whitespaces();
+            if self.peek() != Some(COMMA) {
+                return Ok(());
+            }
             self.advance(CTRL_CHAR_LEN);
             self.eat_whitespaces();
-            self.parse_array_cell(steps)?;
         }
-        Ok(())
     }
 
     #[inline]
-- 
2.43.0


From 937dfa93551a69f87b47f37cdccd6385e68cb725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 15/16] fix: compare numbers by value even when their encodings
 differ in length

---
 src/yason/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 8b8ee21..79efd56 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -254,7 +254,7 @@ impl Yason {
     #[inline]
     pub fn equals<T: AsRef<Yason>>(&self, other: T) -> YasonResult<bool> {
         let other = other.as_ref();
-        if self.bytes.len() != other.bytes.len() || self.data_type()? != other.data_type()? {
+        if self.data_type()? != other.data_type()? {
             return Ok(false);
         }
 
@@ -545,7 +545,7 @@ impl<'a, const IN_ARRAY: bool> LazyValue<'a, IN_ARRAY> {
 
     #[inline]
     pub fn equals(&self, other: LazyValue<IN_ARRAY>) -> YasonResult<bool> {
-        if self.data_type() != other.data_type() || self.yason.bytes.len() != other.yason.bytes.len() {
+        if self.data_type() != other.data_type() {
             return Ok(false);
         }
 
-- 
2.43.0


From 61610e39c7fe6e7ce4e6c31ce3d5b8710ca08fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 16/16] fix: do not take whitespace after an unquoted path key
 as part of the key

---
 src/path/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index 7029047..5427d2d 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -394,19 +394,20 @@ impl<'a> PathParser<'a> {
             Some(char) if char.is_ascii_alphabetic() => {
                 let begin = self.pos;
                 self.skip(|i| i.is_ascii_alphabetic() || i.is_ascii_digit());
+                let end = self.pos;
 
                 if DESCENDENT {
-                    let key = self.create_key::<false>(begin, self.pos)?;
+                    let key = self.create_key::<false>(begin, end)?;
                     self.push_step(Step::Descendent(key))
                 } else {
                     self.eat_whitespaces();
                     match self.peek() {
                         Some(LEFT_BRACKET) => {
-                            let field_name = &self.input[begin..self.pos];
+                            let field_name = &self.input[begin..end];
                             self.parse_item_method(field_name)
                         }
                         Some(DOT) | Some(BEGIN_ARRAY) | None => {
-                            let key = self.create_key::<false>(begin, self.pos)?;
+                            let key = self.create_key::<false>(begin, end)?;
                             self.push_step(Step::Object(ObjectStep::Key(key)))
                         }
                         _ => Err(PathParseError::new(
-- 
2.43.0

