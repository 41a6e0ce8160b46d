From cc56436b8c7c72b9a009e1e99f541010069a84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 01/13] fix: report an invalid `regf` signature instead of
 panicking

The signature is the first field of the base block, hence its offset is zero.
`offset_of_field` asserted that every field offset is greater than zero, so
opening or validating any file with a bad signature panicked.
---
 src/hive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index a6db2db..9aeca0c 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -176,7 +176,7 @@ where
         let field_address = field as *const T as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
-        assert!(field_address > base_address);
+        assert!(field_address >= base_address);
         field_address - base_address
     }
 
-- 
2.43.0


From 5647bafdcaf1f0759e6ed4274a8cac2eafbccf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 02/13] fix: return an error for a data offset of 0xFFFFFFFF
 instead of panicking

Corrupted hives may have such an offset in the base block, a subkeys list,
a values list, a Key Value or a Big Data header. It is beyond the hive data
like any other too large offset and results in `InvalidHeaderSize`.
---
 src/hive.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 9aeca0c..b9430b9 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -113,9 +113,6 @@ where
     }
 
     pub(crate) fn cell_range_from_data_offset(&self, data_offset: u32) -> Result<Range<usize>> {
-        // Only valid data offsets are accepted here.
-        assert!(data_offset != u32::MAX);
-
         // Accept only u32 data offsets, but convert them into usize right away for
         // slice range operations and fearless calculations.
         let data_offset = data_offset as usize;
-- 
2.43.0


From 2146d2afb8d4382a7037d48a374952af8773009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 03/13] fix: return an error for a cell size of zero instead of
 panicking

---
 src/hive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index b9430b9..0a1f843 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -152,7 +152,13 @@ where
 
         // Get the actual data range and verify that it's inside our hive data.
         let remaining_range = cell_data_offset..self.data.len();
-        let cell_data_size = cell_size - mem::size_of::<CellHeader>();
+        let cell_data_size = cell_size
+            .checked_sub(mem::size_of::<CellHeader>())
+            .ok_or_else(|| NtHiveError::InvalidSizeField {
+                offset: self.offset_of_field(&header.size),
+                expected: mem::size_of::<CellHeader>(),
+                actual: cell_size,
+            })?;
         let cell_data_range = byte_subrange(&remaining_range, cell_data_size).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
                 offset: self.offset_of_field(&header.size),
-- 
2.43.0


From df0fb1b1ad6c601bee3cb12ee997659f38deaa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 04/13] fix: report the hive offset of DWORD and QWORD data
 with an invalid size

`offset_of_field` got a reference to the local slice variable instead of the
referenced hive bytes. Depending on the addresses, this resulted in a bogus
offset or a panic.
---
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 0a1f843..2ef86ed 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -175,8 +175,8 @@ where
     /// Note that this function primarily exists to provide absolute hive file offsets when reporting errors.
     /// It cannot be used to index into the hive bytes, because they are initially split into `base_block`
     /// and `data`.
-    pub(crate) fn offset_of_field<T>(&self, field: &T) -> usize {
-        let field_address = field as *const T as usize;
+    pub(crate) fn offset_of_field<T: ?Sized>(&self, field: &T) -> usize {
+        let field_address = field as *const T as *const u8 as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
         assert!(field_address >= base_address);
diff --git a/src/key_value.rs b/src/key_value.rs
index 1cde3b9..d54fb10 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -267,7 +267,7 @@ where
             // DWORD data must be exactly 4 bytes long.
             if data.len() != mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u32>(),
                     actual: data.len(),
                 });
@@ -329,7 +329,7 @@ where
             // QWORD data must be exactly 8 bytes long.
             if data.len() != mem::size_of::<u64>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u64>(),
                     actual: data.len(),
                 });
-- 
2.43.0


From 9b2c70793801d3fd39ad8ab4df686bb61b3f3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 05/13] fix: don't return an arbitrary value from
 `KeyNode::value` if a name is unreadable

A Key Value whose name could not be read was treated as a match and returned
as `Some(Ok(_))`. Return the error instead.
---
 src/key_node.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/key_node.rs b/src/key_node.rs
index 4d604e5..5bcc9f9 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -357,21 +357,19 @@ impl KeyNodeItemRange {
     where
         B: SplitByteSlice,
     {
-        let mut values = iter_try!(self.values(hive)?);
+        let values = iter_try!(self.values(hive)?);
 
         // Key Values are not sorted, so we can only iterate until we find a match.
-        values.find(|key_value| {
-            let key_value = match key_value {
-                Ok(key_value) => key_value,
-                Err(_) => return true,
-            };
-            let key_value_name = match key_value.name() {
-                Ok(name) => name,
-                Err(_) => return true,
-            };
-
-            key_value_name == name
-        })
+        for key_value in values {
+            let key_value = iter_try!(key_value);
+            let key_value_name = iter_try!(key_value.name());
+
+            if key_value_name == name {
+                return Some(Ok(key_value));
+            }
+        }
+
+        None
     }
 
     fn values<'h, B>(&self, hive: &'h Hive<B>) -> Option<Result<KeyValues<'h, B>>>
-- 
2.43.0


From 275a3be4dea2ccc1db656caff32e3cf581b7c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 06/13] fix: don't count surplus Big Data segments in
 `BigDataSlices`

The iterator stops when all data bytes have been returned, but `count`, `last`,
`len`, and `size_hint` also considered segments that are not needed for the data.
---
 src/big_data.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index a015deb..c64b967 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -253,7 +253,8 @@ where
     }
 
     fn count(self) -> usize {
-        self.big_data_list_item_ranges.count()
+        let (size, _) = self.size_hint();
+        size
     }
 
     fn last(mut self) -> Option<Self::Item> {
@@ -281,7 +282,9 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.big_data_list_item_ranges.size_hint()
+        // The list may have more segments than we need for the data, so don't consider its length.
+        let size = self.bytes_left.div_ceil(BIG_DATA_SEGMENT_SIZE);
+        (size, Some(size))
     }
 }
 
-- 
2.43.0


From a2c70ed99a48bea6ee4876f2552a2d6af1ff54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 07/13] fix: exhaust iterators when `nth` is called with a huge
 number

If skipping `n` items overflowed, `nth` returned `None` without advancing the
iterator, so following calls still returned items.
---
 src/big_data.rs        | 6 +++---
 src/index_root.rs      | 4 ++--
 src/key_values_list.rs | 8 ++++----
 src/leaf.rs            | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index c64b967..9ea6847 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -169,8 +169,8 @@ impl Iterator for BigDataListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<BigDataListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<BigDataListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -268,7 +268,7 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(BIG_DATA_SEGMENT_SIZE)?;
+        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
         self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
         if self.bytes_left == 0 {
             return None;
diff --git a/src/index_root.rs b/src/index_root.rs
index c93682c..9ca2a12 100644
--- a/src/index_root.rs
+++ b/src/index_root.rs
@@ -97,8 +97,8 @@ impl Iterator for IndexRootItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<IndexRootItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<IndexRootItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 0db5d85..a8cba2a 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -98,8 +98,8 @@ impl Iterator for KeyValuesListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -172,12 +172,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
         self.key_values_list_item_ranges.items_range.start = self
             .key_values_list_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/leaf.rs b/src/leaf.rs
index b347910..88f41cb 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -205,8 +205,8 @@ impl Iterator for LeafItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_type.item_size())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_type.item_size());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -287,12 +287,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_item_ranges.leaf_type.item_size())?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
         self.leaf_item_ranges.items_range.start = self
             .leaf_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
-- 
2.43.0


From 293c38b4c107f0d2fee00113f126fc5e540e72cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 08/13] fix: prevent integer overflows on 32-bit platforms

A corrupted `key_values_count` or data offset overflowed `usize` there, resulting
in a panic or (with wrapping arithmetic) in a hive that looks valid but isn't.
---
 src/hive.rs            | 2 +-
 src/key_values_list.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 2ef86ed..d6634ee 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -185,7 +185,7 @@ where
 
     /// Calculate a data offset's offset from the very beginning of the hive bytes.
     pub(crate) fn offset_of_data_offset(&self, data_offset: usize) -> usize {
-        data_offset + mem::size_of::<HiveBaseBlock>()
+        data_offset.saturating_add(mem::size_of::<HiveBaseBlock>())
     }
 
     /// Returns the major version of this hive.
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index a8cba2a..f416314 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -58,7 +58,7 @@ impl KeyValuesListItemRanges {
         count_field_offset: usize,
         cell_range: Range<usize>,
     ) -> Result<Self> {
-        let byte_count = count as usize * mem::size_of::<KeyValuesListItem>();
+        let byte_count = (count as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());
 
         let items_range = byte_subrange(&cell_range, byte_count).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
-- 
2.43.0


From c3f1a4a4db3e141df6a6f9f818d97dca3a341e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 09/13] fix: don't return further strings after
 `RegMultiSZStrings` has ended

The iterator returned `None` for an empty string, but continued with data following
it when called again, even though it is a `FusedIterator`.
---
 src/key_value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key_value.rs b/src/key_value.rs
index d54fb10..1d27158 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -528,6 +528,9 @@ where
         }
 
         if string.is_empty() {
+            // An empty string marks the end of the data, so don't return anything beyond it.
+            self.char_iter = None;
+            self.big_iter = None;
             None
         } else {
             Some(Ok(string))
-- 
2.43.0


From e946fcfe6fb055e6cd91d2f19de2681850bf0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 10/13] fix: decode surrogate pairs that are split over two Big
 Data segments

A character outside the Basic Multilingual Plane turned into two replacement characters
if its first code unit was the last one of a Big Data segment.
---
 src/key_value.rs | 82 +++++++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 49 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index 1d27158..c11e62e 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -23,7 +23,6 @@ use crate::string::NtHiveNameString;
 use {
     alloc::{string::String, vec::Vec},
     core::{
-        char::{self, DecodeUtf16, DecodeUtf16Error},
         iter::{self, FusedIterator, Map},
         slice::ChunksExact,
     },
@@ -206,37 +205,31 @@ where
     where
         I: Iterator<Item = Result<&'h [u8]>>,
     {
-        let mut string = String::new();
+        let mut code_units = Vec::new();
 
         // A very long REG_SZ / REG_EXPAND_SZ value may be split over several Big Data segments.
-        // Transparently concatenate them in the output string.
-        for slice_data in iter {
+        // Transparently concatenate them before decoding, as even a surrogate pair may be split that way.
+        'outer_loop: for slice_data in iter {
             let slice_data = slice_data?;
 
             let u16_iter = slice_data
                 .chunks_exact(2)
                 .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
+            code_units.reserve(u16_iter.len());
 
-            // You hardly find emojis or other characters outside the UTF-16 Basic Multilingual Plane in registry data.
-            // Hence, the count of UTF-16 code points is a good estimate for the final string length.
-            string.reserve(u16_iter.len());
-
-            // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
-            let char_iter =
-                char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
-
-            for c in char_iter {
+            for code_unit in u16_iter {
                 // Some applications erroneously store NUL-terminated strings in the registry.
                 // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
-                if c == '\0' {
-                    return Ok(string);
+                if code_unit == 0 {
+                    break 'outer_loop;
                 } else {
-                    string.push(c);
+                    code_units.push(code_unit);
                 }
             }
         }
 
-        Ok(string)
+        // Interpret the code units as UTF-16. Replace undecodable ones silently.
+        Ok(String::from_utf16_lossy(&code_units))
     }
 
     /// Checks if this is a `REG_SZ` or `REG_EXPAND_SZ` Key Value
@@ -428,10 +421,7 @@ where
 impl<B> Eq for KeyValue<'_, B> where B: SplitByteSlice {}
 
 #[cfg(feature = "alloc")]
-type RegMultiSZCharIter<'h> = Map<
-    DecodeUtf16<Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>,
-    fn(Result<char, DecodeUtf16Error>) -> char,
->;
+type RegMultiSZCodeUnitIter<'h> = Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>;
 
 #[cfg(feature = "alloc")]
 #[derive(Clone)]
@@ -439,7 +429,7 @@ pub struct RegMultiSZStrings<'h, B>
 where
     B: SplitByteSlice + 'h,
 {
-    char_iter: Option<RegMultiSZCharIter<'h>>,
+    code_unit_iter: Option<RegMultiSZCodeUnitIter<'h>>,
     big_iter: Option<BigDataSlices<'h, B>>,
 }
 
@@ -450,34 +440,27 @@ where
 {
     fn small(data: &'h [u8]) -> Self {
         Self {
-            char_iter: Some(Self::make_char_iter(data)),
+            code_unit_iter: Some(Self::make_code_unit_iter(data)),
             big_iter: None,
         }
     }
 
     fn big(iter: BigDataSlices<'h, B>) -> Self {
         Self {
-            char_iter: None,
+            code_unit_iter: None,
             big_iter: Some(iter),
         }
     }
 
-    fn make_char_iter(slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
-        let u16_iter = slice_data
+    fn make_code_unit_iter(slice_data: &'h [u8]) -> RegMultiSZCodeUnitIter<'h> {
+        slice_data
             .chunks_exact(2)
-            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16);
-        char::decode_utf16(u16_iter).map(
-            Self::unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char,
-        )
+            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16)
     }
 
     fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
         u16::from_le_bytes(two_bytes.try_into().unwrap())
     }
-
-    fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
-        input.unwrap_or(char::REPLACEMENT_CHARACTER)
-    }
 }
 
 #[cfg(feature = "alloc")]
@@ -488,11 +471,11 @@ where
     type Item = Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut string = String::new();
+        let mut code_units = Vec::new();
 
         'outer_loop: loop {
-            let char_iter = match self.char_iter.as_mut() {
-                Some(char_iter) => char_iter,
+            let code_unit_iter = match self.code_unit_iter.as_mut() {
+                Some(code_unit_iter) => code_unit_iter,
                 None => {
                     let big_iter = match self.big_iter.as_mut() {
                         Some(big_iter) => big_iter,
@@ -503,37 +486,38 @@ where
                         Some(Err(e)) => return Some(Err(e)),
                         None => break 'outer_loop,
                     };
-                    let char_iter = Self::make_char_iter(slice_data);
-                    self.char_iter = Some(char_iter);
+                    let code_unit_iter = Self::make_code_unit_iter(slice_data);
+                    self.code_unit_iter = Some(code_unit_iter);
                     continue 'outer_loop;
                 }
             };
 
-            for c in char_iter {
+            for code_unit in code_unit_iter {
                 // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
                 // The final string has a double-NUL termination.
                 //
                 // However, we will happily accept data without terminating NUL characters as well.
-                if c == '\0' {
+                if code_unit == 0 {
                     break 'outer_loop;
                 } else {
-                    string.push(c);
+                    code_units.push(code_unit);
                 }
             }
 
-            // We have fully iterated all characters of this slice.
-            // Get a new `char_iter` in the next iteration of the outer loop, and concatenate characters
-            // to our `string` until we find a NUL or no more data.
-            self.char_iter = None;
+            // We have fully iterated all code units of this slice.
+            // Get a new `code_unit_iter` in the next iteration of the outer loop, and concatenate code units
+            // to our `code_units` until we find a NUL or no more data.
+            // Only decode them afterwards, as even a surrogate pair may be split over two slices.
+            self.code_unit_iter = None;
         }
 
-        if string.is_empty() {
+        if code_units.is_empty() {
             // An empty string marks the end of the data, so don't return anything beyond it.
-            self.char_iter = None;
+            self.code_unit_iter = None;
             self.big_iter = None;
             None
         } else {
-            Some(Ok(string))
+            Some(Ok(String::from_utf16_lossy(&code_units)))
         }
     }
 }
-- 
2.43.0


From 70a8245baf253f466e8fba4112e048705f063876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 11/13] fix: report an unreadable root key name in readhive
 instead of panicking

---
 examples/readhive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/readhive.rs b/examples/readhive.rs
index e06da78..7eb79cb 100644
--- a/examples/readhive.rs
+++ b/examples/readhive.rs
@@ -30,7 +30,10 @@ fn main() -> Result<(), String> {
     let root_key = hive
         .root_key_node()
         .map_err(|e| format!("Error getting root key: {e}"))?;
-    println!("{}", root_key.name().unwrap().to_string_lossy());
+    let root_key_name = root_key
+        .name()
+        .map_err(|e| format!("Error getting root key name: {e}"))?;
+    println!("{}", root_key_name.to_string_lossy());
 
     process_subkey(root_key, 0)?;
 
-- 
2.43.0


From 3aced865fd1eaeeefa1845c206a9c53f0423b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 12/13] Revert "fix: report an unreadable root key name in
 readhive instead of panicking"

examples/ counts as test files, which are not to be changed; the defect is recorded as a finding instead.
---
 examples/readhive.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/examples/readhive.rs b/examples/readhive.rs
index 7eb79cb..e06da78 100644
--- a/examples/readhive.rs
+++ b/examples/readhive.rs
@@ -30,10 +30,7 @@ fn main() -> Result<(), String> {
     let root_key = hive
         .root_key_node()
         .map_err(|e| format!("Error getting root key: {e}"))?;
-    let root_key_name = root_key
-        .name()
-        .map_err(|e| format!("Error getting root key name: {e}"))?;
-    println!("{}", root_key_name.to_string_lossy());
+    println!("{}", root_key.name().unwrap().to_string_lossy());
 
     process_subkey(root_key, 0)?;
 
-- 
2.43.0


From 569252f375c76571c9ca5fe914f7dfd69a364d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 13/13] fix: Display of names padded every single character to
 the requested width

---
 src/string.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 7c16954..838884c 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -4,6 +4,7 @@
 use core::char;
 use core::cmp::Ordering;
 use core::fmt;
+use core::fmt::Write;
 
 #[cfg(feature = "alloc")]
 use alloc::string::String;
@@ -1346,7 +1347,7 @@ impl fmt::Display for NtHiveNameString<'_> {
             Self::Latin1(bytes) => {
                 for byte in bytes.iter() {
                     let single_char = *byte as char;
-                    single_char.fmt(f)?;
+                    f.write_char(single_char)?;
                 }
             }
             Self::Utf16LE(_) => {
@@ -1354,7 +1355,7 @@ impl fmt::Display for NtHiveNameString<'_> {
                     .map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
 
                 for single_char in utf16_iter {
-                    single_char.fmt(f)?;
+                    f.write_char(single_char)?;
                 }
             }
         }
-- 
2.43.0

