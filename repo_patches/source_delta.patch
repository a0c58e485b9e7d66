From 0dee67f114667032b0054e2f3de20f49772a9394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 01/20] verif hooks: raw-parts constructors under cfg(kani)

---
 src/cell/builder.rs |  9 +++++++++
 src/cell/slice.rs   | 24 ++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index ca5e90d..8191798 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -708,6 +708,15 @@ pub struct CellDataBuilder {
     bit_len: u16,
 }
 
+/// Verification hooks (compiled only under the Kani model checker).
+#[cfg(kani)]
+impl CellDataBuilder {
+    /// Constructs a builder from its raw representation.
+    pub fn verif_from_parts(data: [u8; 128], bit_len: u16) -> Self {
+        Self { data, bit_len }
+    }
+}
+
 impl Default for CellDataBuilder {
     #[inline]
     fn default() -> Self {
diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 2749882..d49f4ef 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -239,6 +239,30 @@ pub struct CellSliceRange {
     refs_end: u8,
 }
 
+/// Verification hooks (compiled only under the Kani model checker).
+#[cfg(kani)]
+impl CellSliceRange {
+    /// Constructs a range from its raw representation.
+    pub fn verif_from_parts(bits_start: u16, bits_end: u16, refs_start: u8, refs_end: u8) -> Self {
+        Self {
+            bits_start,
+            bits_end,
+            refs_start,
+            refs_end,
+        }
+    }
+
+    /// Returns the raw representation (`bits_start`, `bits_end`, `refs_start`, `refs_end`).
+    pub fn verif_parts(&self) -> (u16, u16, u8, u8) {
+        (
+            self.bits_start,
+            self.bits_end,
+            self.refs_start,
+            self.refs_end,
+        )
+    }
+}
+
 impl CellSliceRange {
     /// Returns an empty slice range.
     pub const fn empty() -> Self {
-- 
2.43.0


From 3a5643f42cdebbb4bb918769b573380922155be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 02/20] fix: cell builder/slice range checks overflow u16/u8
 for large sizes and offsets

---
 src/cell/builder.rs | 14 +++----
 src/cell/slice.rs   | 91 +++++++++++++++++++++++++++++++++++----------
 2 files changed, 78 insertions(+), 27 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index 8191798..70573a1 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -412,7 +412,7 @@ impl CellBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits` and `refs`.
     #[inline]
     pub const fn has_capacity(&self, bits: u16, refs: u8) -> bool {
-        self.inner.bit_len + bits <= MAX_BIT_LEN
+        self.inner.bit_len.saturating_add(bits) <= MAX_BIT_LEN
             && self.references.len() + refs as usize <= MAX_REF_COUNT
     }
 
@@ -861,7 +861,7 @@ impl CellDataBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits`.
     #[inline]
     pub const fn has_capacity_bits(&self, bits: u16) -> bool {
-        self.bit_len + bits <= MAX_BIT_LEN
+        self.bit_len.saturating_add(bits) <= MAX_BIT_LEN
     }
 
     /// Clears all data bits and sets the size in bits to 0.
@@ -903,7 +903,7 @@ impl CellDataBuilder {
     /// Tries to store the specified number of zero bits in the cell,
     /// returning `false` if there is not enough remaining capacity.
     pub fn store_zeros(&mut self, bits: u16) -> Result<(), Error> {
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.bit_len.saturating_add(bits) <= MAX_BIT_LEN {
             self.bit_len += bits;
             Ok(())
         } else {
@@ -1061,7 +1061,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.bit_len.saturating_add(bits) <= MAX_BIT_LEN {
             bits = if let Some(offset) = bits.checked_sub(8) {
                 self.bit_len += offset;
                 8
@@ -1104,7 +1104,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.bit_len.saturating_add(bits) <= MAX_BIT_LEN {
             // Store zeros if bits is greater than 64
             bits = if let Some(offset) = bits.checked_sub(64) {
                 self.bit_len += offset;
@@ -1391,7 +1391,7 @@ impl CellDataBuilder {
             store_raw(data, bit_len, value, bits)
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.bit_len.saturating_add(bits) <= MAX_BIT_LEN {
             let mut data = [0; 128];
             let mut bit_len = 0;
             ok!(store_raw_impl(&mut data, &mut bit_len, value, bits));
@@ -1417,7 +1417,7 @@ fn store_raw(
     value: &[u8],
     mut bits: u16,
 ) -> Result<(), Error> {
-    if *bit_len + bits <= MAX_BIT_LEN {
+    if bit_len.saturating_add(bits) <= MAX_BIT_LEN {
         let max_bit_len = value.len().saturating_mul(8) as u16;
         bits = if let Some(offset) = bits.checked_sub(max_bit_len) {
             *bit_len += offset;
diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index d49f4ef..2bf9fc0 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -391,13 +391,15 @@ impl CellSliceRange {
 
     /// Returns true if the slice contains at least `bits` and `refs`.
     pub const fn has_remaining(&self, bits: u16, refs: u8) -> bool {
-        self.bits_start + bits <= self.bits_end && self.refs_start + refs <= self.refs_end
+        self.bits_start.saturating_add(bits) <= self.bits_end
+            && self.refs_start.saturating_add(refs) <= self.refs_end
     }
 
     /// Tries to advance the start of data and refs windows.
     pub fn skip_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
         if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
+            self.bits_start.saturating_add(bits) > self.bits_end
+                || self.refs_start.saturating_add(refs) > self.refs_end,
         ) {
             return Err(Error::CellUnderflow);
         }
@@ -410,7 +412,8 @@ impl CellSliceRange {
     /// Leaves only the first `bits` and `refs` in the slice.
     pub fn only_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
         if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
+            self.bits_start.saturating_add(bits) > self.bits_end
+                || self.refs_start.saturating_add(refs) > self.refs_end,
         ) {
             return Err(Error::CellUnderflow);
         }
@@ -423,7 +426,8 @@ impl CellSliceRange {
     /// Removes the last `bits` and `refs` from the slice.
     pub fn skip_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
         if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
+            self.bits_start.saturating_add(bits) > self.bits_end
+                || self.refs_start.saturating_add(refs) > self.refs_end,
         ) {
             return Err(Error::CellUnderflow);
         }
@@ -436,7 +440,8 @@ impl CellSliceRange {
     /// Leaves only the last `bits` and `refs` in the slice.
     pub fn only_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
         if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
+            self.bits_start.saturating_add(bits) > self.bits_end
+                || self.refs_start.saturating_add(refs) > self.refs_end,
         ) {
             return Err(Error::CellUnderflow);
         }
@@ -451,7 +456,8 @@ impl CellSliceRange {
     #[must_use = "use `skip_first` if you don't need the result"]
     pub fn split_prefix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
         if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
+            self.bits_start.saturating_add(bits) > self.bits_end
+                || self.refs_start.saturating_add(refs) > self.refs_end,
         ) {
             return Err(Error::CellUnderflow);
         }
@@ -468,7 +474,8 @@ impl CellSliceRange {
     #[must_use = "use `skip_last` if you don't need the result"]
     pub fn split_suffix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
         if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
+            self.bits_start.saturating_add(bits) > self.bits_end
+                || self.refs_start.saturating_add(refs) > self.refs_end,
         ) {
             return Err(Error::CellUnderflow);
         }
@@ -486,9 +493,9 @@ impl CellSliceRange {
     pub fn get_prefix(&self, bits: u16, refs: u8) -> Self {
         Self {
             bits_start: self.bits_start,
-            bits_end: std::cmp::min(self.bits_start + bits, self.bits_end),
+            bits_end: std::cmp::min(self.bits_start.saturating_add(bits), self.bits_end),
             refs_start: self.refs_start,
-            refs_end: std::cmp::min(self.refs_start + refs, self.refs_end),
+            refs_end: std::cmp::min(self.refs_start.saturating_add(refs), self.refs_end),
         }
     }
 
@@ -1185,7 +1192,7 @@ impl<'a> CellSlice<'a> {
 
     /// Tries to read the bit at the specified offset (relative to the current bits window).
     pub fn get_bit(&self, offset: u16) -> Result<bool, Error> {
-        if self.range.bits_start + offset < self.range.bits_end {
+        if self.range.bits_start.saturating_add(offset) < self.range.bits_end {
             let index = self.range.bits_start + offset;
             if let Some(byte) = self.cell.data().get((index / 8) as usize) {
                 return Ok((byte >> (7 - index % 8)) & 1 != 0);
@@ -1220,7 +1227,13 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u16` starting from the `offset`.
     pub fn get_u16(&self, offset: u16) -> Result<u16, Error> {
-        if self.range.bits_start + offset + 16 <= self.range.bits_end {
+        if self
+            .range
+            .bits_start
+            .saturating_add(offset)
+            .saturating_add(16)
+            <= self.range.bits_end
+        {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1270,7 +1283,13 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u32` starting from the `offset`.
     pub fn get_u32(&self, offset: u16) -> Result<u32, Error> {
-        if self.range.bits_start + offset + 32 <= self.range.bits_end {
+        if self
+            .range
+            .bits_start
+            .saturating_add(offset)
+            .saturating_add(32)
+            <= self.range.bits_end
+        {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1320,7 +1339,13 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u64` starting from the `offset`.
     pub fn get_u64(&self, offset: u16) -> Result<u64, Error> {
-        if self.range.bits_start + offset + 64 <= self.range.bits_end {
+        if self
+            .range
+            .bits_start
+            .saturating_add(offset)
+            .saturating_add(64)
+            <= self.range.bits_end
+        {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1367,7 +1392,13 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u128` starting from the `offset`.
     pub fn get_u128(&self, offset: u16) -> Result<u128, Error> {
-        if self.range.bits_start + offset + 128 <= self.range.bits_end {
+        if self
+            .range
+            .bits_start
+            .saturating_add(offset)
+            .saturating_add(128)
+            <= self.range.bits_end
+        {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1410,7 +1441,13 @@ impl<'a> CellSlice<'a> {
 
     /// Reads 32 bytes starting from the `offset`.
     pub fn get_u256(&self, offset: u16) -> Result<HashBytes, Error> {
-        if self.range.bits_start + offset + 256 <= self.range.bits_end {
+        if self
+            .range
+            .bits_start
+            .saturating_add(offset)
+            .saturating_add(256)
+            <= self.range.bits_end
+        {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1476,7 +1513,14 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 8 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 8
+            && self
+                .range
+                .bits_start
+                .saturating_add(offset)
+                .saturating_add(bits)
+                <= self.range.bits_end
+        {
             let index = self.range.bits_start + offset;
 
             let r = index % 8;
@@ -1530,7 +1574,14 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 64 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 64
+            && self
+                .range
+                .bits_start
+                .saturating_add(offset)
+                .saturating_add(bits)
+                <= self.range.bits_end
+        {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1766,7 +1817,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns a reference to the Nth child cell (relative to this slice's refs window).
     pub fn get_reference(&self, index: u8) -> Result<&'a DynCell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if self.range.refs_start.saturating_add(index) < self.range.refs_end {
             if let Some(cell) = self.cell.reference(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1776,7 +1827,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns the Nth child cell (relative to this slice's refs window).
     pub fn get_reference_cloned(&self, index: u8) -> Result<Cell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if self.range.refs_start.saturating_add(index) < self.range.refs_end {
             if let Some(cell) = self.cell.reference_cloned(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1787,7 +1838,7 @@ impl<'a> CellSlice<'a> {
     /// Tries to load the specified child cell as slice.
     /// Returns an error if the loaded cell is absent or is pruned.
     pub fn get_reference_as_slice(&self, index: u8) -> Result<CellSlice<'a>, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if self.range.refs_start.saturating_add(index) < self.range.refs_end {
             let Some(cell) = self.cell.reference(self.range.refs_start + index) else {
                 return Err(Error::CellUnderflow);
             };
-- 
2.43.0


From 15b2b4de5b40ef7aec4c70a4d65f1086f7a1abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 03/20] fix: store_raw truncates the length of byte slices
 longer than 8191 bytes

---
 src/cell/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index 70573a1..5003169 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -1418,7 +1418,7 @@ fn store_raw(
     mut bits: u16,
 ) -> Result<(), Error> {
     if bit_len.saturating_add(bits) <= MAX_BIT_LEN {
-        let max_bit_len = value.len().saturating_mul(8) as u16;
+        let max_bit_len = std::cmp::min(value.len().saturating_mul(8), u16::MAX as usize) as u16;
         bits = if let Some(offset) = bits.checked_sub(max_bit_len) {
             *bit_len += offset;
             max_bit_len
-- 
2.43.0


From e5e0f2c48cc9523ad1b5f07d1612b262afea8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 04/20] fix: CellSlice::get_raw ignores offset in its bounds
 check

---
 src/cell/slice.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 2bf9fc0..1d5f3e2 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -1720,7 +1720,13 @@ impl<'a> CellSlice<'a> {
             return Ok(&mut target[..0]);
         }
 
-        if self.range.bits_start + bits <= self.range.bits_end {
+        if self
+            .range
+            .bits_start
+            .saturating_add(offset)
+            .saturating_add(bits)
+            <= self.range.bits_end
+        {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
-- 
2.43.0


From 7680c94cd1cff94d06ea1e7bfcce287626ee2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 05/20] verif hooks: sub-array pattern replaced under cfg(kani)

---
 src/cell/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 1d5f3e2..f111a84 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -1473,7 +1473,11 @@ impl<'a> CellSlice<'a> {
                     std::ptr::copy_nonoverlapping(data.as_ptr().add(q), bytes.as_mut_ptr(), 33);
 
                     // Interpret last 32 bytes as two u128
+                    #[cfg(not(kani))]
                     let [ovf, bytes @ ..] = bytes;
+                    // NOTE: sub-array binding is not supported by Kani
+                    #[cfg(kani)]
+                    let (ovf, bytes) = (bytes[0], *(bytes.as_ptr().add(1) as *const [u8; 32]));
                     let [mut hi, mut lo]: [u128; 2] = std::mem::transmute(bytes);
 
                     // Numbers are in big endian order, swap bytes on little endian arch
-- 
2.43.0


From de798384627b2b2eaee3f10155fbb44478e78603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 06/20] fix: VarUint248 addition ignores the high word of the
 left operand

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index b798eb0..fc5f9c4 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -461,7 +461,7 @@ impl std::ops::AddAssign<&Self> for VarUint248 {
     fn add_assign(&mut self, rhs: &Self) {
         let (lo, carry) = self.low().overflowing_add(*rhs.low());
         *self.low_mut() = lo;
-        *self.high_mut() = rhs
+        *self.high_mut() = self
             .high()
             .wrapping_add(carry as _)
             .wrapping_add(*rhs.high());
-- 
2.43.0


From fc0211ee4ae43e80ccc63f3d624b9c7580146ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 07/20] fix: VarUint248::MIN is not the smallest value

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index fc5f9c4..b951c8f 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -20,7 +20,7 @@ impl VarUint248 {
     pub const ONE: Self = Self([1, 0]);
 
     /// The smallest value that can be represented by this integer type.
-    pub const MIN: Self = Self::new(1);
+    pub const MIN: Self = Self::new(0);
 
     /// The largest value that can be represented by this integer type.
     pub const MAX: Self = Self::from_words(u128::MAX >> 8, u128::MAX);
-- 
2.43.0


From c6a992d90147ee950ab8e68682b2fd29d9762584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 08/20] fix: SplitDepth accepts values above its maximum of 30

---
 src/num/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num/mod.rs b/src/num/mod.rs
index d71246b..968254a 100644
--- a/src/num/mod.rs
+++ b/src/num/mod.rs
@@ -935,8 +935,8 @@ impl SplitDepth {
     #[inline]
     pub const fn new(value: u8) -> Result<Self, Error> {
         match NonZeroU8::new(value) {
-            Some(value) => Ok(Self(value)),
-            None => Err(Error::IntOverflow),
+            Some(value) if value.get() <= Self::MAX.0.get() => Ok(Self(value)),
+            _ => Err(Error::IntOverflow),
         }
     }
 
-- 
2.43.0


From bc9a17d905a00f57b18e6b92603a6bf45d99d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 09/20] fix: ShardIdent::is_ancestor_of ignores some bits of
 the ancestor prefix

---
 src/models/block/block_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/block/block_id.rs b/src/models/block/block_id.rs
index e2698e6..0964a17 100644
--- a/src/models/block/block_id.rs
+++ b/src/models/block/block_id.rs
@@ -316,7 +316,7 @@ impl ShardIdent {
         let ancestor_tag = self.prefix_tag();
         let shard_tag = shard.prefix_tag();
         ancestor_tag >= shard_tag
-            && ((self.prefix ^ shard.prefix) & (self.prefix_tag_mask() << 1)) == 0
+            && ((self.prefix ^ shard.prefix) & ((!ancestor_tag + 1) << 1)) == 0
     }
 
     /// Returns `true` if the current shard is the direct parent of the specified shard.
-- 
2.43.0


From 945411d770487bca77993929dbc414b69d78733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 10/20] verif hooks: sub-array pattern of
 StdAddr::load_from_data replaced under cfg(kani)

---
 src/models/message/address.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/models/message/address.rs b/src/models/message/address.rs
index 470acc0..0d8a4d8 100644
--- a/src/models/message/address.rs
+++ b/src/models/message/address.rs
@@ -487,7 +487,14 @@ impl crate::dict::StoreDictKey for StdAddr {
 
 impl crate::dict::LoadDictKey for StdAddr {
     fn load_from_data(data: &CellDataBuilder) -> Option<Self> {
+        #[cfg(not(kani))]
         let [first_byte, second_byte, data @ ..] = data.raw_data();
+        #[cfg(kani)]
+        let (first_byte, second_byte, data) = (
+            &data.raw_data()[0],
+            &data.raw_data()[1],
+            &data.raw_data()[2..],
+        );
 
         // 2 bits id, 1 bit maybe (None), 8 bits workchain, 256 bits address
 
-- 
2.43.0


From bb3c26be8b17f6c071eb903df7b182715e9e0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 11/20] verif hooks: recorder in place of sha2 under cfg(kani)

---
 src/cell/cell_context.rs |  2 ++
 src/lib.rs               |  4 ++++
 src/verif.rs             | 42 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/cell/cell_context.rs b/src/cell/cell_context.rs
index 2c98cff..f070628 100644
--- a/src/cell/cell_context.rs
+++ b/src/cell/cell_context.rs
@@ -5,6 +5,8 @@ use crate::cell::CellTreeStats;
 use crate::cell::{Cell, CellDescriptor, CellType, DynCell, HashBytes, LevelMask, MAX_REF_COUNT};
 use crate::error::Error;
 use crate::util::{ArrayVec, unlikely};
+#[cfg(kani)]
+use crate::verif::sha2;
 
 /// Gas accounting and resolcing exotic cells.
 pub trait CellContext {
diff --git a/src/lib.rs b/src/lib.rs
index 4fbd4ca..56d4dbb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -138,6 +138,10 @@ pub mod num;
 pub mod prelude;
 pub mod util;
 
+#[cfg(kani)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(feature = "models")]
 pub mod models;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..db0bd4c
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,42 @@
+//! Verification hooks (compiled only under the Kani model checker).
+
+/// Stands for the `sha2` crate where only the hashed bytes matter: the
+/// functions [`feed`](sha2::feed) and [`result`](sha2::result) are replaced by the proofs.
+pub mod sha2 {
+    /// Stands for `sha2::digest`.
+    pub mod digest {
+        pub use ::sha2::digest::Digest;
+    }
+
+    /// Stands for `sha2::Sha256`.
+    #[derive(Default)]
+    pub struct Sha256(());
+
+    impl Sha256 {
+        pub fn new() -> Self {
+            Self(())
+        }
+        pub fn digest(data: impl AsRef<[u8]>) -> [u8; 32] {
+            Self::new().chain_update(data).finalize()
+        }
+        pub fn update(&mut self, data: impl AsRef<[u8]>) {
+            feed(data.as_ref());
+        }
+        pub fn chain_update(self, data: impl AsRef<[u8]>) -> Self {
+            feed(data.as_ref());
+            self
+        }
+        pub fn finalize(self) -> [u8; 32] {
+            result()
+        }
+    }
+
+    /// Appends to the hashed bytes.
+    pub fn feed(_: &[u8]) {
+        unimplemented!("replaced by the proofs")
+    }
+    /// The hash of the bytes fed so far.
+    pub fn result() -> [u8; 32] {
+        unimplemented!("replaced by the proofs")
+    }
+}
-- 
2.43.0


From e11f47604c2a7b002a337bbaa862b23085670cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:01 +0000
Subject: [PATCH 12/20] verif hooks: constructors of ordinary cells and pruned
 branches under cfg(kani)

---
 src/cell/cell_impl/mod.rs | 45 +++++++++++++++++++++++++++++++++++++++
 src/cell/mod.rs           |  2 ++
 2 files changed, 47 insertions(+)

diff --git a/src/cell/cell_impl/mod.rs b/src/cell/cell_impl/mod.rs
index 28fa2eb..61f7d31 100644
--- a/src/cell/cell_impl/mod.rs
+++ b/src/cell/cell_impl/mod.rs
@@ -827,6 +827,51 @@ fn aligned_leaf_stats(descriptor: CellDescriptor) -> CellTreeStats {
     }
 }
 
+/// Cells of the given contents, for verification harnesses.
+#[cfg(kani)]
+pub mod verif {
+    use std::mem::ManuallyDrop;
+
+    use super::*;
+
+    pub fn ordinary<const N: usize>(
+        bit_len: u16,
+        descriptor: CellDescriptor,
+        hashes: Vec<(HashBytes, u16)>,
+        references: [MaybeUninit<Cell>; MAX_REF_COUNT],
+        data: [u8; N],
+    ) -> ManuallyDrop<impl CellImpl + Send + Sync> {
+        ManuallyDrop::new(OrdinaryCell {
+            header: OrdinaryCellHeader {
+                bit_len,
+                #[cfg(feature = "stats")]
+                stats: CellTreeStats::default(),
+                hashes,
+                descriptor,
+                references,
+                without_first: false,
+            },
+            data,
+        })
+    }
+
+    pub fn pruned<const N: usize>(
+        repr_hash: HashBytes,
+        level: u8,
+        descriptor: CellDescriptor,
+        data: [u8; N],
+    ) -> impl CellImpl + Send + Sync {
+        PrunedBranch {
+            header: PrunedBranchHeader {
+                repr_hash,
+                level,
+                descriptor,
+            },
+            data,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::boc::Boc;
diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 5027ef7..5cf51e1 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -13,6 +13,8 @@ pub use self::cell_context::{CellContext, CellParts, LoadMode};
 pub use self::cell_impl::rc::{Cell, CellInner, WeakCell};
 #[cfg(feature = "sync")]
 pub use self::cell_impl::sync::{Cell, CellInner, WeakCell};
+#[cfg(kani)]
+pub use self::cell_impl::verif as cell_impl_verif;
 pub use self::cell_impl::{StaticCell, VirtualCellWrapper};
 pub use self::lazy::{Lazy, LazyExotic};
 pub use self::slice::{
-- 
2.43.0


From b6f61a34aa31ce7d20932fe1466f9b4ac3a000c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 13/20] fix: validator descriptions with a masterchain seqno
 lost their ADNL address when stored

---
 src/models/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 694a0e9..d67cf82 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1431,7 +1431,7 @@ impl Store for ValidatorDescription {
         ok!(builder.store_u64(self.weight));
 
         let mut adnl = self.adnl_addr.as_ref();
-        if with_mc_seqno {
+        if with_mc_seqno && adnl.is_none() {
             adnl = Some(HashBytes::wrap(&[0; 32]));
         }
 
-- 
2.43.0


From 56728481e27adc063f7f0a7d5e2507407d182a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 14/20] verif hooks: size of a builder can be set under
 cfg(kani)

---
 src/cell/builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index 5003169..cba9381 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -715,6 +715,11 @@ impl CellDataBuilder {
     pub fn verif_from_parts(data: [u8; 128], bit_len: u16) -> Self {
         Self { data, bit_len }
     }
+
+    /// Sets the number of bits without touching the data.
+    pub fn verif_set_size(&mut self, bit_len: u16) {
+        self.bit_len = bit_len;
+    }
 }
 
 impl Default for CellDataBuilder {
-- 
2.43.0


From 5b3bc93e4b2d9ecee7354cd65860d9f7e1b8d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 15/20] fix: consensus configs with more than 255 round
 candidates were stored truncated

---
 src/models/config/params.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index d67cf82..8987d58 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1016,10 +1016,13 @@ impl ConsensusConfig {
 impl Store for ConsensusConfig {
     fn store_into(&self, builder: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
         let flags = self.new_catchain_ids as u8;
+        let Ok(round_candidates) = u8::try_from(self.round_candidates.get()) else {
+            return Err(Error::IntOverflow);
+        };
 
         ok!(builder.store_u8(Self::TAG_V2));
         ok!(builder.store_u8(flags));
-        ok!(builder.store_u8(self.round_candidates.get() as u8));
+        ok!(builder.store_u8(round_candidates));
         ok!(builder.store_u32(self.next_candidate_delay_ms));
         ok!(builder.store_u32(self.consensus_timeout_ms));
         ok!(builder.store_u32(self.fast_attempts));
-- 
2.43.0


From d8706f87c776a3ae6124eb6caf4968011d4389f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:27 +0000
Subject: [PATCH 16/20] fix: encoding a bag of cells with a checksum into a
 writer failed its own size check

---
 src/boc/ser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index 6ed6a48..d7f4d47 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -243,6 +243,7 @@ where
 
         if let Some(crc) = crc {
             ok!(writer.write_all(&crc.to_le_bytes()));
+            total_size += 4;
         }
 
         debug_assert_eq!(total_size, header.total_size);
-- 
2.43.0


From 6333c8b690d733c606cff7ffb1a82c9932a36d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:27 +0000
Subject: [PATCH 17/20] fix: BocHeader::without_hashes after adding a root
 produced a bag with a wrong size

---
 src/boc/ser.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index d7f4d47..0df80e8 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -46,6 +46,7 @@ pub struct BocHeader<'a, S = ahash::RandomState> {
     rev_indices: HashMap<&'a HashBytes, u32, S>,
     rev_cells: Vec<&'a DynCell>,
     total_data_size: u64,
+    total_hashes_size: u64,
     reference_count: u64,
     cell_count: u32,
     without_hashes: bool,
@@ -60,6 +61,7 @@ impl<S: BuildHasher + Default> Default for BocHeader<'_, S> {
             rev_indices: Default::default(),
             rev_cells: Default::default(),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -88,6 +90,7 @@ where
             rev_indices: HashMap::with_capacity_and_hasher(capacity, S::default()),
             rev_cells: Vec::with_capacity(capacity),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -129,6 +132,7 @@ where
             },
             root_rev_indices: Default::default(),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -167,6 +171,7 @@ where
         self.rev_indices.clear();
         self.rev_cells.clear();
         self.total_data_size = 0;
+        self.total_hashes_size = 0;
         self.reference_count = 0;
         self.cell_count = 0;
     }
@@ -297,7 +302,13 @@ where
 
         let ref_size = number_of_bytes_to_fit(self.cell_count as u64);
 
+        let total_hashes_size = match self.without_hashes {
+            true => 0,
+            false => self.total_hashes_size,
+        };
+
         let total_cells_size = self.total_data_size
+            + total_hashes_size
             + (self.cell_count as u64 * 2) // all descriptor bytes
             + (ref_size as u64 * self.reference_count);
         let offset_size = number_of_bytes_to_fit(total_cells_size);
@@ -429,7 +440,8 @@ where
         self.rev_cells.push(cell);
 
         let descriptor = cell.descriptor();
-        self.total_data_size += descriptor.byte_len_full(self.without_hashes);
+        self.total_data_size += descriptor.byte_len() as u64;
+        self.total_hashes_size += descriptor.hashes_len();
         self.reference_count += descriptor.reference_count() as u64;
         self.cell_count += 1;
     }
@@ -453,7 +465,8 @@ where
                 self.rev_cells.push(cell);
 
                 let descriptor = cell.descriptor();
-                self.total_data_size += descriptor.byte_len_full(self.without_hashes);
+                self.total_data_size += descriptor.byte_len() as u64;
+                self.total_hashes_size += descriptor.hashes_len();
                 self.reference_count += descriptor.reference_count() as u64;
                 self.cell_count += 1;
 
@@ -464,12 +477,12 @@ where
 }
 
 impl CellDescriptor {
-    fn byte_len_full(self, without_hashes: bool) -> u64 {
-        let mut byte_len = self.byte_len() as u64;
-        if !without_hashes && self.store_hashes() {
-            byte_len += (self.level_mask().level() + 1) as u64 * (32 + 2);
+    fn hashes_len(self) -> u64 {
+        if self.store_hashes() {
+            (self.level_mask().level() + 1) as u64 * (32 + 2)
+        } else {
+            0
         }
-        byte_len
     }
 }
 
-- 
2.43.0


From e99058eeabef9dba59131748c39b941708044612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:27 +0000
Subject: [PATCH 18/20] fix: ProcessedCells::get underflowed for an index out
 of range

---
 src/boc/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boc/de.rs b/src/boc/de.rs
index f0196ff..8b09dff 100644
--- a/src/boc/de.rs
+++ b/src/boc/de.rs
@@ -301,7 +301,8 @@ pub struct ProcessedCells(SmallVec<[Cell; CELLS_ON_STACK]>);
 impl ProcessedCells {
     /// Returns a processed cell by index.
     pub fn get(&self, index: u32) -> Option<Cell> {
-        self.0.get(self.0.len() - index as usize - 1).cloned()
+        let index = self.0.len().checked_sub(index as usize + 1)?;
+        self.0.get(index).cloned()
     }
 }
 
-- 
2.43.0


From bdafe0392a78bb7dd7c4f0c88e5c3af27b1f3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 19/20] verif hooks: counters of a bag of cells can be set
 under cfg(kani)

---
 src/boc/ser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index 0df80e8..1520f73 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -486,6 +486,17 @@ impl CellDescriptor {
     }
 }
 
+#[cfg(kani)]
+impl<S> BocHeader<'_, S> {
+    /// Sets the counters, for verification harnesses.
+    pub fn verif_set_counts(&mut self, data_size: u64, hashes_size: u64, refs: u64, cells: u32) {
+        self.total_data_size = data_size;
+        self.total_hashes_size = hashes_size;
+        self.reference_count = refs;
+        self.cell_count = cells;
+    }
+}
+
 /// An info about the encoded BOC.
 #[derive(Copy, Clone)]
 pub struct BocHeaderStats {
-- 
2.43.0


From 8c34f7046f9545292a60f23fc705ef5736a855dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:21 +0000
Subject: [PATCH 20/20] verif hooks: map and data of a builder under cfg(kani)

---
 src/boc/ser.rs      |   3 ++
 src/cell/builder.rs |   5 +++
 src/verif.rs        | 100 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 108 insertions(+)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index 1520f73..c0cc4eb 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -1,8 +1,11 @@
+#[cfg(not(kani))]
 use std::collections::HashMap;
 use std::hash::BuildHasher;
 
 use super::BocTag;
 use crate::cell::{CellDescriptor, DynCell, HashBytes};
+#[cfg(kani)]
+use crate::verif::map::HashMap;
 
 /// Preallocated BOC header indices cache.
 pub struct BocHeaderCache<S> {
diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index cba9381..703018d 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -716,6 +716,11 @@ impl CellDataBuilder {
         Self { data, bit_len }
     }
 
+    /// Returns a pointer to the data.
+    pub fn verif_data(&mut self) -> *mut [u8; 128] {
+        &raw mut self.data
+    }
+
     /// Sets the number of bits without touching the data.
     pub fn verif_set_size(&mut self, bit_len: u16) {
         self.bit_len = bit_len;
diff --git a/src/verif.rs b/src/verif.rs
index db0bd4c..0c3a6fa 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -40,3 +40,103 @@ pub mod sha2 {
         unimplemented!("replaced by the proofs")
     }
 }
+
+/// Map with at most four keys, all of them hashes, in place of `std::collections::HashMap`.
+pub mod map {
+    use std::borrow::Borrow;
+    use std::mem::MaybeUninit;
+
+    use crate::cell::HashBytes;
+
+    const CAP: usize = 4;
+
+    fn words(hash: &HashBytes) -> [u128; 2] {
+        // SAFETY: both types have 32 bytes and any contents are valid.
+        unsafe { std::mem::transmute_copy(&hash.0) }
+    }
+
+    pub struct HashMap<K, V, S> {
+        keys: [[u128; 2]; CAP],
+        items: [MaybeUninit<(K, V)>; CAP],
+        len: usize,
+        capacity: usize,
+        hasher: S,
+    }
+
+    impl<K: Borrow<HashBytes>, V, S> HashMap<K, V, S> {
+        pub fn with_capacity_and_hasher(capacity: usize, hasher: S) -> Self {
+            Self {
+                keys: [[0; 2]; CAP],
+                items: [const { MaybeUninit::uninit() }; CAP],
+                len: 0,
+                capacity,
+                hasher,
+            }
+        }
+
+        fn find(&self, key: &HashBytes) -> Option<usize> {
+            let key = words(key);
+            let mut i = 0;
+            while i < CAP {
+                if i < self.len && self.keys[i][0] == key[0] && self.keys[i][1] == key[1] {
+                    return Some(i);
+                }
+                i += 1;
+            }
+            None
+        }
+
+        pub fn get<Q: Borrow<HashBytes> + ?Sized>(&self, key: &Q) -> Option<&V> {
+            // SAFETY: the items before `len` are initialized.
+            self.find(key.borrow())
+                .map(|i| unsafe { &self.items[i].assume_init_ref().1 })
+        }
+
+        pub fn get_mut<Q: Borrow<HashBytes> + ?Sized>(&mut self, key: &Q) -> Option<&mut V> {
+            // SAFETY: the items before `len` are initialized.
+            self.find(key.borrow())
+                .map(|i| unsafe { &mut self.items[i].assume_init_mut().1 })
+        }
+
+        pub fn contains_key<Q: Borrow<HashBytes> + ?Sized>(&self, key: &Q) -> bool {
+            self.find(key.borrow()).is_some()
+        }
+
+        pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+            if let Some(prev) = self.get_mut(key.borrow()) {
+                return Some(std::mem::replace(prev, value));
+            }
+            assert!(self.len < CAP, "too many keys for the map under verification");
+            self.keys[self.len] = words(key.borrow());
+            self.items[self.len].write((key, value));
+            self.len += 1;
+            None
+        }
+
+        pub fn len(&self) -> usize {
+            self.len
+        }
+
+        pub fn is_empty(&self) -> bool {
+            self.len == 0
+        }
+
+        pub fn clear(&mut self) {
+            self.len = 0;
+        }
+
+        pub fn capacity(&self) -> usize {
+            self.capacity
+        }
+
+        pub fn hasher(&self) -> &S {
+            &self.hasher
+        }
+    }
+
+    impl<K: Borrow<HashBytes>, V, S: Default> Default for HashMap<K, V, S> {
+        fn default() -> Self {
+            Self::with_capacity_and_hasher(0, S::default())
+        }
+    }
+}
-- 
2.43.0

