From 479df73ce408f7f211220cf427c6edfa88816982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:53 +0000
Subject: [PATCH 1/9] fix: DynamicStorage2D::zeroed allocates no excess byte

The excess byte for depths that are a multiple of four made a zeroed index unequal to an index
built from the same cells.
---
 src/indices/morton_index_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41f1c20..dafa7ce 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -623,7 +623,7 @@ pub struct DynamicStorage2D {
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
         Self {
-            bits: (0..=(depth / 4)).map(|_| 0_u8).collect(),
+            bits: vec![0_u8; (depth + 3) / 4],
             depth,
         }
     }
-- 
2.43.0


From ce1d0b9ab65108536276b598714bee06876237cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:53 +0000
Subject: [PATCH 2/9] fix: converting a dynamic to a fixed-depth index keeps
 the cells at their levels

The bytes of a dynamic index that is shorter than the target type were put into the low bytes of
the fixed storage, so the cells ended up at the wrong levels.
---
 src/indices/morton_index_2d.rs | 26 +++++++++++++-------------
 src/indices/morton_index_3d.rs | 26 +++++++++++++-------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index dafa7ce..958052c 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -5,7 +5,7 @@ use std::hash::Hash;
 use nalgebra::Vector2;
 
 use crate::dimensions::{Dim2D, Dimension, Quadrant, QuadrantOrdering};
-use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits, Endianness};
+use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits};
 use crate::{
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -869,18 +869,18 @@ impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
                 max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage2D stores its cells as BigEndian, FixedDepthStorage2D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage2D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // Copy the cells one by one, levels below the depth of the dynamic index remain zero
+            let mut ret: Self = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 2646c84..95c95cb 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -9,7 +9,7 @@ use nalgebra::Vector3;
 use crate::{
     dimensions::{Dim3D, Dimension, Octant, OctantOrdering},
     number::{
-        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits, Endianness,
+        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits,
     },
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -934,18 +934,18 @@ impl<B: FixedStorageType> TryFrom<MortonIndex3D<DynamicStorage3D>>
                 max_depth: FixedDepthStorage::<Dim3D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage3D stores its cells as BigEndian, FixedDepthStorage3D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage3D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // Copy the cells one by one, levels below the depth of the dynamic index remain zero
+            let mut ret: Self = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
-- 
2.43.0


From 507264692127834f9521ca9207bce701117204db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 3/9] fix: static 3D from_grid_index processes all chunks with
 valid bits

MAX_LEVELS is not a multiple of the chunk size in 3D, so the valid bits can reach one chunk lower
than the number of chunks suggests. The lowest levels came out as zero cells.
---
 src/indices/morton_index_3d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 95c95cb..5978adf 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -353,9 +353,9 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We also start setting the bits from the most significant chunk towards the least significant chunk!
         // This way, we make sure that we set the high bits first in cases where the grid_depth is smaller than
         // the MAX_LEVELS
-        let num_chunks = (grid_depth + 7) / 8;
         let max_chunks = (<FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS + 7) / 8;
-        let chunk_start = max_chunks - num_chunks;
+        // The valid bits start at `shift_to_max_bits`, which might lie in the middle of a chunk
+        let chunk_start = shift_to_max_bits / 8;
         for chunk_index in (chunk_start..max_chunks).rev() {
             let start_bit = chunk_index * 8;
             let end_bit = start_bit + 8;
-- 
2.43.0


From 08396f6be156ab78df6b21158aab793d3b7eaf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 4/9] fix: grid index construction does not shift beyond the
 machine word

The static variants shift the grid index up to the maximum level of the storage, which is 64 for
a 2D index of depth 0 with u128 storage (a panic with overflow checks) and can exceed 32 in many
more cases on 32-bit machines. MAX_LEVELS_BITMASK did not compile there for u128.
---
 src/indices/morton_index_2d.rs |  4 ++--
 src/indices/morton_index_3d.rs | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 958052c..d9f7b94 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,8 +165,8 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
+        let x_bits = unsafe { (grid_index.x as u128).get_bits(0..grid_depth) << shift_to_max_bits };
+        let y_bits = unsafe { (grid_index.y as u128).get_bits(0..grid_depth) << shift_to_max_bits };
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 5978adf..622f8e1 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -173,7 +173,10 @@ impl<B: FixedStorageType> MortonIndex3D<FixedDepthStorage3D<B>> {
     /// Maximum levels that this Morton index type can represent
     pub const MAX_LEVELS: usize = B::BITS / Dim3D::DIMENSIONALITY;
     /// Bitmask that only retains the lowest MAX_LEVELS bits
-    pub const MAX_LEVELS_BITMASK: usize = (1 << Self::MAX_LEVELS) - 1;
+    pub const MAX_LEVELS_BITMASK: usize = match 1_usize.checked_shl(Self::MAX_LEVELS as u32) {
+        Some(bit) => bit - 1,
+        None => usize::MAX,
+    };
     /// Creates a new MortonIndex3D with fixed-depth storage from the given 3D grid index. The `grid_index` is assumed to
     /// represent a grid with a depth equal to `FixedDepthStorage3D<B>::MAX_LEVELS`.
     ///
@@ -337,9 +340,9 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
 
         let shift_to_max_bits =
             <FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
-        let z_bits = unsafe { grid_index.z.get_bits(0..grid_depth) << shift_to_max_bits };
+        let x_bits = unsafe { (grid_index.x as u128).get_bits(0..grid_depth) << shift_to_max_bits };
+        let y_bits = unsafe { (grid_index.y as u128).get_bits(0..grid_depth) << shift_to_max_bits };
+        let z_bits = unsafe { (grid_index.z as u128).get_bits(0..grid_depth) << shift_to_max_bits };
 
         let (x_shift, y_shift, z_shift) = ordering.get_bit_shifts_for_xyz();
 
-- 
2.43.0


From 5840272acde9939d47574386455c395e59f72728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 5/9] fix: from_raw_index clears bits that belong to no cell

The leftover bits took part in comparisons, hashing and conversions.
---
 src/indices/morton_index_3d.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 622f8e1..90ada23 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -237,8 +237,14 @@ impl<B: FixedStorageType> MortonIndex3D<FixedDepthStorage3D<B>> {
 
     /// Creates a new MortonIndex3D from the raw bits of an index
     pub fn from_raw_index(index: B) -> Self {
+        let mut bits = index;
+        // Bits that belong to no cell are cleared, otherwise indices with equal cells would compare unequal
+        let unused_bits: usize = B::BITS % Dim3D::DIMENSIONALITY;
+        unsafe {
+            bits.set_bits(0..unused_bits, B::default());
+        }
         Self {
-            storage: FixedDepthStorage3D { bits: index },
+            storage: FixedDepthStorage3D { bits },
         }
     }
 }
@@ -387,8 +393,14 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
 
     /// Creates a new MortonIndex3D from the raw bits of an index with `depth`
     pub fn from_raw_index(index: B, depth: u8) -> Self {
+        let mut bits = index;
+        // Bits that belong to no cell are cleared, otherwise indices with equal cells would compare unequal
+        let unused_bits = B::BITS.saturating_sub(Dim3D::DIMENSIONALITY * depth as usize);
+        unsafe {
+            bits.set_bits(0..unused_bits, B::default());
+        }
         Self {
-            storage: StaticStorage3D { bits: index, depth },
+            storage: StaticStorage3D { bits, depth },
         }
     }
 }
-- 
2.43.0


From 34a82d7cf1b67f2fbfa03d681d1f07dd58c0a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 6/9] fix: Vec<u8>::get_bits returns no bits beyond the range

The bits carried over from the last byte were taken before the byte was masked.
---
 src/number.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 265fe5c..01664a1 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -319,6 +319,14 @@ impl Bits for Vec<u8> {
         let shift_within_byte = bit_range.start % 8;
 
         let mut bytes = self[start_byte..end_byte].to_owned();
+        if let Some(last_byte) = bytes.last_mut() {
+            // Mask away the upper bits outside of the requested range on the last byte. This has to happen before
+            // bits are carried over to the previous byte
+            let excess_bits = (end_byte * 8) - bit_range.end;
+            // There can never be overflow here, because excess_bits always will be less than 8!
+            let mask = 0xFF_u8 >> excess_bits;
+            *last_byte &= mask;
+        }
         for idx in 0..bytes.len() {
             if idx > 0 && shift_within_byte > 0 {
                 // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
@@ -326,13 +334,6 @@ impl Bits for Vec<u8> {
                 let carry = bytes[idx].get_bits(0..shift_within_byte);
                 bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
             }
-            if idx == bytes.len() - 1 {
-                // Mask away the upper bits outside of the requested range on the last byte
-                let excess_bits = (end_byte * 8) - bit_range.end;
-                // There can never be overflow here, because excess_bits always will be less than 8!
-                let mask = 0xFF_u8 >> excess_bits;
-                bytes[idx] &= mask;
-            }
             bytes[idx] >>= shift_within_byte;
         }
 
-- 
2.43.0


From f16734fe3f4ff8c33cb88caa8ca4dc4ced3a822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 7/9] fix: add_zero_before/behind_every_bit take the documented
 number of low bits

Higher bits of the argument leaked into the result.
---
 src/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 01664a1..2a0a95d 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -477,7 +477,7 @@ pub fn add_zero_behind_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 4 bits of `val` and adds a zero before every bit.
 /// For example `0b1101` becomes `0b01_01_00_01`
 pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
-    let mut ret = val;
+    let mut ret = val & 0b1111;
     ret = (ret | (ret << 2)) & 0b00110011;
     ret = (ret | (ret << 1)) & 0b01010101;
     ret
@@ -486,7 +486,7 @@ pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 8 bits of `val` and adds a zero before every bit. This is the `u16` version of
 /// `add_zero_before_every_bit_u8`
 pub fn add_zero_before_every_bit_u16(val: u16) -> u16 {
-    let mut ret = val;
+    let mut ret = val & 0b11111111;
     ret = (ret | (ret << 4)) & 0b00001111_00001111;
     ret = (ret | (ret << 2)) & 0b00110011_00110011;
     ret = (ret | (ret << 1)) & 0b01010101_01010101;
-- 
2.43.0


From edc77a0b69fe22ca0d26a6c3f298c46ebfa80752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 8/9] fix: align_to does not overflow if the aligned value is
 representable

---
 src/align.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/align.rs b/src/align.rs
index 003a358..53c80d0 100644
--- a/src/align.rs
+++ b/src/align.rs
@@ -9,7 +9,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -19,7 +22,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -29,7 +35,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -39,7 +48,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -49,7 +61,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -59,7 +74,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 9320ed2ad0971b33fcbfa3ef9dc95d5123b75bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 9/9] fix: Vec<u8> bit access gives the same result on big
 endian machines

set_bits and set_bits_from_usize read the new value in native byte order, so dynamic indices
lost cells on big endian machines.
---
 src/number.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 2a0a95d..825f8df 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -290,7 +290,8 @@ unsafe fn set_vec_u8_bits(vec: &mut Vec<u8>, bit_range: Range<usize>, new_value:
                 new_value[new_val_byte_idx].get_bits(dst_start_in_byte..dst_end_in_byte)
             } else {
                 let ptr = new_value.as_ptr().add(new_val_byte_idx) as *const u16;
-                let two_bytes = ptr.read_unaligned();
+                // The bytes of new_value are in little endian order
+                let two_bytes = u16::from_le(ptr.read_unaligned());
                 let start_bit_in_two_bytes = new_val_start_bit - (new_val_byte_idx * 8);
                 let end_bit_in_two_bytes = new_val_end_bit - (new_val_byte_idx * 8);
                 two_bytes.get_bits(start_bit_in_two_bytes..end_bit_in_two_bytes) as u8
@@ -445,8 +446,8 @@ impl Bits for Vec<u8> {
     }
 
     unsafe fn set_bits_from_usize(&mut self, bit_range: Range<usize>, new_value: usize) {
-        let bytes = bytemuck::bytes_of(&new_value);
-        set_vec_u8_bits(self, bit_range, bytes);
+        let bytes = new_value.to_le_bytes();
+        set_vec_u8_bits(self, bit_range, &bytes);
     }
 
     fn size(&self) -> usize {
-- 
2.43.0

