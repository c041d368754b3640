From f09cf84caf1d8e105632dcab8133e29f94b8c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 01/36] fix: size of string array elements counts bytes as bits

---
 crates/zserio/src/ztype/array_traits/string_array_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index c6634a6..493b4c6 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -19,7 +19,7 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &String) -> Result<u64> {
-        Ok(value.len() as u64 + varsize_bitsize(value.len() as u32)? as u64)
+        Ok(value.len() as u64 * 8 + varsize_bitsize(value.len() as u32)? as u64)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &String) -> Result<u64> {
-- 
2.43.0


From a8659cc3f654d6f701e71510fbc58eb86e04a9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 02/36] fix: truncated strings, externs and delta descriptors
 are errors, not panics

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 11 +++++------
 crates/zserio/src/ztype/extern_type.rs                |  4 +---
 crates/zserio/src/ztype/string_decode.rs              |  2 +-
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 1dfce53..ff63642 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -95,7 +95,7 @@ impl DeltaContext {
     ) -> Result<()> {
         if !self.processing_started {
             self.processing_started = true;
-            self.read_descriptor(reader);
+            self.read_descriptor(reader)?;
             return self.read_unpacked(array_traits, reader, value);
         }
         if !self.is_packed {
@@ -162,14 +162,13 @@ impl DeltaContext {
         1
     }
 
-    fn read_descriptor(&mut self, reader: &mut BitReader) {
-        self.is_packed = reader
-            .read_bool()
-            .expect("failed to read if the context is packed");
+    fn read_descriptor(&mut self, reader: &mut BitReader) -> Result<()> {
+        self.is_packed = reader.read_bool()?;
         if self.is_packed {
             // read how many bits are used for the delta encoding of each element
-            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS).unwrap() as u8;
+            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS)? as u8;
         }
+        Ok(())
     }
 
     fn read_unpacked<T>(
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index d04ac91..3bc38f2 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -40,9 +40,7 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
     let mut extern_bytes = read_bytes(bit_reader, num_of_full_bytes)?;
     if remaining_bits != 0 {
-        let mut last_byte = bit_reader
-            .read_u8(remaining_bits)
-            .expect("failed to read last bits");
+        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
         let bit_shift = 8 - remaining_bits;
         last_byte <<= bit_shift;
         extern_bytes.push(last_byte);
diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index 438d3a0..e35ab45 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -7,7 +7,7 @@ use crate::ztype::varuint_decode::read_varsize;
 
 pub fn read_string(reader: &mut BitReader) -> Result<String> {
     // zserio first writes the string length as a varsize uint
-    let str_len = read_varsize(reader).map(|v| v as usize).unwrap();
+    let str_len = read_varsize(reader)? as usize;
 
     if reader.remaining() < (str_len as u64 * 8) {
         return Err(ZserioError::IoError(std::io::Error::new(
-- 
2.43.0


From 5026d6a238bdc92cfcb331d20af572cdb40c122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 03/36] fix: delta packing panics on overflow at the ends of
 the 64 bit range

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index ff63642..0168c95 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -103,7 +103,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let delta = read_signed_bits(reader, self.max_bit_number + 1)?;
-            self.previous_element = (self.previous_element as i64 + delta) as u64;
+            self.previous_element = self.previous_element.wrapping_add(delta as u64);
         }
         *value = array_traits.from_u64(self.previous_element);
         Ok(())
@@ -147,7 +147,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let element_as_u64 = array_traits.to_u64(element);
-            let delta = element_as_u64 as i64 - self.previous_element as i64;
+            let delta = element_as_u64.wrapping_sub(self.previous_element) as i64;
             ztype::write_signed_bits(writer, delta, self.max_bit_number + 1)?;
             self.previous_element = element_as_u64;
         }
-- 
2.43.0


From 490a51c2e44b20cfaca0e6f5860ddc6be69bc444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 04/36] fix: packed arrays of signed integers that cross zero
 are not delta packed

---
 crates/zserio/src/ztype/array_traits/array_trait.rs        | 5 +++++
 .../zserio/src/ztype/array_traits/bit_field_array_trait.rs | 4 ++++
 crates/zserio/src/ztype/array_traits/delta_context.rs      | 7 ++++++-
 .../zserio/src/ztype/array_traits/varint16_array_trait.rs  | 4 ++++
 .../zserio/src/ztype/array_traits/varint32_array_trait.rs  | 4 ++++
 .../zserio/src/ztype/array_traits/varint64_array_trait.rs  | 4 ++++
 crates/zserio/src/ztype/array_traits/varint_array_trait.rs | 4 ++++
 7 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/array_traits/array_trait.rs b/crates/zserio/src/ztype/array_traits/array_trait.rs
index 591a719..b566ed1 100644
--- a/crates/zserio/src/ztype/array_traits/array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/array_trait.rs
@@ -16,6 +16,11 @@ pub trait ArrayTrait<T> {
 
     // all functions below are for using packed contexts. They provide a default implementation
     // for array traits using delta contexts.
+    /// Whether to_u64() returns sign-extended values, i.e. deltas must be computed as signed numbers.
+    fn is_signed(&self) -> bool {
+        false
+    }
+
     fn create_context(&self) -> PackingContextNode {
         PackingContextNode {
             children: vec![],
diff --git a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
index efd5a48..84b079a 100644
--- a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
@@ -46,6 +46,10 @@ impl array_trait::ArrayTrait<name> for BitFieldArrayTrait {
         value as name
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &name) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 0168c95..2a87692 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -51,7 +51,12 @@ impl DeltaContext {
             self.first_element_size = self.unpacked_size;
         } else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {
             self.is_packed = true;
-            let delta = self.previous_element.abs_diff(array_trait.to_u64(element));
+            let value = array_trait.to_u64(element);
+            let delta = if array_trait.is_signed() {
+                (self.previous_element as i64).abs_diff(value as i64)
+            } else {
+                self.previous_element.abs_diff(value)
+            };
             let max_bit_number = bit_length(delta);
             if max_bit_number > self.max_bit_number {
                 self.max_bit_number = max_bit_number;
diff --git a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
index 2e9f35f..a7e10ac 100644
--- a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i16> for VarInt16ArrayTrait {
         value as i16
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i16) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
index 84a9fc2..43347b6 100644
--- a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i32> for VarInt32ArrayTrait {
         value as i32
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i32) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
index f9b03c0..75f0c99 100644
--- a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i64> for VarInt64ArrayTrait {
         value as i64
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
index 9d999ba..d2e119a 100644
--- a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i64> for VarIntArrayTrait {
         value as i64
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
-- 
2.43.0


From f272633c380b43e28d3d2659ec4b3263a0994481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 05/36] fix: the minimum value of the variable length integers
 overflows

---
 crates/zserio/src/ztype/varint_bitsize.rs | 10 ++++++----
 crates/zserio/src/ztype/varint_decode.rs  |  5 +++++
 crates/zserio/src/ztype/varint_encode.rs  |  7 +++++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/varint_bitsize.rs b/crates/zserio/src/ztype/varint_bitsize.rs
index bafd68f..f753ced 100644
--- a/crates/zserio/src/ztype/varint_bitsize.rs
+++ b/crates/zserio/src/ztype/varint_bitsize.rs
@@ -16,12 +16,14 @@ pub fn varint_bitsize(v: i64) -> Result<u8> {
     signed_bitsize(v, 9)
 }
 
-pub fn signed_bitsize(mut v: i64, max_bytes: u8) -> Result<u8> {
-    if v < 0 {
-        v = -v
+pub fn signed_bitsize(v: i64, max_bytes: u8) -> Result<u8> {
+    if v == i64::MIN && max_bytes == 9 {
+        // the minimum of varint is encoded as negative zero
+        return Ok(8);
     }
+    let v = v.unsigned_abs();
 
-    let mut max: i64 = (1 << 6) - 1;
+    let mut max: u64 = (1 << 6) - 1;
 
     let mut bytes = 1;
     loop {
diff --git a/crates/zserio/src/ztype/varint_decode.rs b/crates/zserio/src/ztype/varint_decode.rs
index 3dbd4fb..517a36d 100644
--- a/crates/zserio/src/ztype/varint_decode.rs
+++ b/crates/zserio/src/ztype/varint_decode.rs
@@ -14,6 +14,11 @@ pub fn read_varint64(reader: &mut BitReader) -> Result<i64> {
 }
 
 pub fn read_varint(reader: &mut BitReader) -> Result<i64> {
+    // the minimum value is encoded as negative zero
+    if reader.peek_u8(8)? == 0x80 {
+        reader.skip(8)?;
+        return Ok(i64::MIN);
+    }
     read_sized_int(reader, 9)
 }
 
diff --git a/crates/zserio/src/ztype/varint_encode.rs b/crates/zserio/src/ztype/varint_encode.rs
index 8f590de..893c9a1 100644
--- a/crates/zserio/src/ztype/varint_encode.rs
+++ b/crates/zserio/src/ztype/varint_encode.rs
@@ -19,9 +19,12 @@ pub fn write_varint(writer: &mut BitWriter, v: i64) -> Result<()> {
 }
 
 pub fn write_varint_type(writer: &mut BitWriter, v: i64, max_bytes: u8) -> Result<()> {
-    let abs_value = if v < 0 { -v as u64 } else { v as u64 };
-
     let needed_bytes = signed_bitsize(v, max_bytes)? / 8;
+    if v == i64::MIN {
+        // only the 9 byte type contains this value, as negative zero
+        return Ok(writer.write_u8(0x80, 8)?);
+    }
+    let abs_value = v.unsigned_abs();
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From 344a208f674fbcd28cd1e73bc2e65fd16cdaad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 06/36] fix: out of range variable length integers and sizes
 are errors, not panics or truncated

---
 crates/zserio/src/ztype/limits.rs          | 2 ++
 crates/zserio/src/ztype/varuint_bitsize.rs | 4 ++++
 crates/zserio/src/ztype/varuint_decode.rs  | 9 +++++++--
 crates/zserio/src/ztype/varuint_encode.rs  | 8 +++-----
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/zserio/src/ztype/limits.rs b/crates/zserio/src/ztype/limits.rs
index 9b2ecdc..f081a48 100644
--- a/crates/zserio/src/ztype/limits.rs
+++ b/crates/zserio/src/ztype/limits.rs
@@ -31,5 +31,7 @@ pub const MAX_VARUINT32: u32 = (1 << (7 + 7 + 7 + 8)) - 1;
 pub const MIN_VARUINT32: u32 = 0;
 pub const MAX_VARUINT64: u64 = (1 << (7 + 7 + 7 + 7 + 7 + 7 + 7 + 8)) - 1;
 pub const MIN_VARUINT64: u64 = 0;
+pub const MAX_VARSIZE: u32 = (1 << (3 + 7 + 7 + 7 + 7)) - 1;
+pub const MIN_VARSIZE: u32 = 0;
 pub const MAX_VARUINT: u64 = MAX_UINT64;
 pub const MIN_VARUINT: u64 = 0;
diff --git a/crates/zserio/src/ztype/varuint_bitsize.rs b/crates/zserio/src/ztype/varuint_bitsize.rs
index 63f7455..de33527 100644
--- a/crates/zserio/src/ztype/varuint_bitsize.rs
+++ b/crates/zserio/src/ztype/varuint_bitsize.rs
@@ -1,4 +1,5 @@
 use crate::error::{Result, ZserioError};
+use crate::ztype::limits::MAX_VARSIZE;
 
 pub fn varuint16_bitsize(v: u16) -> Result<u8> {
     unsigned_bitsize(v as u64, 2)
@@ -17,6 +18,9 @@ pub fn varuint_bitsize(v: u64) -> Result<u8> {
 }
 
 pub fn varsize_bitsize(v: u32) -> Result<u8> {
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataError("varsize value is too large".into()));
+    }
     unsigned_bitsize(v as u64, 5)
 }
 
diff --git a/crates/zserio/src/ztype/varuint_decode.rs b/crates/zserio/src/ztype/varuint_decode.rs
index e06d1c9..8107964 100644
--- a/crates/zserio/src/ztype/varuint_decode.rs
+++ b/crates/zserio/src/ztype/varuint_decode.rs
@@ -1,8 +1,13 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::limits::MAX_VARSIZE;
 use bitreader::BitReader;
 
 pub fn read_varsize(reader: &mut BitReader) -> Result<u32> {
-    read_sized_uint(reader, 5).map(|v| v as u32)
+    let v = read_sized_uint(reader, 5)?;
+    if v > MAX_VARSIZE as u64 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
+    Ok(v as u32)
 }
 
 pub fn read_varuint16(reader: &mut BitReader) -> Result<u16> {
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index e8d422b..246d7bd 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -1,9 +1,7 @@
 use crate::error::Result;
-use crate::ztype::unsigned_bitsize;
+use crate::ztype::{unsigned_bitsize, varsize_bitsize};
 use rust_bitwriter::BitWriter;
 
-const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
-
 pub fn write_varuint16(writer: &mut BitWriter, v: u16) -> Result<()> {
     write_varuint_type(writer, v as u64, 2)
 }
@@ -22,12 +20,12 @@ pub fn write_varuint(writer: &mut BitWriter, v: u64) -> Result<()> {
 
 // write_varsize writes a zserio varsize value to the bitstream.
 pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
-    assert!(v <= MAX_VARSIZE);
+    varsize_bitsize(v)?;
     write_varuint_type(writer, v as u64, 5)
 }
 
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
-    let needed_bytes = unsigned_bitsize(v, max_bytes).unwrap() / 8;
+    let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From 4efa2e0bf9fb68f16e2edfd6e0e4df7b9ffe9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 07/36] fix: externs and bytes whose size contradicts their
 data are refused

---
 .../src/ztype/array_traits/bit_buffer_array_trait.rs  |  2 +-
 .../src/ztype/array_traits/byte_buffer_array_trait.rs |  2 +-
 crates/zserio/src/ztype/bytes_type.rs                 | 11 ++++++++---
 crates/zserio/src/ztype/extern_type.rs                |  9 +++++++--
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
index cc48a22..a878e3a 100644
--- a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
@@ -17,7 +17,7 @@ impl array_trait::ArrayTrait<ztype::ExternType> for BitBufferArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &ztype::ExternType) -> Result<u64> {
-        Ok(ztype::bitsize_of_extern(value))
+        ztype::bitsize_of_extern(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &ztype::ExternType) -> Result<u64> {
diff --git a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
index 33ed52d..4a8c2e9 100644
--- a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
@@ -17,7 +17,7 @@ impl array_trait::ArrayTrait<ztype::BytesType> for ByteBufferArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &ztype::BytesType) -> Result<u64> {
-        Ok(ztype::bitsize_of_bytes(value))
+        ztype::bitsize_of_bytes(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &ztype::BytesType) -> Result<u64> {
diff --git a/crates/zserio/src/ztype/bytes_type.rs b/crates/zserio/src/ztype/bytes_type.rs
index c7d2b85..ba65f81 100644
--- a/crates/zserio/src/ztype/bytes_type.rs
+++ b/crates/zserio/src/ztype/bytes_type.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::reader::read_bytes;
 use crate::ztype::writer::write_bytes;
 use crate::ztype::{read_varsize, varsize_bitsize, write_varsize};
@@ -22,11 +22,16 @@ pub fn read_bytes_type(bit_reader: &mut BitReader) -> Result<BytesType> {
 
 /// Writes a zserio bytes type to a bitstream.
 pub fn write_bytes_type(bit_writer: &mut BitWriter, bytes_type: &BytesType) -> Result<()> {
+    if bytes_type.data_blob.len() as u64 != bytes_type.byte_size as u64 {
+        return Err(ZserioError::DataError(
+            "byte size does not match the data".into(),
+        ));
+    }
     write_varsize(bit_writer, bytes_type.byte_size)?;
     write_bytes(bit_writer, &bytes_type.data_blob)?;
     Ok(())
 }
 
-pub fn bitsize_of_bytes(bytes_type: &BytesType) -> u64 {
-    varsize_bitsize(bytes_type.byte_size).unwrap() as u64 + (bytes_type.byte_size as u64) * 8
+pub fn bitsize_of_bytes(bytes_type: &BytesType) -> Result<u64> {
+    Ok(varsize_bitsize(bytes_type.byte_size)? as u64 + (bytes_type.byte_size as u64) * 8)
 }
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index 3bc38f2..24eab0c 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -53,6 +53,11 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
 /// Writes a zserio extern type to a bitstream.
 pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -> Result<()> {
+    if extern_type.data_blob.len() as u64 != (extern_type.bit_size as u64).div_ceil(8) {
+        return Err(ZserioError::DataError(
+            "bit size of the extern does not match its data".into(),
+        ));
+    }
     write_varsize(bit_writer, extern_type.bit_size)?;
     let num_of_full_bytes = (extern_type.bit_size / 8) as usize;
     let remaining_bits = (extern_type.bit_size % 8) as u8;
@@ -72,6 +77,6 @@ pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -
     Ok(())
 }
 
-pub fn bitsize_of_extern(extern_type: &ExternType) -> u64 {
-    varsize_bitsize(extern_type.bit_size).unwrap() as u64 + (extern_type.bit_size as u64)
+pub fn bitsize_of_extern(extern_type: &ExternType) -> Result<u64> {
+    Ok(varsize_bitsize(extern_type.bit_size)? as u64 + (extern_type.bit_size as u64))
 }
-- 
2.43.0


From fe51a6ce6be61ea6c94a66b35f1a9c869058f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 08/36] fix: lengths of 2^32 and more are truncated

---
 crates/zserio/src/ztype/array.rs                  | 12 ++++++++----
 .../src/ztype/array_traits/string_array_trait.rs  |  4 ++--
 crates/zserio/src/ztype/string_encode.rs          | 15 +++++++++++----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/zserio/src/ztype/array.rs b/crates/zserio/src/ztype/array.rs
index f9de41c..3edbf9e 100644
--- a/crates/zserio/src/ztype/array.rs
+++ b/crates/zserio/src/ztype/array.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::array_traits::array_trait::ArrayTrait;
 use crate::ztype::read_varsize;
 use crate::ztype::varsize_bitsize;
@@ -60,7 +60,7 @@ impl<T> Array<T> {
             assert_eq!(expected_array_len, data.len());
         } else {
             // for auto arrays, write the length of the array
-            write_varsize(writer, data.len() as u32)?;
+            write_varsize(writer, array_length(data.len())?)?;
         }
 
         if data.is_empty() {
@@ -171,7 +171,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(array_length(data.len())?)? as u64;
         }
         if !data.is_empty() {
             if self.is_packed {
@@ -222,7 +222,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(array_length(data.len())?)? as u64;
         }
         if !data.is_empty() {
             let mut packing_context_node = self.array_trait.create_context();
@@ -245,6 +245,10 @@ impl<T> Array<T> {
     }
 }
 
+fn array_length(length: usize) -> Result<u32> {
+    length.try_into().or(Err(ZserioError::DataDoesNotFit))
+}
+
 fn align_array_element_writer<T: OffsetTrait>(
     writer: &mut BitWriter,
     _index: usize,
diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index 493b4c6..dd74c6b 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -1,8 +1,8 @@
 use crate::error::Result;
 use crate::ztype::array_traits::array_trait;
 use crate::ztype::array_traits::packing_context_node::PackingContextNode;
+use crate::ztype::bitsize_string;
 use crate::ztype::read_string;
-use crate::ztype::varsize_bitsize;
 use crate::ztype::write_string;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
@@ -19,7 +19,7 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &String) -> Result<u64> {
-        Ok(value.len() as u64 * 8 + varsize_bitsize(value.len() as u32)? as u64)
+        bitsize_string(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &String) -> Result<u64> {
diff --git a/crates/zserio/src/ztype/string_encode.rs b/crates/zserio/src/ztype/string_encode.rs
index 65b3346..35fee51 100644
--- a/crates/zserio/src/ztype/string_encode.rs
+++ b/crates/zserio/src/ztype/string_encode.rs
@@ -1,14 +1,20 @@
 use rust_bitwriter::BitWriter;
 
-use crate::error::Result;
-use crate::ztype::unsigned_bitsize;
+use crate::error::{Result, ZserioError};
+use crate::ztype::varsize_bitsize;
 
 use super::varuint_encode::write_varsize;
 
 pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
     let string_bytes = s.as_bytes();
 
-    write_varsize(writer, string_bytes.len() as u32)?;
+    write_varsize(
+        writer,
+        string_bytes
+            .len()
+            .try_into()
+            .or(Err(ZserioError::DataDoesNotFit))?,
+    )?;
 
     for string_byte in string_bytes {
         writer.write_u8(*string_byte, 8)?;
@@ -17,6 +23,7 @@ pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
 }
 
 pub fn bitsize_string(s: &str) -> Result<u64> {
-    let header_size = unsigned_bitsize(s.len() as u64, 5)? as u64;
+    let length = s.len().try_into().or(Err(ZserioError::DataDoesNotFit))?;
+    let header_size = varsize_bitsize(length)? as u64;
     Ok(header_size + (s.len() * 8) as u64)
 }
-- 
2.43.0


From a4ff826a4423b78a82c13c5690698c72b5f54516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 09/36] fix: sizes of extern and bytes fields lack the length
 header

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7771ade..e61b6cb 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -41,10 +41,13 @@ pub fn bitsize_type_reference(
                 field_name
             ));
         } else if type_reference.name == "extern" {
-            function.line(format!("end_position += {}.bit_size as u64;", field_name));
+            function.line(format!(
+                "end_position += ztype::bitsize_of_extern(&{})?;",
+                field_name
+            ));
         } else if type_reference.name == "bytes" {
             function.line(format!(
-                "end_position += ({}.byte_size as u64) * 8;",
+                "end_position += ztype::bitsize_of_bytes(&{})?;",
                 field_name
             ));
         } else if type_reference.name == "bool" {
-- 
2.43.0


From facacdb2df112bb99d052973af9bba3dbe3afd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 10/36] fix: sizes of out of range values panic instead of
 being an error

---
 .../src/internal/generator/bitsize.rs         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index e61b6cb..7792dae 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -23,13 +23,13 @@ pub fn bitsize_type_reference(
         if packed {
             // Use packed bitsize
             function.line(format!(
-                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position).unwrap();",
+                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position)?;",
                 field_name,
                 field_index,
             ));
         } else {
             function.line(format!(
-                "end_position += {}.zserio_bitsize(end_position).unwrap();",
+                "end_position += {}.zserio_bitsize(end_position)?;",
                 field_name
             ));
         }
@@ -37,7 +37,7 @@ pub fn bitsize_type_reference(
         if type_reference.name == "string" {
             // string types
             function.line(format!(
-                "end_position += ztype::bitsize_string({}.as_str()).unwrap();",
+                "end_position += ztype::bitsize_string({}.as_str())?;",
                 field_name
             ));
         } else if type_reference.name == "extern" {
@@ -77,31 +77,31 @@ pub fn bitsize_type_reference(
                 "float32" => String::from("32"),
                 "float64" => String::from("64"),
                 "varint" => {
-                    format!("ztype::varint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint_bitsize({})? as u64", field_name)
                 }
                 "varint16" => {
-                    format!("ztype::varint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint16_bitsize({})? as u64", field_name)
                 }
                 "varint32" => {
-                    format!("ztype::varint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint32_bitsize({})? as u64", field_name)
                 }
                 "varint64" => {
-                    format!("ztype::varint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint64_bitsize({})? as u64", field_name)
                 }
                 "varuint" => {
-                    format!("ztype::varuint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint_bitsize({})? as u64", field_name)
                 }
                 "varuint16" => {
-                    format!("ztype::varuint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint16_bitsize({})? as u64", field_name)
                 }
                 "varuint32" => {
-                    format!("ztype::varuint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint32_bitsize({})? as u64", field_name)
                 }
                 "varuint64" => {
-                    format!("ztype::varuint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint64_bitsize({})? as u64", field_name)
                 }
                 "varsize" => {
-                    format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varsize_bitsize({})? as u64", field_name)
                 }
                 "int" | "bit" => {
                     format!("{} as u64", type_reference.bits)
-- 
2.43.0


From ae86ab72f474c3307ea5adc0d8001d67ba18f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 11/36] fix: sizes of packed bit fields ignore the packing

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7792dae..ee6a0b9 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -53,8 +53,6 @@ pub fn bitsize_type_reference(
         } else if type_reference.name == "bool" {
             // boolean
             function.line("end_position += 1;");
-        } else if type_reference.bits != 0 {
-            function.line(format!("end_position += {};", type_reference.bits));
         } else if packed {
             // packed bitsize
             function.line(format!(
@@ -63,6 +61,8 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if type_reference.bits != 0 {
+            function.line(format!("end_position += {};", type_reference.bits));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
-- 
2.43.0


From b05a8f33330cca21d23f0b892ea9c3d30464e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 12/36] fix: sizes of bit fields of dynamic width are counted
 as zero

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index ee6a0b9..73c1d8f 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -63,6 +63,11 @@ pub fn bitsize_type_reference(
             ));
         } else if type_reference.bits != 0 {
             function.line(format!("end_position += {};", type_reference.bits));
+        } else if let Some(bit_length_expression) = &type_reference.length_expression {
+            function.line(format!(
+                "end_position += ({}) as u64;",
+                generate_expression(&bit_length_expression.borrow(), type_generator, scope)
+            ));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
-- 
2.43.0


From afcf480b4f252e2cb61304bcb97e5113cfebb194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 13/36] fix: unknown union selectors panic instead of being an
 error

---
 .../zserio-rs-build/src/internal/generator/zunion.rs  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 723482e..0ebfb18 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -70,18 +70,21 @@ pub fn generate_union(
     let union_selector_impl_gen_scope = codegen_scope.new_impl(&selector_type_name);
     let union_selector_from_fn_scope = union_selector_impl_gen_scope.new_fn("from_u32");
     union_selector_from_fn_scope.arg("value", "u32");
-    union_selector_from_fn_scope.ret(&selector_type_name);
+    union_selector_from_fn_scope.ret(format!("Result<{selector_type_name}>"));
     union_selector_from_fn_scope.vis("pub");
     union_selector_from_fn_scope.line("match value {");
     for (field_index, field) in zunion.fields.iter().enumerate() {
         let selector_union_name = convert_to_union_selector_name(&field.borrow().name);
         union_selector_from_fn_scope.line(format!(
-            "{} => {}::{},",
+            "{} => Ok({}::{}),",
             field_index, selector_type_name, selector_union_name
         ));
     }
 
-    union_selector_from_fn_scope.line("_ => panic!(\"unsupported value\"),");
+    union_selector_from_fn_scope.line(format!(
+        "_ => Err(zserio::ZserioError::DataError(format!(\"unexpected selector for {}: {{}}\", value))),",
+        rust_type_name
+    ));
     union_selector_from_fn_scope.line("}");
 
     // generate the union itself
@@ -206,7 +209,7 @@ fn generate_zserio_read(
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
     zserio_read_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
+        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?)?;",
         rust_type_name
     ));
 
-- 
2.43.0


From 1f190ec2e73d2ffc89409f7b96722e3e89b0de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 14/36] fix: unions in packed arrays have no packing contexts
 and lose their selector

---
 .../src/internal/generator/zunion.rs          | 48 +++++++++++++++++--
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 0ebfb18..83e4baa 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -5,13 +5,19 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
+    packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
 use codegen::{Function, Scope, Struct};
 
 use std::path::Path;
 
+// The delta context of the union selector, and its array trait, as used in packed arrays.
+const SELECTOR_CONTEXT: &str = "context_node.children[0].context.as_mut().unwrap()";
+const SELECTOR_ARRAY_TRAIT: &str = "ztype::array_traits::VarSizeArrayTrait{}";
+
 pub fn generate_struct_member_for_field(
     type_generator: &mut TypeGenerator,
     gen_struct: &mut Struct,
@@ -130,11 +136,31 @@ pub fn generate_union(
     // Generate the packed contexts.
     let create_packing_context_fn = union_impl.new_fn("zserio_create_packing_context");
     create_packing_context_fn.arg("context_node", "&mut PackingContextNode");
+    // The first child is the context of the selector, followed by those of the fields.
+    create_packing_context_fn.line("context_node.children.push(PackingContextNode { children: vec![], context: Some(DeltaContext::new()), });");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        let field_details =
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
+        generate_packed_context_for_field(create_packing_context_fn, &field_details);
+    }
 
     let init_packing_context_fn = union_impl.new_fn("zserio_init_packing_context");
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
+    init_packing_context_fn.line(format!(
+        "{SELECTOR_CONTEXT}.init(&{SELECTOR_ARRAY_TRAIT}, &(self.union_selector as u32))?;"
+    ));
+    generate_union_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zunion,
+        true,
+        &|scope, type_generator, function, field_details, _packed| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field_details)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -169,14 +195,14 @@ pub fn generate_union_match_construct(
     let selector_type_name = format!("{}Selector", &rust_type_name);
 
     code_gen_fn.line("match &self.union_selector {");
-    for (context_node_index, field) in zunion.fields.iter().enumerate() {
+    for (field_index, field) in zunion.fields.iter().enumerate() {
         code_gen_fn.line(format!(
             "{}::{} => {{",
             selector_type_name,
             convert_to_union_selector_name(&field.borrow().name)
         ));
         let field_details =
-            FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
         instantiate_zserio_array(
             symbol_scope,
             type_generator,
@@ -228,6 +254,14 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    zserio_read_packed_fn.line("let mut selector: u32 = 0;");
+    zserio_read_packed_fn.line(format!(
+        "{SELECTOR_CONTEXT}.read(&{SELECTOR_ARRAY_TRAIT}, reader, &mut selector)?;"
+    ));
+    zserio_read_packed_fn.line(format!(
+        "self.union_selector = {}Selector::from_u32(selector)?;",
+        rust_type_name
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -265,8 +299,9 @@ fn generate_zserio_write(
     zserio_write_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_write_packed_fn.arg("writer", "&mut BitWriter");
     zserio_write_packed_fn.ret("Result<()>");
-    zserio_write_packed_fn
-        .line("ztype::write_varsize(writer, self.union_selector as u32)?;".to_string());
+    zserio_write_packed_fn.line(format!(
+        "{SELECTOR_CONTEXT}.write(&{SELECTOR_ARRAY_TRAIT}, writer, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -306,6 +341,9 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("context_node", "&mut PackingContextNode");
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
+    bitsize_packed_fn.line(format!(
+        "end_position += {SELECTOR_CONTEXT}.bitsize_of(&{SELECTOR_ARRAY_TRAIT}, end_position, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
-- 
2.43.0


From f161cf0336f9c4b51f9890fc453f201d00fb7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 15/36] fix: choices with a default field do not compile and
 unselected fields enter packing contexts

---
 .../src/internal/generator/zchoice.rs         | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 826b178..9ca7a9a 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -101,14 +101,16 @@ pub fn generate_choice(
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
-    for field in &field_details {
-        generate_init_packed_context_for_field(
-            symbol_scope,
-            type_generator,
-            init_packing_context_fn,
-            field,
-        );
-    }
+    generate_choice_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zchoice,
+        true,
+        &|scope, type_generator, function, field_details, _packed| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field_details)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -180,7 +182,7 @@ pub fn generate_choice_match_construct(
         code_gen_fn.line("},");
     }
     if let Some(default_case) = &zchoice.default_case {
-        code_gen_fn.line("_ => (");
+        code_gen_fn.line("_ => {");
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
@@ -189,7 +191,7 @@ pub fn generate_choice_match_construct(
                 type_generator,
                 code_gen_fn,
                 &field.borrow(),
-                false,
+                packed,
                 default_field.is_packable,
             );
             f(
@@ -200,7 +202,7 @@ pub fn generate_choice_match_construct(
                 packed,
             );
         }
-        code_gen_fn.line("),");
+        code_gen_fn.line("},");
     } else {
         code_gen_fn.line("_ => (),");
     }
-- 
2.43.0


From a4d5e4baa1f486128620294b69669385d243bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 16/36] fix: choices accept selector values without a case

---
 crates/zserio-rs-build/src/internal/generator/zchoice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 9ca7a9a..514d9df 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -204,7 +204,10 @@ pub fn generate_choice_match_construct(
         }
         code_gen_fn.line("},");
     } else {
-        code_gen_fn.line("_ => (),");
+        code_gen_fn.line(format!(
+            "_ => return Err(zserio::ZserioError::DataError(String::from(\"no matching case in choice {}\"))),",
+            zchoice.name
+        ));
     }
     code_gen_fn.line("}");
 }
-- 
2.43.0


From e1de2ae44ca0874e3632ffaf10bd64bae771ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 17/36] fix: optional fields keep their old value when an
 object is reused for decoding

---
 crates/zserio-rs-build/src/internal/generator/decode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a74477d..f736e4c 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -438,7 +438,12 @@ pub fn decode_field(
             "self.{} = Option::from(optional_value);",
             TypeGenerator::convert_field_name(&field.name)
         ));
-        function.line("}"); // close the "if present {"
+        function.line("} else {"); // close the "if present {"
+        function.line(format!(
+            "self.{} = None;",
+            TypeGenerator::convert_field_name(&field.name)
+        ));
+        function.line("}");
     }
 
     function.line("}");
-- 
2.43.0


From b9d23565f2379b5c9f5d61d576637d1817f68519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 18/36] fix: packed arrays of strings, bools, floats, externs
 and bytes are delta packed

---
 .../src/internal/generator/packed_contexts.rs             | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs b/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
index 75ed0e8..e768adf 100644
--- a/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
+++ b/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
@@ -37,12 +37,11 @@ impl FieldDetails {
 
         // confirm if the field can be packed. even in packed mode, some fields
         // may not use packing, for example if they are offset fields.
-        // arrays can always be packed.
+        // arrays can be packed if their elements can.
         let is_packable = is_delta_packable(
             symbol_scope,
             field.field_type.as_ref(),
             field.is_offset_field,
-            field.array.is_some(),
         );
         FieldDetails {
             field: field_rc.clone(),
@@ -74,15 +73,10 @@ pub fn is_delta_packable(
     model_scope: &ModelScope,
     zserio_type: &TypeReference,
     is_offset_field: bool,
-    is_array: bool,
 ) -> bool {
     if is_offset_field {
         return false;
     }
-    if is_array {
-        // arrays can always be packed, unless overridden by being used as offsets.
-        return true;
-    }
     let fundamental_type = get_fundamental_type(zserio_type, model_scope);
     if fundamental_type.fundamental_type.is_builtin {
         return matches!(
-- 
2.43.0


From d166379ee2febb8af0398eb9d7d55bcb9f788639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 19/36] fix: fields and declarations named like rust keywords
 generate code that does not parse

---
 .../src/internal/generator/types.rs           | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/types.rs b/crates/zserio-rs-build/src/internal/generator/types.rs
index a1fca93..6c1634e 100644
--- a/crates/zserio-rs-build/src/internal/generator/types.rs
+++ b/crates/zserio-rs-build/src/internal/generator/types.rs
@@ -24,7 +24,7 @@ impl TypeGenerator {
     }
 
     pub fn convert_field_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_rust_snake_case_name(name)
     }
 
     pub fn ztype_to_rust_type(&mut self, ztype: &TypeReference) -> String {
@@ -51,7 +51,7 @@ impl TypeGenerator {
     }
 
     pub fn to_rust_module_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_rust_snake_case_name(name)
     }
 
     pub fn to_rust_type_name(name: &str) -> String {
@@ -85,6 +85,20 @@ fn remove_reserved_identifier(name: &str) -> &str {
     }
 }
 
+/// Converts a name to snake case, staying clear of the keywords of the rust language.
+fn to_rust_snake_case_name(name: &str) -> String {
+    let rust_name = remove_reserved_identifier(name).to_snake_case_with_nums_as_word();
+    match rust_name.as_str() {
+        "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
+        | "continue" | "crate" | "do" | "dyn" | "else" | "enum" | "extern" | "false" | "final"
+        | "fn" | "for" | "gen" | "if" | "impl" | "in" | "let" | "loop" | "macro" | "match"
+        | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return" | "static"
+        | "super" | "trait" | "true" | "try" | "typeof" | "unsafe" | "unsized" | "use"
+        | "virtual" | "where" | "while" | "yield" => format!("z_{rust_name}"),
+        _ => rust_name,
+    }
+}
+
 /// Translates a zserio name to a rust constant name.
 pub fn to_rust_constant_name(name: &str) -> String {
     remove_reserved_identifier(name).to_ascii_uppercase()
@@ -100,7 +114,7 @@ pub fn convert_to_union_selector_name(field_name: &str) -> String {
 
 pub fn convert_to_function_name(name: &str) -> String {
     // Converts a function name from zserio style to rust style (snake case).
-    remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+    to_rust_snake_case_name(name)
 }
 
 pub fn zserio_to_rust_type(name: &str) -> Result<String, &'static str> {
-- 
2.43.0


From f7281c8566d3c3508a7a3f3faa3e1e41ba70daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 20/36] fix: expressions are evaluated and typed by the rules
 of the schema language

Integer expressions are computed without truncation, literals of every base,
float and string literals are read as written, enum and bitmask items resolve
to their values wherever they are used, and generated expressions keep the
precedence and the value range of the schema.
---
 .../ast/evaluate_mixing_native_types.rs       |   7 +
 .../src/internal/ast/expression.rs            | 201 ++++++++----
 .../src/internal/ast/zbitmask.rs              |  13 +-
 .../src/internal/ast/zchoice.rs               | 102 +++---
 .../src/internal/ast/zconst.rs                |   2 +-
 .../zserio-rs-build/src/internal/ast/zenum.rs |  44 ++-
 .../src/internal/generator/casts.rs           |  36 +-
 .../src/internal/generator/decode.rs          |  90 ++---
 .../src/internal/generator/encode.rs          |  34 +-
 .../src/internal/generator/expression.rs      | 308 +++++++++++-------
 .../src/internal/generator/function.rs        |  33 +-
 .../src/internal/generator/zbitmask.rs        |  25 +-
 .../src/internal/generator/zchoice.rs         |  23 +-
 .../src/internal/generator/zconst.rs          |  22 +-
 .../src/internal/generator/zenum.rs           |  61 ++--
 crates/zserio-rs-build/src/internal/model.rs  |  38 ++-
 .../zserio-rs-build/src/internal/visitor.rs   |  62 +++-
 17 files changed, 655 insertions(+), 446 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index ddd2e72..39afcd7 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -48,6 +48,9 @@ fn get_integer_rank(integer_type: &TypeReference) -> u8 {
         "uint8" => 8,
         "uint16" => 16,
         "uint32" => 32,
+        "uint64" => 64,
+        "bit" => 64,
+        "int" => 64,
         "varuint16" => 15,
         "varuint32" => 29,
         "varuint64" => 57,
@@ -67,9 +70,12 @@ pub fn is_signed(int_type_name: &str) -> bool {
         "varint32" => true,
         "varint64" => true,
         "varint" => true,
+        "int" => true,
         "uint8" => false,
         "uint16" => false,
         "uint32" => false,
+        "uint64" => false,
+        "bit" => false,
         "varuint16" => false,
         "varuint32" => false,
         "varuint64" => false,
@@ -85,6 +91,7 @@ pub fn convert_to_unsigned(int_type_name: &str) -> String {
         "int16" => "uint16".into(),
         "int32" => "uint32".into(),
         "int64" => "uint64".into(),
+        "int" => "bit".into(),
         "varint16" => "varuint16".into(),
         "varint32" => "varuint32".into(),
         "varint64" => "varuint64".into(),
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 49933ba..22b4922 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -14,9 +14,9 @@ use crate::internal::parser::gen::zserioparser::{
 use std::cell::RefCell;
 use std::rc::Rc;
 use std::string::String;
-use zserio::numbits;
 
 use super::type_reference::TypeReference;
+use super::zconst::ZConst;
 use super::zfunction::ZFunction;
 
 #[derive(Clone, PartialEq, Debug)]
@@ -27,7 +27,7 @@ pub enum ExpressionFlag {
 
 #[derive(Clone, Debug)]
 pub enum ExpressionType {
-    Integer(i32),
+    Integer(i128),
     Float(f64),
     String(String),
     Bool(bool),
@@ -106,7 +106,7 @@ impl Expression {
             DOT => self.evaluate_dot_expression(scope),
             ISSET => self.evaluate_isset_expression(),
             LENGTHOF => self.evaluate_lengthof_operator(),
-            VALUEOF => self.evaluate_valueof_operator(),
+            VALUEOF => self.evaluate_valueof_operator(scope),
             NUMBITS => self.evaluate_numbits_operator(),
             EQ | GE | GT | LE | LT | NE => self.evaluate_comparison_expression(),
             PLUS | MINUS | MULTIPLY | DIVIDE | MODULO => self.evaluate_arithmetic_expression(),
@@ -129,6 +129,7 @@ impl Expression {
                 // just pass through the expression content
                 self.result_type.clone_from(&op1.result_type);
                 self.native_type.clone_from(&op1.native_type);
+                self.symbol.clone_from(&op1.symbol);
             }
             _ => panic!("paranthesized expression requries one operator"),
         }
@@ -157,11 +158,11 @@ impl Expression {
     fn evaluate_array_element(&mut self, _scope: &mut ModelScope) {
         match &self.operand1 {
             Some(op1) => {
-                match &op1.result_type {
-                    ExpressionType::Compound => {}
-                    ExpressionType::Integer(_) => {} // for @index expressions in offset
-                    _ => panic!("unexpected array expression index type"),
-                }
+                // The element has the type of the array field.
+                self.result_type.clone_from(&op1.result_type);
+                self.native_type.clone_from(&op1.native_type);
+                self.symbol.clone_from(&op1.symbol);
+                self.fully_resolved = false;
             }
             _ => panic!("array element requires an operand to be set"),
         }
@@ -191,9 +192,15 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match &op1.result_type {
                 ExpressionType::Enum(z_enum) => {
-                    for z_enum_field in &z_enum.as_ref().borrow().items {
+                    for (index, z_enum_field) in z_enum.as_ref().borrow().items.iter().enumerate() {
                         if z_enum_field.name == op2.text {
-                            self.result_type = ExpressionType::Integer(0);
+                            self.result_type = ExpressionType::Enum(z_enum.clone());
+                            self.symbol = Some(SymbolReference {
+                                symbol: Symbol::EnumItem(z_enum.clone(), index),
+                                name: z_enum_field.name.clone(),
+                                package: op1.symbol.as_ref().unwrap().package.clone(),
+                            });
+                            self.fully_resolved = false;
                             return;
                         }
                     }
@@ -215,7 +222,7 @@ impl Expression {
                 ExpressionType::BitMask(z_bitmask) => {
                     for bitmask_value in &z_bitmask.as_ref().borrow().values {
                         if bitmask_value.name == op2.text {
-                            self.result_type = ExpressionType::Integer(0);
+                            self.result_type = ExpressionType::BitMask(z_bitmask.clone());
                             self.fully_resolved = false;
                             return;
                         }
@@ -249,6 +256,7 @@ impl Expression {
                 // compound type (struct or choice).
                 param.as_ref().borrow().zserio_type.clone()
             }
+            Symbol::Function(function) => function.as_ref().borrow().return_type.clone(),
             _ => panic!(
                 "unsupported compound type symbol parameter {:?}",
                 self.operand1.as_ref().unwrap().symbol.as_ref().unwrap()
@@ -289,8 +297,9 @@ impl Expression {
     fn evaluate_isset_expression(&mut self) {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
-                (ExpressionType::BitMask(_), ExpressionType::Integer(_)) => {
+                (ExpressionType::BitMask(_), ExpressionType::BitMask(_)) => {
                     self.result_type = ExpressionType::Bool(false);
+                    self.fully_resolved = false;
                 }
                 _ => panic!(
                     "the isset(bitmask, value_to_check) expression requires two bitmask parameters"
@@ -300,7 +309,7 @@ impl Expression {
         }
     }
 
-    fn evaluate_valueof_operator(&mut self) {
+    fn evaluate_valueof_operator(&mut self, scope: &mut ModelScope) {
         match &self.operand1 {
             Some(op1) => match &op1.result_type {
                 ExpressionType::BitMask(bitmask) => {
@@ -312,6 +321,12 @@ impl Expression {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
                     self.native_type = Some(*zenum.as_ref().borrow().enum_type.clone());
+                    // The value of an enum item is known.
+                    if let Some(SymbolReference { symbol: Symbol::EnumItem(item_enum, index), package, .. }) = &op1.symbol {
+                        let value = item_enum.as_ref().borrow().item_value(*index, package, scope);
+                        self.result_type = ExpressionType::Integer(value);
+                        self.fully_resolved = true;
+                    }
                 },
                 _ => panic!("valueof operator can only be applied to bitmask or enum expressions, but was called for {:?}", op1)
             },
@@ -323,7 +338,8 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value) as i32);
+                    self.result_type =
+                        ExpressionType::Integer(zserio::numbits(value as u64) as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
@@ -342,7 +358,7 @@ impl Expression {
                 match op1.result_type {
                     ExpressionType::Integer(value) => match self.expression_type {
                         PLUS => self.result_type = ExpressionType::Integer(value),
-                        MINUS => self.result_type = ExpressionType::Integer(-value),
+                        MINUS => self.result_type = ExpressionType::Integer(value.wrapping_neg()),
                         _ => panic!("unexpected unary integer expression"),
                     },
                     ExpressionType::Float(value) => match self.expression_type {
@@ -351,15 +367,17 @@ impl Expression {
                         _ => panic!("unexpected unary float expression"),
                     },
                     _ => {
-                        panic!("logical negation expression can only be applied to boolean expressions")
+                        panic!(
+                            "arithmetic sign can only be applied to integer or float expressions"
+                        )
                     }
                 };
             }
-            _ => panic!("logical negation expression requries one operator"),
+            _ => panic!("arithmetic sign requries one operator"),
         }
     }
 
-    fn evaluate_integer_comparison_expression(&mut self, mut value1: i32, mut value2: i32) {
+    fn evaluate_integer_comparison_expression(&mut self, mut value1: i128, mut value2: i128) {
         if !self.operand1.as_ref().unwrap().fully_resolved {
             value1 = 1;
         }
@@ -379,6 +397,18 @@ impl Expression {
         self.native_type = Some(TypeReference::new_native_type("bool"));
     }
 
+    fn evaluate_float_comparison_expression(&mut self, value1: f64, value2: f64) {
+        self.result_type = ExpressionType::Bool(match self.expression_type {
+            EQ => value1 == value2,
+            GE => value1 >= value2,
+            GT => value1 > value2,
+            LE => value1 <= value2,
+            LT => value1 < value2,
+            NE => value1 != value2,
+            _ => panic!("unexpected float comparison"),
+        })
+    }
+
     fn evaluate_comparison_expression(&mut self) {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => {
@@ -391,15 +421,13 @@ impl Expression {
                         self.evaluate_integer_comparison_expression(1, *value2);
                     }
                     (ExpressionType::Float(value1), ExpressionType::Float(value2)) => {
-                        self.result_type = ExpressionType::Bool(match self.expression_type {
-                            EQ => value1 == value2,
-                            GE => value1 >= value2,
-                            GT => value1 > value2,
-                            LE => value1 <= value2,
-                            LT => value1 < value2,
-                            NE => value1 != value2,
-                            _ => panic!("unexpected float comparison"),
-                        })
+                        self.evaluate_float_comparison_expression(*value1, *value2);
+                    }
+                    (ExpressionType::Float(value1), ExpressionType::Integer(value2)) => {
+                        self.evaluate_float_comparison_expression(*value1, *value2 as f64);
+                    }
+                    (ExpressionType::Integer(value1), ExpressionType::Float(value2)) => {
+                        self.evaluate_float_comparison_expression(*value1 as f64, *value2);
                     }
                     (ExpressionType::String(value1), ExpressionType::String(value2)) => {
                         self.result_type = ExpressionType::Bool(match self.expression_type {
@@ -463,14 +491,15 @@ impl Expression {
                         v2 = 1;
                     }
                     let result = match self.expression_type {
-                        PLUS => v1 + v2,
-                        MINUS => v1 - v2,
-                        MULTIPLY => v1 * v2,
-                        DIVIDE => v1 / v2,
-                        MODULO => v1 % v2,
+                        PLUS => v1.checked_add(v2),
+                        MINUS => v1.checked_sub(v2),
+                        MULTIPLY => v1.checked_mul(v2),
+                        DIVIDE => v1.checked_div(v2),
+                        MODULO => v1.checked_rem(v2),
                         _ => panic!("unexpected integer arithmetic expression"),
                     };
-                    self.result_type = ExpressionType::Integer(result);
+                    self.fully_resolved &= result.is_some();
+                    self.result_type = ExpressionType::Integer(result.unwrap_or(0));
                 }
                 // Float arithmetic expressions can be mixed with integer types.
                 // If one operand is a float type, the result will also be a float type.
@@ -528,6 +557,10 @@ impl Expression {
                     self.result_type = ExpressionType::Integer(!value);
                     self.native_type.clone_from(&op1.native_type);
                 }
+                ExpressionType::BitMask(ref bitmask) => {
+                    self.result_type = ExpressionType::BitMask(bitmask.clone());
+                    self.fully_resolved = false;
+                }
                 _ => {
                     panic!("bitwise negation expression can only be applied to integer expressions")
                 }
@@ -540,21 +573,21 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
+                    let shift = u32::try_from(*value2).ok();
                     let result = match self.expression_type {
-                        AND => value1 & value2,
-                        OR => value1 | value2,
-                        XOR => value1 ^ value2,
-                        LSHIFT => value1 << value2,
-                        RSHIFT => value1 >> value2,
+                        AND => Some(value1 & value2),
+                        OR => Some(value1 | value2),
+                        XOR => Some(value1 ^ value2),
+                        LSHIFT => shift.and_then(|bits| value1.checked_shl(bits)),
+                        RSHIFT => shift.and_then(|bits| value1.checked_shr(bits)),
                         _ => panic!("unexpected bitwise expression"),
                     };
-                    self.result_type = ExpressionType::Integer(result);
+                    self.fully_resolved &= result.is_some();
+                    self.result_type = ExpressionType::Integer(result.unwrap_or(0));
                 }
-                (ExpressionType::BitMask(_), ExpressionType::Integer(_))
-                | (ExpressionType::Integer(_), ExpressionType::BitMask(_))
-                | (ExpressionType::BitMask(_), ExpressionType::BitMask(_)) => {
+                (ExpressionType::BitMask(bitmask), _) | (_, ExpressionType::BitMask(bitmask)) => {
                     // For bitmasks, we won't evaluate the values yet.
-                    self.result_type = ExpressionType::Integer(0);
+                    self.result_type = ExpressionType::BitMask(bitmask.clone());
                     self.fully_resolved = false;
                 }
                 _ => {
@@ -586,17 +619,25 @@ impl Expression {
     fn evaluate_ternary_expression(&mut self) {
         match self.operand1.as_ref().unwrap().result_type {
             ExpressionType::Bool(condition) => {
-                if condition {
-                    let op2 = self.operand2.as_ref().unwrap();
-                    self.result_type.clone_from(&op2.result_type);
-                    self.symbol.clone_from(&op2.symbol);
-                    self.fully_resolved = op2.fully_resolved;
-                } else {
-                    let op3 = self.operand3.as_ref().unwrap();
-                    self.result_type.clone_from(&op3.result_type);
-                    self.symbol.clone_from(&op3.symbol);
-                    self.fully_resolved = op3.fully_resolved;
+                let op2 = self.operand2.as_ref().unwrap();
+                let op3 = self.operand3.as_ref().unwrap();
+                let result = if condition { op2 } else { op3 };
+                self.result_type.clone_from(&result.result_type);
+                self.native_type.clone_from(&result.native_type);
+                // If the types are mixed, the result is a float.
+                match (&op2.result_type, &op3.result_type) {
+                    (ExpressionType::Float(_), ExpressionType::Integer(value))
+                    | (ExpressionType::Integer(value), ExpressionType::Float(_)) => {
+                        self.native_type = Some(TypeReference::new_native_type("float64"));
+                        if let ExpressionType::Integer(_) = self.result_type {
+                            self.result_type = ExpressionType::Float(*value as f64);
+                        }
+                    }
+                    _ => (),
                 }
+                self.symbol.clone_from(&result.symbol);
+                self.fully_resolved =
+                    self.operand1.as_ref().unwrap().fully_resolved && result.fully_resolved;
             }
             _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", self.operand1.as_ref().unwrap()),
         }
@@ -619,6 +660,50 @@ impl Expression {
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
+
+        // The values of constants and enum items are known.
+        match &symbol_reference.symbol {
+            Symbol::Const(z_const) => {
+                self.evaluate_constant(&z_const.as_ref().borrow(), &symbol_reference, scope);
+            }
+            Symbol::EnumItem(z_enum, index) => {
+                let value =
+                    z_enum
+                        .as_ref()
+                        .borrow()
+                        .item_value(*index, &symbol_reference.package, scope);
+                self.result_type = ExpressionType::Integer(value);
+                self.fully_resolved = true;
+            }
+            _ => (),
+        }
+    }
+
+    /// Takes over the value of a constant, which may be declared in another package.
+    fn evaluate_constant(
+        &mut self,
+        z_const: &ZConst,
+        symbol_reference: &SymbolReference,
+        scope: &mut ModelScope,
+    ) {
+        scope.scope_stack.push(ScopeLocation {
+            package: symbol_reference.package.clone(),
+            import_symbol: None,
+            symbol_name: Option::from(z_const.name.clone()),
+        });
+        z_const.evaluate(scope);
+        scope.scope_stack.pop();
+
+        let value_expression = z_const.value_expression.as_ref().borrow();
+        if value_expression.fully_resolved {
+            self.result_type = match (&self.result_type, &value_expression.result_type) {
+                (ExpressionType::Float(_), ExpressionType::Integer(value)) => {
+                    ExpressionType::Float(*value as f64)
+                }
+                (_, value) => value.clone(),
+            };
+            self.fully_resolved = true;
+        }
     }
 }
 
@@ -693,7 +778,13 @@ fn type_reference_to_expression_type(
             panic!("failed to determine builtin type reference type");
         }
     } else {
-        // Resolve the symbol recursively, until a fundamental type is found.
-        symbol_to_expression_type(&scope.resolve_symbol(&type_ref.name, true), scope)
+        // Resolve the symbol recursively, until a fundamental type is found. A type that is
+        // already resolved may not be visible in the current package.
+        let symbol_reference = if type_ref.package.is_empty() {
+            scope.resolve_symbol(&type_ref.name, true)
+        } else {
+            scope.get_symbol(type_ref)
+        };
+        symbol_to_expression_type(&symbol_reference, scope)
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 158afeb..bcb0933 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -48,19 +48,14 @@ impl ZBitmaskType {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
                 };
-                if expr_bitmask_value < bitmask_value && expr_bitmask_value != 0 {
-                    panic!("expression redefines bitmask value");
-                }
                 bitmask_value = expr_bitmask_value;
             }
             value.value = bitmask_value;
 
-            // Pick the next bit for the next bitmask value.
-            if bitmask_value == 0 {
-                bitmask_value = 1;
-            } else {
-                bitmask_value <<= 1;
-            }
+            // Pick the next higher unused bit for the next bitmask value.
+            bitmask_value = 1u64
+                .checked_shl(64 - bitmask_value.leading_zeros())
+                .unwrap_or(0);
         }
         self.zserio_type.evaluate(scope);
     }
diff --git a/crates/zserio-rs-build/src/internal/ast/zchoice.rs b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
index d74e0ef..c6b8e54 100644
--- a/crates/zserio-rs-build/src/internal/ast/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
@@ -4,6 +4,7 @@ use crate::internal::ast::expression::{
 use crate::internal::ast::field::Field;
 use crate::internal::ast::parameter::Parameter;
 use crate::internal::ast::zfunction::ZFunction;
+use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::parser::gen::zserioparser::{DOT, ID};
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -74,7 +75,7 @@ impl ZChoice {
         }
     }
 
-    pub fn add_enumeration_type_prefix_to_choice_cases(&mut self) {
+    pub fn add_enumeration_type_prefix_to_choice_cases(&mut self, scope: &ModelScope) {
         // For enumerator parameters, this function will look for choice cases that are not fully
         // described, and replaces them by a dot expression.
         // This is needed to satisfy the zserio rule:
@@ -91,53 +92,68 @@ impl ZChoice {
             return;
         }
 
+        // Only the items of enumerations (and the values of bitmasks) can omit the prefix.
+        let selector_expression = self.selector_expression.as_ref().borrow();
+        let item_names: Vec<String> = match &selector_expression.result_type {
+            ExpressionType::Enum(z_enum) => z_enum
+                .borrow()
+                .items
+                .iter()
+                .map(|item| item.name.clone())
+                .collect(),
+            ExpressionType::BitMask(z_bitmask) => z_bitmask
+                .borrow()
+                .values
+                .iter()
+                .map(|value| value.name.clone())
+                .collect(),
+            _ => return,
+        };
+        let selector_type = match &selector_expression.symbol.as_ref().unwrap().symbol {
+            Symbol::Parameter(param) => param.borrow().zserio_type.clone(),
+            Symbol::Field(field) => field.borrow().field_type.clone(),
+            Symbol::Function(function) => function.borrow().return_type.clone(),
+            _ => return,
+        };
+        let selector_symbol =
+            scope.get_symbol(&get_fundamental_type(&selector_type, scope).fundamental_type);
+
         for case in &mut self.cases {
             for condition in &mut case.conditions.iter_mut() {
                 let mut dot_expression = None;
                 {
                     let condition_expression = condition.as_ref().borrow();
-                    if condition_expression.expression_type == ID {
-                        match &self
-                            .selector_expression
-                            .as_ref()
-                            .borrow()
-                            .symbol
-                            .as_ref()
-                            .unwrap()
-                            .symbol
-                        {
-                            Symbol::Parameter(p) => {
-                                let mut operand2 = Box::from(condition_expression.clone());
-                                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
-
-                                dot_expression = Option::from(Expression {
-                                    expression_type: DOT,
-                                    flag: ExpressionFlag::None,
-                                    operand1: Option::from(Box::new(Expression {
-                                        expression_type: ID,
-                                        text: p.as_ref().borrow().zserio_type.name.clone(),
-                                        flag: ExpressionFlag::None,
-                                        operand1: None,
-                                        operand2: None,
-                                        operand3: None,
-                                        result_type: ExpressionType::Other,
-                                        symbol: None,
-                                        fully_resolved: false,
-                                        evaluation_state: EvaluationState::NotEvaluated,
-                                        native_type: None,
-                                    })),
-                                    operand2: Option::from(operand2),
-                                    operand3: None,
-                                    text: "".into(),
-                                    result_type: ExpressionType::Other,
-                                    symbol: None,
-                                    fully_resolved: false,
-                                    evaluation_state: EvaluationState::NotEvaluated,
-                                    native_type: None,
-                                });
-                            }
-                            _ => panic!("selector expression is not a parameter"),
-                        }
+                    if condition_expression.expression_type == ID
+                        && item_names.contains(&condition_expression.text)
+                    {
+                        let mut operand2 = Box::from(condition_expression.clone());
+                        operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
+
+                        dot_expression = Option::from(Expression {
+                            expression_type: DOT,
+                            flag: ExpressionFlag::None,
+                            operand1: Option::from(Box::new(Expression {
+                                expression_type: ID,
+                                text: selector_symbol.name.clone(),
+                                flag: ExpressionFlag::None,
+                                operand1: None,
+                                operand2: None,
+                                operand3: None,
+                                result_type: selector_expression.result_type.clone(),
+                                symbol: Some(selector_symbol.clone()),
+                                fully_resolved: false,
+                                evaluation_state: EvaluationState::Completed,
+                                native_type: None,
+                            })),
+                            operand2: Option::from(operand2),
+                            operand3: None,
+                            text: "".into(),
+                            result_type: ExpressionType::Other,
+                            symbol: None,
+                            fully_resolved: false,
+                            evaluation_state: EvaluationState::NotEvaluated,
+                            native_type: None,
+                        });
                     }
                 }
                 if let Some(new_dot_expression) = dot_expression {
diff --git a/crates/zserio-rs-build/src/internal/ast/zconst.rs b/crates/zserio-rs-build/src/internal/ast/zconst.rs
index dc5496d..029c21f 100644
--- a/crates/zserio-rs-build/src/internal/ast/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zconst.rs
@@ -14,7 +14,7 @@ pub struct ZConst {
 }
 
 impl ZConst {
-    pub fn evaluate(&mut self, scope: &mut ModelScope) {
+    pub fn evaluate(&self, scope: &mut ModelScope) {
         self.value_expression.as_ref().borrow_mut().evaluate(scope);
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/ast/zenum.rs b/crates/zserio-rs-build/src/internal/ast/zenum.rs
index 872e849..6957a33 100644
--- a/crates/zserio-rs-build/src/internal/ast/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zenum.rs
@@ -1,6 +1,6 @@
-use super::expression::Expression;
+use super::expression::{Expression, ExpressionType};
 use super::type_reference::TypeReference;
-use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::compiler::symbol_scope::{ModelScope, ScopeLocation};
 use crate::internal::compiler::symbol_scope::{PackageScope, Symbol};
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -21,14 +21,48 @@ pub struct ZEnum {
 }
 
 impl ZEnum {
-    pub fn evaluate(&mut self, scope: &mut ModelScope) {
-        for item in &mut self.items {
-            if let Some(item_expression) = &mut item.value {
+    pub fn evaluate(&self, scope: &mut ModelScope) {
+        for item in &self.items {
+            if let Some(item_expression) = &item.value {
                 item_expression.as_ref().borrow_mut().evaluate(scope);
             }
         }
         self.enum_type.evaluate(scope);
     }
+
+    /// The value of an item, of an enum declared in the given package.
+    pub fn item_value(&self, index: usize, package: &str, scope: &mut ModelScope) -> i128 {
+        scope.scope_stack.push(ScopeLocation {
+            package: package.into(),
+            import_symbol: None,
+            symbol_name: Option::from(self.name.clone()),
+        });
+        for item in &self.items[..=index] {
+            if let Some(item_expression) = &item.value {
+                item_expression.as_ref().borrow_mut().evaluate(scope);
+            }
+        }
+        scope.scope_stack.pop();
+        self.item_values(index + 1)[index]
+    }
+
+    /// The values of the first items. Their expressions need to be evaluated before.
+    /// Items without a value have one more than the item before.
+    pub fn item_values(&self, count: usize) -> Vec<i128> {
+        let mut next_value = 0;
+        let mut values = vec![];
+        for item in &self.items[..count] {
+            if let Some(value_expression) = &item.value {
+                next_value = match value_expression.as_ref().borrow().result_type {
+                    ExpressionType::Integer(value) => value,
+                    _ => panic!("only integer value expressions are supported"),
+                };
+            }
+            values.push(next_value);
+            next_value += 1;
+        }
+        values
+    }
 }
 
 pub fn add_enum_to_scope(z_enum: &Rc<RefCell<ZEnum>>, package_scope: &mut PackageScope) {
diff --git a/crates/zserio-rs-build/src/internal/generator/casts.rs b/crates/zserio-rs-build/src/internal/generator/casts.rs
index d13505c..4e634dd 100644
--- a/crates/zserio-rs-build/src/internal/generator/casts.rs
+++ b/crates/zserio-rs-build/src/internal/generator/casts.rs
@@ -1,29 +1,27 @@
 use crate::internal::ast::expression::{Expression, ExpressionType};
 use crate::internal::ast::type_reference::TypeReference;
+use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::types::TypeGenerator;
 
-pub fn requires_cast(
+/// Generates the value of an expression, as a value of the target type.
+pub fn generate_expression_as(
     target_type: &TypeReference,
-    other_type: &TypeReference,
-    type_generator: &mut TypeGenerator,
-) -> bool {
-    let other_rust_type = type_generator.ztype_to_rust_type(other_type);
-    let target_rust_type = type_generator.ztype_to_rust_type(target_type);
-    other_rust_type != target_rust_type
-}
-
-pub fn expression_requires_cast(
-    target_type: &TypeReference,
-    type_generator: &mut TypeGenerator,
     expression: &Expression,
-) -> bool {
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let generated_code = generate_expression(expression, type_generator, scope);
     match &expression.result_type {
-        ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
-            match &expression.native_type {
-                Some(native_type) => requires_cast(target_type, native_type, type_generator),
-                None => false,
-            }
+        ExpressionType::Integer(_) | ExpressionType::Float(_) => format!(
+            "({}) as {}",
+            generated_code,
+            type_generator.ztype_to_rust_type(target_type)
+        ),
+        ExpressionType::String(_) => format!("({}).to_string()", generated_code),
+        ExpressionType::Bool(_) | ExpressionType::Enum(_) | ExpressionType::BitMask(_) => {
+            generated_code
         }
-        _ => false,
+        _ => format!("({}).clone()", generated_code),
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index f736e4c..e46b870 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -1,6 +1,6 @@
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::casts::expression_requires_cast;
+use crate::internal::generator::casts::generate_expression_as;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
@@ -73,19 +73,14 @@ pub fn decode_type(
             if fund_type.bits != 0 || fund_type.length_expression.is_some() {
                 let bit_length_string = match &fund_type.length_expression {
                     Some(bit_length_expression) => {
-                        let mut length_expression_string = generate_expression(
-                            &bit_length_expression.borrow(),
-                            type_generator,
-                            scope,
-                        );
-                        // check if there is a typecast needed
-                        if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                            if native_type.name != "uint8" {
-                                length_expression_string =
-                                    format!("({}) as u8", length_expression_string);
-                            }
-                        }
-                        length_expression_string
+                        format!(
+                            "({}) as u8",
+                            generate_expression(
+                                &bit_length_expression.borrow(),
+                                type_generator,
+                                scope
+                            )
+                        )
                     }
                     None => format!("{}", fund_type.bits),
                 };
@@ -235,27 +230,12 @@ pub fn decode_field(
                 let type_argument = type_argument_rc.borrow();
 
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
-                if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
-                }
-                let mut rvalue = format!(
-                    "{}{}",
-                    generate_expression(&type_argument, type_generator, scope),
-                    requires_cloning
-                );
-
-                if expression_requires_cast(
+                let rvalue = generate_expression_as(
                     &type_parameter.borrow().zserio_type,
-                    type_generator,
                     &type_argument,
-                ) {
-                    rvalue = format!(
-                        "{} as {}",
-                        rvalue,
-                        type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                    );
-                }
+                    type_generator,
+                    scope,
+                );
 
                 function.line(format!(
                     "{}: {},",
@@ -338,26 +318,12 @@ pub fn decode_field(
                     continue;
                 }
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
-                if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
-                }
-                let mut rvalue = format!(
-                    "{}{}",
-                    generate_expression(&type_argument, type_generator, scope),
-                    requires_cloning
-                );
-                if expression_requires_cast(
+                let rvalue = generate_expression_as(
                     &type_parameter.borrow().zserio_type,
-                    type_generator,
                     &type_argument,
-                ) {
-                    rvalue = format!(
-                        "{} as {}",
-                        rvalue,
-                        type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                    );
-                }
+                    type_generator,
+                    scope,
+                );
                 function.line(format!(
                     "{}: {},",
                     TypeGenerator::convert_field_name(&type_parameter.borrow().name),
@@ -383,26 +349,12 @@ pub fn decode_field(
                         continue;
                     }
                     let type_parameter = &type_parameters[param_index];
-                    let mut requires_cloning = String::from("");
-                    if !type_argument.fully_resolved {
-                        requires_cloning = ".clone()".into();
-                    }
-                    let mut rvalue = format!(
-                        "{}{}",
-                        generate_expression(&type_argument, type_generator, scope),
-                        requires_cloning
-                    );
-                    if expression_requires_cast(
+                    let rvalue = generate_expression_as(
                         &type_parameter.borrow().zserio_type,
-                        type_generator,
                         &type_argument,
-                    ) {
-                        rvalue = format!(
-                            "{} as {}",
-                            rvalue,
-                            type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                        );
-                    }
+                        type_generator,
+                        scope,
+                    );
                     function.line(format!(
                         "zs_item.{} = {};",
                         TypeGenerator::convert_field_name(&type_parameter.borrow().name),
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1f9775c..3eadd21 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -2,7 +2,7 @@ use crate::internal::ast::field::Field;
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::initialize_array_trait;
-use crate::internal::generator::casts::expression_requires_cast;
+use crate::internal::generator::casts::generate_expression_as;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
@@ -66,16 +66,10 @@ pub fn encode_type(
         } else if fund_type.bits != 0 || fund_type.length_expression.is_some() {
             let bit_length_string = match &fund_type.length_expression {
                 Some(bit_length_expression) => {
-                    let mut length_expression_string =
-                        generate_expression(&bit_length_expression.borrow(), type_generator, scope);
-                    // check if there is a typecast needed
-                    if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                        if native_type.name != "uint8" {
-                            length_expression_string =
-                                format!("({}) as u8", length_expression_string);
-                        }
-                    }
-                    length_expression_string
+                    format!(
+                        "({}) as u8",
+                        generate_expression(&bit_length_expression.borrow(), type_generator, scope)
+                    )
                 }
                 None => format!("{}", fund_type.bits),
             };
@@ -239,21 +233,15 @@ pub fn encode_field(
             // proper error handling, and reporting the error back to
             // the caller.
 
-            // Check if casts are needed.
-            let mut rvalue = generate_expression(&type_argument, type_generator, scope);
-            if expression_requires_cast(
+            // Convert the value to the type of the parameter.
+            let rvalue = generate_expression_as(
                 &type_parameter.borrow().zserio_type,
-                type_generator,
                 &type_argument,
-            ) {
-                rvalue = format!(
-                    "{} as {}",
-                    rvalue,
-                    type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                );
-            }
+                type_generator,
+                scope,
+            );
             function.line(format!(
-                "assert!({}.{} == {});",
+                "assert!({}.{} == ({}));",
                 &element_name,
                 TypeGenerator::convert_field_name(&type_parameter.borrow().name),
                 rvalue,
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index b46d8c3..2a935d0 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -18,8 +18,8 @@ pub fn generate_boolean_expression(
 ) -> String {
     let generated_code = generate_expression(expression, type_generator, scope);
     match expression.result_type {
-        ExpressionType::BitMask(_) => format!("{} != 0", generated_code),
-        ExpressionType::Integer(_) => format!("{} != 0", generated_code),
+        ExpressionType::BitMask(_) => format!("({}) != 0", generated_code),
+        ExpressionType::Integer(_) => format!("({}) != 0", generated_code),
         _ => generated_code,
     }
 }
@@ -68,22 +68,108 @@ pub fn generate_expression(
     }
 }
 
-fn generate_unary_arithmetic_expression(
+/// Generates an expression that is an operand of another one.
+///
+/// Integers are calculated with 128 bits and floats with 64 bits, so that operands of different
+/// types can be mixed and intermediate results do not overflow. Operations are parenthesized,
+/// because the operator precedences of zserio and rust differ.
+fn generate_operand(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    format!(
-        "{}{}",
-        match expression.expression_type {
-            PLUS => "+",
-            MINUS => "-",
-            _ => panic!("unexpected unary arithmetic expression operator"),
-        },
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+    if expression.expression_type == LPAREN {
+        return generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope);
+    }
+    match &expression.result_type {
+        ExpressionType::Integer(_) => {
+            generate_operand_of_type(expression, "i128", type_generator, scope)
+        }
+        ExpressionType::Float(_) => {
+            generate_operand_of_type(expression, "f64", type_generator, scope)
+        }
+        _ if is_operation(expression) => {
+            format!(
+                "({})",
+                generate_expression(expression, type_generator, scope)
+            )
+        }
+        _ => generate_expression(expression, type_generator, scope),
+    }
+}
+
+/// Generates an operand of a numeric expression, converted to the type it is calculated with.
+fn generate_operand_of_type(
+    expression: &Expression,
+    rust_type: &str,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    if expression.expression_type == LPAREN {
+        return generate_operand_of_type(
+            expression.operand1.as_ref().unwrap(),
+            rust_type,
+            type_generator,
+            scope,
+        );
+    }
+    let expression_rust_type = match &expression.result_type {
+        ExpressionType::Integer(_) => "i128",
+        _ => "f64",
+    };
+    let generated_code = generate_expression(expression, type_generator, scope);
+    if expression_rust_type == rust_type && is_operation(expression) {
+        return format!("({})", generated_code);
+    }
+    if expression_rust_type == rust_type && is_literal(expression) {
+        return format!("{}_{}", generated_code, rust_type);
+    }
+    if is_literal(expression) {
+        return format!(
+            "({}_{} as {})",
+            generated_code, expression_rust_type, rust_type
+        );
+    }
+    format!("({} as {})", generated_code, rust_type)
+}
+
+/// Checks if an expression consists of operands which are calculated.
+fn is_operation(expression: &Expression) -> bool {
+    match expression.expression_type {
+        ISSET | EQ | GE | GT | LE | LT | NE | PLUS | MINUS | MULTIPLY | DIVIDE | MODULO
+        | QUESTIONMARK | BANG | TILDE | AND | OR | XOR | LSHIFT | RSHIFT | LOGICAL_AND
+        | LOGICAL_OR => true,
+        _ => false,
+    }
+}
+
+fn is_literal(expression: &Expression) -> bool {
+    matches!(
+        expression.expression_type,
+        BOOL_LITERAL
+            | OCTAL_LITERAL
+            | HEXADECIMAL_LITERAL
+            | BINARY_LITERAL
+            | DECIMAL_LITERAL
+            | FLOAT_LITERAL
+            | DOUBLE_LITERAL
+            | STRING_LITERAL
     )
 }
 
+fn generate_unary_arithmetic_expression(
+    expression: &Expression,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let operand = generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope);
+    match expression.expression_type {
+        PLUS => operand,
+        MINUS => format!("-{}", operand),
+        _ => panic!("unexpected unary arithmetic expression operator"),
+    }
+}
+
 fn generate_arithmetic_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -95,64 +181,32 @@ fn generate_arithmetic_expression(
         return generate_unary_arithmetic_expression(expression, type_generator, scope);
     }
 
-    // Check if casts are required
-    let mut op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
-    let mut op2 = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
-
-    let mut expression_type = None;
-    let mut op1_rust_type = None;
-    let mut op2_rust_type = None;
-
-    // Check if casting is needed because of different original types.
-    // Casting is needed in the following cases:
-    // - mixing floats with integers
-    // - mixing signed/unsigned types
-    // - mixing different bit lengths
-    // - mixing numerals of different types
-    // Casting is not needed in the following cases:
-    // - The expression result is not an integer.
-    // - One or both operands are numerals without type annotations, for example
-    //   "17.5 + 13.6"
-    match &expression.result_type {
-        ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
-            if let Some(native_type) = &expression.native_type {
-                expression_type = Some(type_generator.ztype_to_rust_type(native_type));
-                if let Some(op1_native_type) = &expression.operand1.as_ref().unwrap().native_type {
-                    op1_rust_type = Some(type_generator.ztype_to_rust_type(op1_native_type));
-                }
-                if let Some(op2_native_type) = &expression.operand2.as_ref().unwrap().native_type {
-                    op2_rust_type = Some(type_generator.ztype_to_rust_type(op2_native_type));
-                }
-            }
-        }
-        ExpressionType::String(_) => {
-            // For string operations, using "+" sucks, due to the different issues with string
-            // ownership, and mixing "String" with "str", reference, etc. The easiest
-            // solution is to just use the format macro.
-            assert!(expression.expression_type == PLUS);
-            // Inception code
-            return format!("format!(\"{{}}{{}}\", {}, {})", op1, op2,);
-        }
-        _ => (),
-    };
-
-    // Generate the type casts
-    if let Some(result_type) = expression_type {
-        if let Some(op1_result_type) = op1_rust_type {
-            if result_type != op1_result_type {
-                op1 = format!("(({}) as {})", op1, result_type);
-            }
-        }
-        if let Some(op2_result_type) = op2_rust_type {
-            if result_type != op2_result_type {
-                op2 = format!("(({}) as {})", op2, result_type);
-            }
-        }
+    if let ExpressionType::String(_) = &expression.result_type {
+        // For string operations, using "+" sucks, due to the different issues with string
+        // ownership, and mixing "String" with "str", reference, etc. The easiest
+        // solution is to just use the format macro.
+        assert!(expression.expression_type == PLUS);
+        // Inception code
+        return format!(
+            "format!(\"{{}}{{}}\", {}, {})",
+            generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope),
+            generate_operand(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        );
     }
 
+    // If one of the operands is a float, the other one is converted to a float, too.
+    let rust_type = match &expression.result_type {
+        ExpressionType::Float(_) => "f64",
+        _ => "i128",
+    };
     format!(
         "{} {} {}",
-        op1,
+        generate_operand_of_type(
+            expression.operand1.as_ref().unwrap(),
+            rust_type,
+            type_generator,
+            scope
+        ),
         match expression.expression_type {
             PLUS => "+",
             MINUS => "-",
@@ -161,7 +215,12 @@ fn generate_arithmetic_expression(
             MODULO => "%",
             _ => panic!("unexpected arithmetic expression operator"),
         },
-        op2,
+        generate_operand_of_type(
+            expression.operand2.as_ref().unwrap(),
+            rust_type,
+            type_generator,
+            scope
+        ),
     )
 }
 
@@ -171,30 +230,12 @@ fn generate_bracketed_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{}[{}]",
+        "{}[({}) as usize]",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
 }
 
-fn is_bitmask_expression(expression: &Expression, scope: &ModelScope) -> bool {
-    if let Some(expr_symbol) = &expression.symbol {
-        let fund_type = match &expr_symbol.symbol {
-            Symbol::Field(field) => get_fundamental_type(&field.borrow().field_type, scope),
-            Symbol::Parameter(param) => get_fundamental_type(&param.borrow().zserio_type, scope),
-            _ => return false,
-        };
-        if fund_type.fundamental_type.is_builtin {
-            return false;
-        }
-        return matches!(
-            scope.get_symbol(&fund_type.fundamental_type).symbol,
-            Symbol::Bitmask(_)
-        );
-    }
-    false
-}
-
 fn generate_dot_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -242,9 +283,9 @@ fn generate_isset_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} & ({}) != 0",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope)
+        "({} & {}).bits() != 0",
+        generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_operand(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
 }
 
@@ -253,17 +294,17 @@ fn generate_valueof_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand = expression.operand1.as_ref().unwrap();
     let native_type = expression.native_type.as_ref().unwrap();
     let fundamental_type = get_fundamental_type(native_type, scope);
-    let bitmask_suffix = if is_bitmask_expression(expression.operand1.as_ref().unwrap(), scope) {
-        ".bits()"
-    } else {
-        ""
+    let bitmask_suffix = match &operand.result_type {
+        ExpressionType::BitMask(_) => ".bits()",
+        _ => "",
     };
 
     format!(
-        "{}{} as {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        "({}{} as {})",
+        generate_operand(operand, type_generator, scope),
         bitmask_suffix,
         type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type),
     )
@@ -286,7 +327,7 @@ fn generate_numbits_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "(zserio::numbits({}) as u32)",
+        "(zserio::numbits(({}) as u64) as u32)",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
@@ -337,16 +378,30 @@ fn generate_ternary_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let mut generate_branch = |branch: &Expression| match &expression.result_type {
+        ExpressionType::Integer(_) => {
+            generate_operand_of_type(branch, "i128", type_generator, scope)
+        }
+        ExpressionType::Float(_) => generate_operand_of_type(branch, "f64", type_generator, scope),
+        ExpressionType::String(_) => format!(
+            "{}.to_string()",
+            generate_operand(branch, type_generator, scope)
+        ),
+        ExpressionType::Compound => {
+            format!(
+                "{}.clone()",
+                generate_operand(branch, type_generator, scope)
+            )
+        }
+        _ => generate_operand(branch, type_generator, scope),
+    };
+    let branch1 = generate_branch(expression.operand2.as_ref().unwrap());
+    let branch2 = generate_branch(expression.operand3.as_ref().unwrap());
     format!(
-        "
-if {} {{
-    {}
-}} else {{
-    {}
-}}",
+        "(if {} {{ {} }} else {{ {} }})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand3.as_ref().unwrap(), type_generator, scope),
+        branch1,
+        branch2,
     )
 }
 
@@ -357,7 +412,7 @@ fn generate_logical_negation(
 ) -> String {
     format!(
         "!{}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
+        generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
 
@@ -367,8 +422,8 @@ fn generate_bitwise_negation(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "~{}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
+        "!{}",
+        generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
 
@@ -379,7 +434,7 @@ fn generate_bitwise_expression(
 ) -> String {
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope),
         match expression.expression_type {
             AND => "&",
             OR => "|",
@@ -388,7 +443,7 @@ fn generate_bitwise_expression(
             RSHIFT => ">>",
             _ => panic!("unexpected bitwise expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        generate_operand(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
 }
 
@@ -399,13 +454,13 @@ fn generate_logical_expression(
 ) -> String {
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope),
         match expression.expression_type {
             LOGICAL_AND => "&&",
             LOGICAL_OR => "||",
             _ => panic!("unexpected logical expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        generate_operand(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
 }
 
@@ -414,9 +469,29 @@ fn generate_comparison_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let op1 = expression.operand1.as_ref().unwrap();
+    let op2 = expression.operand2.as_ref().unwrap();
+    let (value1, value2) = match (&op1.result_type, &op2.result_type) {
+        (ExpressionType::Float(_), ExpressionType::Integer(_))
+        | (ExpressionType::Integer(_), ExpressionType::Float(_)) => (
+            generate_operand_of_type(op1, "f64", type_generator, scope),
+            generate_operand_of_type(op2, "f64", type_generator, scope),
+        ),
+        (ExpressionType::BitMask(_), ExpressionType::Integer(_)) => (
+            format!(
+                "({}.bits() as i128)",
+                generate_operand(op1, type_generator, scope)
+            ),
+            generate_operand(op2, type_generator, scope),
+        ),
+        _ => (
+            generate_operand(op1, type_generator, scope),
+            generate_operand(op2, type_generator, scope),
+        ),
+    };
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        value1,
         match expression.expression_type {
             EQ => "==",
             LE => "<=",
@@ -426,7 +501,7 @@ fn generate_comparison_expression(
             NE => "!=",
             _ => panic!("unexpected comparison expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        value2,
     )
 }
 
@@ -444,10 +519,11 @@ fn generate_literal_expression(expression: &Expression) -> String {
     };
 
     match expression.expression_type {
-        DECIMAL_LITERAL => i32::to_string(&int_value),
+        DECIMAL_LITERAL => format!("{int_value}"),
+        BINARY_LITERAL => format!("{int_value:#b}"),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
-        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
+        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{:?}", &float_value),
         BOOL_LITERAL => {
             if bool_value {
                 String::from("true")
@@ -457,10 +533,10 @@ fn generate_literal_expression(expression: &Expression) -> String {
         }
         STRING_LITERAL => {
             if expression.fully_resolved {
-                return format!("\"{}\"", &string_value);
+                return format!("{:?}", &string_value);
             }
             // need to cast into a rust string
-            format!("\"{}\".into()", &string_value)
+            format!("{:?}.into()", &string_value)
         }
 
         _ => panic!("unexpected comparison expression operator"),
diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index 005a28f..893246a 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -1,6 +1,6 @@
 use crate::internal::ast::zfunction::ZFunction;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::expression::generate_expression;
+use crate::internal::generator::casts::generate_expression_as;
 use crate::internal::generator::types::{convert_to_function_name, TypeGenerator};
 use codegen::Impl;
 
@@ -23,28 +23,11 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin
-        && zserio_function.return_type.name == "string"
-        && !zserio_function.result.as_ref().borrow().fully_resolved
-    {
-        fn_gen_scope.line(format!(
-            "{}.clone()",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
-        ));
-    } else {
-        // Generate the function content.
-        fn_gen_scope.line(format!(
-            "({}) as {}",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
-            type_generator.ztype_to_rust_type(&zserio_function.return_type),
-        ));
-    }
+    // Generate the function content.
+    fn_gen_scope.line(generate_expression_as(
+        &zserio_function.return_type,
+        &zserio_function.result.as_ref().borrow(),
+        type_generator,
+        scope,
+    ));
 }
diff --git a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
index f7449b2..68b2b7d 100644
--- a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
@@ -8,7 +8,7 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::{
     array::initialize_array_trait, bitsize::bitsize_type_reference, decode::decode_type,
     encode::encode_type, file_generator::write_to_file, preamble::add_standard_imports,
-    types::convert_to_enum_field_name, types::zserio_to_rust_type, types::TypeGenerator,
+    types::convert_to_enum_field_name, types::TypeGenerator,
 };
 use std::path::Path;
 
@@ -63,9 +63,9 @@ pub fn generate_bitmask(
     z_impl.impl_trait("ztype::ZserioPackableObject");
 
     // generate the functions to serialize/deserialize
-    generate_zserio_read(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_read(scope, type_generator, z_impl, &fundamental_type);
     generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -92,9 +92,9 @@ fn generate_zserio_read(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
+    let base_rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
     let zserio_read_fn = impl_codegen.new_fn("zserio_read");
     zserio_read_fn.arg_mut_self();
     zserio_read_fn.arg("reader", "&mut BitReader");
@@ -103,10 +103,7 @@ fn generate_zserio_read(
         scope,
         type_generator,
         zserio_read_fn,
-        &format!(
-            "let v: {}",
-            zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
-        ),
+        &format!("let v: {}", base_rust_type),
         &String::from(""),
         fundamental_type,
         0,
@@ -120,10 +117,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
-    zserio_read_packed_fn.line(format!(
-        "let mut v: {} = 0;",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
-    ));
+    zserio_read_packed_fn.line(format!("let mut v: {} = 0;", base_rust_type));
     decode_type(
         scope,
         type_generator,
@@ -182,13 +176,10 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
-    let rust_type_name = format!(
-        "(self.bits as {})",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
-    );
+    let base_rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
+    let rust_type_name = format!("(self.bits as {})", base_rust_type);
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
     bitsize_fn.ret("Result<u64>");
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 514d9df..6f66703 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -2,6 +2,7 @@
 
 use codegen::{Function, Scope};
 
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zchoice::ZChoice;
 
 use crate::internal::compiler::symbol_scope::ModelScope;
@@ -141,20 +142,26 @@ pub fn generate_choice_match_construct(
     packed: bool,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
-    let selector_name =
-        TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
+    let selector_expression = zchoice.selector_expression.as_ref().borrow();
+    let selector = generate_expression(&selector_expression, type_generator, symbol_scope);
     let mut context_node_index = 0;
 
-    code_gen_fn.line(format!("match self.{} {{", selector_name));
+    match &selector_expression.result_type {
+        // Integers are compared independent of the types of the selector and the case labels.
+        ExpressionType::Integer(_) => code_gen_fn.line(format!("match ({}) as i128 {{", selector)),
+        _ => code_gen_fn.line(format!("match {} {{", selector)),
+    };
 
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
         for case_expr in &case.conditions {
-            case_expressions.push(generate_expression(
-                &case_expr.as_ref().borrow(),
-                type_generator,
-                symbol_scope,
-            ));
+            let case_expr = case_expr.as_ref().borrow();
+            case_expressions.push(match &case_expr.result_type {
+                // The case labels are patterns, which cannot be calculated.
+                ExpressionType::Integer(value) if case_expr.fully_resolved => value.to_string(),
+                ExpressionType::Bool(value) if case_expr.fully_resolved => value.to_string(),
+                _ => generate_expression(&case_expr, type_generator, symbol_scope),
+            });
         }
         let selector_expression_evaluation = case_expressions.join(" | ");
 
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index ce8eeff..320d502 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
@@ -40,15 +41,26 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
+    let value_expression = zconst.value_expression.borrow();
+    let value = match &value_expression.result_type {
+        ExpressionType::String(value) if value_expression.fully_resolved => format!("{value:?}"),
+        ExpressionType::Integer(value)
+            if value_expression.fully_resolved && !matches!(field_type.as_str(), "f32" | "f64") =>
+        {
+            value.to_string()
+        }
+        ExpressionType::Integer(_) | ExpressionType::Float(_) => format!(
+            "({}) as {}",
+            generate_expression(&value_expression, type_generator, symbol_scope),
+            field_type
+        ),
+        _ => generate_expression(&value_expression, type_generator, symbol_scope),
+    };
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        generate_expression(
-            &zconst.value_expression.borrow(),
-            type_generator,
-            symbol_scope
-        ),
+        value,
     )
     .as_str();
 
diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index 7ad0bf0..6de9cf7 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -1,6 +1,6 @@
 use codegen::Scope;
 
-use crate::internal::ast::{expression::ExpressionType, zenum::ZEnum};
+use crate::internal::ast::zenum::ZEnum;
 use crate::internal::compiler::fundamental_type::{
     get_fundamental_type, FundamentalZserioTypeReference,
 };
@@ -8,7 +8,7 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::{
     array::initialize_array_trait, bitsize::bitsize_type_reference, decode::decode_type,
     encode::encode_type, file_generator::write_to_file, preamble::add_standard_imports,
-    types::convert_to_enum_field_name, types::zserio_to_rust_type, types::TypeGenerator,
+    types::convert_to_enum_field_name, types::TypeGenerator,
 };
 use std::path::Path;
 
@@ -38,15 +38,14 @@ pub fn generate_enum(
     gen_enum.derive("PartialEq");
     gen_enum.derive("Eq");
 
-    let mut enum_value = 0;
+    // Values that do not fit into the default representation need the one of the base type.
+    let item_values = zenum.item_values(zenum.items.len());
+    if item_values.iter().any(|v| *v > i64::MAX as i128) {
+        gen_enum.repr(&rust_type_type);
+    }
+
     let mut first_option = true;
-    for item in &zenum.items {
-        if let Some(value_expression) = &item.value {
-            match value_expression.as_ref().borrow().result_type {
-                ExpressionType::Integer(v) => enum_value = v,
-                _ => panic!("only integer value expressions are supported"),
-            }
-        }
+    for (item, enum_value) in zenum.items.iter().zip(&item_values) {
         let v = gen_enum.new_variant(format!(
             "{} = {}",
             convert_to_enum_field_name(&item.name),
@@ -56,7 +55,6 @@ pub fn generate_enum(
             v.annotation("#[default]");
             first_option = false;
         }
-        enum_value += 1;
     }
 
     let tryfrom_impl = gen_scope
@@ -68,21 +66,13 @@ pub fn generate_enum(
     from_int_fn.ret("Result<Self, Self::Error>");
     from_int_fn.line("match v {");
 
-    let mut enum_value = 0;
-    for item in &zenum.items {
-        if let Some(value_expression) = &item.value {
-            match value_expression.as_ref().borrow().result_type {
-                ExpressionType::Integer(v) => enum_value = v,
-                _ => panic!("only integer value expressions are supported"),
-            }
-        }
+    for (item, enum_value) in zenum.items.iter().zip(&item_values) {
         from_int_fn.line(format!(
             "{} => Ok({}::{}),",
-            enum_value,
+            *enum_value as i64,
             rust_type_name,
             convert_to_enum_field_name(&item.name)
         ));
-        enum_value += 1;
     }
 
     from_int_fn.line(format!(
@@ -97,8 +87,8 @@ pub fn generate_enum(
 
     // generate the functions to serialize/deserialize
     generate_zserio_read(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_write(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zenum, &fundamental_type);
+    generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -131,6 +121,7 @@ fn generate_zserio_read(
     zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
+    let base_rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
     let rust_type_name = TypeGenerator::to_rust_type_name(&zenum.name);
     let zserio_read_fn = struct_impl.new_fn("zserio_read");
     zserio_read_fn.arg_mut_self();
@@ -140,10 +131,7 @@ fn generate_zserio_read(
         scope,
         type_generator,
         zserio_read_fn,
-        &format!(
-            "let v: {}",
-            zserio_to_rust_type(&zenum.enum_type.name).unwrap()
-        ),
+        &format!("let v: {}", base_rust_type),
         &String::from(""),
         fundamental_type,
         0,
@@ -157,10 +145,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
-    zserio_read_packed_fn.line(format!(
-        "let mut v: {} = 0;",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
-    ));
+    zserio_read_packed_fn.line(format!("let mut v: {} = 0;", base_rust_type));
     decode_type(
         scope,
         type_generator,
@@ -179,13 +164,10 @@ fn generate_zserio_write(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
-    let rust_type_name = format!(
-        "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
-    );
+    let base_rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
+    let rust_type_name = format!("(*self as {})", base_rust_type);
 
     let zserio_write_fn = impl_codegen.new_fn("zserio_write");
     zserio_write_fn.arg_ref_self();
@@ -223,13 +205,10 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
-    let rust_type_name = format!(
-        "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
-    );
+    let base_rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
+    let rust_type_name = format!("(*self as {})", base_rust_type);
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
     bitsize_fn.ret("Result<u64>");
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index bb0af7e..0443148 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::package::ZPackage;
 use crate::internal::compiler::resolve_types::{
     resolve_choice_types, resolve_constant, resolve_struct_types, resolve_subtype,
-    resolve_union_types,
+    resolve_type_reference, resolve_union_types,
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
@@ -118,6 +118,26 @@ impl Model {
                 scope.scope_stack.pop();
             }
 
+            for z_enum in &pkg.enums {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_enum.borrow().name.clone()),
+                });
+                resolve_type_reference(&mut z_enum.borrow_mut().enum_type, scope);
+                scope.scope_stack.pop();
+            }
+
+            for z_bitmask in &pkg.bitmask_types {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_bitmask.borrow().name.clone()),
+                });
+                resolve_type_reference(&mut z_bitmask.borrow_mut().zserio_type, scope);
+                scope.scope_stack.pop();
+            }
+
             for zconstant in &pkg.consts {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
@@ -228,7 +248,7 @@ impl Model {
                     import_symbol: None,
                     symbol_name: Option::from(z_enum.borrow().name.clone()),
                 });
-                z_enum.borrow_mut().evaluate(scope);
+                z_enum.borrow().evaluate(scope);
                 scope.scope_stack.pop();
             }
 
@@ -241,7 +261,7 @@ impl Model {
                 z_choice.borrow().evaluate_selector_expression(scope);
                 z_choice
                     .borrow_mut()
-                    .add_enumeration_type_prefix_to_choice_cases();
+                    .add_enumeration_type_prefix_to_choice_cases(scope);
                 z_choice.borrow().evaluate(scope);
 
                 scope.scope_stack.pop();
@@ -257,13 +277,23 @@ impl Model {
                 scope.scope_stack.pop();
             }
 
+            for subtype in &pkg.subtypes {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(subtype.borrow().name.clone()),
+                });
+                subtype.borrow().zserio_type.evaluate(scope);
+                scope.scope_stack.pop();
+            }
+
             for z_const in &mut pkg.consts {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
                     import_symbol: None,
                     symbol_name: Option::from(z_const.borrow().name.clone()),
                 });
-                z_const.borrow_mut().evaluate(scope);
+                z_const.borrow().evaluate(scope);
                 scope.scope_stack.pop();
             }
 
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index b8cc798..2ba5fe5 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -943,26 +943,26 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             ),
             _ if literal_ctx.DECIMAL_LITERAL().is_some() => ExpressionType::Integer(
                 literal_text
-                    .parse::<i32>()
+                    .parse::<i128>()
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_start_matches("0x"), 16)
-                    .expect("Not a hex number!"),
+                i128::from_str_radix(&literal_text[2..], 16).expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
+                i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
             ),
             _ if literal_ctx.BINARY_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_end_matches('b'), 2)
+                i128::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
                     .expect("Not a binary number!"),
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
                 assert!(literal_text.len() >= 2);
-                ExpressionType::String(literal_text[1..literal_text.len() - 1].into())
+                ExpressionType::String(unescape_string(&literal_text[1..literal_text.len() - 1]))
             }
             _ if literal_ctx.FLOAT_LITERAL().is_some() => ExpressionType::Float(
                 literal_text
+                    .trim_end_matches(['f', 'F'])
                     .parse::<f64>()
                     .expect("failed to parse float32 expression"),
             ),
@@ -1582,3 +1582,53 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         self.visit(&*ctx.expression().unwrap())
     }
 }
+
+/// Replaces the escape sequences in a string literal by the characters they stand for.
+fn unescape_string(literal: &str) -> String {
+    let mut result = String::new();
+    let mut chars = literal.chars().peekable();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            result.push(c);
+            continue;
+        }
+        let (radix, max_digits) = match chars.next() {
+            Some('n') => {
+                result.push('\n');
+                continue;
+            }
+            Some('r') => {
+                result.push('\r');
+                continue;
+            }
+            Some('t') => {
+                result.push('\t');
+                continue;
+            }
+            Some('f') => {
+                result.push('\u{c}');
+                continue;
+            }
+            Some('u') => (16, 4),
+            Some('x') => (16, 2),
+            Some('0') => (8, 3),
+            Some(other) => {
+                result.push(other);
+                continue;
+            }
+            None => break,
+        };
+        let mut code = 0;
+        for _ in 0..max_digits {
+            match chars.peek().and_then(|digit| digit.to_digit(radix)) {
+                Some(digit) => {
+                    code = code * radix + digit;
+                    chars.next();
+                }
+                None => break,
+            }
+        }
+        result.push(char::from_u32(code).unwrap_or(char::REPLACEMENT_CHARACTER));
+    }
+    result
+}
-- 
2.43.0


From bae0ce6814ec7c80f74cf4168ca58a3e066d631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 21/36] fix: functions of unions cannot be called from
 expressions

---
 crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0bbb258..0026f64 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -245,6 +245,7 @@ fn get_symbol_name(symbol: &Symbol) -> String {
     match symbol {
         Symbol::Struct(s) => s.as_ref().borrow().name.clone(),
         Symbol::Choice(c) => c.as_ref().borrow().name.clone(),
+        Symbol::Union(u) => u.as_ref().borrow().name.clone(),
         Symbol::Subtype(s) => s.as_ref().borrow().name.clone(),
         Symbol::Enum(e) => e.as_ref().borrow().name.clone(),
         Symbol::Bitmask(bitmask) => bitmask.as_ref().borrow().name.clone(),
-- 
2.43.0


From 99f450c69a45cdb0c160ddf425f10829feba6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 22/36] fix: optional extern and bytes fields generate code
 that moves them

---
 .../zserio-rs-build/src/internal/generator/encode.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 3eadd21..2459648 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -109,11 +109,11 @@ pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeRefe
     if !native_type.fundamental_type.is_builtin {
         return true;
     }
-    // for the native core types, strings make sense to pass by reference.
-    if native_type.fundamental_type.name == "string" {
-        return true;
-    }
-    false
+    // The native core types that are not plain values are passed by reference.
+    matches!(
+        native_type.fundamental_type.name.as_str(),
+        "string" | "extern" | "bytes"
+    )
 }
 
 pub fn encode_field(
-- 
2.43.0


From 4fe3ed6876a3627d33a15dcb32214b345de4a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 23/36] fix: the default case of choices is ignored

---
 crates/zserio-rs-build/src/internal/visitor.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 2ba5fe5..1b7cedc 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -548,7 +548,15 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             };
         }
 
-        // TODO visit the default type
+        // visit the default case of the choice
+        if let Some(default_ctx) = ctx.choiceDefault() {
+            match self.visit_choiceDefault(&default_ctx) {
+                ZserioTreeReturnType::ChoiceCase(choice_case) => {
+                    choice.default_case = Some(choice_case)
+                }
+                _ => panic!("choice default type mismatch"),
+            };
+        }
 
         // Visit all functions defined for this choice.
         for function_ctx in ctx.functionDefinition_all() {
-- 
2.43.0


From 800a648bca68d9501898813ebe07ef9c890fbc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 24/36] fix: bit fields of more than 64 bits panic instead of
 being an error

---
 crates/zserio/src/ztype/bits_decode.rs | 6 +++---
 crates/zserio/src/ztype/bits_encode.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 9870e3d..1874d8c 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -1,16 +1,16 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use bitreader::BitReader;
 
 pub fn read_unsigned_bits(reader: &mut BitReader, bits: u8) -> Result<u64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(reader.read_u64(bits)?)
 }
 
 pub fn read_signed_bits(reader: &mut BitReader, bits: u8) -> Result<i64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(reader.read_i64(bits)?)
 }
diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index 537ffc6..9bf6b7f 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -1,16 +1,16 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use rust_bitwriter::BitWriter;
 
 pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(writer.write_u64(v, bits)?)
 }
 
 pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(writer.write_i64(v, bits)?)
 }
-- 
2.43.0


From 70f6c1d1d5cd4e17ba979baa8a7b1b5a8e841232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 25/36] fix: imports of a single symbol provide every symbol of
 the package

---
 .../src/internal/compiler/symbol_scope.rs     | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0026f64..8b9226f 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -16,7 +16,7 @@ use crate::internal::ast::{
 };
 
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
 /// This enum is used to cover any possible type of symbols.
@@ -120,6 +120,7 @@ impl ModelScope {
 
         // Try to find the symbol in the imported packages.
         let mut imports_to_process = vec![];
+        let mut expanded_packages = HashSet::from([evaluation_scope.package.clone()]);
         for reference in package_scope.imports.iter() {
             imports_to_process.push(reference);
         }
@@ -133,6 +134,18 @@ impl ModelScope {
                     .package_scopes
                     .get(&package_name)
                     .unwrap_or_else(|| panic!("reference to unknown package {package_name}"));
+
+                // If the symbol was not found in one of the current imports,
+                // it may be located in an import of the current import. Keep
+                // track of them to process them later.
+                if expanded_packages.insert(package_name.clone()) {
+                    new_imports_to_process.extend(&imported_package.imports);
+                }
+
+                // An import of a single symbol does not provide any other symbol.
+                if import.symbol_name.as_ref().is_some_and(|s| s != name) {
+                    continue;
+                }
                 if let Some(symbol) = imported_package.resolve_symbol(
                     name,
                     ignore_symbol_local_scopes,
@@ -144,11 +157,6 @@ impl ModelScope {
                 ) {
                     return symbol;
                 }
-
-                // If the symbol was not found in one of the current imports,
-                // it may be located in an import of the current import. Keep
-                // track of them to process them later.
-                new_imports_to_process.extend(&imported_package.imports);
             }
             // If the symbol was not found, it may be found in an import of the
             // packages that were just processed.
-- 
2.43.0


From ab1f1b7459b2f7f3dc4f654601b5b23154a9c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 26/36] fix: the contents of packages that have sub-packages
 are not reachable

The module of such a package was generated as an inline module with the
sub-packages only, so its own mod.rs was never part of the crate. The
mod.rs of a package now contains the modules of the sub-packages.
---
 .../src/internal/generator/mod_file.rs        | 36 ++++++++++++++++---
 .../src/internal/generator/model.rs           | 15 ++++++--
 .../src/internal/generator/package.rs         |  3 ++
 3 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/mod_file.rs b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
index 230bf37..69682e9 100644
--- a/crates/zserio-rs-build/src/internal/generator/mod_file.rs
+++ b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
@@ -8,6 +8,8 @@ use std::path::Path;
 use std::rc::Rc;
 
 struct ZserioModuleTreeNode {
+    /// A package is generated for this module, which has its own "mod.rs" file.
+    is_package: bool,
     children: HashMap<String, Rc<RefCell<ZserioModuleTreeNode>>>,
 }
 
@@ -31,6 +33,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
         current_node.borrow_mut().children.insert(
             rust_module_name.clone(),
             Rc::from(RefCell::from(ZserioModuleTreeNode {
+                is_package: false,
                 children: HashMap::new(),
             })),
         );
@@ -42,6 +45,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
             .clone();
         current_node = new_node;
     }
+    current_node.borrow_mut().is_package = true;
 }
 
 fn generate_mod_section(
@@ -57,7 +61,8 @@ fn generate_mod_section(
             *file_content += "#[rustfmt::skip]\n";
         }
 
-        if module_tree_node.borrow().children.is_empty() {
+        // The "mod.rs" file of a package also contains its sub-packages.
+        if module_tree_node.borrow().is_package {
             *file_content += format!("pub mod {};\n", mod_name).as_str();
             return;
         }
@@ -79,17 +84,38 @@ fn generate_mod_section(
     }
 }
 
-/// This function generates the top-level mod file, which adds all generated packages
-/// to the known packages.
-pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
-    // Reorganize the packages into a tree structure, categorized by module.
+/// Reorganizes the packages into a tree structure, categorized by module.
+fn module_tree(model: &Model) -> Rc<RefCell<ZserioModuleTreeNode>> {
     let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
+        is_package: false,
         children: HashMap::new(),
     }));
 
     for package in model.packages.values() {
         add_package_to_tree(&module_tree_root, &package.name);
     }
+    module_tree_root
+}
+
+/// This function generates the module declarations for the packages below a package.
+pub fn generate_sub_package_mods(model: &Model, package_name: &str) -> String {
+    let mut node = module_tree(model);
+    for module_path in package_name.split('.') {
+        let rust_module_name = TypeGenerator::to_rust_module_name(module_path);
+        let child_node = node.borrow().children[&rust_module_name].clone();
+        node = child_node;
+    }
+    let mut content = String::from("");
+    for (child_name, child_node) in node.borrow().children.iter().sorted_by_key(|x| x.0) {
+        generate_mod_section(&mut content, child_name, child_node, 2);
+    }
+    content
+}
+
+/// This function generates the top-level mod file, which adds all generated packages
+/// to the known packages.
+pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
+    let module_tree_root = module_tree(model);
 
     // Generate the mod.rs file content.
     let mut mod_file_content = String::from("");
diff --git a/crates/zserio-rs-build/src/internal/generator/model.rs b/crates/zserio-rs-build/src/internal/generator/model.rs
index 29a612b..293c29c 100644
--- a/crates/zserio-rs-build/src/internal/generator/model.rs
+++ b/crates/zserio-rs-build/src/internal/generator/model.rs
@@ -1,4 +1,6 @@
-use crate::internal::generator::mod_file::generate_top_level_mod_file;
+use crate::internal::generator::mod_file::{
+    generate_sub_package_mods, generate_top_level_mod_file,
+};
 use crate::internal::generator::package::generate_package;
 use crate::internal::generator::types::TypeGenerator;
 use crate::internal::model::Model;
@@ -8,11 +10,18 @@ use std::path::Path;
 pub fn generate_model(model: &mut Model, package_directory: &Path, root_package: &str) {
     let mut type_generator = TypeGenerator::new(root_package.to_owned());
 
-    let scope = &mut model.scope;
+    let scope = &model.scope;
     // Generate the rust interface files for all packages.
     for package in model.packages.values() {
         info!("generating rust code for package {0}...", package.name);
-        generate_package(&mut type_generator, scope, package, package_directory);
+        let sub_packages = generate_sub_package_mods(model, &package.name);
+        generate_package(
+            &mut type_generator,
+            scope,
+            package,
+            package_directory,
+            &sub_packages,
+        );
     }
 
     // Generate the overall mod file.
diff --git a/crates/zserio-rs-build/src/internal/generator/package.rs b/crates/zserio-rs-build/src/internal/generator/package.rs
index 8fa410a..777efee 100644
--- a/crates/zserio-rs-build/src/internal/generator/package.rs
+++ b/crates/zserio-rs-build/src/internal/generator/package.rs
@@ -14,6 +14,7 @@ pub fn generate_package(
     symbol_scope: &ModelScope,
     package: &ZPackage,
     package_directory: &Path,
+    sub_packages: &str,
 ) {
     let package_name = &package.name;
     let mut module_names = Vec::new();
@@ -160,6 +161,8 @@ pub fn generate_package(
     // complain about generated module names.
     mod_file_content += "#![allow(clippy::module_inception)]\n";
 
+    mod_file_content += sub_packages;
+
     // Sort module names so our output is in a predictable order.
     module_names.sort_unstable();
     for module_name in &module_names {
-- 
2.43.0


From befdebacc6aac218c6df8547d22dc2dce1c18d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 27/36] fix: alignments of 256 bits or more are refused by the
 generator

---
 crates/zserio-rs-build/src/internal/ast/field.rs | 2 +-
 crates/zserio-rs-build/src/internal/visitor.rs   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/field.rs b/crates/zserio-rs-build/src/internal/ast/field.rs
index 97862a4..f7d80e1 100644
--- a/crates/zserio-rs-build/src/internal/ast/field.rs
+++ b/crates/zserio-rs-build/src/internal/ast/field.rs
@@ -37,7 +37,7 @@ pub struct Field {
     pub is_optional: bool,
 
     /// (Optional) bit alignment, if desired. If no bit alignment is set, 0 is used.
-    pub alignment: u8,
+    pub alignment: u32,
 
     /// The type of the field.
     pub field_type: Box<TypeReference>,
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 1b7cedc..8795172 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -78,7 +78,7 @@ use super::parser::gen::zserioparser::{
 // return types.
 pub enum ZserioTreeReturnType {
     Str(String),
-    UInt8(u8),
+    UInt32(u32),
     StrVec(Vec<String>),
     Package(Box<ZPackage>),
     Const(Box<ZConst>),
@@ -412,7 +412,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
 
         if let Some(field_alignment_ctx) = ctx.fieldAlignment() {
             match ZserioParserVisitorCompat::visit_fieldAlignment(self, &field_alignment_ctx) {
-                ZserioTreeReturnType::UInt8(alignment) => {
+                ZserioTreeReturnType::UInt32(alignment) => {
                     field.alignment = alignment;
                 }
                 _ => panic!("unexpected field alignment type"),
@@ -580,10 +580,10 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         if field_alignment_expression.expression_type != DECIMAL_LITERAL {
             panic!("field alignment expression must be a decimal literal");
         }
-        ZserioTreeReturnType::UInt8(
+        ZserioTreeReturnType::UInt32(
             field_alignment_expression
                 .text
-                .parse::<u8>()
+                .parse::<u32>()
                 .expect("failed to parse field alignment decimal expression"),
         )
     }
-- 
2.43.0


From b3aaa1043622201d1c6891f9c05d7e3ffdddb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 28/36] fix: expressions that mention bytes or extern arrays
 crash the generator

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 22b4922..d8216b8 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -775,7 +775,8 @@ fn type_reference_to_expression_type(
                 Some(TypeReference::new_native_type(type_ref.name.as_str())),
             )
         } else {
-            panic!("failed to determine builtin type reference type");
+            // Nothing can be calculated with bytes and extern values.
+            (ExpressionType::Other, None)
         }
     } else {
         // Resolve the symbol recursively, until a fundamental type is found. A type that is
-- 
2.43.0


From 4b00872fd3d8148c7756336b17d5858fe526cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 29/36] fix: template instances share their expressions

---
 .../compiler/template_instantiation.rs        | 253 +++++++++---------
 1 file changed, 125 insertions(+), 128 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index a429423..be7a8d7 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -1,7 +1,6 @@
 use crate::internal::ast::expression::Expression;
 use crate::internal::ast::field::Field;
 use crate::internal::ast::package::ZPackage;
-use crate::internal::ast::parameter::Parameter;
 use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::ast::zchoice::{add_choice_to_scope, ZChoice, ZChoiceCase};
 use crate::internal::ast::zfunction::ZFunction;
@@ -9,6 +8,7 @@ use crate::internal::ast::zstruct::{add_struct_to_scope, ZStruct};
 use crate::internal::ast::zunion::{add_zunion_to_scope, ZUnion};
 
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::parser::gen::zserioparser::{DOT, ID};
 use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
@@ -143,42 +143,24 @@ fn instantiate_struct(
     }
     // Instantiate the parameters
     for rc_param in &z_struct.type_parameters {
-        // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_struct
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_struct
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+        let mut param = rc_param.as_ref().borrow().clone();
+        substitute_type(&mut param.zserio_type, &instantiated_types);
+        instantiated_struct
+            .type_parameters
+            .push(Rc::new(RefCell::new(param)));
     }
 
     for rc_function in &z_struct.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_struct
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_struct
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+        let mut return_type = function.return_type.clone();
+        substitute_type(&mut return_type, &instantiated_types);
+        instantiated_struct
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: instantiate_expression(&function.result, &instantiated_types),
+                return_type,
+            })));
     }
 
     // Add the newly added structure to the package.
@@ -237,7 +219,10 @@ fn instantiate_choice(
         name: instantiated_name.clone(),
         template_parameters: vec![],
         type_parameters: vec![],
-        selector_expression: z_choice.selector_expression.clone(),
+        selector_expression: instantiate_expression(
+            &z_choice.selector_expression,
+            &instantiated_types,
+        ),
         cases: vec![],
         default_case: None,
         functions: vec![],
@@ -246,7 +231,11 @@ fn instantiate_choice(
     // Instantiate the choice fields
     for case in &z_choice.cases {
         instantiated_choice.cases.push(ZChoiceCase {
-            conditions: case.conditions.clone(),
+            conditions: case
+                .conditions
+                .iter()
+                .map(|condition| instantiate_expression(condition, &instantiated_types))
+                .collect(),
             field: {
                 if let Some(field) = &case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -264,7 +253,7 @@ fn instantiate_choice(
     // Instantiate the default field, if present
     if let Some(default_case) = &z_choice.default_case {
         instantiated_choice.default_case = Option::from(ZChoiceCase {
-            conditions: default_case.conditions.clone(),
+            conditions: vec![],
             field: {
                 if let Some(field) = &default_case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -282,43 +271,26 @@ fn instantiate_choice(
 
     // Instantiate the parameters
     for rc_param in &z_choice.type_parameters {
-        // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_choice
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_choice
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+        let mut param = rc_param.as_ref().borrow().clone();
+        substitute_type(&mut param.zserio_type, &instantiated_types);
+        instantiated_choice
+            .type_parameters
+            .push(Rc::new(RefCell::new(param)));
     }
 
     for rc_function in &z_choice.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_choice
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_choice
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+        let mut return_type = function.return_type.clone();
+        substitute_type(&mut return_type, &instantiated_types);
+        instantiated_choice
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: instantiate_expression(&function.result, &instantiated_types),
+                return_type,
+            })));
     }
+
     // Add the newly added choice to the package.
     pkg.zchoices.insert(
         instantiated_name.clone(),
@@ -393,42 +365,24 @@ fn instantiate_union(
     }
     // Instantiate the parameters
     for rc_param in &z_union.type_parameters {
-        // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_union
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_union
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+        let mut param = rc_param.as_ref().borrow().clone();
+        substitute_type(&mut param.zserio_type, &instantiated_types);
+        instantiated_union
+            .type_parameters
+            .push(Rc::new(RefCell::new(param)));
     }
 
     for rc_function in &z_union.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_union
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_union
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+        let mut return_type = function.return_type.clone();
+        substitute_type(&mut return_type, &instantiated_types);
+        instantiated_union
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: instantiate_expression(&function.result, &instantiated_types),
+                return_type,
+            })));
     }
 
     // Update the scope to contain the newly added union.
@@ -447,39 +401,82 @@ pub fn instantiate_field(
     instantiated_types: &HashMap<String, TypeReference>,
 ) -> Field {
     let mut new_field = field.clone();
-    if !new_field.field_type.template_arguments.is_empty() {
-        // The field type is not a template type itself, but by itself is a template,
-        // which is using the template type in its template parameters.
-        // For example:
-        // SomeOtherTemplate<TEMPLATE_TYPE> field;
-
-        // Iterate over the template parameters and instantiate them.
-        let mut new_template_arguments = vec![];
-
-        for template_parameter in new_field.field_type.template_arguments.iter() {
-            if instantiated_types.contains_key(&template_parameter.name) {
-                new_template_arguments.push(instantiated_types[&template_parameter.name].clone());
-            } else {
-                new_template_arguments.push(template_parameter.clone());
-            }
+
+    // The expressions are evaluated in the context of each instance.
+    let instantiate = |expression: &mut Option<Rc<RefCell<Expression>>>| {
+        if let Some(e) = expression {
+            *e = instantiate_expression(e, instantiated_types);
         }
-        new_field.field_type.template_arguments = new_template_arguments;
+    };
+    instantiate(&mut new_field.initializer);
+    instantiate(&mut new_field.offset);
+    instantiate(&mut new_field.constraint);
+    instantiate(&mut new_field.optional_clause);
+    if let Some(array) = &mut new_field.array {
+        instantiate(&mut array.array_length_expression);
+    }
+
+    // If the field type is a template by itself, which uses the template types in its
+    // template parameters, it needs to be instantiated. For example:
+    // SomeOtherTemplate<TEMPLATE_TYPE> field;
+    substitute_type(&mut new_field.field_type, instantiated_types);
+    new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_field.field_type, ""));
+    new_field
+}
 
-        new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_field.field_type, ""));
-        return new_field;
+/// Replaces the template parameters which occur in a type reference by the types they stand for.
+fn substitute_type(
+    type_reference: &mut TypeReference,
+    instantiated_types: &HashMap<String, TypeReference>,
+) {
+    for type_argument in &mut type_reference.type_arguments {
+        *type_argument = instantiate_expression(type_argument, instantiated_types);
+    }
+    if let Some(length_expression) = &mut type_reference.length_expression {
+        *length_expression = instantiate_expression(length_expression, instantiated_types);
+    }
+    for template_argument in &mut type_reference.template_arguments {
+        substitute_type(template_argument, instantiated_types);
     }
+    if let Some(instantiated_type) = instantiated_types.get(&type_reference.name) {
+        // The arguments are those of the place where the template parameter is used.
+        *type_reference = TypeReference {
+            type_arguments: std::mem::take(&mut type_reference.type_arguments),
+            ..instantiated_type.clone()
+        };
+    }
+}
+
+/// Creates a copy of an expression of a template for one of its instances.
+fn instantiate_expression(
+    expression: &Rc<RefCell<Expression>>,
+    instantiated_types: &HashMap<String, TypeReference>,
+) -> Rc<RefCell<Expression>> {
+    let mut instance = expression.borrow().clone();
+    substitute_names(&mut instance, instantiated_types);
+    Rc::new(RefCell::new(instance))
+}
 
-    // Check if the field type is directly a templated type. For example:
-    // TEMPLATE_TYPE field;
-    if instantiated_types.contains_key(&field.field_type.name) {
-        new_field.field_type = Box::from(instantiated_types[&field.field_type.name].clone());
-        // copy the parameters, if set
-        new_field
-            .field_type
-            .type_arguments
-            .clone_from(&field.field_type.type_arguments);
+fn substitute_names(
+    expression: &mut Expression,
+    instantiated_types: &HashMap<String, TypeReference>,
+) {
+    if expression.expression_type == ID {
+        if let Some(instantiated_type) = instantiated_types.get(&expression.text) {
+            expression.text.clone_from(&instantiated_type.name);
+        }
+    }
+    // The name behind a dot belongs to the operand in front of it.
+    let is_dot = expression.expression_type == DOT;
+    if let Some(operand) = &mut expression.operand1 {
+        substitute_names(operand, instantiated_types);
+    }
+    if let Some(operand) = expression.operand2.as_mut().filter(|_| !is_dot) {
+        substitute_names(operand, instantiated_types);
+    }
+    if let Some(operand) = &mut expression.operand3 {
+        substitute_names(operand, instantiated_types);
     }
-    new_field
 }
 
 /// Instantiates a struct that is not templated by itself, but has
-- 
2.43.0


From 1488602ffad0d7aca01a0e9dbd97de4dff06903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 30/36] fix: instances of a template for bit fields of
 different widths or for different nested instances are confused

---
 .../src/internal/compiler/template_instantiation.rs         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index be7a8d7..e7580cb 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -75,7 +75,11 @@ pub fn instantiate_type(
 fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     let mut new_name = type_reference.name.clone();
     for template_arg in &type_reference.template_arguments {
-        new_name += template_arg.name.as_str();
+        // The arguments may be template instances by themselves.
+        new_name += generate_instantiated_name(template_arg).as_str();
+    }
+    if type_reference.bits > 0 {
+        new_name += type_reference.bits.to_string().as_str();
     }
     new_name
 }
-- 
2.43.0


From 09f435bfcd4947b9b4343f002d2ad26c5b74ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 31/36] fix: constants whose value depends on comparing
 booleans are not evaluated

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index d8216b8..760234d 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -436,6 +436,13 @@ impl Expression {
                             _ => panic!("unexpected string comparison"),
                         })
                     }
+                    (ExpressionType::Bool(value1), ExpressionType::Bool(value2))
+                        if self.expression_type == EQ || self.expression_type == NE =>
+                    {
+                        let equal = value1 == value2;
+                        self.result_type =
+                            ExpressionType::Bool(equal == (self.expression_type == EQ));
+                    }
                     _ => {
                         if self.expression_type != EQ && self.expression_type != NE {
                             panic!("comparison expression can only be applied to integer, float, or string types, but the provided types are {:?} and {:?}", &op1.result_type, &op2.result_type);
-- 
2.43.0


From b11a54a23379db16b69ebe98013bc3c7e33abe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 32/36] fix: expressions without a value panic while decoding

---
 .../src/internal/generator/expression.rs      | 50 +++++++++++++++++--
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 2a935d0..5ca0961 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -163,9 +163,12 @@ fn generate_unary_arithmetic_expression(
     scope: &ModelScope,
 ) -> String {
     let operand = generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope);
-    match expression.expression_type {
-        PLUS => operand,
-        MINUS => format!("-{}", operand),
+    match (expression.expression_type, &expression.result_type) {
+        (PLUS, _) => operand,
+        (MINUS, ExpressionType::Integer(_)) if !expression.fully_resolved => {
+            format!("{}.wrapping_neg()", operand)
+        }
+        (MINUS, _) => format!("-{}", operand),
         _ => panic!("unexpected unary arithmetic expression operator"),
     }
 }
@@ -194,6 +197,24 @@ fn generate_arithmetic_expression(
         );
     }
 
+    // The operands of calculations with integers can come from decoded data. Calculations without
+    // a result must not panic.
+    if let (ExpressionType::Integer(_), false) =
+        (&expression.result_type, expression.fully_resolved)
+    {
+        let op2 = expression.operand2.as_ref().unwrap();
+        let value1 = generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope);
+        let value2 = generate_operand(op2, type_generator, scope);
+        return match expression.expression_type {
+            PLUS => format!("{}.wrapping_add({})", value1, value2),
+            MINUS => format!("{}.wrapping_sub({})", value1, value2),
+            MULTIPLY => format!("{}.wrapping_mul({})", value1, value2),
+            DIVIDE => generate_checked_expression(&value1, "checked_div", &value2),
+            MODULO => generate_checked_expression(&value1, "checked_rem", &value2),
+            _ => panic!("unexpected arithmetic expression operator"),
+        };
+    }
+
     // If one of the operands is a float, the other one is converted to a float, too.
     let rust_type = match &expression.result_type {
         ExpressionType::Float(_) => "f64",
@@ -224,13 +245,21 @@ fn generate_arithmetic_expression(
     )
 }
 
+/// Generates a calculation which has the value 0 if there is no result. Can be used in constants.
+fn generate_checked_expression(value1: &str, function: &str, value2: &str) -> String {
+    format!(
+        "(match {}.{}({}) {{ Some(value) => value, None => 0 }})",
+        value1, function, value2
+    )
+}
+
 fn generate_bracketed_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{}[({}) as usize]",
+        "{}.get(({}) as usize).cloned().unwrap_or_default()",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
@@ -432,6 +461,19 @@ fn generate_bitwise_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let shift_function = match expression.expression_type {
+        LSHIFT => "checked_shl",
+        RSHIFT => "checked_shr",
+        _ => "",
+    };
+    if !shift_function.is_empty() && !expression.fully_resolved {
+        let op2 = expression.operand2.as_ref().unwrap();
+        return generate_checked_expression(
+            &generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope),
+            shift_function,
+            &format!("{} as u32", generate_operand(op2, type_generator, scope)),
+        );
+    }
     format!(
         "{} {} {}",
         generate_operand(expression.operand1.as_ref().unwrap(), type_generator, scope),
-- 
2.43.0


From dffe51da769c791d0553f6249902b5c271f3bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 33/36] fix: calculations mixing integer operations and floats
 do not compile

---
 .../zserio-rs-build/src/internal/generator/expression.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 5ca0961..4358843 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -117,9 +117,12 @@ fn generate_operand_of_type(
         ExpressionType::Integer(_) => "i128",
         _ => "f64",
     };
-    let generated_code = generate_expression(expression, type_generator, scope);
-    if expression_rust_type == rust_type && is_operation(expression) {
-        return format!("({})", generated_code);
+    let mut generated_code = generate_expression(expression, type_generator, scope);
+    if is_operation(expression) {
+        generated_code = format!("({})", generated_code);
+        if expression_rust_type == rust_type {
+            return generated_code;
+        }
     }
     if expression_rust_type == rust_type && is_literal(expression) {
         return format!("{}_{}", generated_code, rust_type);
-- 
2.43.0


From e3f14dc55ea44b0f30df353517c3b758ad7f6a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 34/36] fix: items of bitmasks and enums in constant
 expressions are not evaluated

---
 .../src/internal/ast/expression.rs            | 110 +++++++++++++++---
 .../src/internal/ast/zbitmask.rs              |  47 ++++++--
 .../src/internal/compiler/symbol_scope.rs     |   1 +
 3 files changed, 131 insertions(+), 27 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 760234d..e3d9160 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -104,11 +104,11 @@ impl Expression {
             RPAREN => self.evaluate_function_call_expression(scope),
             LBRACKET => self.evaluate_array_element(scope),
             DOT => self.evaluate_dot_expression(scope),
-            ISSET => self.evaluate_isset_expression(),
+            ISSET => self.evaluate_isset_expression(scope),
             LENGTHOF => self.evaluate_lengthof_operator(),
             VALUEOF => self.evaluate_valueof_operator(scope),
             NUMBITS => self.evaluate_numbits_operator(),
-            EQ | GE | GT | LE | LT | NE => self.evaluate_comparison_expression(),
+            EQ | GE | GT | LE | LT | NE => self.evaluate_comparison_expression(scope),
             PLUS | MINUS | MULTIPLY | DIVIDE | MODULO => self.evaluate_arithmetic_expression(),
             BANG => self.evaluate_logical_negation(),
             TILDE => self.evaluate_bitwise_negation(),
@@ -220,9 +220,16 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match &op1.result_type {
                 ExpressionType::BitMask(z_bitmask) => {
-                    for bitmask_value in &z_bitmask.as_ref().borrow().values {
+                    for (index, bitmask_value) in
+                        z_bitmask.as_ref().borrow().values.iter().enumerate()
+                    {
                         if bitmask_value.name == op2.text {
                             self.result_type = ExpressionType::BitMask(z_bitmask.clone());
+                            self.symbol = Some(SymbolReference {
+                                symbol: Symbol::BitmaskItem(z_bitmask.clone(), index),
+                                name: bitmask_value.name.clone(),
+                                package: op1.symbol.as_ref().unwrap().package.clone(),
+                            });
                             self.fully_resolved = false;
                             return;
                         }
@@ -294,12 +301,16 @@ impl Expression {
         self.native_type = Some(TypeReference::new_native_type("varsize"));
     }
 
-    fn evaluate_isset_expression(&mut self) {
+    fn evaluate_isset_expression(&mut self, scope: &mut ModelScope) {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::BitMask(_), ExpressionType::BitMask(_)) => {
-                    self.result_type = ExpressionType::Bool(false);
-                    self.fully_resolved = false;
+                    let values = (op1.bitmask_value(scope), op2.bitmask_value(scope));
+                    self.fully_resolved = matches!(values, (Some(_), Some(_)));
+                    self.result_type = ExpressionType::Bool(match values {
+                        (Some(value1), Some(value2)) => value1 & value2 != 0,
+                        _ => false,
+                    });
                 }
                 _ => panic!(
                     "the isset(bitmask, value_to_check) expression requires two bitmask parameters"
@@ -316,6 +327,10 @@ impl Expression {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
                     self.native_type = Some(*bitmask.as_ref().borrow().zserio_type.clone());
+                    if let Some(value) = op1.bitmask_value(scope) {
+                        self.result_type = ExpressionType::Integer(value as i128);
+                        self.fully_resolved = true;
+                    }
                 },
                 ExpressionType::Enum(zenum) => {
                     self.result_type = ExpressionType::Integer(0);
@@ -334,6 +349,55 @@ impl Expression {
         }
     }
 
+    /// The value of a bitmask expression, if it can be evaluated without the values of fields.
+    fn bitmask_value(&self, scope: &mut ModelScope) -> Option<u64> {
+        let operand_value = |operand: &Option<Box<Expression>>, scope: &mut ModelScope| {
+            operand.as_ref().unwrap().bitmask_value(scope)
+        };
+        match self.expression_type {
+            LPAREN => operand_value(&self.operand1, scope),
+            AND | OR | XOR => {
+                let value1 = operand_value(&self.operand1, scope)?;
+                let value2 = operand_value(&self.operand2, scope)?;
+                Some(match self.expression_type {
+                    AND => value1 & value2,
+                    OR => value1 | value2,
+                    _ => value1 ^ value2,
+                })
+            }
+            ID | DOT => match self.symbol.as_ref() {
+                Some(SymbolReference {
+                    symbol: Symbol::BitmaskItem(z_bitmask, index),
+                    package,
+                    ..
+                }) => Some(
+                    z_bitmask
+                        .as_ref()
+                        .borrow()
+                        .item_value(*index, package, scope),
+                ),
+                _ => None,
+            },
+            _ => None,
+        }
+    }
+
+    /// The value of a bitmask or enum expression, if it is known.
+    fn item_value(&self, scope: &mut ModelScope) -> Option<i128> {
+        match (&self.result_type, &self.symbol) {
+            (ExpressionType::BitMask(_), _) => self.bitmask_value(scope).map(|value| value as i128),
+            (
+                ExpressionType::Enum(_),
+                Some(SymbolReference {
+                    symbol: Symbol::EnumItem(z_enum, index),
+                    package,
+                    ..
+                }),
+            ) => Some(z_enum.as_ref().borrow().item_value(*index, package, scope)),
+            _ => None,
+        }
+    }
+
     fn evaluate_numbits_operator(&mut self) {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
@@ -409,7 +473,7 @@ impl Expression {
         })
     }
 
-    fn evaluate_comparison_expression(&mut self) {
+    fn evaluate_comparison_expression(&mut self, scope: &mut ModelScope) {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => {
                 self.native_type = Some(TypeReference::new_native_type("bool"));
@@ -448,12 +512,15 @@ impl Expression {
                             panic!("comparison expression can only be applied to integer, float, or string types, but the provided types are {:?} and {:?}", &op1.result_type, &op2.result_type);
                         }
 
-                        // TODO it may be needed to evaluate equal/nonequal comparisons
-                        // during compile time. For the time being, we set the output to
-                        // not resolved, so that the code generator will re-generate the
-                        // same expression in the rust code.
-                        self.result_type = ExpressionType::Bool(false);
-                        self.fully_resolved = false;
+                        // Items of bitmasks and enums can be compared during compile time.
+                        // Otherwise, we set the output to not resolved, so that the code
+                        // generator will re-generate the same expression in the rust code.
+                        let values = (op1.item_value(scope), op2.item_value(scope));
+                        self.fully_resolved = matches!(values, (Some(_), Some(_)));
+                        self.result_type = ExpressionType::Bool(
+                            self.fully_resolved
+                                && (values.0 == values.1) == (self.expression_type == EQ),
+                        );
                     }
                 }
             }
@@ -642,9 +709,16 @@ impl Expression {
                     }
                     _ => (),
                 }
-                self.symbol.clone_from(&result.symbol);
-                self.fully_resolved =
-                    self.operand1.as_ref().unwrap().fully_resolved && result.fully_resolved;
+                let condition_resolved = self.operand1.as_ref().unwrap().fully_resolved;
+                self.symbol = match &result.symbol {
+                    // Without the value of the condition, it is not known which item is selected.
+                    Some(SymbolReference {
+                        symbol: Symbol::EnumItem(..),
+                        ..
+                    }) if !condition_resolved => None,
+                    symbol => symbol.clone(),
+                };
+                self.fully_resolved = condition_resolved && result.fully_resolved;
             }
             _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", self.operand1.as_ref().unwrap()),
         }
@@ -722,7 +796,9 @@ fn symbol_to_expression_type(
         Symbol::Const(z_const) => {
             type_reference_to_expression_type(&z_const.as_ref().borrow().zserio_type, scope)
         }
-        Symbol::Bitmask(z_bitmask) => (ExpressionType::BitMask(z_bitmask.clone()), None),
+        Symbol::Bitmask(z_bitmask) | Symbol::BitmaskItem(z_bitmask, _) => {
+            (ExpressionType::BitMask(z_bitmask.clone()), None)
+        }
         Symbol::Union(_) => (ExpressionType::Compound, None),
         Symbol::Struct(_) => (ExpressionType::Compound, None),
         Symbol::Choice(_) => (ExpressionType::Compound, None),
diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index bcb0933..7fbf91a 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -1,6 +1,6 @@
 use super::type_reference::TypeReference;
 use crate::internal::ast::expression::{Expression, ExpressionType};
-use crate::internal::compiler::symbol_scope::{ModelScope, PackageScope, Symbol};
+use crate::internal::compiler::symbol_scope::{ModelScope, PackageScope, ScopeLocation, Symbol};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -36,28 +36,55 @@ pub struct ZBitmaskType {
 impl ZBitmaskType {
     /// Evaluates all expressions within this bitmask type.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
-        let mut bitmask_value = 1u64;
         for value in &mut self.values {
             // Check if the bitmask value has a value hard-coded.
-            // If yes, use the value from the expression.
-            if let Some(value_expression_rc) = &mut value.value_expression {
-                let mut value_expression = value_expression_rc.as_ref().borrow_mut();
+            if let Some(value_expression) = &mut value.value_expression {
+                value_expression.as_ref().borrow_mut().evaluate(scope);
+            }
+        }
+        let bitmask_values = self.item_values(self.values.len());
+        for (value, bitmask_value) in self.values.iter_mut().zip(bitmask_values) {
+            value.value = bitmask_value;
+        }
+        self.zserio_type.evaluate(scope);
+    }
 
-                value_expression.evaluate(scope);
-                let expr_bitmask_value = match value_expression.result_type {
+    /// The value of an item, of a bitmask declared in the given package.
+    pub fn item_value(&self, index: usize, package: &str, scope: &mut ModelScope) -> u64 {
+        scope.scope_stack.push(ScopeLocation {
+            package: package.into(),
+            import_symbol: None,
+            symbol_name: Option::from(self.name.clone()),
+        });
+        for value in &self.values[..=index] {
+            if let Some(value_expression) = &value.value_expression {
+                value_expression.as_ref().borrow_mut().evaluate(scope);
+            }
+        }
+        scope.scope_stack.pop();
+        self.item_values(index + 1)[index]
+    }
+
+    /// The values of the first items. Their expressions need to be evaluated before.
+    fn item_values(&self, count: usize) -> Vec<u64> {
+        let mut bitmask_value = 1u64;
+        let mut values = vec![];
+        for value in &self.values[..count] {
+            // If there is an expression, use the value from the expression.
+            if let Some(value_expression) = &value.value_expression {
+                bitmask_value = match value_expression.as_ref().borrow().result_type {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
                 };
-                bitmask_value = expr_bitmask_value;
             }
-            value.value = bitmask_value;
+            values.push(bitmask_value);
 
             // Pick the next higher unused bit for the next bitmask value.
             bitmask_value = 1u64
                 .checked_shl(64 - bitmask_value.leading_zeros())
                 .unwrap_or(0);
         }
-        self.zserio_type.evaluate(scope);
+        values
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 8b9226f..e2ae3c3 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -30,6 +30,7 @@ pub enum Symbol {
     Subtype(Rc<RefCell<Subtype>>),
     Const(Rc<RefCell<ZConst>>),
     Bitmask(Rc<RefCell<ZBitmaskType>>),
+    BitmaskItem(Rc<RefCell<ZBitmaskType>>, usize),
     Field(Rc<RefCell<Field>>),
     Parameter(Rc<RefCell<Parameter>>),
     Function(Rc<RefCell<ZFunction>>),
-- 
2.43.0


From f3ec3c11d5fe69cc9a03aed06eb8719290fd2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 35/36] fix: fields absent in the decoded data keep their
 earlier value

---
 crates/zserio-rs-build/src/internal/generator/decode.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index e46b870..b0d2f97 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -398,5 +398,14 @@ pub fn decode_field(
         function.line("}");
     }
 
+    if field.optional_clause.is_some() {
+        // An absent field must not keep a value which was decoded before.
+        function.line("} else {");
+        function.line(format!(
+            "self.{} = Default::default();",
+            field_details.field_name
+        ));
+    }
+
     function.line("}");
 }
-- 
2.43.0


From 17df7ec9685a39ef61fc419ad395ae746c9a1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 36/36] fix: expressions with optional fields do not compile

---
 .../src/internal/generator/expression.rs       | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 4358843..7affe1f 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -1,6 +1,7 @@
 use crate::internal::ast::expression::{
     EvaluationState, Expression, ExpressionFlag, ExpressionType,
 };
+use crate::internal::ast::field::Field;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
 use crate::internal::generator::types::{convert_to_enum_field_name, TypeGenerator};
@@ -303,12 +304,24 @@ fn generate_dot_expression(
                 }
                 _ => panic!("failed to generate right side of field dot expression"),
             };
-            format!("{}.{}", &left_operand, right_side,)
+            let optional_value = match &expression.symbol.as_ref().unwrap().symbol {
+                Symbol::Field(field) => generate_optional_value(&field.borrow()),
+                _ => "",
+            };
+            format!("{}.{}{}", &left_operand, right_side, optional_value)
         }
         _ => panic!("unsupported dot expression {:?}", op1),
     }
 }
 
+/// Optional fields are calculated with their default value if they are not present.
+fn generate_optional_value(field: &Field) -> &'static str {
+    match field.is_optional {
+        true => ".clone().unwrap_or_default()",
+        false => "",
+    }
+}
+
 fn generate_isset_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -374,8 +387,9 @@ fn generate_identifier_expression(
     match &symbol_ref.symbol {
         Symbol::Field(f) => {
             return format!(
-                "self.{}",
+                "self.{}{}",
                 TypeGenerator::convert_field_name(&f.borrow().name),
+                generate_optional_value(&f.borrow()),
             );
         }
         Symbol::Parameter(p) => {
-- 
2.43.0

