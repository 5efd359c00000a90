From 958a58b0ff5fcc4f0b97f9e90a14bbe38967ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 01/25] fix: propagate I/O errors when reading whole bytes in
 read_bits_into

Errors other than UnexpectedEof were ignored in the byte loops, and the byte
that could not be read was taken to be zero.
---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index fe3217d..28e6e28 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -313,6 +313,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
@@ -326,6 +327,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
-- 
2.43.0


From 0ed55bb7b764c2c329800f68d911121043756a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 02/25] fix: do not make up a byte in Reader::end when the
 stream fails

A read error other than UnexpectedEof left a zero byte in the buffer, which the
next read then returned as data.
---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 28e6e28..5cdb12e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -162,6 +162,10 @@ impl<R: Read + Seek> Reader<R> {
                     log::trace!("end");
                     return true;
                 }
+
+                // Nothing was read: report "not end" without buffering a byte, so
+                // that the next read returns the error.
+                return false;
             }
 
             #[cfg(feature = "logging")]
-- 
2.43.0


From 3a77d6c4556b03291ac6288d9ae68d708d4197e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 03/25] fix: account for buffered bits and byte when skipping
 in Reader::skip_bits

---
 src/reader.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5cdb12e..e25b362 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -195,16 +195,25 @@ impl<R: Read + Seek> Reader<R> {
                 self.read_bits_into(&mut buf[..needed], _order)?;
             }
 
+            // A whole byte buffered by `end` is the next byte to skip
+            if amt >= 8 && matches!(self.leftover, Some(Leftover::Byte(_))) {
+                self.leftover = None;
+                self.bits_read += 8;
+                amt -= 8;
+            }
+
             let bytes_amt = amt / 8;
             let bits_amt = amt % 8;
 
             // first, seek with bytes
             if bytes_amt != 0 {
-                debug_assert_eq!(self.bits_read % 8, 0);
-                self.seek(SeekFrom::Current(
-                    i64::try_from(bytes_amt).expect("could not convert seek usize into i64"),
-                ))
-                .map_err(|e| DekuError::Io(e.kind()))?;
+                let seek_amt = i64::try_from(bytes_amt).map_err(|_| {
+                    DekuError::Incomplete(NeedSize::new(amt))
+                })?;
+                self.inner
+                    .seek(SeekFrom::Current(seek_amt))
+                    .map_err(|e| DekuError::Io(e.kind()))?;
+                self.bits_read += bytes_amt * 8;
             }
 
             // Save, and keep the leftover bits since the read will most likely be less than a byte
-- 
2.43.0


From d37f958223c685d5f348e8cdd282d26ebe9bb4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 04/25] fix: zero-bit reads and writes no longer panic

---
 src/impls/primitive.rs | 9 +++++++++
 src/reader.rs          | 3 +++
 src/writer.rs          | 7 +++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8ab9e29..86adbc3 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -397,6 +397,9 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 // Fast path: big-endian, and `Order::default()` is Msb0. Reads the
                 // field straight into an integer, with no `BitSlice` in between.
                 if !endian.is_le() && size.0 > 0 && size.0 <= 64 {
@@ -429,6 +432,9 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 // Fast path: big-endian, Msb0. See the `(Endian, BitSize)` impl above.
                 if !endian.is_le() && order == Order::Msb0 && size.0 > 0 && size.0 <= 64 {
                     let value = reader.read_bits_uint_msb0(size.0)? as $inner;
@@ -623,6 +629,9 @@ macro_rules! ImplDekuReadSignExtend {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 let mut bits = ::bitvec::array::BitArray::<[u8; { MAX_TYPE_BITS / 8 }], Msb0>::new(
                     [0; { MAX_TYPE_BITS / 8 }],
                 );
diff --git a/src/reader.rs b/src/reader.rs
index e25b362..b64e554 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -544,6 +544,9 @@ impl<R: Read + Seek> Reader<R> {
         byte: u8,
         amt: usize,
     ) -> Result<ReaderRet, DekuError> {
+        if amt == 0 {
+            return Ok(ReaderRet::Bytes);
+        }
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
diff --git a/src/writer.rs b/src/writer.rs
index 0a6c641..23b0713 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -62,7 +62,7 @@ impl<W: Write + Seek> Writer<W> {
         self.leftover.0.as_bitslice().iter().by_vals().collect()
     }
 
-    /// Writes the low `amt` bits (`1..=64`) of `value`, most-significant-bit
+    /// Writes the low `amt` bits (`0..=64`) of `value`, most-significant-bit
     /// first. The integer mirror of `Reader::read_bits_uint_msb0`.
     ///
     /// Only valid when the pending leftover is `Msb0`; the caller checks that.
@@ -73,8 +73,11 @@ impl<W: Write + Seek> Writer<W> {
     #[inline]
     #[cfg(feature = "bits")]
     pub(crate) fn write_bits_uint_msb0(&mut self, value: u64, amt: usize) -> Result<(), DekuError> {
-        debug_assert!((1..=64).contains(&amt));
+        debug_assert!(amt <= 64);
         debug_assert_eq!(self.leftover.1, Order::Msb0);
+        if amt == 0 {
+            return Ok(());
+        }
 
         let (lead, lead_len) = self.leftover.0.as_msb0_byte();
         // Leftover bits first, then the value's low `amt` bits: at most 7 + 64.
-- 
2.43.0


From f365661b3fbbf1bc0deb2b302a3af306bfa50804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 05/25] fix: relative seek from a Reader that buffered a byte

---
 src/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index b64e554..4d02d39 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -48,6 +48,14 @@ impl<R: Read + Seek> Seek for Reader<R> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
+        // A byte buffered by `end` has left the inner reader, but is still to be read
+        let pos = match (pos, &self.leftover) {
+            (SeekFrom::Current(n), Some(Leftover::Byte(_))) => {
+                SeekFrom::Current(n.saturating_sub(1))
+            }
+            (pos, _) => pos,
+        };
+
         // clear leftover
         self.leftover = None;
 
-- 
2.43.0


From 4f6973b9ea4a0d0417f6350592007ec28156fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 06/25] fix: read counted Vec<u8> through the reader, in field
 bit order and without seeking

---
 src/impls/vec.rs | 55 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 4140ae7..907620c 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -5,7 +5,7 @@ use no_std_io::io::{Read, Seek, SeekFrom, Write};
 use alloc::vec::Vec;
 
 use crate::error::NeedSize;
-use crate::reader::Reader;
+use crate::reader::{Leftover, Reader};
 use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
 use crate::{DekuError, DekuWriter};
@@ -18,26 +18,45 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
     where
         Self: Sized,
     {
-        // Check remaining bytes via the inner reader before allocating,
-        // so a bogus count from untrusted input doesn't cause a huge
-        // allocation that will immediately fail on read.
+        // Check remaining bytes via the inner reader, if it can seek, so a bogus
+        // count from untrusted input fails before anything is read.
+        let buffered: u64 = match &reader.leftover {
+            Some(Leftover::Byte(_)) => 1,
+            _ => 0,
+        };
         let inner = reader.as_mut();
-        let pos = inner
-            .stream_position()
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        let end = inner
-            .seek(SeekFrom::End(0))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        inner
-            .seek(SeekFrom::Start(pos))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-
-        if (end - pos) < exact.0 as u64 {
-            return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
+        if let Ok(pos) = inner.stream_position() {
+            if let Ok(end) = inner.seek(SeekFrom::End(0)) {
+                inner
+                    .seek(SeekFrom::Start(pos))
+                    .map_err(|e| DekuError::Io(e.kind()))?;
+
+                if end.saturating_sub(pos).saturating_add(buffered) < exact.0 as u64 {
+                    return Err(DekuError::Incomplete(NeedSize::new(
+                        exact.0.saturating_mul(8),
+                    )));
+                }
+            }
         }
 
-        let mut bytes = alloc::vec![0x00; exact.0];
-        let _ = reader.read_bytes(exact.0, &mut bytes, Order::Lsb0)?;
+        // Read in chunks and allocate only for bytes that are there, for inputs
+        // whose end is not known.
+        const CHUNK: usize = 1024;
+        let mut chunk = [0x00; CHUNK];
+
+        let mut bytes = Vec::new();
+        while bytes.len() < exact.0 {
+            let amt = core::cmp::min(exact.0 - bytes.len(), CHUNK);
+            match reader.read_bytes(amt, &mut chunk, Order::default()) {
+                Ok(_) => bytes.extend_from_slice(&chunk[..amt]),
+                Err(DekuError::Incomplete(_)) => {
+                    return Err(DekuError::Incomplete(NeedSize::new(
+                        exact.0.saturating_mul(8),
+                    )));
+                }
+                Err(e) => return Err(e),
+            }
+        }
         Ok(bytes)
     }
 }
-- 
2.43.0


From 14e1db7ef005a34a715bc7cb9afc0c4225621fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 07/25] fix: byte limits of collections no longer overflow

---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 9ebff2e..e046233 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -155,7 +155,7 @@ where
 
             // Read until a given quantity of byte bits have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashmap
                 if bit_size == 0 {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index bd9ba58..d888a8a 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -140,7 +140,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashset
                 if bit_size == 0 {
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 907620c..87db5f1 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -177,7 +177,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty vector
                 if bit_size == 0 {
-- 
2.43.0


From e6921f52764ff874d7cee7733f6ab5405ef725a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 08/25] fix: an untrusted count no longer decides how much a
 collection allocates up front

---
 src/impls/hashmap.rs | 10 ++++++++--
 src/impls/hashset.rs | 10 ++++++++--
 src/impls/mod.rs     |  9 +++++++++
 src/impls/vec.rs     |  4 ++--
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index e046233..89a2fd4 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -28,7 +28,10 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &(K, V)) -> bool,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashMap::with_capacity_and_hasher(
+        super::cautious_capacity::<(K, V)>(capacity),
+        S::default(),
+    );
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -53,7 +56,10 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashMap::with_capacity_and_hasher(
+        super::cautious_capacity::<(K, V)>(capacity),
+        S::default(),
+    );
 
     loop {
         if reader.end() {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index d888a8a..bf3256f 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -27,7 +27,10 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashSet::with_capacity_and_hasher(
+        super::cautious_capacity::<T>(capacity),
+        S::default(),
+    );
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -51,7 +54,10 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashSet::with_capacity_and_hasher(
+        super::cautious_capacity::<T>(capacity),
+        S::default(),
+    );
 
     loop {
         if reader.end() {
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6b9905a..fff73b8 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -27,3 +27,12 @@ mod hashset;
 
 #[cfg(feature = "alloc")]
 mod boxed;
+
+/// Capacity to allocate up front for a collection of `T`: the requested one, but not more
+/// than 1 MiB, since the request may come from untrusted input.
+#[cfg(feature = "alloc")]
+fn cautious_capacity<T>(capacity: Option<usize>) -> usize {
+    const MAX_BYTES: usize = 1024 * 1024;
+    let max = MAX_BYTES / core::cmp::max(core::mem::size_of::<T>(), 1);
+    core::cmp::min(capacity.unwrap_or(0), max)
+}
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 87db5f1..658650c 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -84,7 +84,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(super::cautious_capacity::<T>(capacity));
 
     let start_read = reader.bits_read;
 
@@ -116,7 +116,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(super::cautious_capacity::<T>(capacity));
     loop {
         if reader.end() {
             break;
-- 
2.43.0


From 132a98ddf833dfae9e33697356808f03d3c83b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 09/25] fix: counted Vec<u8> honours the element size, bit
 order and context

---
 deku-derive/src/macros/deku_read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 89d3839..58bf695 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -817,7 +817,16 @@ fn emit_field_read(
         } else if let Some(field_count) = &f.count {
             use syn::{GenericArgument, PathArguments, Type};
             let mut is_vec_u8 = false;
-            if let Type::Path(type_path) = &f.ty {
+            // `ReadExact` reads plain bytes, which the element arguments could change
+            #[cfg(feature = "bits")]
+            let has_bits = f.bits.is_some();
+            #[cfg(not(feature = "bits"))]
+            let has_bits = false;
+            let plain_elements = !has_bits
+                && f.bytes.is_none()
+                && f.ctx.is_none()
+                && field_bit_order.is_none();
+            if let (true, Type::Path(type_path)) = (plain_elements, &f.ty) {
                 if type_path.path.segments.len() == 1 && type_path.path.segments[0].ident == "Vec" {
                     if let PathArguments::AngleBracketed(ref generic_args) =
                         type_path.path.segments[0].arguments
-- 
2.43.0


From d2a54c64d6b32096e498db51a5cd88ac47291f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 10/25] fix: sign-extend signed integers read with a byte size

---
 src/impls/primitive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 86adbc3..be7e827 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -683,7 +683,11 @@ macro_rules! ImplDekuReadSignExtend {
                         return Err(deku_error!(DekuError::Parse, "no bits read from reader"));
                     }
                 };
-                Ok(a)
+                if size.0 == 0 {
+                    return Ok(a);
+                }
+                let shift = (MAX_TYPE_BYTES - size.0) * 8;
+                Ok(a << shift >> shift)
             }
         }
     };
-- 
2.43.0


From 38b666ffadf904241ab53a40e1e1c753bd738bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 11/25] fix: a seek position that does not fit is an error, not
 a panic

---
 deku-derive/src/macros/deku_read.rs  | 12 ++++++------
 deku-derive/src/macros/deku_write.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 58bf695..79a9117 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,7 +48,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -59,7 +59,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -70,7 +70,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -685,7 +685,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -695,7 +695,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -705,7 +705,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 461c5e8..60b34a5 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,7 +38,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -49,7 +49,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -60,7 +60,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -653,7 +653,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -663,7 +663,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -673,7 +673,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
-- 
2.43.0


From 5a2aa9595ab2ba78185aa7e888eed5fbefb1b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 12/25] fix: NoSeek without std reports an unsupported seek
 instead of panicking

---
 src/noseek.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/noseek.rs b/src/noseek.rs
index 84e222f..16831f1 100644
--- a/src/noseek.rs
+++ b/src/noseek.rs
@@ -47,7 +47,10 @@ impl<T> Seek for NoSeek<T> {
             #[cfg(feature = "std")]
             _ => Err(std::io::Error::other("seek on unseekable file")),
             #[cfg(not(feature = "std"))]
-            _ => panic!("seek on unseekable file"),
+            _ => Err(crate::no_std_io::Error::new(
+                crate::no_std_io::ErrorKind::Other,
+                "seek on unseekable file",
+            )),
         }
     }
 
-- 
2.43.0


From fca092659e5da816fbb50e7ca731713b6020f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 13/25] fix: write big-endian Lsb0 bit fields as they are read

---
 src/impls/primitive.rs | 55 +++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index be7e827..8009ecf 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -868,39 +868,34 @@ macro_rules! ImplDekuWrite {
                         }
                     }
                     (Endian::Big, Order::Lsb0) => {
-                        const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                        if let Some(first) = input_bits.first_one() {
-                            let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
-                                    bit_size
-                                ));
-                            }
+                        // The reader takes whole bytes, the most significant one first,
+                        // so only the last (least significant) byte can be a short one.
+                        let (unused, used) = input.split_at(input.len() - bit_size.div_ceil(8));
+                        let short = bit_size % 8;
+                        if unused.iter().any(|b| *b != 0)
+                            || (short != 0 && used[used.len() - 1] >> short != 0)
+                        {
+                            return Err(deku_error!(
+                                DekuError::InvalidParam,
+                                "bit size of input is larger than requested size",
+                                "{} exceeds {}",
+                                input_bits.len() - input_bits.leading_zeros(),
+                                bit_size
+                            ));
                         }
 
-                        if bit_size <= 8 {
-                            writer.write_bits_order(
-                                &input_bits[input_bits.len() - bit_size..],
-                                order,
-                            )?;
-                        } else {
-                            let mut remaining_bits = bit_size;
-                            for chunk in input_bits.chunks(8) {
-                                if chunk.len() > remaining_bits {
-                                    writer.write_bits_order(
-                                        &chunk[chunk.len() - remaining_bits..],
-                                        order,
-                                    )?;
-                                    break;
-                                } else {
-                                    writer.write_bits_order(&chunk, order)?;
-                                }
-                                remaining_bits -= chunk.len();
+                        let mut remaining_bits = bit_size;
+                        for chunk in used.view_bits::<Msb0>().chunks(8) {
+                            if chunk.len() > remaining_bits {
+                                writer.write_bits_order(
+                                    &chunk[chunk.len() - remaining_bits..],
+                                    order,
+                                )?;
+                                break;
+                            } else {
+                                writer.write_bits_order(&chunk, order)?;
                             }
+                            remaining_bits -= chunk.len();
                         }
                     }
                     (Endian::Big, Order::Msb0) => {
-- 
2.43.0


From dfd1336546d5873d98689319a6517a4b5ca0ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 14/25] fix: write negative numbers in bit fields that have a
 bit order

---
 src/impls/primitive.rs | 53 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8009ecf..cc7784d 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -162,6 +162,46 @@ impl DekuWriter<(Endian, ByteSize)> for u8 {
     }
 }
 
+/// Width of the value that a field of `size` bits holds: big-endian Lsb0 fields of more
+/// than a byte are made of whole bytes, of which the least significant one may be short.
+#[cfg(feature = "bits")]
+#[inline]
+fn value_width(endian: Endian, size: BitSize, order: Order) -> usize {
+    if !endian.is_le() && order == Order::Lsb0 && size.0 > 8 {
+        size.0.div_ceil(8) * 8
+    } else {
+        size.0
+    }
+}
+
+/// The bits that stand for a value in a field: for a signed value without its sign
+/// extension, which reading restores.
+#[cfg(feature = "bits")]
+macro_rules! FieldBits {
+    ($typ:ty, $value:expr, $width:expr, Unsigned) => {
+        $value
+    };
+    ($typ:ty, $value:expr, $width:expr, Signed) => {{
+        const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
+        let (value, width): ($typ, usize) = ($value, $width);
+        if width == 0 || width >= MAX_TYPE_BITS {
+            value
+        } else {
+            let shift = MAX_TYPE_BITS - width;
+            if value << shift >> shift != value {
+                return Err(deku_error!(
+                    DekuError::InvalidParam,
+                    "bit size of input is larger than requested size",
+                    "{} does not fit in {} bits",
+                    value,
+                    width
+                ));
+            }
+            value & !(-1 << width)
+        }
+    }};
+}
+
 macro_rules! ImplDekuReadBits {
     ($typ:ty, $inner:ty) => {
         #[cfg(feature = "bits")]
@@ -558,8 +598,7 @@ macro_rules! ImplDekuReadSignExtend {
                 )?;
 
                 const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                let bit_size = size.0;
-                let shift = MAX_TYPE_BITS - bit_size;
+                let shift = MAX_TYPE_BITS - value_width(endian, size, order);
                 let value = (value as $typ) << shift >> shift;
                 Ok((amt_read, value))
             }
@@ -817,9 +856,15 @@ macro_rules! ImplDekuWrite {
                 writer: &mut Writer<W>,
                 (endian, size, order): (Endian, BitSize, Order),
             ) -> Result<(), DekuError> {
+                let value = FieldBits!(
+                    $typ,
+                    *self,
+                    value_width(endian, size, order),
+                    $signed_type
+                );
                 let input = match endian {
-                    Endian::Little => self.to_le_bytes(),
-                    Endian::Big => self.to_be_bytes(),
+                    Endian::Little => value.to_le_bytes(),
+                    Endian::Big => value.to_be_bytes(),
                 };
 
                 let bit_size: usize = size.0;
-- 
2.43.0


From 38cbcfbcfe36004b6cf8c808b514a30c3920ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 15/25] fix: byte-sized integers in the middle of an Lsb0 byte
 are written in that order

---
 src/impls/primitive.rs | 17 ++++++++---------
 src/writer.rs          | 20 ++++++++++++++++++++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index cc7784d..35cb966 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -140,10 +140,10 @@ impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, _): (Endian, ByteSize, Order),
+        (_, _, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
+        writer.write_bytes_order(&input, order)?;
         Ok(())
     }
 }
@@ -1007,12 +1007,12 @@ macro_rules! ImplDekuWrite {
 
         ImplDekuWriteDetails!($typ, $signed_type);
 
-        impl DekuWriter<(Endian, ByteSize)> for $typ {
+        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
             #[inline(always)]
             fn to_writer<W: Write + Seek>(
                 &self,
                 writer: &mut Writer<W>,
-                (endian, size): (Endian, ByteSize),
+                (endian, size, order): (Endian, ByteSize, Order),
             ) -> Result<(), DekuError> {
                 let input = match endian {
                     Endian::Little => self.to_le_bytes(),
@@ -1036,20 +1036,19 @@ macro_rules! ImplDekuWrite {
                     &input[..size.0 as usize]
                 };
 
-                writer.write_bytes(&input)?;
+                writer.write_bytes_order(&input, order)?;
                 Ok(())
             }
         }
 
-        /// When using Endian and ByteSize, Order is not used
-        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
+        impl DekuWriter<(Endian, ByteSize)> for $typ {
             #[inline]
             fn to_writer<W: Write + Seek>(
                 &self,
                 writer: &mut Writer<W>,
-                (endian, size, _order): (Endian, ByteSize, Order),
+                (endian, size): (Endian, ByteSize),
             ) -> Result<(), DekuError> {
-                <$typ>::to_writer(self, writer, (endian, size))
+                <$typ>::to_writer(self, writer, (endian, size, Order::default()))
             }
         }
     };
diff --git a/src/writer.rs b/src/writer.rs
index 23b0713..301c02c 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -401,6 +401,26 @@ impl<W: Write + Seek> Writer<W> {
         Ok(())
     }
 
+    /// Write `buf` into `Writer`, continuing a byte that was started in `Lsb0` order in that order
+    #[inline(always)]
+    pub(crate) fn write_bytes_order(
+        &mut self,
+        buf: &[u8],
+        order: crate::ctx::Order,
+    ) -> Result<(), DekuError> {
+        #[cfg(feature = "bits")]
+        if order == Order::Lsb0 && self.leftover.1 == Order::Lsb0 && !self.leftover.0.is_empty() {
+            for byte in buf.chunks(1) {
+                self.write_bits_order(BitSlice::from_slice(byte), order)?;
+            }
+            return Ok(());
+        }
+
+        #[cfg(not(feature = "bits"))]
+        let _ = order;
+        self.write_bytes(buf)
+    }
+
     /// Write all remaining bits into `Writer`, adding empty bits to the end so that we can write
     /// into a byte buffer
     #[inline]
-- 
2.43.0


From 3673edc57800dbd6d3f6d3acca411b811f9b46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 16/25] fix: u8 honours its byte size

---
 src/impls/primitive.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 35cb966..2a20474 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -51,9 +51,21 @@ impl DekuReader<'_, (Endian, ByteSize, Order)> for u8 {
     #[inline(always)]
     fn from_reader_with_ctx<R: Read + Seek>(
         reader: &mut Reader<R>,
-        (_endian, _size, order): (Endian, ByteSize, Order),
+        (_endian, size, order): (Endian, ByteSize, Order),
     ) -> Result<u8, DekuError> {
         const MAX_TYPE_BYTES: usize = core::mem::size_of::<u8>();
+        if size.0 > MAX_TYPE_BYTES {
+            return Err(deku_error!(
+                DekuError::Parse,
+                "too much data",
+                "container of {} bytes cannot hold {} bytes",
+                MAX_TYPE_BYTES,
+                size.0
+            ));
+        }
+        if size.0 == 0 {
+            return Ok(0);
+        }
         let mut buf = [0; MAX_TYPE_BYTES];
         reader.read_bytes_const_into::<MAX_TYPE_BYTES>(&mut buf, order)?;
         Ok(<u8>::from_be_bytes(buf))
@@ -135,30 +147,38 @@ impl DekuWriter<(Endian, BitSize, Order)> for u8 {
 }
 
 impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
-    /// Ignore endian and byte_size, as this is a `u8`
+    /// Ignore endian, as this is a `u8`
     #[inline(always)]
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, order): (Endian, ByteSize, Order),
+        (_, size, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
+        const TYPE_SIZE: usize = core::mem::size_of::<u8>();
+        if size.0 > TYPE_SIZE {
+            return Err(deku_error!(
+                DekuError::InvalidParam,
+                "byte size is larger than input",
+                "{} exceeds {}",
+                size.0,
+                TYPE_SIZE
+            ));
+        }
         let input = self.to_le_bytes();
-        writer.write_bytes_order(&input, order)?;
+        writer.write_bytes_order(&input[..size.0], order)?;
         Ok(())
     }
 }
 
 impl DekuWriter<(Endian, ByteSize)> for u8 {
-    /// Ignore endian and byte_size, as this is a `u8`
+    /// Ignore endian, as this is a `u8`
     #[inline(always)]
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _): (Endian, ByteSize),
+        (endian, size): (Endian, ByteSize),
     ) -> Result<(), DekuError> {
-        let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
-        Ok(())
+        <u8>::to_writer(self, writer, (endian, size, Order::default()))
     }
 }
 
-- 
2.43.0


From 68a7a96fe0ee6d982dffd958fb4e87b3c4a0982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 17/25] fix: skip the bits before a starting offset in the
 container's bit order

---
 deku-derive/src/macros/deku_read.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 79a9117..75ee1f1 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -112,12 +112,13 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
 
     // Implement `DekuContainerRead` for types that don't need a context
     if input.ctx.is_none() || (input.ctx.is_some() && input.ctx_default.is_some()) {
+        let skip_order = gen_skip_order(input);
         let from_reader_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
             let __deku_reader = &mut deku::reader::Reader::new(__deku_input.0);
             if __deku_input.1 != 0 {
-                __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
+                __deku_reader.skip_bits(__deku_input.1, #skip_order)?;
             }
 
             let __deku_value = Self::from_reader_with_ctx(__deku_reader, ())?;
@@ -131,7 +132,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let mut __deku_cursor = #crate_::no_std_io::Cursor::new(__deku_input.0);
             let mut __deku_reader = &mut deku::reader::Reader::new(&mut __deku_cursor);
             if __deku_input.1 != 0 {
-                __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
+                __deku_reader.skip_bits(__deku_input.1, #skip_order)?;
             }
 
             let __deku_value = Self::from_reader_with_ctx(__deku_reader, ())?;
@@ -401,12 +402,13 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
 
     // Implement `DekuContainerRead` for types that don't need a context
     if input.ctx.is_none() || (input.ctx.is_some() && input.ctx_default.is_some()) {
+        let skip_order = gen_skip_order(input);
         let from_reader_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
             let __deku_reader = &mut deku::reader::Reader::new(__deku_input.0);
             if __deku_input.1 != 0 {
-                __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
+                __deku_reader.skip_bits(__deku_input.1, #skip_order)?;
             }
 
             let __deku_value = Self::from_reader_with_ctx(__deku_reader, ())?;
@@ -420,7 +422,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let mut __deku_cursor = #crate_::no_std_io::Cursor::new(__deku_input.0);
             let mut __deku_reader = &mut deku::reader::Reader::new(&mut __deku_cursor);
             if __deku_input.1 != 0 {
-                __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
+                __deku_reader.skip_bits(__deku_input.1, #skip_order)?;
             }
 
             let __deku_value = Self::from_reader_with_ctx(__deku_reader, ())?;
@@ -1048,6 +1050,16 @@ pub fn emit_container_read(
 }
 
 /// emit `TryFrom` trait for struct/enum
+/// Order in which the bits before the starting offset were used up: that of the container,
+/// unless it is only known from the context
+fn gen_skip_order(input: &DekuData) -> TokenStream {
+    let crate_ = super::get_crate_name();
+    match input.bit_order.as_ref().map(|order| order.value()) {
+        Some(order) if order == "lsb" => quote! { ::#crate_::ctx::Order::Lsb0 },
+        _ => quote! { ::#crate_::ctx::Order::default() },
+    }
+}
+
 pub fn emit_try_from(
     imp: &syn::ImplGenerics,
     lifetime: &TokenStream,
-- 
2.43.0


From 2fef873ed007e602b36e52e40be1a752246bf3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 18/25] fix: TryFrom accepts the padding of a last partial byte

---
 deku-derive/src/macros/deku_read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 75ee1f1..aba7d71 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -1077,7 +1077,7 @@ pub fn emit_try_from(
                 let total_len = input.len();
                 let mut cursor = ::#crate_::no_std_io::Cursor::new(input);
                 let (bits_read, res) = <Self as ::#crate_::DekuContainerRead>::from_reader((&mut cursor, 0))?;
-                let bytes_read = bits_read / 8;
+                let bytes_read = bits_read.div_ceil(8);
                 if bytes_read < total_len {
                     return Err(::#crate_::deku_error!(::#crate_::DekuError::Parse, "Too much data", "Read {} but total length was {}", {bits_read / 8}, total_len));
                 }
-- 
2.43.0


From fdeb6355c8234b6e6fdaceb21eef0943d7585e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 19/25] fix: DekuSize does not count skipped fields

---
 deku-derive/src/macros/deku_size.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index e731c2c..5ad0318 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -60,7 +60,9 @@ fn calculate_fields_size<'a>(
 
         let field_type = &f.ty;
         #[cfg(feature = "bits")]
-        if let Some(bits) = &f.bits {
+        if is_skipped(f) {
+            // only its padding and magic are written
+        } else if let Some(bits) = &f.bits {
             components.push(quote! { (#bits) });
         } else if let Some(bytes) = &f.bytes {
             components.push(quote! { (#bytes) * 8 });
@@ -69,7 +71,9 @@ fn calculate_fields_size<'a>(
         }
 
         #[cfg(not(feature = "bits"))]
-        if let Some(bytes) = &f.bytes {
+        if is_skipped(f) {
+            // only its padding and magic are written
+        } else if let Some(bytes) = &f.bytes {
             components.push(quote! { (#bytes) * 8 });
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
@@ -100,6 +104,12 @@ fn calculate_fields_size<'a>(
     quote! { 0 #(+ (#field_components))* }
 }
 
+/// Check if the value of a field is never written
+fn is_skipped(field: &FieldData) -> bool {
+    use crate::SkipMode::{All, Write};
+    matches!(field.skip, Some(All | Write)) && field.cond.is_none()
+}
+
 /// Check if struct/enum has seek attributes
 fn has_seek_attributes(input: &DekuData) -> bool {
     input.seek_rewind
@@ -159,7 +169,7 @@ fn add_field_bounds<'a>(
             continue;
         }
 
-        if !field.temp {
+        if !field.temp && !is_skipped(field) {
             let field_type = &field.ty;
             #[cfg(feature = "bits")]
             let needs_bound = field.bits.is_none() && field.bytes.is_none();
-- 
2.43.0


From ff5d283ee968bc009f719e5deb71d73941c370e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 20/25] fix: the order of a finished byte does not affect the
 bits written after it

---
 src/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 301c02c..81524dc 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -349,6 +349,11 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        // Without pending bits there is no byte to continue in another order
+        if self.leftover.0.is_empty() {
+            self.leftover.1 = order;
+        }
+
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From 1cfbbf5c97a7fde04e60240dd6981355fb78aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 21/25] fix: writing a signed integer with an absurd bit size
 is refused, not a panic

---
 src/impls/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 2a20474..32fac9e 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -188,7 +188,7 @@ impl DekuWriter<(Endian, ByteSize)> for u8 {
 #[inline]
 fn value_width(endian: Endian, size: BitSize, order: Order) -> usize {
     if !endian.is_le() && order == Order::Lsb0 && size.0 > 8 {
-        size.0.div_ceil(8) * 8
+        size.0.div_ceil(8).saturating_mul(8)
     } else {
         size.0
     }
-- 
2.43.0


From 8969312fdcb149e278398d969dccfebfcdf50cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 22/25] fix: seeking a Writer finishes the byte in progress
 instead of dropping its bits

---
 src/writer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 81524dc..2b55f44 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -32,12 +32,11 @@ impl<W: Write + Seek> Seek for Writer<W> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
-        // clear leftover
-        #[cfg(feature = "bits")]
-        {
-            self.leftover.0.clear();
-            self.leftover.1 = Order::Msb0;
-        }
+        // Finish the byte in progress: its bits belong where the stream is now
+        self.finalize().map_err(|e| match e {
+            DekuError::Io(kind) => kind.into(),
+            _ => no_std_io::io::Error::from(no_std_io::io::ErrorKind::Other),
+        })?;
 
         self.inner.seek(pos)
     }
-- 
2.43.0


From 115fc251421227d07481cf2df7eefa0e2253b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 23/25] fix: the stored id of an id_pat variant is written in
 the endianness it is read in

---
 deku-derive/src/macros/deku_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 60b34a5..480c7ce 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -616,7 +616,7 @@ fn emit_field_write(
         // TODO: This should error on some attributes that don't make sense aren't used?
         // Such as magic, seek*
         let crate_ = super::get_crate_name();
-        let field_endian = input.id_endian.as_ref();
+        let field_endian = input.id_endian.as_ref().or(input.endian.as_ref());
         #[cfg(feature = "bits")]
         let field_bits = input.bits.as_ref();
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From 0e1c920626c9146c8fc66196821c879a9de5b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 24/25] fix: the first field of an id_pat variant is written
 with its own attributes when the id is passed in

---
 deku-derive/src/macros/deku_write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 480c7ce..bb543d7 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -327,7 +327,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let field_writes = emit_field_writes(
                 input,
                 &variant.fields.as_ref(),
-                variant.id_pat.is_some(),
+                // an id passed in with `id` is not stored in a field
+                variant.id_pat.is_some() && id.is_none(),
                 None,
                 &ident,
             )?;
-- 
2.43.0


From f6eed0bd5081607d43dc3ac43285e77932b9c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 25/25] fix: deku_id of a variant with a custom reader reports
 its id

---
 deku-derive/src/macros/deku_read.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index aba7d71..5933f97 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -305,6 +305,17 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let variant_reader = &variant.reader;
         let variant_has_default = variant.default.unwrap_or(false);
 
+        if let Some(variant_id) = &variant.id {
+            let deref = match variant_id {
+                Id::TokenStream(_) => quote! {},
+                Id::Int(_) => quote! {},
+                Id::Bool(_) => quote! {},
+                Id::LitByteStr(_) => quote! {*},
+            };
+
+            deku_ids.push(quote! { Self :: #variant_ident { .. } => Ok(#deref #variant_id)});
+        }
+
         let variant_read_func = if variant_reader.is_some() {
             quote! { #variant_reader; }
         } else {
@@ -320,18 +331,6 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let initialize_enum =
                 super::gen_enum_init(variant_is_named, variant_ident, internal_fields);
 
-            if let Some(variant_id) = &variant.id {
-                let deref = match variant_id {
-                    Id::TokenStream(_) => quote! {},
-                    Id::Int(_) => quote! {},
-                    Id::Bool(_) => quote! {},
-                    Id::LitByteStr(_) => quote! {*},
-                };
-
-                let deku_id = quote! { Self :: #initialize_enum => Ok(#deref #variant_id)};
-                deku_ids.push(deku_id);
-            }
-
             quote! {
                 {
                     #(#field_reads)*
-- 
2.43.0

