From fdddbf065f83cd28bffd2b94720428577c9f4c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 01/22] fix: Reader::end must not turn a failed read into a
 zero byte

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index fe3217d..f3b08cd 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -162,6 +162,8 @@ impl<R: Read + Seek> Reader<R> {
                     log::trace!("end");
                     return true;
                 }
+                // Nothing was read: leave it to the next read to report the error
+                return false;
             }
 
             #[cfg(feature = "logging")]
-- 
2.43.0


From f87171841a7aa999179d0ba9b9551940be3815ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 02/22] fix: Reader::read_bits_into must report I/O errors
 other than end of input

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index f3b08cd..7e53c00 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -315,6 +315,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
@@ -328,6 +329,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
-- 
2.43.0


From 786e250b23b965acc3e55af24f0d4141fe8b7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 03/22] fix: skip_bits must consume a byte buffered by
 Reader::end before seeking

---
 src/reader.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7e53c00..5741443 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -186,9 +186,16 @@ impl<R: Read + Seek> Reader<R> {
             #[cfg(feature = "logging")]
             log::trace!("skip_bits: {amt}");
 
-            if let Some(Leftover::Bits(bits)) = &self.leftover {
+            // bits that are already taken from the stream come first, including a
+            // byte buffered by `end`
+            let pending = match &self.leftover {
+                Some(Leftover::Bits(bits)) => bits.len(),
+                Some(Leftover::Byte(_)) => 8,
+                None => 0,
+            };
+            if pending != 0 {
                 let mut buf = bitarr!(u8, Msb0; 0; 8);
-                let needed = core::cmp::min(amt, bits.len());
+                let needed = core::cmp::min(amt, pending);
                 amt -= needed;
                 self.read_bits_into(&mut buf[..needed], _order)?;
             }
-- 
2.43.0


From f3243306791bfcd9935921ae7dadd4592a032ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 04/22] fix: a seek attribute value that does not fit must be
 an error, not a panic

The offset of seek_from_current / seek_from_end / seek_from_start may come
from an earlier field, that is from the input.
---
 deku-derive/src/macros/deku_read.rs  | 12 ++++++------
 deku-derive/src/macros/deku_write.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 89d3839..80316f4 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,7 +48,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -59,7 +59,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -70,7 +70,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -685,7 +685,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -695,7 +695,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -705,7 +705,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 461c5e8..33d4b71 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,7 +38,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -49,7 +49,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -60,7 +60,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -653,7 +653,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -663,7 +663,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -673,7 +673,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
-- 
2.43.0


From 4dba192269f0bcf7d7e57c1a2dd960e4462185ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 05/22] fix: write an id stored by id_pat with the endianness
 it was read with

The id is read with id_endian or, without it, the endianness of the enum;
the field that stores it was written with id_endian only.
---
 deku-derive/src/macros/deku_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 33d4b71..ab59ad2 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -616,7 +616,7 @@ fn emit_field_write(
         // TODO: This should error on some attributes that don't make sense aren't used?
         // Such as magic, seek*
         let crate_ = super::get_crate_name();
-        let field_endian = input.id_endian.as_ref();
+        let field_endian = input.id_endian.as_ref().or(input.endian.as_ref());
         #[cfg(feature = "bits")]
         let field_bits = input.bits.as_ref();
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From 497c684f595ca36bf1ded4aa196201e811da2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 06/22] fix: reading exact bytes past the end of the stream
 underflowed instead of failing

---
 src/impls/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 4140ae7..0fd9d2b 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -32,7 +32,7 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
             .seek(SeekFrom::Start(pos))
             .map_err(|e| DekuError::Io(e.kind()))?;
 
-        if (end - pos) < exact.0 as u64 {
+        if end.saturating_sub(pos) < exact.0 as u64 {
             return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
         }
 
-- 
2.43.0


From 5e94ec29447c7e7d903d6f199a790de12fb52924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 07/22] fix: reading a huge exact byte count overflowed instead
 of failing

---
 src/impls/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 0fd9d2b..c1376d7 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -33,7 +33,9 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
             .map_err(|e| DekuError::Io(e.kind()))?;
 
         if end.saturating_sub(pos) < exact.0 as u64 {
-            return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
+            return Err(DekuError::Incomplete(NeedSize::new(
+                exact.0.saturating_mul(8),
+            )));
         }
 
         let mut bytes = alloc::vec![0x00; exact.0];
-- 
2.43.0


From 7b3f1fa5fdd2715259d3a55992eedd24bcccbd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 08/22] fix: reading exact bytes did not count the byte
 buffered by the end of input test

---
 src/impls/vec.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index c1376d7..5fbb0cc 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -5,7 +5,7 @@ use no_std_io::io::{Read, Seek, SeekFrom, Write};
 use alloc::vec::Vec;
 
 use crate::error::NeedSize;
-use crate::reader::Reader;
+use crate::reader::{Leftover, Reader};
 use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
 use crate::{DekuError, DekuWriter};
@@ -32,7 +32,10 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
             .seek(SeekFrom::Start(pos))
             .map_err(|e| DekuError::Io(e.kind()))?;
 
-        if end.saturating_sub(pos) < exact.0 as u64 {
+        // A byte buffered by `Reader::end` has left the stream, but is still to be read
+        let buffered = u64::from(matches!(reader.leftover, Some(Leftover::Byte(_))));
+
+        if end.saturating_sub(pos).saturating_add(buffered) < exact.0 as u64 {
             return Err(DekuError::Incomplete(NeedSize::new(
                 exact.0.saturating_mul(8),
             )));
@@ -239,7 +242,7 @@ mod tests {
     use std::io::Cursor;
 
     #[cfg(feature = "bits")]
-    use crate::reader::Reader;
+    use crate::reader::{Leftover, Reader};
 
     use super::*;
 
@@ -383,7 +386,7 @@ mod tests {
         use super::*;
         use crate::ctx::ReadExact;
         use crate::error::NeedSize;
-        use crate::reader::Reader;
+        use crate::reader::{Leftover, Reader};
         use crate::DekuError;
         use std::io::Cursor;
 
-- 
2.43.0


From d74c1e51fd4e0d2888146f777867527487297e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 09/22] fix: a byte limit of a collection that does not fit in
 bits overflowed

---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 9ebff2e..e046233 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -155,7 +155,7 @@ where
 
             // Read until a given quantity of byte bits have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashmap
                 if bit_size == 0 {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index bd9ba58..d888a8a 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -140,7 +140,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashset
                 if bit_size == 0 {
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 5fbb0cc..cddf90a 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -163,7 +163,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty vector
                 if bit_size == 0 {
-- 
2.43.0


From 715c02bcd99e98a00fc9b6443d446b8b0637882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 10/22] fix: a collection count from the input was trusted for
 the allocation made up front

---
 src/impls/hashmap.rs |  7 +++++--
 src/impls/hashset.rs |  7 +++++--
 src/impls/mod.rs     | 13 +++++++++++++
 src/impls/vec.rs     |  5 +++--
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index e046233..cc7c6a0 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -4,6 +4,7 @@ use std::collections::HashMap;
 use no_std_io::io::{Read, Seek, Write};
 
 use crate::ctx::*;
+use crate::impls::initial_capacity;
 use crate::writer::Writer;
 use crate::{DekuError, DekuReader, DekuWriter};
 
@@ -28,7 +29,8 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &(K, V)) -> bool,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = capacity.map_or(0, initial_capacity::<(K, V)>);
+    let mut res = HashMap::with_capacity_and_hasher(capacity, S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -53,7 +55,8 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = capacity.map_or(0, initial_capacity::<(K, V)>);
+    let mut res = HashMap::with_capacity_and_hasher(capacity, S::default());
 
     loop {
         if reader.end() {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index d888a8a..4c908b5 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -5,6 +5,7 @@ use crate::writer::Writer;
 use no_std_io::io::{Read, Seek, Write};
 
 use crate::ctx::*;
+use crate::impls::initial_capacity;
 use crate::{DekuError, DekuReader, DekuWriter};
 
 /// Read `T`s into a hashset until a given predicate returns true
@@ -27,7 +28,8 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = capacity.map_or(0, initial_capacity::<T>);
+    let mut res = HashSet::with_capacity_and_hasher(capacity, S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -51,7 +53,8 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = capacity.map_or(0, initial_capacity::<T>);
+    let mut res = HashSet::with_capacity_and_hasher(capacity, S::default());
 
     loop {
         if reader.end() {
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6b9905a..6bfa1c9 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -27,3 +27,16 @@ mod hashset;
 
 #[cfg(feature = "alloc")]
 mod boxed;
+
+/// The number of elements of type `T` to allocate for up front when `count` of them are
+/// announced. The count may come from untrusted input, so a collection only starts with a
+/// bounded allocation and grows as elements are really read.
+#[cfg(feature = "alloc")]
+fn initial_capacity<T>(count: usize) -> usize {
+    const MAX_BYTES: usize = 1024 * 1024;
+
+    match core::mem::size_of::<T>() {
+        0 => 0,
+        size => core::cmp::min(count, MAX_BYTES / size),
+    }
+}
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index cddf90a..83b089d 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -5,6 +5,7 @@ use no_std_io::io::{Read, Seek, SeekFrom, Write};
 use alloc::vec::Vec;
 
 use crate::error::NeedSize;
+use crate::impls::initial_capacity;
 use crate::reader::{Leftover, Reader};
 use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
@@ -70,7 +71,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(capacity.map_or(0, initial_capacity::<T>));
 
     let start_read = reader.bits_read;
 
@@ -102,7 +103,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(capacity.map_or(0, initial_capacity::<T>));
     loop {
         if reader.end() {
             break;
-- 
2.43.0


From f6c85bc86e321e59fb89c9f9ff379220b552db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 11/22] fix: reading zero bytes after the end of input test
 panicked

---
 src/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 5741443..e5c8b6d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -540,6 +540,10 @@ impl<R: Read + Seek> Reader<R> {
         byte: u8,
         amt: usize,
     ) -> Result<ReaderRet, DekuError> {
+        // nothing to read: the buffered byte stays for the next read
+        if amt == 0 {
+            return Ok(ReaderRet::Bytes);
+        }
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
@@ -678,6 +682,10 @@ impl<R: Read + Seek> Reader<R> {
         buf: &mut [u8; N],
         byte: u8,
     ) -> Result<(), DekuError> {
+        // nothing to read: the buffered byte stays for the next read
+        if N == 0 {
+            return Ok(());
+        }
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
-- 
2.43.0


From 03447fdae8d5afbeec1e0175b8b9e7854aaec27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 12/22] fix: padding in bytes was scaled to bits in the type of
 its expression and could overflow

---
 deku-derive/src/macros/deku_read.rs  | 14 +++++++----
 deku-derive/src/macros/deku_write.rs | 14 +++++++----
 deku-derive/src/macros/mod.rs        | 35 +++++++++++++++++++++++-----
 3 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 80316f4..ef25153 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -601,15 +601,19 @@ fn emit_bit_byte_offsets(
 }
 
 #[cfg(feature = "bits")]
-fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream {
+fn emit_padding(
+    bit_size: &TokenStream,
+    expr: &TokenStream,
+    bit_order: Option<&LitStr>,
+) -> TokenStream {
     let crate_ = super::get_crate_name();
     if let Some(bit_order) = bit_order {
         let order = gen_bit_order_from_str(bit_order).unwrap();
         quote! {
             {
                 use core::convert::TryFrom;
-                let __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert ot usize", "{}", stringify!(#bit_size))
+                let __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert ot usize", "{}", stringify!(#expr))
                 )?;
                 __deku_reader.skip_bits(__deku_pad, #order)?;
             }
@@ -618,8 +622,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#expr))
                 )?;
                 __deku_reader.skip_bits(__deku_pad, ::#crate_::ctx::Order::default())?;
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index ab59ad2..18da25e 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -542,7 +542,11 @@ fn emit_bit_byte_offsets(
 }
 
 #[cfg(feature = "bits")]
-fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream {
+fn emit_padding(
+    bit_size: &TokenStream,
+    expr: &TokenStream,
+    bit_order: Option<&LitStr>,
+) -> TokenStream {
     let crate_ = super::get_crate_name();
     const PAD: usize = crate::PAD_ARRAY_SIZE * 8;
     if let Some(bit_order) = bit_order {
@@ -550,8 +554,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let mut __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let mut __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#expr))
                 )?;
                 let __deku_pad_source = ::#crate_::bitvec::bitarr!(u8, ::#crate_::bitvec::Msb0; 0; #PAD);
                 while __deku_pad > 0 {
@@ -565,8 +569,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let mut __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let mut __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#expr))
                 )?;
                 let __deku_pad_source = ::#crate_::bitvec::bitarr!(u8, ::#crate_::bitvec::Msb0; 0; #PAD);
                 while __deku_pad > 0 {
diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 40ee333..ac4f2df 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -382,14 +382,37 @@ fn pad_bits(
     bits: Option<&TokenStream>,
     bytes: Option<&TokenStream>,
     bit_order: Option<&LitStr>,
-    emit_padding: fn(&TokenStream, bit_order: Option<&LitStr>) -> TokenStream,
+    emit_padding: fn(
+        bit_size: &TokenStream,
+        expr: &TokenStream,
+        bit_order: Option<&LitStr>,
+    ) -> TokenStream,
 ) -> TokenStream {
+    // The amount as an `Option<usize>`, `None` if it can't be represented. It is only scaled
+    // to bits after the conversion, as it may not fit the type of the expression.
     match (bits, bytes) {
-        (Some(pad_bits), Some(pad_bytes)) => {
-            emit_padding(&quote! { (#pad_bits) + ((#pad_bytes) * 8) }, bit_order)
-        }
-        (Some(pad_bits), None) => emit_padding(pad_bits, bit_order),
-        (None, Some(pad_bytes)) => emit_padding(&quote! {((#pad_bytes) * 8)}, bit_order),
+        (Some(pad_bits), Some(pad_bytes)) => emit_padding(
+            &quote! {
+                match (usize::try_from(#pad_bits), usize::try_from(#pad_bytes)) {
+                    (Ok(bits), Ok(bytes)) => bytes.checked_mul(8).and_then(|bytes| bytes.checked_add(bits)),
+                    _ => None,
+                }
+            },
+            &quote! { (#pad_bits) + ((#pad_bytes) * 8) },
+            bit_order,
+        ),
+        (Some(pad_bits), None) => emit_padding(
+            &quote! { usize::try_from(#pad_bits).ok() },
+            pad_bits,
+            bit_order,
+        ),
+        (None, Some(pad_bytes)) => emit_padding(
+            &quote! {
+                usize::try_from(#pad_bytes).ok().and_then(|bytes| bytes.checked_mul(8))
+            },
+            &quote! {((#pad_bytes) * 8)},
+            bit_order,
+        ),
         (None, None) => quote!(),
     }
 }
-- 
2.43.0


From 204b0d9a59953d9d2860e08f0e869f21489b423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 13/22] fix: exact bytes of a collection ignored the settings
 of its elements and the bit order

---
 deku-derive/src/macros/deku_read.rs | 12 +++++++++++-
 src/impls/vec.rs                    |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index ef25153..26fafed 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -830,7 +830,17 @@ fn emit_field_read(
                             if let GenericArgument::Type(Type::Path(ref arg_path)) =
                                 generic_args.args[0]
                             {
-                                is_vec_u8 = arg_path.path.is_ident("u8");
+                                // The bytes are read as they are: a setting which says otherwise
+                                // needs to reach the elements
+                                #[cfg(feature = "bits")]
+                                let sized = f.bits.is_some() || f.bytes.is_some();
+                                #[cfg(not(feature = "bits"))]
+                                let sized = f.bytes.is_some();
+                                let msb = field_bit_order.map_or(true, |v| v.value() == "msb");
+                                is_vec_u8 = arg_path.path.is_ident("u8")
+                                    && !sized
+                                    && msb
+                                    && f.ctx.is_none();
                             }
                         }
                     }
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 83b089d..08fdbd1 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -43,7 +43,7 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
         }
 
         let mut bytes = alloc::vec![0x00; exact.0];
-        let _ = reader.read_bytes(exact.0, &mut bytes, Order::Lsb0)?;
+        let _ = reader.read_bytes(exact.0, &mut bytes, Order::default())?;
         Ok(bytes)
     }
 }
-- 
2.43.0


From 33a535e85911c4e467cb63a30c596f6de2f2281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 14/22] fix: a negative number written in bits with a bit order
 was rejected as too large

---
 src/impls/primitive.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8ab9e29..61f1b85 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -794,6 +794,17 @@ macro_rules! ForwardDekuRead {
     };
 }
 
+// The value without its sign, and the bits its sign takes
+#[cfg(feature = "bits")]
+macro_rules! SignedMagnitude {
+    ($value:expr, Unsigned) => {
+        ($value, 0)
+    };
+    ($value:expr, Signed) => {
+        (if $value < 0 { !$value } else { $value }, 1)
+    };
+}
+
 macro_rules! ImplDekuWrite {
     ($typ:ty, $signed_type:ident) => {
         #[cfg(feature = "bits")]
@@ -813,6 +824,13 @@ macro_rules! ImplDekuWrite {
 
                 let input_bits = input.view_bits::<Msb0>();
 
+                // What needs to fit, next to the sign
+                let (magnitude, sign) = SignedMagnitude!(*self, $signed_type);
+                let magnitude = match endian {
+                    Endian::Little => magnitude.to_le_bytes(),
+                    Endian::Big => magnitude.to_be_bytes(),
+                };
+
                 if bit_size > input_bits.len() {
                     return Err(deku_error!(
                         DekuError::InvalidParam,
@@ -825,9 +843,9 @@ macro_rules! ImplDekuWrite {
 
                 match (endian, order) {
                     (Endian::Little, Order::Lsb0) | (Endian::Little, Order::Msb0) => {
-                        let input_bits_lsb = input.view_bits::<Lsb0>();
+                        let input_bits_lsb = magnitude.view_bits::<Lsb0>();
                         if let Some(last) = input_bits_lsb.last_one() {
-                            let last = last + 1;
+                            let last = last + 1 + sign;
                             let max = bit_size;
                             if last > max {
                                 return Err(deku_error!(
@@ -856,14 +874,14 @@ macro_rules! ImplDekuWrite {
                     }
                     (Endian::Big, Order::Lsb0) => {
                         const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                        if let Some(first) = input_bits.first_one() {
+                        if let Some(first) = magnitude.view_bits::<Msb0>().first_one() {
                             let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
+                            if max + sign > first {
                                 return Err(deku_error!(
                                     DekuError::InvalidParam,
                                     "bit size of input is larger than requested size",
                                     "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
+                                    MAX_TYPE_BITS - first + sign,
                                     bit_size
                                 ));
                             }
@@ -900,9 +918,11 @@ macro_rules! ImplDekuWrite {
                         // `MAX_TYPE_BITS - first` (the significant bits) exceeds
                         // `bit_size`.
                         if bit_size <= 64 && writer.leftover.1 == Order::Msb0 {
-                            let significant = match input.iter().position(|b| *b != 0) {
+                            let significant = match magnitude.iter().position(|b| *b != 0) {
                                 Some(i) => {
-                                    (input.len() - i) * 8 - (input[i].leading_zeros() as usize)
+                                    (magnitude.len() - i) * 8
+                                        - (magnitude[i].leading_zeros() as usize)
+                                        + sign
                                 }
                                 None => 0,
                             };
@@ -925,14 +945,14 @@ macro_rules! ImplDekuWrite {
                             return writer.write_bits_uint_msb0(value, bit_size);
                         }
 
-                        if let Some(first) = input_bits.first_one() {
+                        if let Some(first) = magnitude.view_bits::<Msb0>().first_one() {
                             let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
+                            if max + sign > first {
                                 return Err(deku_error!(
                                     DekuError::InvalidParam,
                                     "bit size of input is larger than requested size",
                                     "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
+                                    MAX_TYPE_BITS - first + sign,
                                     bit_size
                                 ));
                             }
-- 
2.43.0


From 8cc32f10a8cb7a8015fb77b5cfdc265103a6410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 15/22] fix: bytes written in lsb order after left over bits
 were written in msb order

---
 src/impls/primitive.rs | 29 ++++++++++++++---------------
 src/writer.rs          | 17 ++++++++++++++++-
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 61f1b85..16be929 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -140,10 +140,10 @@ impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, _): (Endian, ByteSize, Order),
+        (_, _, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
+        writer.write_bytes_order(&input, order)?;
         Ok(())
     }
 }
@@ -980,6 +980,17 @@ macro_rules! ImplDekuWrite {
                 &self,
                 writer: &mut Writer<W>,
                 (endian, size): (Endian, ByteSize),
+            ) -> Result<(), DekuError> {
+                <$typ>::to_writer(self, writer, (endian, size, Order::default()))
+            }
+        }
+
+        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
+            #[inline]
+            fn to_writer<W: Write + Seek>(
+                &self,
+                writer: &mut Writer<W>,
+                (endian, size, order): (Endian, ByteSize, Order),
             ) -> Result<(), DekuError> {
                 let input = match endian {
                     Endian::Little => self.to_le_bytes(),
@@ -1003,22 +1014,10 @@ macro_rules! ImplDekuWrite {
                     &input[..size.0 as usize]
                 };
 
-                writer.write_bytes(&input)?;
+                writer.write_bytes_order(&input, order)?;
                 Ok(())
             }
         }
-
-        /// When using Endian and ByteSize, Order is not used
-        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
-            #[inline]
-            fn to_writer<W: Write + Seek>(
-                &self,
-                writer: &mut Writer<W>,
-                (endian, size, _order): (Endian, ByteSize, Order),
-            ) -> Result<(), DekuError> {
-                <$typ>::to_writer(self, writer, (endian, size))
-            }
-        }
     };
 }
 
diff --git a/src/writer.rs b/src/writer.rs
index 0a6c641..00c528f 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -7,7 +7,6 @@ use no_std_io::io::{Seek, SeekFrom, Write};
 #[cfg(feature = "logging")]
 use log;
 
-#[cfg(feature = "bits")]
 use crate::ctx::Order;
 
 use crate::DekuError;
@@ -398,6 +397,22 @@ impl<W: Write + Seek> Writer<W> {
         Ok(())
     }
 
+    /// Write `buf` into `Writer`, each byte in `order` next to bits which are left over
+    #[inline(always)]
+    pub(crate) fn write_bytes_order(&mut self, buf: &[u8], order: Order) -> Result<(), DekuError> {
+        #[cfg(feature = "bits")]
+        if order == Order::Lsb0 && !self.leftover.0.is_empty() {
+            for byte in buf.chunks(1) {
+                self.write_bits_order(BitSlice::from_slice(byte), order)?;
+            }
+            return Ok(());
+        }
+
+        #[cfg(not(feature = "bits"))]
+        let _ = order;
+        self.write_bytes(buf)
+    }
+
     /// Write all remaining bits into `Writer`, adding empty bits to the end so that we can write
     /// into a byte buffer
     #[inline]
-- 
2.43.0


From 184aef10cd28bde7f1a93cca48cdde3926d18f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 16/22] fix: a signed number read from fewer bytes than its
 container lost its sign

---
 src/impls/primitive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 16be929..2a7241f 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -674,7 +674,12 @@ macro_rules! ImplDekuReadSignExtend {
                         return Err(deku_error!(DekuError::Parse, "no bits read from reader"));
                     }
                 };
-                Ok(a)
+                // Extend the sign of a number smaller than its container
+                if size.0 == 0 {
+                    return Ok(a);
+                }
+                let shift = (MAX_TYPE_BYTES - size.0) * 8;
+                Ok(a << shift >> shift)
             }
         }
     };
-- 
2.43.0


From 75f53f9820e25cd1ea38061ea18562e9c96a53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 17/22] fix: writing zero bits panicked when bits were left
 over in msb order

---
 src/writer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 00c528f..ad5eb71 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -61,7 +61,7 @@ impl<W: Write + Seek> Writer<W> {
         self.leftover.0.as_bitslice().iter().by_vals().collect()
     }
 
-    /// Writes the low `amt` bits (`1..=64`) of `value`, most-significant-bit
+    /// Writes the low `amt` bits (`0..=64`) of `value`, most-significant-bit
     /// first. The integer mirror of `Reader::read_bits_uint_msb0`.
     ///
     /// Only valid when the pending leftover is `Msb0`; the caller checks that.
@@ -72,8 +72,11 @@ impl<W: Write + Seek> Writer<W> {
     #[inline]
     #[cfg(feature = "bits")]
     pub(crate) fn write_bits_uint_msb0(&mut self, value: u64, amt: usize) -> Result<(), DekuError> {
-        debug_assert!((1..=64).contains(&amt));
+        debug_assert!(amt <= 64);
         debug_assert_eq!(self.leftover.1, Order::Msb0);
+        if amt == 0 {
+            return Ok(());
+        }
 
         let (lead, lead_len) = self.leftover.0.as_msb0_byte();
         // Leftover bits first, then the value's low `amt` bits: at most 7 + 64.
-- 
2.43.0


From bb1de1c69b925cdbb99ab0df86c5b7bb3bf7cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 18/22] fix: write the bytes of a big endian lsb number, not
 those above it

A number in `bits` narrower than its type, big endian and least
significant bit first, was written from the start of the container:
`bits = 16` of a u32 gave two zero bytes.
---
 src/impls/primitive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 2a7241f..846ce5a 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -899,7 +899,9 @@ macro_rules! ImplDekuWrite {
                             )?;
                         } else {
                             let mut remaining_bits = bit_size;
-                            for chunk in input_bits.chunks(8) {
+                            // Skip the bytes of the container above the number
+                            let start = input_bits.len() - bit_size.div_ceil(8) * 8;
+                            for chunk in input_bits[start..].chunks(8) {
                                 if chunk.len() > remaining_bits {
                                     writer.write_bits_order(
                                         &chunk[chunk.len() - remaining_bits..],
-- 
2.43.0


From a5154863242f73d19298c8c7ea2cfd861f9d5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 19/22] fix: respect the byte size of a u8 like that of other
 numbers

A u8 of `bytes = 2` (or of two bytes given as context) read and wrote one
byte without an error, and one of no bytes still took one.
---
 src/impls/primitive.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 846ce5a..480a7c9 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -51,9 +51,21 @@ impl DekuReader<'_, (Endian, ByteSize, Order)> for u8 {
     #[inline(always)]
     fn from_reader_with_ctx<R: Read + Seek>(
         reader: &mut Reader<R>,
-        (_endian, _size, order): (Endian, ByteSize, Order),
+        (_endian, size, order): (Endian, ByteSize, Order),
     ) -> Result<u8, DekuError> {
         const MAX_TYPE_BYTES: usize = core::mem::size_of::<u8>();
+        if size.0 > MAX_TYPE_BYTES {
+            return Err(deku_error!(
+                DekuError::Parse,
+                "too much data",
+                "container of {} bytes cannot hold {} bytes",
+                MAX_TYPE_BYTES,
+                size.0
+            ));
+        }
+        if size.0 == 0 {
+            return Ok(0);
+        }
         let mut buf = [0; MAX_TYPE_BYTES];
         reader.read_bytes_const_into::<MAX_TYPE_BYTES>(&mut buf, order)?;
         Ok(<u8>::from_be_bytes(buf))
@@ -135,30 +147,40 @@ impl DekuWriter<(Endian, BitSize, Order)> for u8 {
 }
 
 impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
-    /// Ignore endian and byte_size, as this is a `u8`
+    /// Ignore endian, as this is a `u8`
     #[inline(always)]
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, order): (Endian, ByteSize, Order),
+        (_, size, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes_order(&input, order)?;
+
+        const TYPE_SIZE: usize = core::mem::size_of::<u8>();
+        if size.0 > TYPE_SIZE {
+            return Err(deku_error!(
+                DekuError::InvalidParam,
+                "byte size is larger than input",
+                "{} exceeds {}",
+                size.0,
+                TYPE_SIZE
+            ));
+        }
+
+        writer.write_bytes_order(&input[..size.0], order)?;
         Ok(())
     }
 }
 
 impl DekuWriter<(Endian, ByteSize)> for u8 {
-    /// Ignore endian and byte_size, as this is a `u8`
+    /// Ignore endian, as this is a `u8`
     #[inline(always)]
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _): (Endian, ByteSize),
+        (endian, size): (Endian, ByteSize),
     ) -> Result<(), DekuError> {
-        let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
-        Ok(())
+        <u8>::to_writer(self, writer, (endian, size, Order::default()))
     }
 }
 
-- 
2.43.0


From d00baa75826cc13c672d4cdc801f2cc86cc3edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 20/22] fix: read a number of no bits as zero instead of
 panicking

A `BitSize(0)` context, which can come from the input, overflowed in the
readers of little endian and of signed numbers.
---
 src/impls/primitive.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 480a7c9..dec8e23 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -419,6 +419,10 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                // There are no bits to take a value from
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 // Fast path: big-endian, and `Order::default()` is Msb0. Reads the
                 // field straight into an integer, with no `BitSlice` in between.
                 if !endian.is_le() && size.0 > 0 && size.0 <= 64 {
@@ -451,6 +455,10 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                // There are no bits to take a value from
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 // Fast path: big-endian, Msb0. See the `(Endian, BitSize)` impl above.
                 if !endian.is_le() && order == Order::Msb0 && size.0 > 0 && size.0 <= 64 {
                     let value = reader.read_bits_uint_msb0(size.0)? as $inner;
@@ -645,6 +653,10 @@ macro_rules! ImplDekuReadSignExtend {
                         size.0
                     ));
                 }
+                // There are no bits to take a value from
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 let mut bits = ::bitvec::array::BitArray::<[u8; { MAX_TYPE_BITS / 8 }], Msb0>::new(
                     [0; { MAX_TYPE_BITS / 8 }],
                 );
-- 
2.43.0


From 93432cb1380938acd4a08470f386c7f22bdb709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 21/22] fix: start a byte in the order of its own bits

After a byte filled least significant bit first, a number of more than
eight bits in the default order was written with its bytes reversed: the
order of the last bits stayed in effect with none of them left over.
---
 src/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index ad5eb71..8b4fe11 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -348,6 +348,11 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        // Without bits left over, the order of the last ones does not matter
+        if self.leftover.0.is_empty() {
+            self.leftover.1 = order;
+        }
+
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From 654ce03b42d8ce8fcbdda59fc0c17dab179215f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:36 +0000
Subject: [PATCH 22/22] fix: refuse read_all with until, count or bytes_read
 also without bits

---
 deku-derive/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/deku-derive/src/lib.rs b/deku-derive/src/lib.rs
index a45b315..3978191 100644
--- a/deku-derive/src/lib.rs
+++ b/deku-derive/src/lib.rs
@@ -884,6 +884,16 @@ impl FieldData {
             ));
         }
 
+        #[cfg(not(feature = "bits"))]
+        if data.read_all
+            && (data.until.is_some() || data.count.is_some() || data.bytes_read.is_some())
+        {
+            return Err(cerror(
+                data.read_all.span(),
+                "conflicting: `read_all` cannot be used with `until`, `count`, or `bytes_read`",
+            ));
+        }
+
         // Validate usage of seek_*
         if (data.seek_from_current.is_some() as u8
             + data.seek_from_end.is_some() as u8
-- 
2.43.0

