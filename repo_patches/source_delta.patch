From 42ae647ea2cbf790b5d38e75088df781012c89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 01/19] fix: from_u8 underflows on a magic near the start or a
 size field below 16

---
 src/signing_block/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 1ef991c..c2ced12 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -620,7 +620,10 @@ impl SigningBlock {
                 }
             };
             if magic == MAGIC {
-                let size_part = match data.get(start_magic - SIZE_UINT64..start_magic) {
+                let size_part = match start_magic
+                    .checked_sub(SIZE_UINT64)
+                    .and_then(|start_size| data.get(start_size..start_magic))
+                {
                     Some(v) => v,
                     None => {
                         return Err(format!(
@@ -639,8 +642,7 @@ impl SigningBlock {
                     ));
                 }
 
-                let start_full_block = match start_magic.checked_sub(size - MAGIC_LEN + SIZE_UINT64)
-                {
+                let start_full_block = match end_magic.checked_sub(size + SIZE_UINT64) {
                     Some(v) => v,
                     None => {
                         return Err(format!(
-- 
2.43.0


From 26dfcf2d57a9c5f5559f07b0b9163a3ac8dcff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 02/19] fix: parse_full_block panics in debug builds when the
 two size fields differ

---
 src/signing_block/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index c2ced12..2c4cf77 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -535,7 +535,6 @@ impl SigningBlock {
                 }
             };
         let end_block_size = u64::from_le_bytes(create_fixed_buffer_8(end_size)) as usize;
-        debug_assert_eq!(start_block_size, end_block_size);
         if start_block_size != end_block_size {
             return Err(format!(
                 "Error: start_block_size {} is different from end_block_size {}",
-- 
2.43.0


From 29e5549cc14d807ee637ceccbbb177cb155871f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 03/19] fix: new_with_padding underflows while formatting its
 own error

---
 src/signing_block/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 2c4cf77..1c7c44d 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -292,7 +292,7 @@ impl SigningBlock {
                         return Err(std::io::Error::other(
                             format!(
                                 "Error: remaining size {} is too low to add padding block - try to manually pad the inner block",
-                                4096 - v - mem::size_of::<u32>() - mem::size_of::<u64>()
+                                4096 - v
                             ),
                         ));
                     }
-- 
2.43.0


From aef9282b124b1c3555c84ea51e52cbfbf49921a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 04/19] fix: ElfSectionInfo::parse reserves memory for an
 untrusted section count

---
 src/signing_block/elf_section_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signing_block/elf_section_info.rs b/src/signing_block/elf_section_info.rs
index adef9e9..73d2dd7 100644
--- a/src/signing_block/elf_section_info.rs
+++ b/src/signing_block/elf_section_info.rs
@@ -132,7 +132,7 @@ impl ElfSectionInfo {
     /// Returns error if parsing fails
     pub fn parse(size: usize, id: u32, data: &mut MyReader) -> Result<Self, String> {
         let section_count = data.read_u32()?;
-        let mut sections = Vec::with_capacity(section_count as usize);
+        let mut sections = Vec::new();
         for _ in 0..section_count {
             sections.push(SectionEntry::parse(data)?);
         }
-- 
2.43.0


From c44697a496423741e70032a19ea4a35071029ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:04 +0000
Subject: [PATCH 05/19] fix: get_offsets accepts a central directory that
 starts after its end record

---
 src/file_formats/module/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index e436a67..9fcc77a 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -257,6 +257,12 @@ impl Module {
     /// However, a corrupted signing block will return an error.
     pub fn get_offsets(&self) -> Result<FileOffsets, std::io::Error> {
         let eocd = self.find_eocd()?;
+        if eocd.cd_offset as usize > eocd.file_offset {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Invalid central directory offset: beyond the end of central directory",
+            ));
+        }
         match self.get_signing_block() {
             Ok(sig) => {
                 let file_len = if self.raw {
-- 
2.43.0


From e33c3df7ada5791fe8861c0e4170114eb9943067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:04 +0000
Subject: [PATCH 06/19] fix: a signing block away from the central directory
 makes a module look signed

---
 src/file_formats/module/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index 9fcc77a..db201de 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -7,10 +7,11 @@ pub mod digest;
 
 use std::{
     fs::{read, File},
-    io::{copy, Read, Seek, Write},
+    io::{copy, Read, Seek, SeekFrom, Write},
     path::PathBuf,
 };
 
+use crate::signing_block::{MAGIC, MAGIC_LEN};
 use crate::SigningBlock;
 use zip::{find_eocd, EndOfCentralDirectoryRecord, FileOffsets};
 
@@ -91,7 +92,21 @@ impl Module {
                 // This tells from_reader to stop searching at the Central Directory position
                 let end_offset = self.file_len.saturating_sub(cd_offset);
 
-                let file = File::open(&self.path)?;
+                // The signing block must end exactly where the Central Directory starts;
+                // block-like bytes anywhere else are file content
+                let mut file = File::open(&self.path)?;
+                let mut magic = [0u8; MAGIC_LEN];
+                if let Some(magic_offset) = cd_offset.checked_sub(MAGIC_LEN) {
+                    file.seek(SeekFrom::Start(magic_offset as u64))?;
+                    file.read_exact(&mut magic)?;
+                }
+                if &magic != MAGIC {
+                    return Err(std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "Magic not found before the central directory",
+                    ));
+                }
+
                 let sig = SigningBlock::from_reader(file, self.file_len, end_offset)?;
                 Ok(sig)
             }
-- 
2.43.0


From de3ac9d7570d10ca2809ab41a2003ab43d240fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:47 +0000
Subject: [PATCH 07/19] fix: a signature made in memory is taken for one stored
 in the module file

---
 src/file_formats/module/mod.rs | 50 +++++++++++++++-------------------
 src/signable.rs                |  7 ++---
 2 files changed, 25 insertions(+), 32 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index db201de..32398c9 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -113,6 +113,16 @@ impl Module {
         }
     }
 
+    /// The module as stored in its file, without a signature made in memory.
+    fn stored(&self) -> Self {
+        Self {
+            raw: self.raw,
+            path: self.path.clone(),
+            file_len: self.file_len,
+            sig: None,
+        }
+    }
+
     /// Fully verify the Module file including content integrity and certificate chain.
     ///
     /// This method performs complete verification of both V2 signature and Source Stamp:
@@ -278,25 +288,13 @@ impl Module {
                 "Invalid central directory offset: beyond the end of central directory",
             ));
         }
-        match self.get_signing_block() {
-            Ok(sig) => {
-                let file_len = if self.raw {
-                    self.file_len + sig.get_full_size()
-                } else {
-                    self.file_len
-                };
-                let stop_cd = if self.raw {
-                    eocd.file_offset + sig.get_full_size()
-                } else {
-                    eocd.file_offset
-                };
-                Ok(FileOffsets::new(
-                    sig.file_offset_start,
-                    sig.file_offset_end,
-                    stop_cd,
-                    file_len,
-                ))
-            }
+        match self.stored().get_signing_block() {
+            Ok(sig) => Ok(FileOffsets::new(
+                sig.file_offset_start,
+                sig.file_offset_end,
+                eocd.file_offset,
+                self.file_len,
+            )),
             Err(e) => {
                 // Distinguish between "no signature" and "corrupted signature"
                 // "Magic not found" means no signing block exists - this is normal for unsigned modules
@@ -341,7 +339,7 @@ impl Module {
             return Ok(full_raw_file);
         }
 
-        let sig = self.get_signing_block()?;
+        let sig = self.stored().get_signing_block()?;
 
         let start_sig = sig.file_offset_start;
         let end_sig = sig.file_offset_end;
@@ -390,10 +388,8 @@ impl Module {
         let sig = self.get_signing_block()?;
         let offsets = self.get_offsets()?;
         let mut eocd = self.find_eocd()?;
-        eocd.cd_offset = eocd
-            .cd_offset
-            .checked_add(sig.get_full_size() as u32)
-            .ok_or_else(|| {
+        eocd.cd_offset =
+            u32::try_from(offsets.stop_content + sig.get_full_size()).map_err(|_| {
                 std::io::Error::new(
                     std::io::ErrorKind::InvalidData,
                     "Invalid signing block: offset overflow when adding signature",
@@ -412,8 +408,7 @@ impl Module {
 
         // copy zip central directory
         let mut file_reader_end = File::open(&self.path)?;
-        let seek_end = (offsets.start_cd - sig.get_full_size()) as u64;
-        file_reader_end.seek(std::io::SeekFrom::Start(seek_end))?;
+        file_reader_end.seek(SeekFrom::Start(offsets.start_cd as u64))?;
         let take = (offsets.stop_eocd - offsets.start_cd - eocd_len) as u64;
         let mut file_reader_end = file_reader_end.take(take);
         copy(&mut file_reader_end, writer)?;
@@ -471,8 +466,7 @@ impl Module {
             SigningBlock::new_with_padding(vec![ValueSigningBlock::new_v2(Signers::new(vec![
                 one_signer,
             ]))])?;
-        let eocd = self.find_eocd()?;
-        signing_block.offset_by(eocd.cd_offset as usize);
+        signing_block.offset_by(self.get_offsets()?.stop_content);
 
         self.sig = Some(signing_block);
         Ok(())
diff --git a/src/signable.rs b/src/signable.rs
index 3309b75..c0d25c3 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -328,10 +328,9 @@ impl Signable for Module {
 
         let signing_block_bytes = signing_block.to_u8();
 
-        let (raw_bytes, mut eocd) = match Self::get_signing_block(self) {
-            Ok(_) => {
-                // Existing valid signature - strip it via get_raw_module
-                let bytes = Self::get_raw_module(self)?;
+        let (raw_bytes, mut eocd) = match Self::get_raw_module(self) {
+            Ok(bytes) => {
+                // Any signature stored in the file is stripped via get_raw_module
                 let mut cursor = Cursor::new(&bytes);
                 let eocd = find_eocd(&mut cursor, bytes.len())?;
                 (bytes, eocd)
-- 
2.43.0


From 7dae5e1ad1def51a1f70c98dbe480b6155fba724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:47 +0000
Subject: [PATCH 08/19] fix: bytes after the end record are lost or misplaced
 when signing or stripping a module

---
 src/file_formats/module/mod.rs | 41 ++++++++++++++++++++++------------
 src/signable.rs                |  5 +++++
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index 32398c9..5cf5b02 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -364,19 +364,27 @@ impl Module {
 
         let eocd_serialized = eocd.to_u8();
 
-        let end_without_sig =
-            match full_raw_file.get(end_sig..(full_raw_file.len() - eocd_serialized.len())) {
-                Some(data) => data,
-                None => {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::InvalidData,
-                        "Invalid end signature",
-                    ))
-                }
-            };
-
-        let module_without_signature =
-            [start_without_sig, end_without_sig, &eocd_serialized].concat();
+        let end_without_sig = match full_raw_file.get(end_sig..eocd.file_offset) {
+            Some(data) => data,
+            None => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "Invalid end signature",
+                ))
+            }
+        };
+        // bytes after the end record, if any
+        let trailing = full_raw_file
+            .get(eocd.file_offset + eocd_serialized.len()..)
+            .unwrap_or_default();
+
+        let module_without_signature = [
+            start_without_sig,
+            end_without_sig,
+            &eocd_serialized,
+            trailing,
+        ]
+        .concat();
 
         Ok(module_without_signature)
     }
@@ -409,13 +417,18 @@ impl Module {
         // copy zip central directory
         let mut file_reader_end = File::open(&self.path)?;
         file_reader_end.seek(SeekFrom::Start(offsets.start_cd as u64))?;
-        let take = (offsets.stop_eocd - offsets.start_cd - eocd_len) as u64;
+        let take = (offsets.stop_cd - offsets.start_cd) as u64;
         let mut file_reader_end = file_reader_end.take(take);
         copy(&mut file_reader_end, writer)?;
 
         // copy end of central directory
         writer.write_all(&oecd_serialized)?;
 
+        // copy the bytes after the end of central directory, if any
+        let mut file_reader_trailing = File::open(&self.path)?;
+        file_reader_trailing.seek(SeekFrom::Start((offsets.stop_cd + eocd_len) as u64))?;
+        copy(&mut file_reader_trailing, writer)?;
+
         Ok(())
     }
 
diff --git a/src/signable.rs b/src/signable.rs
index c0d25c3..bea07c6 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -360,6 +360,10 @@ impl Signable for Module {
             .checked_sub(cd_offset)
             .ok_or_else(|| SignableError::Parse("Invalid central directory offset".to_string()))?;
         let eocd_size = raw_bytes.len() - eocd_offset;
+        // bytes after the end record, if any
+        let trailing = raw_bytes
+            .get(eocd_offset + eocd.to_u8().len()..)
+            .unwrap_or_default();
 
         let header_slice = raw_bytes
             .get(..cd_offset)
@@ -380,6 +384,7 @@ impl Signable for Module {
 
         debug_assert_eq!(cd_size + eocd_size + cd_offset, raw_bytes.len());
         writer.write_all(&eocd.to_u8())?;
+        writer.write_all(trailing)?;
         Ok(())
     }
 }
-- 
2.43.0


From d1fdba78e320da636a58e4aeb45527aec6373c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:48 +0000
Subject: [PATCH 09/19] fix: signing a module truncates a directory offset that
 no longer fits 32 bits

---
 src/signable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signable.rs b/src/signable.rs
index bea07c6..56ffc86 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -377,10 +377,11 @@ impl Signable for Module {
 
         let new_cd_offset = cd_offset
             .checked_add(signing_block_bytes.len())
+            .and_then(|offset| u32::try_from(offset).ok())
             .ok_or_else(|| SignableError::Parse("签名块过大".to_string()))?;
 
         eocd.file_offset = eocd_offset + signing_block_bytes.len();
-        eocd.cd_offset = new_cd_offset as u32;
+        eocd.cd_offset = new_cd_offset;
 
         debug_assert_eq!(cd_size + eocd_size + cd_offset, raw_bytes.len());
         writer.write_all(&eocd.to_u8())?;
-- 
2.43.0


From 6bfa5a403097cebc186a3ed4b865fc02df57074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:49 +0000
Subject: [PATCH 10/19] fix: digest chunks depend on how the reader splits its
 data

---
 src/file_formats/elf/digest.rs    | 14 +++++++-----
 src/file_formats/module/digest.rs | 38 ++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/file_formats/elf/digest.rs b/src/file_formats/elf/digest.rs
index 947e502..1d6ba18 100644
--- a/src/file_formats/elf/digest.rs
+++ b/src/file_formats/elf/digest.rs
@@ -2,7 +2,7 @@
 
 #![cfg(feature = "elf")]
 
-use std::io::{self, BufRead, BufReader, Read, Seek, SeekFrom};
+use std::io::{self, BufReader, Read, Seek, SeekFrom};
 
 use crate::signing_block::algorithms::Algorithms;
 
@@ -59,13 +59,15 @@ pub fn digest_elf_sections<R: Read + Seek>(
         let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
 
         loop {
-            let chunk = reader.fill_buf()?;
-            let length = chunk.len();
-            if length == 0 {
+            let mut chunk = Vec::new();
+            reader
+                .by_ref()
+                .take(CHUNK_SIZE as u64)
+                .read_to_end(&mut chunk)?;
+            if chunk.is_empty() {
                 break;
             }
-            all_chunk_digests.push(digest_chunk(chunk, algo));
-            reader.consume(length);
+            all_chunk_digests.push(digest_chunk(&chunk, algo));
         }
 
         // Reset for next section
diff --git a/src/file_formats/module/digest.rs b/src/file_formats/module/digest.rs
index 382b72b..a0970f7 100644
--- a/src/file_formats/module/digest.rs
+++ b/src/file_formats/module/digest.rs
@@ -2,7 +2,7 @@
 //!
 //! Gated behind the `hash` feature
 
-use std::io::{self, BufRead, BufReader, Read, Seek, SeekFrom};
+use std::io::{self, BufReader, Read, Seek, SeekFrom};
 
 use super::zip::FileOffsets;
 use crate::signing_block::algorithms::Algorithms;
@@ -40,13 +40,15 @@ pub fn digest_zip_contents<R: Read + Seek>(
     let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
     let mut digestives = Vec::new();
     loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
+        let mut chunk = Vec::new();
+        reader
+            .by_ref()
+            .take(CHUNK_SIZE as u64)
+            .read_to_end(&mut chunk)?;
+        if chunk.is_empty() {
             break;
         }
-        digestives.push(digest_chunk(chunk, sig));
-        reader.consume(length);
+        digestives.push(digest_chunk(&chunk, sig));
     }
     Ok(digestives)
 }
@@ -66,13 +68,15 @@ pub fn digest_central_directory<R: Read + Seek>(
     let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
     let mut digestives = Vec::new();
     loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
+        let mut chunk = Vec::new();
+        reader
+            .by_ref()
+            .take(CHUNK_SIZE as u64)
+            .read_to_end(&mut chunk)?;
+        if chunk.is_empty() {
             break;
         }
-        digestives.push(digest_chunk(chunk, sig));
-        reader.consume(length);
+        digestives.push(digest_chunk(&chunk, sig));
     }
     Ok(digestives)
 }
@@ -110,14 +114,16 @@ pub fn digest_end_of_central_directory<R: Read + Seek>(
     let mut reader = BufReader::with_capacity(CHUNK_SIZE, reader);
     let mut digestives = Vec::new();
     loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
+        let mut chunk = Vec::new();
+        reader
+            .by_ref()
+            .take(CHUNK_SIZE as u64)
+            .read_to_end(&mut chunk)?;
+        if chunk.is_empty() {
             break;
         }
-        let digest = digest_chunk(chunk, sig);
+        let digest = digest_chunk(&chunk, sig);
         digestives.push(digest);
-        reader.consume(length);
     }
     Ok(digestives)
 }
-- 
2.43.0


From eeebbc3eae8bc9d5967c565a5ede9cb27f844a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:46 +0000
Subject: [PATCH 11/19] fix: a signer or stamp without any signature is
 reported as having a valid one

---
 src/verifier.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 5177e15..a8306e8 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -695,8 +695,8 @@ impl SignatureVerifier {
                         }
                     };
 
-                    // Verify each signature
-                    let mut sig_valid = true;
+                    // Verify each signature (a signer without any proves nothing)
+                    let mut sig_valid = !signer.signatures.signatures_data.is_empty();
                     for sig in signer.signatures.signatures_data.iter() {
                         let algo = &sig.signature_algorithm_id;
 
@@ -848,8 +848,8 @@ impl SignatureVerifier {
                     }
                 };
 
-                // Verify each signature and digest
-                let mut sig_valid = true;
+                // Verify each signature and digest (a stamp without any signature proves nothing)
+                let mut sig_valid = !stamp_block.signatures.signatures_data.is_empty();
                 let mut digest_verified = false;
 
                 for sig in &stamp_block.signatures.signatures_data {
-- 
2.43.0


From 4946658faf5fcf0e0fc12eddb67444ee9da4ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:47 +0000
Subject: [PATCH 12/19] fix: a signer or stamp without a certificate is
 reported as validly signed

---
 src/verifier.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index a8306e8..6ee6eeb 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -784,6 +784,10 @@ impl SignatureVerifier {
                         if let Some(err) = chain_error {
                             signer_result.warnings.push(err);
                         }
+                    } else {
+                        // Without a certificate the public key is bound to nobody
+                        signer_result.error = Some("No certificate found".to_string());
+                        signer_result.signature_valid = false;
                     }
 
                     signer_results.push(signer_result);
@@ -932,6 +936,10 @@ impl SignatureVerifier {
                     if let Some(err) = chain_error {
                         signer_result.warnings.push(err);
                     }
+                } else {
+                    // Without a certificate the public key is bound to nobody
+                    signer_result.error = Some("No certificate found".to_string());
+                    signer_result.signature_valid = false;
                 }
 
                 signer_results.push(signer_result);
-- 
2.43.0


From e37a8d191b6c71a8c100768c4d569330a95df2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:47 +0000
Subject: [PATCH 13/19] fix: the overall verdict is positive when nothing is
 signed

---
 src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 6ee6eeb..da54927 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -192,7 +192,7 @@ impl VerifyAllResult {
     /// - Certificate chain is valid
     /// - Certificate is trusted (signed by a trusted root)
     ///
-    /// Blocks that are not present (NoSignature) are ignored.
+    /// Blocks that are not present (NoSignature) are ignored, but at least one must be present.
     ///
     /// **Important**: If you call verification without a digest context, `digest_valid`
     /// will be false and this method will return false. Use `verify_all_with_digest`
@@ -203,7 +203,7 @@ impl VerifyAllResult {
             || matches!(&self.v2, Err(VerifyError::NoSignature));
         let stamp_ok = matches!(&self.source_stamp, Ok(r) if r.signature_valid && r.digest_valid && r.cert_chain_valid && r.is_trusted)
             || matches!(&self.source_stamp, Err(VerifyError::NoSignature));
-        v2_ok && stamp_ok
+        v2_ok && stamp_ok && (self.has_v2() || self.has_source_stamp())
     }
 
     /// Check if V2 signature exists (regardless of validity)
-- 
2.43.0


From 4a48e8153ce058f73d543922564c6b123974c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 14/19] fix: the ELF section info escapes the size limit of the
 signing block

---
 src/cli/sign.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cli/sign.rs b/src/cli/sign.rs
index c0b7876..41fda79 100644
--- a/src/cli/sign.rs
+++ b/src/cli/sign.rs
@@ -6,7 +6,7 @@ use ksusig::{
     load_p12, load_pem, FileFormat, ModuleSigner, ModuleSignerConfig, SignableFile,
 };
 #[cfg(feature = "elf")]
-use ksusig::{signing_block::elf_section_info::ElfSectionInfo, ValueSigningBlock};
+use ksusig::{signing_block::elf_section_info::ElfSectionInfo, SigningBlock, ValueSigningBlock};
 use std::fs::File;
 use std::io::{BufWriter, Write};
 use std::path::PathBuf;
@@ -187,10 +187,10 @@ pub fn execute(args: SignArgs) -> Result<(), Box<dyn std::error::Error>> {
                 .map(|(name, offset, size)| (name.as_str(), *offset, *size))
                 .collect(),
         );
-        signing_block
-            .content
-            .push(ValueSigningBlock::ElfSectionInfoBlock(section_info));
-        signing_block.recalculate_size();
+        let mut content = signing_block.content;
+        content.push(ValueSigningBlock::ElfSectionInfoBlock(section_info));
+        // Built anew so that the size limit also covers the section info
+        signing_block = SigningBlock::new(content)?;
     }
 
     let signing_block_size = signing_block.to_u8().len();
-- 
2.43.0


From 3978fcb37e355146f0fe8e1189e3bdff0bc74911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 15/19] fix: signing a file onto itself destroys it

---
 src/cli/sign.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cli/sign.rs b/src/cli/sign.rs
index 41fda79..da531a3 100644
--- a/src/cli/sign.rs
+++ b/src/cli/sign.rs
@@ -7,8 +7,6 @@ use ksusig::{
 };
 #[cfg(feature = "elf")]
 use ksusig::{signing_block::elf_section_info::ElfSectionInfo, SigningBlock, ValueSigningBlock};
-use std::fs::File;
-use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 /// Arguments for the sign command
@@ -201,9 +199,10 @@ pub fn execute(args: SignArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     // Write output file
     println!("Writing signed module...");
-    let mut writer = BufWriter::new(File::create(&args.output)?);
-    signable.write_with_signature(&mut writer, &signing_block)?;
-    writer.flush()?;
+    // The output may be the input file itself: read everything before touching it
+    let mut signed = Vec::new();
+    signable.write_with_signature(&mut signed, &signing_block)?;
+    std::fs::write(&args.output, &signed)?;
 
     println!("✓ Signing successful!");
     println!("Output file: {}", args.output.display());
-- 
2.43.0


From 4f870f17424ee8ffe18e823083edf1122416536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:46 +0000
Subject: [PATCH 16/19] fix: a digest or signature size field can demand 4 GB
 when a decoded block is written back

---
 src/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index 3fede1c..81faa9f 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -37,6 +37,10 @@ impl Digest {
     /// Returns a string if the data is not valid.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size = data.read_size()?;
+        // The size decides how much is written back: it cannot exceed what is there
+        if size > data.len() - data.get_pos() {
+            return Err("Invalid size".to_string());
+        }
         let signature_algorithm_id = data.read_u32()?;
         let algo = Algorithms::from(signature_algorithm_id);
         let digest_size = data.read_size()?;
@@ -332,6 +336,10 @@ impl Signature {
     /// Returns a string if the data is not valid.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size = data.read_size()?;
+        // The size decides how much is written back: it cannot exceed what is there
+        if size > data.len() - data.get_pos() {
+            return Err("Invalid size".to_string());
+        }
         let signature_algorithm_id = data.read_u32()?;
         let algo = Algorithms::from(signature_algorithm_id);
         let signature_size = data.read_size()?;
-- 
2.43.0


From 80c22ab9c0a691f4b33c0bc738f23e3515a6ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:46 +0000
Subject: [PATCH 17/19] fix: the signature section name merges with an
 unterminated last section name

---
 src/file_formats/elf/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 7c48044..2e07a3c 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -211,6 +211,10 @@ impl ElfFile {
 
         let mut maybe_name_offset = existing_name_offset(&elf, KSU_SIGN_SECTION);
         if maybe_name_offset.is_none() {
+            // Keep the new name apart from an unterminated last one
+            if shstrtab_bytes.last().is_some_and(|last| *last != 0) {
+                shstrtab_bytes.push(0);
+            }
             maybe_name_offset = Some(shstrtab_bytes.len());
             shstrtab_bytes.extend_from_slice(KSU_SIGN_SECTION.as_bytes());
             shstrtab_bytes.push(0);
-- 
2.43.0


From 06a5f7058d42a0e5265dd9a8941c7bd42f931af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:36 +0000
Subject: [PATCH 18/19] fix: the size field of a signer can demand 4 GB when a
 decoded block is written back

---
 src/signing_block/scheme_v2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/signing_block/scheme_v2.rs b/src/signing_block/scheme_v2.rs
index 6363254..277c8a7 100644
--- a/src/signing_block/scheme_v2.rs
+++ b/src/signing_block/scheme_v2.rs
@@ -122,6 +122,10 @@ impl Signer {
     /// Returns a string if the parsing fails.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size_one_signer = data.read_size()?;
+        // The size decides how much is written back: it cannot exceed what is there
+        if size_one_signer > data.len() - data.get_pos() {
+            return Err("Invalid size".to_string());
+        }
         let signed_data = SignedData::parse(data)?;
         let signatures = Signatures::parse(data)?;
         let pub_key = PubKey::parse(data)?;
-- 
2.43.0


From c4e8812d3a991e0a66f25359eb037d0a3d935087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 19/19] fix: a signature without a signed digest keeps
 digest_valid from an earlier one

---
 src/verifier.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index da54927..27c3b09 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -716,6 +716,7 @@ impl SignatureVerifier {
                                     .warnings
                                     .push(format!("No digest found for algorithm {}", algo));
                                 sig_valid = false;
+                                signer_result.digest_valid = false;
                                 break;
                             }
                         };
-- 
2.43.0

