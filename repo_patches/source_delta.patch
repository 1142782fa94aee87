From 937d558860350540f73cc57a9a55ae6140ac4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 01/18] fix: window read_exact must fail only when the window
 has too few bytes left

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 9f15e14..77cf45c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -62,7 +62,7 @@ where
 
     fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
         if let Some(bytes_left) = self.bytes_left() {
-            if bytes_left > buf.len() {
+            if bytes_left < buf.len() {
                 return Err(io::ErrorKind::UnexpectedEof.into());
             }
         }
-- 
2.43.0


From 8a9897291e30cae2399666ce96e9295288deb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 02/18] fix: window seek from the current position must not
 depend on where the source stands

---
 src/window.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 77cf45c..f223b78 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -113,15 +113,18 @@ where
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let position = self.source.seek(match pos {
-            SeekFrom::Current(_) => pos,
+            // relative to the position in the window, the source may be somewhere else
+            SeekFrom::Current(off) => {
+                SeekFrom::Start(self.start.saturating_add(self.pos).saturating_add_signed(off))
+            }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
-                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
+                    SeekFrom::Start(self.start.saturating_add(length).saturating_add_signed(off))
                 } else {
                     return Err(io::ErrorKind::Unsupported.into());
                 }
             }
-            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
+            SeekFrom::Start(off) => SeekFrom::Start(self.start.saturating_add(off)),
         })?;
         self.pos = position.saturating_sub(self.start);
         Ok(self.pos)
-- 
2.43.0


From 334e0f1bcf053ebf82b2114e9b2814f4c77049c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:09 +0000
Subject: [PATCH 03/18] fix: a partition that could not be added completely
 must not be listed on the disc

---
 src/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 18798ea..d758fde 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -115,10 +115,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-        self.partitions.push(WiiPartTableEntry {
-            part_data_off: part_data_off.into(),
-            part_type,
-        });
         // placeholder header
         let mut part_header = WiiPartitionHeader {
             ticket,
@@ -238,8 +234,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         let total_size = groups * GROUP_DATA_SIZE;
         let total_encrypted_size = groups * GROUP_SIZE;
 
-        self.current_data_offset += 0x20000 /* encrypted data off */ + total_encrypted_size;
-
         // data is written, write the fst properly now
         crypto_writer.seek(SeekFrom::Start(*part_disc_header.fst_off))?;
         fst.write_to(&mut crypto_writer)?;
@@ -289,6 +283,12 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // write partition header
         partition_window.seek(SeekFrom::Start(0))?;
         partition_window.write_be(&part_header)?;
+        // the partition only counts once it is completely written
+        self.current_data_offset += 0x20000 /* encrypted data off */ + total_encrypted_size;
+        self.partitions.push(WiiPartTableEntry {
+            part_data_off: part_data_off.into(),
+            part_type,
+        });
         Ok(())
     }
 
-- 
2.43.0


From 964d0909abf2ce60981ad9b0489e130e7a1a058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:10 +0000
Subject: [PATCH 04/18] fix: a malformed file system table must give an error,
 not a panic or a huge allocation

---
 src/fst.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a2ffa68..9d47490 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -318,7 +318,8 @@ impl Fst {
             });
         }
         let total_node_count = root_node.length - 1;
-        let mut nodes = Vec::with_capacity(total_node_count as usize);
+        // the count comes from the disc, don't trust it for the allocation
+        let mut nodes = Vec::with_capacity((total_node_count as usize).min(0x10000));
         nodes.push(root_node);
         for _ in 0..total_node_count {
             nodes.push(rs.read_be::<RawFstNode>()?);
@@ -337,9 +338,13 @@ impl Fst {
         children_end: u32,
         cur_idx: &mut u32,
     ) -> binrw::BinResult<Vec<FstNode>> {
-        let mut nodes = Vec::with_capacity(raw_nodes.len());
+        let invalid_end = || binrw::Error::Custom {
+            pos: str_offset,
+            err: Box::new(format!("invalid FST directory end: {children_end}")),
+        };
+        let mut nodes = Vec::new();
         while *cur_idx < children_end {
-            let node = &raw_nodes[*cur_idx as usize];
+            let node = raw_nodes.get(*cur_idx as usize).ok_or_else(invalid_end)?;
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
@@ -354,7 +359,9 @@ impl Fst {
                 });
             }
         }
-        assert_eq!(*cur_idx, children_end);
+        if *cur_idx != children_end {
+            return Err(invalid_end());
+        }
         Ok(nodes)
     }
 
-- 
2.43.0


From 6e4109c824c641d2e1d09e9078391c9012840098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:54 +0000
Subject: [PATCH 05/18] fix: an unknown common key index in a ticket must give
 an error, not a panic

---
 src/structs.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index df8a7d5..8124e8f 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -98,24 +98,39 @@ pub struct TicketTimeLimit {
     pub time_limit: u32,
 }
 
-fn decrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn get_common_key(common_key_idx: u8) -> Result<[u8; 16], String> {
+    COMMON_KEYS
+        .get(common_key_idx as usize)
+        .copied()
+        .ok_or_else(|| format!("invalid common key index: {common_key_idx}"))
+}
+
+fn decrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut decrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcDec::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcDec::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .decrypt_padded_b2b_mut::<NoPadding>(key, &mut decrypted)
         .unwrap();
-    decrypted
+    Ok(decrypted)
 }
 
-fn encrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn encrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut encrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcEnc::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcEnc::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .encrypt_padded_b2b_mut::<NoPadding>(key, &mut encrypted)
         .unwrap();
-    encrypted
+    Ok(encrypted)
 }
 
 #[binrw]
@@ -128,7 +143,7 @@ pub struct Ticket {
     pub ecdh: [u8; 0x3C],
     #[brw(pad_before = 3)]
     #[br(temp)]
-    #[bw(calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
+    #[bw(try_calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
     encrypted_key: [u8; 16],
     #[brw(pad_before = 1)]
     pub ticket_id: [u8; 8],
@@ -145,7 +160,7 @@ pub struct Ticket {
     pub unk2: u16,
     pub time_limits: [TicketTimeLimit; 8],
     #[bw(ignore)]
-    #[br(calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
+    #[br(try_calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
     pub title_key: [u8; 16],
 }
 
-- 
2.43.0


From fd4eca649c03cad74f99b342f53aa8cec1f156dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:55 +0000
Subject: [PATCH 06/18] fix: sizes claimed by a damaged disc must neither
 overflow nor drive allocations

---
 src/new_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9071f98..0207b06 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -93,7 +93,8 @@ impl EncryptedPartState {
         buffer: &mut Vec<u8>,
     ) -> io::Result<()> {
         buffer.clear();
-        buffer.reserve(length as usize);
+        // the length often comes from the disc, don't trust it for the allocation
+        buffer.reserve(length.min(GROUP_DATA_SIZE) as usize);
         let mut group = offset / GROUP_DATA_SIZE;
         let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
@@ -295,9 +296,9 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
-        let fullsize = 32 + apploader_header.size1 + apploader_header.size2;
+        let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize as u64, &mut buf)?;
+        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
-- 
2.43.0


From 2265485772da0431cf2868160424e16039c766d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:11 +0000
Subject: [PATCH 07/18] fix: system files that lie outside the partition data
 must give an error, not be cut short

---
 src/new_reader.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 0207b06..cc8bd63 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -167,6 +167,20 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
             .read_into_vec(self.rs, offset, length, buffer)
     }
 
+    // like read_into_vec, but the data has to be there completely
+    fn read_exact_into_vec(
+        &mut self,
+        offset: u64,
+        length: u64,
+        buffer: &mut Vec<u8>,
+    ) -> io::Result<()> {
+        self.read_into_vec(offset, length, buffer)?;
+        if (buffer.len() as u64) < length {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(())
+    }
+
     pub fn into_window(self, offset: u64, length: Option<u64>) -> impl Read + Seek + 'a {
         IOWindow::new(self, offset, length)
     }
@@ -285,7 +299,7 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x440))?;
         let mut bi2_buf = vec![];
-        crypt_part_reader.read_into_vec(0x440, 0x2000, &mut bi2_buf)?;
+        crypt_part_reader.read_exact_into_vec(0x440, 0x2000, &mut bi2_buf)?;
         Ok(bi2_buf)
     }
 
@@ -298,7 +312,7 @@ impl WiiPartitionReadInfo {
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
         let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
+        crypt_part_reader.read_exact_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
@@ -327,7 +341,7 @@ impl WiiPartitionReadInfo {
             })
         } else {
             let mut out_buf = Vec::new();
-            crypt_part_reader.read_into_vec(dol_offset, dol_size as u64, &mut out_buf)?;
+            crypt_part_reader.read_exact_into_vec(dol_offset, dol_size as u64, &mut out_buf)?;
             Ok(out_buf)
         }
     }
@@ -357,7 +371,7 @@ impl WiiPartitionReadInfo {
         let fst_off = *self.encrypted_header.fst_off;
         let fst_sz = *self.encrypted_header.fst_sz;
         self.get_crypto_reader(reader)
-            .read_into_vec(fst_off, fst_sz, &mut fst_buf)?;
+            .read_exact_into_vec(fst_off, fst_sz, &mut fst_buf)?;
         write_file(&sys_folder, "fst.bin", &fst_buf)?;
         Ok(())
     }
-- 
2.43.0


From c37a1025279faa7ed4f864144daaddc2c8b787c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:17 +0000
Subject: [PATCH 08/18] fix: extraction must fail when a file reaches past the
 end of the partition

---
 disc-riider-py/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index e7611b8..12e75b5 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -1,7 +1,7 @@
 use std::{
     convert::Infallible,
     fs::{self, create_dir_all, OpenOptions},
-    io::{Read, Seek, SeekFrom, Write},
+    io::{self, Read, Seek, SeekFrom, Write},
     path::{Path, PathBuf},
 };
 
@@ -248,6 +248,9 @@ impl WiiIsoExtractor {
                             let bytes_read =
                                 wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
                             if bytes_read == 0 {
+                                if bytes_left > 0 {
+                                    return Err(io::ErrorKind::UnexpectedEof.into());
+                                }
                                 break;
                             }
 
-- 
2.43.0


From 7c084f4fa8206e45b364d2b2232a1a21f9876beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:18 +0000
Subject: [PATCH 09/18] fix: extraction must refuse file names that lead
 outside the destination folder

---
 disc-riider-py/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 12e75b5..8b5f53b 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -2,7 +2,7 @@ use std::{
     convert::Infallible,
     fs::{self, create_dir_all, OpenOptions},
     io::{self, Read, Seek, SeekFrom, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use binrw::{BinWrite, BinWriterExt};
@@ -76,6 +76,18 @@ impl WiiIsoExtractor {
     }
 }
 
+/// names come from the disc, make sure they can't lead out of the destination folder
+fn check_filename(name: &str) -> io::Result<()> {
+    let mut components = Path::new(name).components();
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(part)), None) if part == name => Ok(()),
+        _ => Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("invalid filename on disc: {name:?}"),
+        )),
+    }
+}
+
 pub fn binrw_write_file(p: &Path, value: &impl for<'a> BinWrite<Args<'a> = ()>) -> PyResult<()> {
     let mut f = fs::File::create(p).into_pyerr_with_path(p)?;
     f.write_be(value).into_pyerr_with_path(p)?;
@@ -234,6 +246,7 @@ impl WiiIsoExtractor {
                     if let FstNode::File { offset, length, .. } = node {
                         let mut filepath = section_path.join("files");
                         for name in names {
+                            check_filename(name)?;
                             filepath.push(name);
                         }
                         // println!("{filepath:?}");
-- 
2.43.0


From 1fdba67b76b719bdb623bdf646432beb277aa6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:09 +0000
Subject: [PATCH 10/18] fix: a TMD without contents must give an error, not a
 panic

---
 src/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index d758fde..9773d3b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -113,6 +113,10 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         C: FnMut(u8),
     {
         progress_cb(0);
+        // the content hash and size of the first content get replaced later
+        if tmd.contents.is_empty() {
+            return Err(io::Error::new(io::ErrorKind::InvalidInput, "TMD has no contents").into());
+        }
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
         // placeholder header
-- 
2.43.0


From 89d16f84850442f03bdedc4e9048fd89dae95898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:09 +0000
Subject: [PATCH 11/18] fix: a TMD too large for the space before the global
 hash table must give an error

---
 src/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 9773d3b..fc47585 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -143,6 +143,13 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         partition_window.write_be(&cert_chain)?;
         part_header.cert_chain_size =
             (partition_window.stream_position()? - *part_header.cert_chain_off) as u32;
+        if *part_header.cert_chain_off + part_header.cert_chain_size as u64 > 0x8000 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "TMD and certificates don't fit before the global hash table",
+            )
+            .into());
+        }
         // global hash table at 0x8000, encrypted data starts at 0x20000
         // let mut h3: Box<[u8; 0x18000]> = vec![0u8; 0x18000].into_boxed_slice().try_into().unwrap();
         // now we write encrypted data
-- 
2.43.0


From dd10563db268180e7ebb69ab568a2bed0dce4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:10 +0000
Subject: [PATCH 12/18] fix: more data than a partition can hold must give an
 error, not a panic

---
 src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index fc47585..f300674 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -157,7 +157,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             &mut partition_window,
             0x20000,
             part_header.ticket.title_key,
-            None,
+            // the global hash table can't hold more groups
+            Some(0x18000 / 20),
             0,
         );
         let source_fst = partition_def.get_fst()?;
-- 
2.43.0


From a952a113c7398f56675a3be259e50364cf607775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:10 +0000
Subject: [PATCH 13/18] fix: a file of 4 GiB or more must give an error, its
 length can't be stored

---
 src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index f300674..b00e2fb 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -213,7 +213,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             *offset = crypto_writer.stream_position()?;
             let (data, padding) = partition_def.get_file_data(path)?;
             let mut remaining_data = data.as_ref();
-            *size = remaining_data.len() as u32;
+            *size = u32::try_from(remaining_data.len())
+                .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "file is too large"))?;
             while remaining_data.len() > 0 {
                 let bytes_to_write = remaining_data.len().min(0x1_000_000);
                 let batch;
-- 
2.43.0


From 399ac6ea159d7f2d7ec7b1f5e85d4ae3096cd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:11 +0000
Subject: [PATCH 14/18] fix: file names that need more than the 24 bit name
 offset must give an error

---
 src/fst.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fst.rs b/src/fst.rs
index 9d47490..1a2b610 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -524,6 +524,8 @@ pub struct FstToBytes {
 pub enum FstToBytesError {
     #[error("{0} can't be converted into shift-jis!")]
     InvalidShiftJis(String),
+    #[error("the names of all files and directories are too long in total!")]
+    NamesTooLong,
 }
 
 fn rec_build_fst_bytes(
@@ -537,6 +539,10 @@ fn rec_build_fst_bytes(
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
+        // there are only 24 bits for the name offset
+        if name_offset > 0xffffff {
+            return Err(FstToBytesError::NamesTooLong);
+        }
         str_bytes.extend_from_slice(bytes.as_ref());
         str_bytes.push(0);
         name_offsets.push(name_offset as u32);
-- 
2.43.0


From cab42e52c3a9a08524b99a93c9e1919bdd5f81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 15/18] fix: a file system table nested without limit must give
 an error, not exhaust the stack

---
 src/fst.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index 1a2b610..348a46e 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,6 +142,9 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
+/// directories are handled recursively, way more than any real disc has
+const MAX_FST_DEPTH: u32 = 500;
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -327,7 +330,7 @@ impl Fst {
         let str_offset = rs.stream_position()?;
 
         let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1)?;
+            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -337,7 +340,14 @@ impl Fst {
         raw_nodes: &Vec<RawFstNode>,
         children_end: u32,
         cur_idx: &mut u32,
+        depth: u32,
     ) -> binrw::BinResult<Vec<FstNode>> {
+        if depth > MAX_FST_DEPTH {
+            return Err(binrw::Error::Custom {
+                pos: str_offset,
+                err: Box::new("FST directories are nested too deeply"),
+            });
+        }
         let invalid_end = || binrw::Error::Custom {
             pos: str_offset,
             err: Box::new(format!("invalid FST directory end: {children_end}")),
@@ -348,8 +358,14 @@ impl Fst {
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
-                let files =
-                    Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
+                let files = Self::transform_fst_rec(
+                    rs,
+                    str_offset,
+                    raw_nodes,
+                    node.length,
+                    cur_idx,
+                    depth + 1,
+                )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
                 nodes.push(FstNode::File {
-- 
2.43.0


From 28725b3672e3ac3e9d6b27737e8353bb10ec196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:13 +0000
Subject: [PATCH 16/18] fix: seeking far past the end of a partition must not
 lead back to its start

---
 src/new_reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index cc8bd63..d3eeca5 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -189,12 +189,15 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
 impl<'a, RS: Read + Seek> Seek for CryptPartReader<'a, RS> {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let new_pos = match pos {
-            SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,
-            SeekFrom::Start(off) => off as i64,
+            SeekFrom::Current(off) => self
+                .crypt_part_state
+                .current_position
+                .saturating_add_signed(off),
+            SeekFrom::Start(off) => off,
             // TODO: support seeking from the end when it's known?
             SeekFrom::End(_off) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
-        self.crypt_part_state.current_position = new_pos.max(0) as u64;
+        self.crypt_part_state.current_position = new_pos;
         Ok(self.crypt_part_state.current_position)
     }
 
-- 
2.43.0


From 4f35dc271b19848246ff7970ca3480893bcdd655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:24 +0000
Subject: [PATCH 17/18] fix: limit the total size of the names in an FST

Nodes of a damaged FST can share one long name, which was read into
memory once per node.
---
 src/fst.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index 348a46e..45d52aa 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -145,6 +145,9 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
 /// directories are handled recursively, way more than any real disc has
 const MAX_FST_DEPTH: u32 = 500;
 
+/// name offsets only have 24 bits, so there can only be 16MiB of (Shift-JIS) names in total
+const MAX_FST_NAME_BYTES: usize = 0x4_000_000;
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -330,7 +333,7 @@ impl Fst {
         let str_offset = rs.stream_position()?;
 
         let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
+            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0, &mut 0)?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -341,6 +344,7 @@ impl Fst {
         children_end: u32,
         cur_idx: &mut u32,
         depth: u32,
+        name_bytes: &mut usize,
     ) -> binrw::BinResult<Vec<FstNode>> {
         if depth > MAX_FST_DEPTH {
             return Err(binrw::Error::Custom {
@@ -356,6 +360,14 @@ impl Fst {
         while *cur_idx < children_end {
             let node = raw_nodes.get(*cur_idx as usize).ok_or_else(invalid_end)?;
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
+            // nodes can share their names, don't let them add up to more than the disc holds
+            *name_bytes += name.len();
+            if *name_bytes > MAX_FST_NAME_BYTES {
+                return Err(binrw::Error::Custom {
+                    pos: str_offset,
+                    err: Box::new("FST names are too long"),
+                });
+            }
             *cur_idx += 1;
             if node.is_directory {
                 let files = Self::transform_fst_rec(
@@ -365,6 +377,7 @@ impl Fst {
                     node.length,
                     cur_idx,
                     depth + 1,
+                    name_bytes,
                 )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
-- 
2.43.0


From 3533a36b4b6226c311b1258f9cc9f752a81428f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:20 +0000
Subject: [PATCH 18/18] fix: an executable with gaps between its sections must
 not be cut short

The size was the first text offset plus the sum of all section sizes,
which is only right when the sections lie one after another.
---
 src/new_reader.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index d3eeca5..892091c 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -327,16 +327,14 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(dol_offset))?;
         let dol_header = crypt_part_reader.read_be::<DOLHeader>()?;
-        let mut dol_size = dol_header.text_off[0];
-        dol_size = dol_size.saturating_add(
-            dol_header
-                .text_sizes
-                .iter()
-                .chain(dol_header.data_sizes.iter())
-                .cloned()
-                .reduce(|accum, item| accum.saturating_add(item))
-                .unwrap(),
-        );
+        // the sections can be in any order and have gaps between them
+        let offsets = dol_header.text_off.iter().chain(&dol_header.data_off);
+        let sizes = dol_header.text_sizes.iter().chain(&dol_header.data_sizes);
+        let dol_size = offsets
+            .zip(sizes)
+            .filter(|(_, size)| **size != 0)
+            .map(|(offset, size)| offset.saturating_add(*size))
+            .fold(0x100, u32::max);
         if dol_size == u32::MAX {
             Err(binrw::Error::Custom {
                 pos: dol_offset,
-- 
2.43.0

