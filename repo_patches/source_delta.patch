From 3467a243c861140b4508e8347d56c5b2ce7f8905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 01/32] fix: encrypt and decrypt whole blocks when the reader
 returns short or is interrupted

---
 crates/volaris-crypto/src/stream.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index 99005ef..54f3380 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -60,6 +60,23 @@ pub enum DecryptionStreams {
     DeoxysII256(Box<DecryptorLE31<DeoxysII256>>),
 }
 
+/// Fills the buffer from the reader as far as possible, and returns the amount of bytes that were read
+///
+/// A single `read()` may return less than requested (or be interrupted) before the end of the file,
+/// so only a count lower than the length of the buffer means that the end has been reached
+fn read_block(reader: &mut impl Read, buffer: &mut [u8]) -> std::io::Result<usize> {
+    let mut filled = 0;
+    while filled < buffer.len() {
+        match reader.read(&mut buffer[filled..]) {
+            Ok(0) => break,
+            Ok(read_count) => filled += read_count,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(filled)
+}
+
 impl EncryptionStreams {
     /// This method can be used to quickly create an `EncryptionStreams` object
     ///
@@ -192,9 +209,8 @@ impl EncryptionStreams {
 
         let mut read_buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
         loop {
-            let read_count = reader
-                .read(&mut read_buffer)
-                .context("Unable to read from the reader")?;
+            let read_count =
+                read_block(reader, &mut read_buffer).context("Unable to read from the reader")?;
             if read_count == BLOCK_SIZE {
                 // aad is just empty bytes normally
                 // create_aad returns empty bytes if the header isn't V3+
@@ -360,7 +376,7 @@ impl DecryptionStreams {
 
         let mut buffer = vec![0u8; BLOCK_SIZE + 16].into_boxed_slice();
         loop {
-            let read_count = reader.read(&mut buffer)?;
+            let read_count = read_block(reader, &mut buffer)?;
             if read_count == (BLOCK_SIZE + 16) {
                 let payload = Payload {
                     aad,
-- 
2.43.0


From 4a26035fed3e4bec40ab56301d2ed3996aaa2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 02/32] fix: hash the whole file when the reader returns short
 or is interrupted

---
 crates/volaris-tools/src/hash.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-tools/src/hash.rs b/crates/volaris-tools/src/hash.rs
index f171eca..313dcdf 100644
--- a/crates/volaris-tools/src/hash.rs
+++ b/crates/volaris-tools/src/hash.rs
@@ -39,14 +39,11 @@ pub fn execute<R: Read + Seek>(mut hasher: impl Hasher, req: Request<R>) -> Resu
     let mut buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
 
     loop {
-        let read_count = req
-            .reader
-            .borrow_mut()
-            .read(&mut buffer)
-            .map_err(|_| Error::ReadData)?;
-        hasher.write(&buffer[..read_count]);
-        if read_count != BLOCK_SIZE {
-            break;
+        match req.reader.borrow_mut().read(&mut buffer) {
+            Ok(0) => break,
+            Ok(read_count) => hasher.write(&buffer[..read_count]),
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(_) => return Err(Error::ReadData),
         }
     }
 
-- 
2.43.0


From 5c5c407446ad06c527cf620edb49d57cd2d08495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 03/32] fix: pack whole files when the reader returns short or
 is interrupted

---
 crates/volaris-tools/src/pack.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index e07791e..1ab5bd2 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -90,13 +90,15 @@ where
                 let mut reader = f.try_reader().map_err(|_| Error::ReadData)?.borrow_mut();
                 let mut buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
                 loop {
-                    let read_count = reader.read(&mut buffer).map_err(|_| Error::ReadData)?;
+                    let read_count = match reader.read(&mut buffer) {
+                        Ok(0) => break,
+                        Ok(read_count) => read_count,
+                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                        Err(_) => return Err(Error::ReadData),
+                    };
                     zip_writer
                         .write_all(&buffer[..read_count])
                         .map_err(|_| Error::WriteData)?;
-                    if read_count != BLOCK_SIZE {
-                        break;
-                    }
                 }
             }
 
-- 
2.43.0


From 02cb6d6fed6d109032b6e9e4cc27919d5c3cc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 04/32] fix: write the header completely

---
 crates/volaris-crypto/src/header.rs | 2 +-
 crates/volaris-tools/src/encrypt.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 5c78a05..956940f 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -715,7 +715,7 @@ impl Header {
     pub fn write(&self, writer: &mut impl Write) -> Result<()> {
         let header_bytes = self.serialize()?;
         writer
-            .write(&header_bytes)
+            .write_all(&header_bytes)
             .context("Unable to write header")?;
 
         Ok(())
diff --git a/crates/volaris-tools/src/encrypt.rs b/crates/volaris-tools/src/encrypt.rs
index 1a3d1b9..368c1a3 100644
--- a/crates/volaris-tools/src/encrypt.rs
+++ b/crates/volaris-tools/src/encrypt.rs
@@ -120,7 +120,7 @@ where
         None => {
             req.writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
         Some(header_writer) => {
@@ -131,7 +131,7 @@ where
 
             header_writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
     }
-- 
2.43.0


From f9299c7c5eb57dbcf6fb2c22bb61ff1358ce24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 05/32] fix: refuse to restore a header onto a file that cannot
 hold it

---
 crates/volaris-tools/src/header/restore.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/header/restore.rs b/crates/volaris-tools/src/header/restore.rs
index d07a747..0cebacf 100644
--- a/crates/volaris-tools/src/header/restore.rs
+++ b/crates/volaris-tools/src/header/restore.rs
@@ -32,8 +32,12 @@ where
     ];
     req.writer
         .borrow_mut()
-        .read(&mut header_bytes)
-        .map_err(|_| Error::Read)?;
+        .read_exact(&mut header_bytes)
+        .map_err(|e| match e.kind() {
+            // the file is too short to contain the header
+            std::io::ErrorKind::UnexpectedEof => Error::UnsupportedRestore,
+            _ => Error::Read,
+        })?;
 
     if !header_bytes.into_iter().all(|b| b == 0) {
         return Err(Error::UnsupportedRestore);
-- 
2.43.0


From 2ac9a340a9feb537e860f3058c35eb6ae7d2b7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 06/32] fix: decrypt detached content that is shorter than the
 header

---
 crates/volaris-tools/src/decrypt.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/volaris-tools/src/decrypt.rs b/crates/volaris-tools/src/decrypt.rs
index be3c6d7..0a9fde4 100644
--- a/crates/volaris-tools/src/decrypt.rs
+++ b/crates/volaris-tools/src/decrypt.rs
@@ -67,19 +67,13 @@ where
             #[allow(clippy::cast_possible_truncation)]
             let mut header_bytes = vec![0u8; header.get_size() as usize];
 
-            req.reader
-                .borrow_mut()
-                .read_exact(&mut header_bytes)
-                .or_else(|e| {
-                    if e.kind() == std::io::ErrorKind::UnexpectedEof {
-                        Ok(())
-                    } else {
-                        Err(e)
-                    }
-                })
-                .map_err(|_| Error::ReadEncryptedData)?;
+            let has_empty_header = match req.reader.borrow_mut().read_exact(&mut header_bytes) {
+                Ok(()) => header_bytes.into_iter().all(|b| b == 0),
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => false,
+                Err(_) => return Err(Error::ReadEncryptedData),
+            };
 
-            if !header_bytes.into_iter().all(|b| b == 0) {
+            if !has_empty_header {
                 // And return the cursor position to the start if it wasn't found
                 req.reader
                     .borrow_mut()
-- 
2.43.0


From eb2290cb07073b744260e05af05e2f995e56489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 07/32] fix: overwrite with random bytes in every requested
 pass

---
 crates/volaris-tools/src/overwrite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 126cbb8..6725ea0 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -45,7 +45,7 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
         blocks.push(req.buf_capacity % BLOCK_SIZE);
 
         for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
-            let mut block_buf = Vec::with_capacity(block_size);
+            let mut block_buf = vec![0u8; block_size];
             rand::thread_rng().fill_bytes(&mut block_buf);
             writer
                 .write_all(&block_buf)
-- 
2.43.0


From 7ba3b6ad48d56fbf9e9ccf5f0693fa2bc0e3e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 08/32] fix: flush written files to the storage device

---
 crates/volaris-tools/src/storage.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 5a71a5f..b1261ad 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -125,10 +125,13 @@ impl Storage<fs::File> for FileStorage {
     }
 
     fn flush_file(&self, file: &Entry<fs::File>) -> Result<(), Error> {
-        file.try_writer()?
-            .borrow_mut()
-            .flush()
-            .map_err(|_| Error::FlushFile)
+        let mut writer = file.try_writer()?.borrow_mut();
+        writer.flush().map_err(|_| Error::FlushFile)?;
+        match writer.sync_all() {
+            // pipes and devices have nothing to synchronize
+            Err(err) if err.kind() != std::io::ErrorKind::InvalidInput => Err(Error::FlushFile),
+            _ => Ok(()),
+        }
     }
 
     fn file_len(&self, file: &Entry<fs::File>) -> Result<usize, Error> {
-- 
2.43.0


From ce895949992121459b225aa22d8c2342daeca0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 09/32] fix: erase the stored content instead of truncating it
 away

---
 crates/volaris-tools/src/erase.rs   |  6 +++++-
 crates/volaris-tools/src/storage.rs | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase.rs b/crates/volaris-tools/src/erase.rs
index 8dd6404..d60b021 100644
--- a/crates/volaris-tools/src/erase.rs
+++ b/crates/volaris-tools/src/erase.rs
@@ -12,6 +12,7 @@ use crate::storage::Storage;
 pub enum Error {
     OpenFile,
     Overwrite(crate::overwrite::Error),
+    FlushFile,
     RemoveFile,
 }
 
@@ -20,6 +21,7 @@ impl std::fmt::Display for Error {
         match self {
             Error::OpenFile => f.write_str("Unable to open file"),
             Error::Overwrite(inner) => write!(f, "Unable to overwrite file: {inner}"),
+            Error::FlushFile => f.write_str("Unable to flush file"),
             Error::RemoveFile => f.write_str("Unable to remove file"),
         }
     }
@@ -37,7 +39,7 @@ where
     RW: Read + Write + Seek,
     P: AsRef<Path>,
 {
-    let file = stor.write_file(req.path).map_err(|_| Error::OpenFile)?;
+    let file = stor.overwrite_file(req.path).map_err(|_| Error::OpenFile)?;
     let buf_capacity = stor.file_len(&file).map_err(|_| Error::OpenFile)?;
 
     crate::overwrite::execute(crate::overwrite::Request {
@@ -49,6 +51,8 @@ where
     })
     .map_err(Error::Overwrite)?;
 
+    // the zeros have to reach the storage device before the space is released
+    stor.flush_file(&file).map_err(|_| Error::FlushFile)?;
     stor.remove_file(file).map_err(|_| Error::RemoveFile)?;
 
     Ok(())
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index b1261ad..bf79306 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -67,6 +67,10 @@ where
     fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
+    /// Opens an existing file for overwriting it in place: its length and content stay as they are.
+    fn overwrite_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error> {
+        self.write_file(path)
+    }
     fn flush_file(&self, file: &Entry<RW>) -> Result<(), Error>;
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
@@ -124,6 +128,20 @@ impl Storage<fs::File> for FileStorage {
         }))
     }
 
+    fn overwrite_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
+        let path = path.as_ref().to_path_buf();
+        let file = fs::File::options()
+            .write(true)
+            .read(true)
+            .open(&path)
+            .map_err(|_| Error::OpenFile(FileMode::Write))?;
+
+        Ok(Entry::File(FileData {
+            path,
+            stream: RefCell::new(file),
+        }))
+    }
+
     fn flush_file(&self, file: &Entry<fs::File>) -> Result<(), Error> {
         let mut writer = file.try_writer()?.borrow_mut();
         writer.flush().map_err(|_| Error::FlushFile)?;
-- 
2.43.0


From 0a9407950cfc9714a15e99e806b748b21f9b0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 10/32] fix: do not erase what symbolic links in an erased
 directory point to

---
 crates/volaris-tools/src/erase_dir.rs | 12 ++++++++++--
 crates/volaris-tools/src/storage.rs   | 10 ++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index b8f3e3b..932433f 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -48,11 +48,19 @@ where
         .read_dir(&req.entry)
         .map_err(|_| Error::ReadDirEntries)?;
 
+    // A link is removed along with its directory, but what it points to isn't a part of it.
+    let files = files
+        .into_iter()
+        .filter(|f| !f.is_dir())
+        .map(|f| stor.is_symlink(f.path()).map(|link| (f, link)))
+        .collect::<Result<Vec<_>, _>>()
+        .map_err(|_| Error::ReadDirEntries)?;
+
     #[allow(clippy::needless_collect)] // 🚫 we have to collect in order to propertly join threads!
     let handlers = files
         .into_iter()
-        .filter(|f| !f.is_dir())
-        .map(|f| {
+        .filter(|(_, link)| !*link)
+        .map(|(f, _)| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
             std::thread::spawn(move || -> Result<(), Error> {
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index bf79306..b5d7e71 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -75,6 +75,10 @@ where
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
     fn remove_dir_all(&self, file: Entry<RW>) -> Result<(), Error>;
+    /// Tells whether the path itself is a symbolic link, whatever it points to.
+    fn is_symlink<P: AsRef<Path>>(&self, _path: P) -> Result<bool, Error> {
+        Ok(false)
+    }
     // TODO(pleshevskiy): return iterator instead of Vector
     fn read_dir(&self, file: &Entry<RW>) -> Result<Vec<Entry<RW>>, Error>;
 }
@@ -179,6 +183,12 @@ impl Storage<fs::File> for FileStorage {
         fs::remove_dir_all(file.path()).map_err(|_| Error::RemoveDir)
     }
 
+    fn is_symlink<P: AsRef<Path>>(&self, path: P) -> Result<bool, Error> {
+        fs::symlink_metadata(path)
+            .map(|meta| meta.file_type().is_symlink())
+            .map_err(|_| Error::FileAccess)
+    }
+
     fn read_dir(&self, file: &Entry<fs::File>) -> Result<Vec<Entry<fs::File>>, Error> {
         if !file.is_dir() {
             return Err(Error::FileAccess);
-- 
2.43.0


From 2c7c34c9a9e0eee5dc8a163dbf7018be8d153d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 11/32] fix: report archive entries that cannot be read when
 unpacking

---
 crates/volaris-tools/src/unpack.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 009ae31..aed8169 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -89,7 +89,10 @@ pub fn execute<RW: Read + Write + Seek>(
         // 4. prepare phase
         let entities = (0..archive.len())
             .filter_map(|i| {
-                let zip_file = archive.by_index(i).ok()?;
+                let zip_file = match archive.by_index(i) {
+                    Ok(zip_file) => zip_file,
+                    Err(_) => return Some(Err(Error::OpenArchivedFile)),
+                };
                 let mut full_path = output_dir.clone();
 
                 // Prevent zip slip attack
@@ -98,17 +101,14 @@ pub fn execute<RW: Read + Write + Seek>(
                 zip_file.enclosed_name().map(|path| {
                     full_path.push(path);
 
-                    (full_path, i, zip_file.is_dir())
+                    Ok((full_path, i, zip_file.is_dir()))
                 })
             })
-            .filter(|(full_path, ..)| {
-                if let Some(on_zip_file) = req.on_zip_file.as_ref() {
-                    on_zip_file(full_path.clone())
-                } else {
-                    true
-                }
+            .filter(|entity| match (entity, req.on_zip_file.as_ref()) {
+                (Ok((full_path, ..)), Some(on_zip_file)) => on_zip_file(full_path.clone()),
+                _ => true,
             })
-            .collect::<Vec<_>>();
+            .collect::<Result<Vec<_>, _>>()?;
 
         let files_count = entities.len();
         if let Some(on_archive_info) = req.on_archive_info {
-- 
2.43.0


From e5aa0d92b877c81feac2e73eef8a0968402b0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 12/32] fix: unpack files whose directory has no entry of its
 own

---
 crates/volaris-tools/src/unpack.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index aed8169..263a183 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -3,6 +3,7 @@
 //! This is known as "unpacking" within volaris.
 
 use std::cell::RefCell;
+use std::collections::BTreeSet;
 use std::io::{Read, Seek, Write};
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -119,12 +120,20 @@ pub fn execute<RW: Read + Write + Seek>(
         #[allow(clippy::needless_collect)]
         let create_dirs_jobs = entities
             .iter()
-            .filter(|(_, _, is_dir)| *is_dir)
-            .map(|(fp, ..)| fp)
-            .chain([&output_dir])
+            .filter_map(|(fp, _, is_dir)| {
+                if *is_dir {
+                    Some(fp.as_path())
+                } else {
+                    // the archive may not have an entry for the directory of a file
+                    fp.parent()
+                }
+            })
+            .chain([output_dir.as_path()])
+            .collect::<BTreeSet<_>>()
+            .into_iter()
             .map(|full_path| {
                 let stor = stor.clone();
-                let full_path = full_path.clone();
+                let full_path = full_path.to_path_buf();
                 std::thread::spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
             })
             .collect::<Vec<_>>();
-- 
2.43.0


From e2cf08a8b029813cb2945f84a06c8e94e010a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 13/32] fix: pack absolute and parent paths so that they can be
 unpacked

---
 crates/volaris-tools/src/pack.rs | 33 ++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 1ab5bd2..a8927da 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -6,6 +6,7 @@
 
 use std::cell::RefCell;
 use std::io::{BufWriter, Read, Seek, Write};
+use std::path::{Component, Path};
 use std::sync::Arc;
 
 use corecrypto::header::{HashingAlgorithm, HeaderType};
@@ -56,6 +57,22 @@ where
     pub hashing_algorithm: HashingAlgorithm,
 }
 
+/// Makes the path relative to the root of the archive: an entry with a root or parent component
+/// can't be unpacked.
+fn archive_path(path: &Path) -> Option<String> {
+    let mut names = vec![];
+    for component in path.components() {
+        match component {
+            Component::Normal(name) => names.push(name.to_str()?),
+            Component::ParentDir => {
+                names.pop();
+            }
+            _ => {}
+        }
+    }
+    Some(names.join("/"))
+}
+
 pub fn execute<RW>(stor: Arc<impl Storage<RW>>, req: Request<'_, RW>) -> Result<(), Error>
 where
     RW: Read + Write + Seek,
@@ -77,12 +94,20 @@ where
 
         // 2. Add files to the archive.
         req.compress_files.into_iter().try_for_each(|f| {
-            let file_path = f.path().to_str().ok_or(Error::ReadData)?;
+            let file_path = archive_path(f.path()).ok_or(Error::ReadData)?;
             if f.is_dir() {
-                zip_writer
-                    .add_directory(file_path, options)
-                    .map_err(|_| Error::AddDirToArchive)?;
+                // the root of the archive doesn't need an entry
+                if !file_path.is_empty() {
+                    zip_writer
+                        .add_directory(file_path, options)
+                        .map_err(|_| Error::AddDirToArchive)?;
+                }
             } else {
+                // zip readers take a name with a trailing separator for a directory
+                if file_path.ends_with('\\') {
+                    return Err(Error::AddFileToArchive);
+                }
+
                 zip_writer
                     .start_file(file_path, options)
                     .map_err(|_| Error::AddFileToArchive)?;
-- 
2.43.0


From e8616c953c48dfcf11bc4a463f2a6d724880b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 14/32] fix: erase the temporary archive when packing or
 unpacking fails

---
 crates/volaris-tools/src/pack.rs   | 30 +++++++++++++----------
 crates/volaris-tools/src/unpack.rs | 38 +++++++++++++++++++-----------
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index a8927da..11749f3 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -79,7 +79,7 @@ where
 {
     // 1. Create zip archive.
     let tmp_file = stor.create_temp_file().map_err(|_| Error::CreateArchive)?;
-    {
+    let archive_res = (|| -> Result<(), Error> {
         let mut tmp_writer = tmp_file
             .try_writer()
             .map_err(|_| Error::CreateArchive)?
@@ -132,22 +132,25 @@ where
 
         // 3. Close archive and switch writer to reader.
         zip_writer.finish().map_err(|_| Error::FinishArchive)?;
-    }
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(|_| Error::FinishArchive)?;
+        Ok(())
+    })();
 
     // 4. Encrypt zip archive
-    let encrypt_res = crate::encrypt::execute(crate::encrypt::Request {
-        reader: tmp_file.try_reader().map_err(|_| Error::FinishArchive)?,
-        writer: req.writer,
-        header_writer: req.header_writer,
-        raw_key: req.raw_key,
-        header_type: req.header_type,
-        hashing_algorithm: req.hashing_algorithm,
-    })
-    .map_err(Error::Encrypt);
+    let encrypt_res = archive_res.and_then(|()| {
+        crate::encrypt::execute(crate::encrypt::Request {
+            reader: tmp_file.try_reader().map_err(|_| Error::FinishArchive)?,
+            writer: req.writer,
+            header_writer: req.header_writer,
+            raw_key: req.raw_key,
+            header_type: req.header_type,
+            hashing_algorithm: req.hashing_algorithm,
+        })
+        .map_err(Error::Encrypt)
+    });
 
-    // 5. Finally erase zip archive with zeros.
+    // 5. Finally erase zip archive with zeros, even if it could not be completed.
+    let buf_capacity = stor.file_len(&tmp_file).unwrap_or_default();
     crate::overwrite::execute(crate::overwrite::Request {
         buf_capacity,
         writer: tmp_file.try_writer().map_err(|_| Error::FinishArchive)?,
@@ -155,6 +158,7 @@ where
     })
     .ok();
 
+    stor.flush_file(&tmp_file).ok();
     stor.remove_file(tmp_file).ok();
 
     encrypt_res
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 263a183..a160a77 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -60,6 +60,30 @@ pub fn execute<RW: Read + Write + Seek>(
     // 1. Create temp zip archive.
     let tmp_file = stor.create_temp_file().map_err(Error::Storage)?;
 
+    let unpack_res = unpack_archive(&stor, req, &tmp_file);
+
+    // 7. Finally eraze temp zip archive with zeros, even if it could not be unpacked.
+    let buf_capacity = stor.file_len(&tmp_file).unwrap_or_default();
+    overwrite::execute(overwrite::Request {
+        buf_capacity,
+        writer: tmp_file
+            .try_writer()
+            .expect("We sure that file in write mode"),
+        passes: 1,
+    })
+    .ok();
+
+    stor.flush_file(&tmp_file).ok();
+    stor.remove_file(tmp_file).ok();
+
+    unpack_res
+}
+
+fn unpack_archive<RW: Read + Write + Seek>(
+    stor: &Arc<impl Storage<RW> + 'static>,
+    req: Request<'_, RW>,
+    tmp_file: &storage::Entry<RW>,
+) -> Result<(), Error> {
     // 2. Decrypt input file to temp zip archive.
     decrypt::execute(decrypt::Request {
         header_reader: req.header_reader,
@@ -72,8 +96,6 @@ pub fn execute<RW: Read + Write + Seek>(
     })
     .map_err(Error::Decrypt)?;
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(Error::Storage)?;
-
     // 3. Recover files from temp archive.
     {
         let mut reader = tmp_file
@@ -161,18 +183,6 @@ pub fn execute<RW: Read + Write + Seek>(
             })?;
     }
 
-    // 7. Finally eraze temp zip archive with zeros.
-    overwrite::execute(overwrite::Request {
-        buf_capacity,
-        writer: tmp_file
-            .try_writer()
-            .expect("We sure that file in write mode"),
-        passes: 1,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
     Ok(())
 }
 
-- 
2.43.0


From 9cafdc3bde7c6361090719ae136029c7b43ce205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 15/32] fix: pick passphrase words within the word list

---
 crates/volaris-crypto/src/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-crypto/src/key.rs b/crates/volaris-crypto/src/key.rs
index d921319..ec04b29 100644
--- a/crates/volaris-crypto/src/key.rs
+++ b/crates/volaris-crypto/src/key.rs
@@ -209,7 +209,7 @@ pub fn generate_passphrase(total_words: &i32) -> Protected<String> {
     let mut passphrase = String::new();
 
     for i in 0..*total_words {
-        let index = StdRng::from_entropy().gen_range(0..=words.len());
+        let index = StdRng::from_entropy().gen_range(0..words.len());
         let word = words[index];
         passphrase.push_str(word);
         if i < total_words - 1 {
-- 
2.43.0


From 81ca194a3ee421b8b4477f7b9485cd747db9c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 16/32] fix: report that V3 headers without a salt cannot be
 written

---
 crates/volaris-crypto/src/header.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 956940f..9ba84d0 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -524,18 +524,21 @@ impl Header {
     /// This is a private function (called by `serialize()`)
     ///
     /// It serializes V3 headers
-    fn serialize_v3(&self, tag: &HeaderTag) -> Vec<u8> {
+    fn serialize_v3(&self, tag: &HeaderTag) -> Result<Vec<u8>> {
+        let salt = self
+            .salt
+            .ok_or_else(|| anyhow::anyhow!("Cannot find a salt within the header."))?;
         let padding =
             vec![0u8; 26 - get_nonce_len(&self.header_type.algorithm, &self.header_type.mode)];
         let mut header_bytes = Vec::<u8>::new();
         header_bytes.extend_from_slice(&tag.version);
         header_bytes.extend_from_slice(&tag.algorithm);
         header_bytes.extend_from_slice(&tag.mode);
-        header_bytes.extend_from_slice(&self.salt.unwrap());
+        header_bytes.extend_from_slice(&salt);
         header_bytes.extend_from_slice(&[0; 16]);
         header_bytes.extend_from_slice(&self.nonce);
         header_bytes.extend_from_slice(&padding);
-        header_bytes
+        Ok(header_bytes)
     }
 
     /// This is a private function (called by `serialize()`)
@@ -626,7 +629,7 @@ impl Header {
             HeaderVersion::V2 => Err(anyhow::anyhow!(
                 "Serializing V2 headers has been deprecated"
             )),
-            HeaderVersion::V3 => Ok(self.serialize_v3(&tag)),
+            HeaderVersion::V3 => self.serialize_v3(&tag),
             HeaderVersion::V4 => Ok(self.serialize_v4(&tag)),
             HeaderVersion::V5 => Ok(self.serialize_v5(&tag)),
         }
@@ -657,7 +660,7 @@ impl Header {
             HeaderVersion::V2 => Err(anyhow::anyhow!(
                 "Serializing V2 headers has been deprecated"
             )),
-            HeaderVersion::V3 => Ok(self.serialize_v3(&tag)),
+            HeaderVersion::V3 => self.serialize_v3(&tag),
             HeaderVersion::V4 => {
                 let padding =
                     vec![
-- 
2.43.0


From 06f35815e70284419be1852c378be03dd286c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 17/32] fix: refuse V4 headers with a key hashing algorithm
 they cannot express

---
 crates/volaris-crypto/src/header.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 9ba84d0..2e614fa 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -544,7 +544,7 @@ impl Header {
     /// This is a private function (called by `serialize()`)
     ///
     /// It serializes V4 headers
-    fn serialize_v4(&self, tag: &HeaderTag) -> Vec<u8> {
+    fn serialize_v4(&self, tag: &HeaderTag) -> Result<Vec<u8>> {
         let padding =
             vec![0u8; 26 - get_nonce_len(&self.header_type.algorithm, &self.header_type.mode)];
         let padding2 =
@@ -552,6 +552,16 @@ impl Header {
 
         let keyslot = self.keyslots.clone().unwrap();
 
+        // the format has no place for the algorithm, so readers expect exactly this one
+        if !matches!(
+            keyslot[0].hash_algorithm,
+            HashingAlgorithm::Blake3Balloon(4)
+        ) {
+            return Err(anyhow::anyhow!(
+                "V4 headers only support BLAKE3-Balloon (V4) for key hashing"
+            ));
+        }
+
         let mut header_bytes = Vec::<u8>::new();
         header_bytes.extend_from_slice(&tag.version);
         header_bytes.extend_from_slice(&tag.algorithm);
@@ -562,7 +572,7 @@ impl Header {
         header_bytes.extend_from_slice(&keyslot[0].encrypted_key);
         header_bytes.extend_from_slice(&keyslot[0].nonce);
         header_bytes.extend_from_slice(&padding2);
-        header_bytes
+        Ok(header_bytes)
     }
 
     /// This is a private function (called by `serialize()`)
@@ -630,7 +640,7 @@ impl Header {
                 "Serializing V2 headers has been deprecated"
             )),
             HeaderVersion::V3 => self.serialize_v3(&tag),
-            HeaderVersion::V4 => Ok(self.serialize_v4(&tag)),
+            HeaderVersion::V4 => self.serialize_v4(&tag),
             HeaderVersion::V5 => Ok(self.serialize_v5(&tag)),
         }
     }
-- 
2.43.0


From 501d9d63af7ec1e53e6296b45868e4cf79214b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 18/32] fix: parse command line flags and optional values as
 documented

---
 crates/volaris-cli/src/cli.rs               | 35 +++++++++++++++++----
 crates/volaris-cli/src/global/parameters.rs | 23 ++++++++------
 crates/volaris-cli/src/global/states.rs     |  4 ++-
 crates/volaris-cli/src/subcommands.rs       |  4 +--
 4 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/crates/volaris-cli/src/cli.rs b/crates/volaris-cli/src/cli.rs
index 5e54c05..dd25ca4 100644
--- a/crates/volaris-cli/src/cli.rs
+++ b/crates/volaris-cli/src/cli.rs
@@ -1,4 +1,4 @@
-use clap::{Arg, Command};
+use clap::{Arg, ArgAction, Command};
 
 pub mod prompt;
 
@@ -32,17 +32,20 @@ pub fn get_matches() -> clap::ArgMatches {
                 .value_name("# of passes")
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .num_args(0..=1)
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .action(ArgAction::SetTrue)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("argon")
                 .long("argon")
+                .action(ArgAction::SetTrue)
                 .help("Use argon2id for password hashing"),
         )
         .arg(
@@ -50,7 +53,8 @@ pub fn get_matches() -> clap::ArgMatches {
                 .long("auto")
                 .value_name("# of words")
                 .require_equals(true)
-                .default_value("7")
+                .num_args(0..=1)
+                .default_missing_value("7")
                 .help("Autogenerate a passphrase (default is 7 words)")
                 .conflicts_with("keyfile"),
         )
@@ -64,11 +68,13 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .action(ArgAction::SetTrue)
                 .help("Force all actions"),
         )
         .arg(
             Arg::new("aes")
                 .long("aes")
+                .action(ArgAction::SetTrue)
                 .help("Use AES-256-GCM for encryption"),
         );
 
@@ -106,18 +112,21 @@ pub fn get_matches() -> clap::ArgMatches {
                 .value_name("# of passes")
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .num_args(0..=1)
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .action(ArgAction::SetTrue)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .action(ArgAction::SetTrue)
                 .help("Force all actions"),
         );
 
@@ -142,6 +151,7 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 )
                 .arg(
@@ -184,17 +194,20 @@ pub fn get_matches() -> clap::ArgMatches {
                 .arg(
                     Arg::new("erase")
                         .long("erase")
+                        .action(ArgAction::SetTrue)
                         .help("Securely erase every file from the source directory, before deleting the directory"),
                 )
                 .arg(
                     Arg::new("argon")
                         .long("argon")
+                        .action(ArgAction::SetTrue)
                         .help("Use argon2id for password hashing"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .action(ArgAction::SetTrue)
                         .help("Show a detailed output"),
                 )
                 .arg(
@@ -202,7 +215,8 @@ pub fn get_matches() -> clap::ArgMatches {
                         .long("auto")
                         .value_name("# of words")
                         .require_equals(true)
-                        .default_value("7")
+                        .num_args(0..=1)
+                        .default_missing_value("7")
                         .help("Autogenerate a passphrase (default is 7 words)")
                         .conflicts_with("keyfile"),
                 )
@@ -216,12 +230,14 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("zstd")
                         .short('z')
                         .long("zstd")
+                        .action(ArgAction::SetTrue)
                         .help("Use ZSTD compression"),
                 )
                 .arg(
                     Arg::new("recursive")
                         .short('r')
                         .long("recursive")
+                        .action(ArgAction::SetTrue)
                         .help("Index files and folders within other folders (index recursively)"),
                 )
                 .arg(
@@ -235,17 +251,20 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .action(ArgAction::SetTrue)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 )
                 .arg(
                     Arg::new("aes")
                         .long("aes")
+                        .action(ArgAction::SetTrue)
                         .help("Use AES-256-GCM for encryption"),
                 ),
         )
@@ -284,24 +303,28 @@ pub fn get_matches() -> clap::ArgMatches {
                         .value_name("# of passes")
                         .require_equals(true)
                         .help("Securely erase the input file once complete (default is 1 pass)")
-                        .default_value("1"),
+                        .num_args(0..=1)
+                        .default_missing_value("1"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .action(ArgAction::SetTrue)
                         .help("Show a detailed output"),
                 )
                 .arg(
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .action(ArgAction::SetTrue)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 ),
         )
diff --git a/crates/volaris-cli/src/global/parameters.rs b/crates/volaris-cli/src/global/parameters.rs
index 9600692..ed8acc0 100644
--- a/crates/volaris-cli/src/global/parameters.rs
+++ b/crates/volaris-cli/src/global/parameters.rs
@@ -27,10 +27,15 @@ pub fn get_param(name: &str, sub_matches: &ArgMatches) -> Result<String> {
     Ok(value)
 }
 
+// not every subcommand has every flag
+pub fn flag(name: &str, sub_matches: &ArgMatches) -> bool {
+    matches!(sub_matches.try_get_one::<bool>(name), Ok(Some(true)))
+}
+
 pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -73,7 +78,7 @@ pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
 }
 
 pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
-    if sub_matches.contains_id("argon") {
+    if flag("argon", sub_matches) {
         HashingAlgorithm::Argon2id(ARGON2ID_LATEST)
     } else {
         HashingAlgorithm::Blake3Balloon(BLAKE3BALLOON_LATEST)
@@ -81,7 +86,7 @@ pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
 }
 
 pub fn algorithm(sub_matches: &ArgMatches) -> Algorithm {
-    if sub_matches.contains_id("aes") {
+    if flag("aes", sub_matches) {
         Algorithm::Aes256Gcm
     } else {
         Algorithm::XChaCha20Poly1305
@@ -113,7 +118,7 @@ pub fn erase_params(sub_matches: &ArgMatches) -> Result<(i32, ForceMode)> {
 pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams)> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -140,25 +145,25 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
         hashing_algorithm,
     };
 
-    let print_mode = if sub_matches.contains_id("verbose") {
+    let print_mode = if flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
     };
 
-    let dir_mode = if sub_matches.contains_id("recursive") {
+    let dir_mode = if flag("recursive", sub_matches) {
         DirectoryMode::Recursive
     } else {
         DirectoryMode::Singular
     };
 
-    let erase_source = if sub_matches.contains_id("erase") {
+    let erase_source = if flag("erase", sub_matches) {
         EraseSourceDir::Erase
     } else {
         EraseSourceDir::Retain
     };
 
-    let compression = if sub_matches.contains_id("zstd") {
+    let compression = if flag("zstd", sub_matches) {
         Compression::Zstd
     } else {
         Compression::None
@@ -175,7 +180,7 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
 }
 
 pub fn forcemode(sub_matches: &ArgMatches) -> ForceMode {
-    if sub_matches.contains_id("force") {
+    if flag("force", sub_matches) {
         ForceMode::Force
     } else {
         ForceMode::Prompt
diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 48b5d92..8f2387d 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -134,7 +134,9 @@ impl Key {
             )
         } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
             Key::Env
-        } else if sub_matches.contains_id("autogenerate") && params.autogenerate {
+        } else if matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
+            && params.autogenerate
+        {
             let result = sub_matches
                 .get_one::<String>("autogenerate")
                 .context("No amount of words specified")?
diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index 57f3431..301ace2 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -6,7 +6,7 @@ use clap::ArgMatches;
 
 use crate::global::{
     parameters::{
-        algorithm, erase_params, forcemode, get_param, get_params, key_manipulation_params,
+        algorithm, erase_params, flag, forcemode, get_param, get_params, key_manipulation_params,
         pack_params, parameter_handler,
     },
     states::{Key, KeyParams},
@@ -69,7 +69,7 @@ pub fn unpack(sub_matches: &ArgMatches) -> Result<()> {
 
     let crypto_params = parameter_handler(sub_matches)?;
 
-    let print_mode = if sub_matches.get_flag("verbose") {
+    let print_mode = if flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
-- 
2.43.0


From 7c59d6e27a7531b6df5416794aa388a6606f17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 19/32] fix: refuse to write over the input, header or keyfile
 under any name

The result of packing is also left out of itself, and isn't erased with the source.
---
 crates/volaris-cli/src/cli/prompt.rs          | 42 +++++++++++++++++++
 crates/volaris-cli/src/global/structs.rs      | 10 +++++
 crates/volaris-cli/src/subcommands/decrypt.rs |  9 +++-
 crates/volaris-cli/src/subcommands/encrypt.rs | 13 +++++-
 crates/volaris-cli/src/subcommands/pack.rs    | 35 +++++++++++++++-
 5 files changed, 106 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-cli/src/cli/prompt.rs b/crates/volaris-cli/src/cli/prompt.rs
index e52a653..df65d2c 100644
--- a/crates/volaris-cli/src/cli/prompt.rs
+++ b/crates/volaris-cli/src/cli/prompt.rs
@@ -1,5 +1,7 @@
 use anyhow::{Context, Result};
+use std::fs;
 use std::io::{self, stdin, Write};
+use std::path::Path;
 
 use crate::{
     global::states::{ForceMode, PasswordState},
@@ -46,6 +48,46 @@ pub fn get_answer(prompt: &str, default: bool, force: ForceMode) -> Result<bool>
     Ok(answer_bool)
 }
 
+// this makes sure that the output isn't one of the files the operation reads, under any name
+pub fn distinct_check(output: &str, inputs: &[&str]) -> Result<()> {
+    for input in inputs {
+        if is_same_file(output, input)? {
+            return Err(anyhow::anyhow!(
+                "{} and {} cannot be the same file.",
+                output,
+                input
+            ));
+        }
+    }
+    Ok(())
+}
+
+pub fn is_same_file(a: impl AsRef<Path>, b: impl AsRef<Path>) -> Result<bool> {
+    Ok(match (file_id(a.as_ref())?, file_id(b.as_ref())?) {
+        (Some(a), Some(b)) => a == b,
+        _ => false,
+    })
+}
+
+#[cfg(unix)]
+fn file_id(path: &Path) -> Result<Option<(u64, u64)>> {
+    use std::os::unix::fs::MetadataExt;
+    existing(path, fs::metadata(path).map(|m| (m.dev(), m.ino())))
+}
+
+#[cfg(not(unix))]
+fn file_id(path: &Path) -> Result<Option<std::path::PathBuf>> {
+    existing(path, fs::canonicalize(path))
+}
+
+fn existing<T>(path: &Path, res: io::Result<T>) -> Result<Option<T>> {
+    match res {
+        Ok(id) => Ok(Some(id)),
+        Err(err) if err.kind() == io::ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(err).with_context(|| format!("Unable to resolve path: {}", path.display())),
+    }
+}
+
 // this checks if the file exists
 // then it prompts the user if they'd like to overwrite a file (while showing the associated file name)
 // if they have the force argument supplied, this will just assume true
diff --git a/crates/volaris-cli/src/global/structs.rs b/crates/volaris-cli/src/global/structs.rs
index a4a5002..4127a81 100644
--- a/crates/volaris-cli/src/global/structs.rs
+++ b/crates/volaris-cli/src/global/structs.rs
@@ -15,6 +15,16 @@ pub struct CryptoParams {
     pub hashing_algorithm: HashingAlgorithm,
 }
 
+impl CryptoParams {
+    // the files that are read besides the input
+    pub fn read_files(&self) -> Vec<&str> {
+        match &self.key {
+            Key::Keyfile(path) if path != "-" => vec![path],
+            _ => vec![],
+        }
+    }
+}
+
 pub struct PackParams {
     pub dir_mode: DirectoryMode,
     pub print_mode: PrintMode,
diff --git a/crates/volaris-cli/src/subcommands/decrypt.rs b/crates/volaris-cli/src/subcommands/decrypt.rs
index 61c80ae..674c81e 100644
--- a/crates/volaris-cli/src/subcommands/decrypt.rs
+++ b/crates/volaris-cli/src/subcommands/decrypt.rs
@@ -1,7 +1,7 @@
 use std::process::exit;
 use std::sync::Arc;
 
-use crate::cli::prompt::overwrite_check;
+use crate::cli::prompt::{distinct_check, overwrite_check};
 use crate::global::states::{EraseMode, HashMode, HeaderLocation, PasswordState};
 use crate::global::structs::CryptoParams;
 
@@ -25,6 +25,13 @@ pub fn stream_mode(input: &str, output: &str, params: &CryptoParams) -> Result<(
         ));
     }
 
+    let mut read_files = params.read_files();
+    read_files.push(input);
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        read_files.push(path);
+    }
+    distinct_check(output, &read_files)?;
+
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index 87a0164..f4ea55f 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -1,4 +1,4 @@
-use crate::cli::prompt::overwrite_check;
+use crate::cli::prompt::{distinct_check, overwrite_check};
 use crate::global::states::{EraseMode, HashMode, HeaderLocation, PasswordState};
 use crate::global::structs::CryptoParams;
 use anyhow::Result;
@@ -28,6 +28,14 @@ pub fn stream_mode(
         ));
     }
 
+    let mut used_files = params.read_files();
+    used_files.push(input);
+    distinct_check(output, &used_files)?;
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        used_files.push(output);
+        distinct_check(path, &used_files)?;
+    }
+
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
@@ -41,6 +49,9 @@ pub fn stream_mode(
     let header_file = match &params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => {
+            // the output may not have existed before
+            distinct_check(path, &[output])?;
+
             if !overwrite_check(path, params.force)? {
                 exit(0);
             }
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index 594079b..beab0bd 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -16,7 +16,7 @@ use crate::{
 };
 use tools::storage::Storage;
 
-use crate::cli::prompt::overwrite_check;
+use crate::cli::prompt::{distinct_check, is_same_file, overwrite_check};
 
 pub struct Request<'a> {
     pub input_file: &'a Vec<String>,
@@ -46,6 +46,13 @@ pub fn execute(req: &Request) -> Result<()> {
         return Err(anyhow::anyhow!("Input path cannot be a file."));
     }
 
+    let mut used_files = req.crypto_params.read_files();
+    distinct_check(req.output_file, &used_files)?;
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        used_files.push(req.output_file);
+        distinct_check(path, &used_files)?;
+    }
+
     if !overwrite_check(req.output_file, req.crypto_params.force)? {
         exit(0);
     }
@@ -63,6 +70,9 @@ pub fn execute(req: &Request) -> Result<()> {
     let header_file = match &req.crypto_params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => {
+            // the output may not have existed before
+            distinct_check(path, &[req.output_file])?;
+
             if !overwrite_check(path, req.crypto_params.force)? {
                 exit(0);
             }
@@ -86,6 +96,29 @@ pub fn execute(req: &Request) -> Result<()> {
         })
         .collect::<Result<Vec<_>, _>>()?;
 
+    // the result may be inside of a packed directory, but it's not a part of itself
+    let mut output_files = vec![req.output_file];
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        output_files.push(path);
+    }
+    let mut compress_files_without_output = vec![];
+    for file in compress_files {
+        let mut is_output = false;
+        for output_file in &output_files {
+            is_output = is_output || is_same_file(file.path(), output_file)?;
+        }
+        if is_output {
+            if req.pack_params.erase_source == EraseSourceDir::Erase {
+                return Err(anyhow::anyhow!(
+                    "Cannot erase the source directory, because the result is inside of it."
+                ));
+            }
+        } else {
+            compress_files_without_output.push(file);
+        }
+    }
+    let compress_files = compress_files_without_output;
+
     let compression_method = match req.pack_params.compression {
         Compression::None => zip::CompressionMethod::Stored,
         Compression::Zstd => zip::CompressionMethod::Zstd,
-- 
2.43.0


From 010537d73c717a62dd5d768bccaf2a03bee6f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 20/32] fix: report unreadable answers and odd names instead of
 panicking when unpacking

---
 crates/volaris-cli/src/subcommands/unpack.rs | 21 +++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index f308530..a895edc 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -1,4 +1,6 @@
 use crate::{cli::prompt::get_answer, global::states::HashMode};
+use std::cell::RefCell;
+use std::rc::Rc;
 use std::sync::Arc;
 
 use anyhow::Result;
@@ -34,6 +36,9 @@ pub fn unpack(
 
     let raw_key = params.key.get_secret(&PasswordState::Direct)?;
 
+    let prompt_error = Rc::new(RefCell::new(None));
+    let answer_error = prompt_error.clone();
+
     tools::unpack::execute(
         stor,
         tools::unpack::Request {
@@ -46,9 +51,8 @@ pub fn unpack(
             on_zip_file: Some(Box::new(move |file_path| {
                 let file_name = file_path
                     .file_name()
-                    .expect("Unable to convert file name to OsStr")
-                    .to_str()
-                    .expect("Unable to convert file name's OsStr to &str")
+                    .unwrap_or(file_path.as_os_str())
+                    .to_string_lossy()
                     .to_string();
 
                 if std::fs::metadata(file_path).is_ok() {
@@ -56,8 +60,11 @@ pub fn unpack(
                         &format!("{} already exists, would you like to overwrite?", file_name),
                         true,
                         params.force,
-                    )
-                    .expect("Unable to read answer");
+                    );
+                    let answer = answer.unwrap_or_else(|err| {
+                        *answer_error.borrow_mut() = Some(err);
+                        false
+                    });
                     if !answer {
                         warn!("Skipping {}", file_name);
                         return false;
@@ -73,6 +80,10 @@ pub fn unpack(
         },
     )?;
 
+    if let Some(err) = prompt_error.borrow_mut().take() {
+        return Err(err);
+    }
+
     if params.hash_mode == HashMode::CalculateHash {
         super::hashing::hash_stream(&[input.to_string()])?;
     }
-- 
2.43.0


From e1091a5cad77b6c6af4345ccb679189e7b246352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 21/32] fix: erase plaintext buffers when encrypting or
 decrypting fails

---
 crates/volaris-crypto/src/cipher.rs | 13 ++++++---
 crates/volaris-crypto/src/stream.rs | 42 ++++++++++++++++-------------
 crates/volaris-tools/src/decrypt.rs |  1 +
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/crates/volaris-crypto/src/cipher.rs b/crates/volaris-crypto/src/cipher.rs
index 668fe7b..271da51 100644
--- a/crates/volaris-crypto/src/cipher.rs
+++ b/crates/volaris-crypto/src/cipher.rs
@@ -24,6 +24,7 @@ use aead::{Aead, AeadInPlace, KeyInit, Payload};
 use aes_gcm::Aes256Gcm;
 use chacha20poly1305::XChaCha20Poly1305;
 use deoxys::DeoxysII256;
+use zeroize::Zeroizing;
 
 use crate::primitives::Algorithm;
 use crate::protected::Protected;
@@ -115,10 +116,14 @@ impl Ciphers {
         nonce: &[u8],
         ciphertext: impl Into<Payload<'msg, 'aad>>,
     ) -> aead::Result<Vec<u8>> {
+        let Payload { msg, aad } = ciphertext.into();
+        // erased if the data turns out not to be authentic
+        let mut buffer = Zeroizing::new(msg.to_vec());
         match self {
-            Ciphers::Aes256Gcm(c) => c.decrypt(nonce.as_ref().into(), ciphertext),
-            Ciphers::XChaCha(c) => c.decrypt(nonce.as_ref().into(), ciphertext),
-            Ciphers::DeoxysII(c) => c.decrypt(nonce.as_ref().into(), ciphertext),
-        }
+            Ciphers::Aes256Gcm(c) => c.decrypt_in_place(nonce.into(), aad, &mut *buffer),
+            Ciphers::XChaCha(c) => c.decrypt_in_place(nonce.into(), aad, &mut *buffer),
+            Ciphers::DeoxysII(c) => c.decrypt_in_place(nonce.into(), aad, &mut *buffer),
+        }?;
+        Ok(std::mem::take(&mut *buffer))
     }
 }
diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index 54f3380..0601dea 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -37,7 +37,7 @@ use anyhow::Context;
 use chacha20poly1305::XChaCha20Poly1305;
 use deoxys::DeoxysII256;
 // use rand::{prelude::StdRng, Rng, SeedableRng, RngCore};
-use zeroize::Zeroize;
+use zeroize::Zeroizing;
 
 use crate::primitives::{Algorithm, BLOCK_SIZE};
 use crate::protected::Protected;
@@ -207,7 +207,7 @@ impl EncryptionStreams {
         #[cfg(feature = "visual")]
         let pb = crate::visual::create_spinner();
 
-        let mut read_buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
+        let mut read_buffer = Zeroizing::new(vec![0u8; BLOCK_SIZE].into_boxed_slice());
         loop {
             let read_count =
                 read_block(reader, &mut read_buffer).context("Unable to read from the reader")?;
@@ -244,7 +244,7 @@ impl EncryptionStreams {
                 break;
             }
         }
-        read_buffer.zeroize();
+        drop(read_buffer);
         writer.flush().context("Unable to flush the output")?;
 
         #[cfg(feature = "visual")]
@@ -321,11 +321,15 @@ impl DecryptionStreams {
         &mut self,
         payload: impl Into<Payload<'msg, 'aad>>,
     ) -> aead::Result<Vec<u8>> {
+        let Payload { msg, aad } = payload.into();
+        // erased if the data turns out not to be authentic
+        let mut buffer = Zeroizing::new(msg.to_vec());
         match self {
-            DecryptionStreams::Aes256Gcm(s) => s.decrypt_next(payload),
-            DecryptionStreams::XChaCha20Poly1305(s) => s.decrypt_next(payload),
-            DecryptionStreams::DeoxysII256(s) => s.decrypt_next(payload),
-        }
+            DecryptionStreams::Aes256Gcm(s) => s.decrypt_next_in_place(aad, &mut *buffer),
+            DecryptionStreams::XChaCha20Poly1305(s) => s.decrypt_next_in_place(aad, &mut *buffer),
+            DecryptionStreams::DeoxysII256(s) => s.decrypt_next_in_place(aad, &mut *buffer),
+        }?;
+        Ok(std::mem::take(&mut *buffer))
     }
 
     /// This is used for decrypting the *last* block of data in streaming mode. It consumes the stream object to prevent further usage.
@@ -337,11 +341,15 @@ impl DecryptionStreams {
         self,
         payload: impl Into<Payload<'msg, 'aad>>,
     ) -> aead::Result<Vec<u8>> {
+        let Payload { msg, aad } = payload.into();
+        // erased if the data turns out not to be authentic
+        let mut buffer = Zeroizing::new(msg.to_vec());
         match self {
-            DecryptionStreams::Aes256Gcm(s) => s.decrypt_last(payload),
-            DecryptionStreams::XChaCha20Poly1305(s) => s.decrypt_last(payload),
-            DecryptionStreams::DeoxysII256(s) => s.decrypt_last(payload),
-        }
+            DecryptionStreams::Aes256Gcm(s) => s.decrypt_last_in_place(aad, &mut *buffer),
+            DecryptionStreams::XChaCha20Poly1305(s) => s.decrypt_last_in_place(aad, &mut *buffer),
+            DecryptionStreams::DeoxysII256(s) => s.decrypt_last_in_place(aad, &mut *buffer),
+        }?;
+        Ok(std::mem::take(&mut *buffer))
     }
 
     /// This is a convenience function for reading from a reader, decrypting, and writing to the writer.
@@ -383,15 +391,13 @@ impl DecryptionStreams {
                     msg: buffer.as_ref(),
                 };
 
-                let mut decrypted_data = self.decrypt_next(payload).map_err(|_| {
+                let decrypted_data = Zeroizing::new(self.decrypt_next(payload).map_err(|_| {
                     anyhow::anyhow!("Unable to decrypt the data. This means either: you're using the wrong key, this isn't an encrypted file, or the header has been tampered with.")
-                })?;
+                })?);
 
                 writer
                     .write_all(&decrypted_data)
                     .context("Unable to write to the output")?;
-
-                decrypted_data.zeroize();
             } else {
                 // if we read something less than BLOCK_SIZE+16, and have hit the end of the file
                 let payload = Payload {
@@ -399,15 +405,13 @@ impl DecryptionStreams {
                     msg: &buffer[..read_count],
                 };
 
-                let mut decrypted_data = self.decrypt_last(payload).map_err(|_| {
+                let decrypted_data = Zeroizing::new(self.decrypt_last(payload).map_err(|_| {
                     anyhow::anyhow!("Unable to decrypt the final block of data. This means either: you're using the wrong key, this isn't an encrypted file, or the header has been tampered with.")
-                })?;
+                })?);
 
                 writer
                     .write_all(&decrypted_data)
                     .context("Unable to write to the output file")?;
-
-                decrypted_data.zeroize();
                 break;
             }
         }
diff --git a/crates/volaris-tools/src/decrypt.rs b/crates/volaris-tools/src/decrypt.rs
index 0a9fde4..5416372 100644
--- a/crates/volaris-tools/src/decrypt.rs
+++ b/crates/volaris-tools/src/decrypt.rs
@@ -112,6 +112,7 @@ where
 
             let decrypted_bytes = ciphers
                 .decrypt(&header.nonce, payload)
+                .map(Protected::new)
                 .map_err(|_| Error::DecryptData)?;
 
             req.writer
-- 
2.43.0


From 706ab8af5283ada8dd9ae93e8c1b9667badd6f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 22/32] fix: erase every copy of keys read from files and the
 environment

---
 crates/volaris-cli/src/global/states.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 8f2387d..b2d567b 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -1,3 +1,5 @@
+use std::io::Read;
+
 use anyhow::{Context, Result};
 use clap::ArgMatches;
 use corecrypto::protected::Protected;
@@ -66,12 +68,21 @@ pub enum PasswordState {
     Direct, // maybe not the best name
 }
 
-fn get_bytes<R: std::io::Read>(reader: &mut R) -> Result<Protected<Vec<u8>>> {
-    let mut data = Vec::new();
-    reader
-        .read_to_end(&mut data)
-        .context("Unable to read data")?;
-    Ok(Protected::new(data))
+fn get_bytes<R: Read>(reader: &mut R) -> Result<Protected<Vec<u8>>> {
+    let mut data = Protected::new(Vec::new());
+    loop {
+        // the chunk and outgrown buffers are erased too
+        let mut chunk = Vec::with_capacity(data.len().max(1024));
+        let read_result = reader
+            .by_ref()
+            .take(chunk.capacity() as u64)
+            .read_to_end(&mut chunk);
+        let chunk = Protected::new(chunk);
+        if read_result.context("Unable to read data")? == 0 {
+            return Ok(data);
+        }
+        data = Protected::new([data.as_slice(), chunk.as_slice()].concat());
+    }
 }
 
 impl Key {
@@ -132,7 +143,7 @@ impl Key {
                     .context("No keyfile/invalid text provided")?
                     .to_string(),
             )
-        } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
+        } else if std::env::var("VOLARIS_KEY").map(Protected::new).is_ok() && params.env {
             Key::Env
         } else if matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
             && params.autogenerate
-- 
2.43.0


From 173da092e845672ef2a7751fe69b56419c08832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 23/32] fix: erase passwords that were typed but not accepted

---
 crates/volaris-cli/src/cli/prompt.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-cli/src/cli/prompt.rs b/crates/volaris-cli/src/cli/prompt.rs
index df65d2c..3b72b34 100644
--- a/crates/volaris-cli/src/cli/prompt.rs
+++ b/crates/volaris-cli/src/cli/prompt.rs
@@ -9,7 +9,6 @@ use crate::{
 };
 
 use corecrypto::protected::Protected;
-use corecrypto::Zeroize;
 
 // this handles user-interactivity, specifically getting a "yes" or "no" answer from the user
 // it requires the question itself, if the default is true/false
@@ -102,19 +101,22 @@ pub fn overwrite_check(name: &str, force: ForceMode) -> Result<bool> {
     Ok(answer)
 }
 
+fn read_password(prompt: &str) -> Result<Protected<Vec<u8>>> {
+    let input = rpassword::prompt_password(prompt).context("Unable to read password")?;
+    Ok(Protected::new(input.into_bytes()))
+}
+
 pub fn get_password(pass_state: &PasswordState) -> Result<Protected<Vec<u8>>> {
     Ok(loop {
-        let input = rpassword::prompt_password("Password: ").context("Unable to read password")?;
+        let input = read_password("Password: ")?;
         if pass_state == &PasswordState::Direct {
-            return Ok(Protected::new(input.into_bytes()));
+            return Ok(input);
         }
 
-        let mut input_validation =
-            rpassword::prompt_password("Confirm password: ").context("Unable to read password")?;
+        let input_validation = read_password("Confirm password: ")?;
 
-        if input == input_validation && !input.is_empty() {
-            input_validation.zeroize();
-            break Protected::new(input.into_bytes());
+        if input.expose() == input_validation.expose() && !input.is_empty() {
+            break input;
         } else if input.is_empty() {
             warn!("Password cannot be empty, please try again.");
         } else {
-- 
2.43.0


From 7f40102c1a906172223483ec7b19a0a8c8d05bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 24/32] fix: don't overwrite a file without asking when it
 cannot be examined

---
 crates/volaris-cli/src/cli/prompt.rs         |  6 +++++-
 crates/volaris-cli/src/subcommands/unpack.rs | 20 +++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-cli/src/cli/prompt.rs b/crates/volaris-cli/src/cli/prompt.rs
index 3b72b34..a841176 100644
--- a/crates/volaris-cli/src/cli/prompt.rs
+++ b/crates/volaris-cli/src/cli/prompt.rs
@@ -92,7 +92,11 @@ fn existing<T>(path: &Path, res: io::Result<T>) -> Result<Option<T>> {
 // if they have the force argument supplied, this will just assume true
 // if force mode is true, avoid prompts at all
 pub fn overwrite_check(name: &str, force: ForceMode) -> Result<bool> {
-    let answer = if std::fs::metadata(name).is_ok() {
+    // if it's unknown whether there is a file, then it cannot be overwritten without asking
+    let exists = Path::new(name)
+        .try_exists()
+        .with_context(|| format!("Unable to resolve path: {name}"))?;
+    let answer = if exists {
         let prompt = format!("{} already exists, would you like to overwrite?", name);
         get_answer(&prompt, true, force)?
     } else {
diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index a895edc..aecfcf5 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -3,7 +3,7 @@ use std::cell::RefCell;
 use std::rc::Rc;
 use std::sync::Arc;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 use tools::storage::Storage;
 
@@ -55,12 +55,18 @@ pub fn unpack(
                     .to_string_lossy()
                     .to_string();
 
-                if std::fs::metadata(file_path).is_ok() {
-                    let answer = get_answer(
-                        &format!("{} already exists, would you like to overwrite?", file_name),
-                        true,
-                        params.force,
-                    );
+                // if it's unknown whether there is a file, then it cannot be overwritten without asking
+                let exists = file_path
+                    .try_exists()
+                    .with_context(|| format!("Unable to resolve path: {}", file_path.display()));
+                if !matches!(exists, Ok(false)) {
+                    let answer = exists.and_then(|_| {
+                        get_answer(
+                            &format!("{} already exists, would you like to overwrite?", file_name),
+                            true,
+                            params.force,
+                        )
+                    });
                     let answer = answer.unwrap_or_else(|err| {
                         *answer_error.borrow_mut() = Some(err);
                         false
-- 
2.43.0


From 452ff239249302b5735a704750bf18b30c343fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 25/32] fix: report an error when a thread cannot be started
 instead of panicking

---
 crates/volaris-tools/src/erase_dir.rs | 28 +++++++++++++++------------
 crates/volaris-tools/src/unpack.rs    |  8 ++++++--
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index 932433f..d3dd65f 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -12,6 +12,7 @@ pub enum Error {
     InvalidFileType,
     EraseFile(crate::erase::Error),
     ReadDirEntries,
+    StartThread,
     RemoveDir,
 }
 
@@ -21,6 +22,7 @@ impl std::fmt::Display for Error {
             Error::InvalidFileType => f.write_str("Invalid file type"),
             Error::EraseFile(inner) => write!(f, "Unable to erase file: {inner}"),
             Error::ReadDirEntries => f.write_str("Unable to get all dir entries"),
+            Error::StartThread => f.write_str("Unable to start a thread"),
             Error::RemoveDir => f.write_str("Unable to remove directory recursively"),
         }
     }
@@ -63,19 +65,21 @@ where
         .map(|(f, _)| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
-            std::thread::spawn(move || -> Result<(), Error> {
-                crate::erase::execute(
-                    stor,
-                    crate::erase::Request {
-                        path: file_path,
-                        passes: req.passes,
-                    },
-                )
-                .map_err(Error::EraseFile)?;
-                Ok(())
-            })
+            std::thread::Builder::new()
+                .spawn(move || -> Result<(), Error> {
+                    crate::erase::execute(
+                        stor,
+                        crate::erase::Request {
+                            path: file_path,
+                            passes: req.passes,
+                        },
+                    )
+                    .map_err(Error::EraseFile)?;
+                    Ok(())
+                })
+                .map_err(|_| Error::StartThread)
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>, _>>()?;
 
     handlers.into_iter().try_for_each(|h| h.join().unwrap())?;
 
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index a160a77..35e1e75 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -18,6 +18,7 @@ pub enum Error {
     OpenArchive,
     OpenArchivedFile,
     ResetCursorPosition,
+    StartThread,
     Storage(storage::Error),
     Decrypt(decrypt::Error),
 }
@@ -29,6 +30,7 @@ impl std::fmt::Display for Error {
             Error::OpenArchive => f.write_str("Unable to open archive"),
             Error::OpenArchivedFile => f.write_str("Unable to open archived file"),
             Error::ResetCursorPosition => f.write_str("Unable to reset cursor position"),
+            Error::StartThread => f.write_str("Unable to start a thread"),
             Error::Storage(inner) => write!(f, "Storage error: {inner}"),
             Error::Decrypt(inner) => write!(f, "Decrypt error: {inner}"),
         }
@@ -156,9 +158,11 @@ fn unpack_archive<RW: Read + Write + Seek>(
             .map(|full_path| {
                 let stor = stor.clone();
                 let full_path = full_path.to_path_buf();
-                std::thread::spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
+                std::thread::Builder::new()
+                    .spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
+                    .map_err(|_| Error::StartThread)
             })
-            .collect::<Vec<_>>();
+            .collect::<Result<Vec<_>, _>>()?;
 
         create_dirs_jobs
             .into_iter()
-- 
2.43.0


From 63fba992a7396a20a27e27c4d150deaa7743ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 26/32] fix: use a key in the environment even if it is not
 valid Unicode instead of ignoring it

---
 crates/volaris-cli/src/global/states.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index b2d567b..4a2880e 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -110,9 +110,9 @@ impl Key {
                 secret
             }
             Key::Env => Protected::new(
-                std::env::var("VOLARIS_KEY")
+                std::env::var_os("VOLARIS_KEY")
                     .context("Unable to read VOLARIS_KEY from environment variable")?
-                    .into_bytes(),
+                    .into_encoded_bytes(),
             ),
             Key::User => get_password(pass_state)?,
             Key::Generate(i) => {
@@ -143,7 +143,11 @@ impl Key {
                     .context("No keyfile/invalid text provided")?
                     .to_string(),
             )
-        } else if std::env::var("VOLARIS_KEY").map(Protected::new).is_ok() && params.env {
+        } else if std::env::var_os("VOLARIS_KEY")
+            .map(|key| Protected::new(key.into_encoded_bytes()))
+            .is_some()
+            && params.env
+        {
             Key::Env
         } else if matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
             && params.autogenerate
-- 
2.43.0


From 8e96c7ce32273776e61708745d300075bc91b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 27/32] fix: ask about both files that exist before one of them
 is replaced

---
 crates/volaris-cli/src/subcommands/encrypt.rs | 10 ++++++----
 crates/volaris-cli/src/subcommands/pack.rs    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index f4ea55f..c1abd30 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -39,6 +39,12 @@ pub fn stream_mode(
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
+    // nothing is replaced before both questions are answered
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if !overwrite_check(path, params.force)? {
+            exit(0);
+        }
+    }
 
     let input_file = stor.read_file(input)?;
     let raw_key = params.key.get_secret(&PasswordState::Validate)?;
@@ -52,10 +58,6 @@ pub fn stream_mode(
             // the output may not have existed before
             distinct_check(path, &[output])?;
 
-            if !overwrite_check(path, params.force)? {
-                exit(0);
-            }
-
             Some(stor.create_file(path).or_else(|_| stor.write_file(path))?)
         }
     };
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index beab0bd..3ca424d 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -56,6 +56,12 @@ pub fn execute(req: &Request) -> Result<()> {
     if !overwrite_check(req.output_file, req.crypto_params.force)? {
         exit(0);
     }
+    // nothing is replaced before both questions are answered
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        if !overwrite_check(path, req.crypto_params.force)? {
+            exit(0);
+        }
+    }
 
     let input_files = req
         .input_file
@@ -73,10 +79,6 @@ pub fn execute(req: &Request) -> Result<()> {
             // the output may not have existed before
             distinct_check(path, &[req.output_file])?;
 
-            if !overwrite_check(path, req.crypto_params.force)? {
-                exit(0);
-            }
-
             Some(stor.create_file(path).or_else(|_| stor.write_file(path))?)
         }
     };
-- 
2.43.0


From 8a46a98cd193a219dd2b2283e0a6b1a022af5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 28/32] fix: overwrite files without holding as much memory as
 they are long

---
 crates/volaris-tools/src/overwrite.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 6725ea0..cb0fb7d 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -5,7 +5,7 @@
 use rand::RngCore;
 use std::cell::RefCell;
 use std::fmt;
-use std::io::{Seek, Write};
+use std::io::{Read, Seek, Write};
 
 const BLOCK_SIZE: usize = 512;
 
@@ -41,8 +41,8 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
     for _ in 0..req.passes {
         writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
 
-        let mut blocks = [BLOCK_SIZE].repeat(req.buf_capacity / BLOCK_SIZE);
-        blocks.push(req.buf_capacity % BLOCK_SIZE);
+        let full_blocks = std::iter::repeat(BLOCK_SIZE).take(req.buf_capacity / BLOCK_SIZE);
+        let blocks = full_blocks.chain([req.buf_capacity % BLOCK_SIZE]);
 
         for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
             let mut block_buf = vec![0u8; block_size];
@@ -56,9 +56,9 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
     }
 
     writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
-    writer
-        .write_all(&[0].repeat(req.buf_capacity))
-        .map_err(|_| Error::OverwriteWithZeros)?;
+    // the content may be larger than the memory
+    let mut zeros = std::io::repeat(0).take(req.buf_capacity as u64);
+    std::io::copy(&mut zeros, &mut *writer).map_err(|_| Error::OverwriteWithZeros)?;
     writer.flush().map_err(|_| Error::FlushFile)
 }
 
-- 
2.43.0


From 6022f922a0e2cba706a187569407d2580ee93cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 29/32] fix: keep other users from reading the temporary
 archive

---
 crates/volaris-tools/src/storage.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index b5d7e71..2fb938b 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -60,11 +60,15 @@ where
         let file_name = Alphanumeric.sample_string(&mut rand::thread_rng(), 16);
         path.push(file_name);
 
-        self.create_file(path)
+        self.create_private_file(path)
     }
 
     fn create_dir_all<P: AsRef<Path>>(&self, path: P) -> Result<(), Error>;
     fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
+    /// Creates a new file that nobody but its owner can access.
+    fn create_private_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error> {
+        self.create_file(path)
+    }
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     /// Opens an existing file for overwriting it in place: its length and content stay as they are.
@@ -104,6 +108,21 @@ impl Storage<fs::File> for FileStorage {
         }))
     }
 
+    fn create_private_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
+        let path = path.as_ref().to_path_buf();
+
+        let mut options = fs::File::options();
+        options.create_new(true).read(true).write(true);
+        #[cfg(unix)]
+        std::os::unix::fs::OpenOptionsExt::mode(&mut options, 0o600);
+
+        let file = options.open(&path).map_err(|_| Error::CreateFile)?;
+        Ok(Entry::File(FileData {
+            path,
+            stream: RefCell::new(file),
+        }))
+    }
+
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
         let path = path.as_ref().to_path_buf();
         if path.is_dir() {
-- 
2.43.0


From 1dd72ddfc626ba89341ad1dbd70377bf8df0ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 30/32] fix: don't crash when the output can't be written, and
 don't encrypt with a passphrase that wasn't shown

---
 crates/volaris-cli/src/cli/prompt.rs          |  5 ++---
 crates/volaris-cli/src/global.rs              | 21 +++++++++++++------
 crates/volaris-cli/src/global/states.rs       |  4 +++-
 crates/volaris-cli/src/subcommands/hashing.rs |  2 +-
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/volaris-cli/src/cli/prompt.rs b/crates/volaris-cli/src/cli/prompt.rs
index a841176..63624d9 100644
--- a/crates/volaris-cli/src/cli/prompt.rs
+++ b/crates/volaris-cli/src/cli/prompt.rs
@@ -1,6 +1,6 @@
 use anyhow::{Context, Result};
 use std::fs;
-use std::io::{self, stdin, Write};
+use std::io::{self, stdin};
 use std::path::Path;
 
 use crate::{
@@ -21,8 +21,7 @@ pub fn get_answer(prompt: &str, default: bool, force: ForceMode) -> Result<bool>
     let switch = if default { "(Y/n)" } else { "(y/N)" };
 
     let answer_bool = loop {
-        question!("{prompt} {switch}: ");
-        io::stdout().flush().context("Unable to flush stdout")?;
+        question!("{prompt} {switch}: ").context("Unable to write to stdout")?;
 
         let mut answer = String::new();
         stdin()
diff --git a/crates/volaris-cli/src/global.rs b/crates/volaris-cli/src/global.rs
index 3198e9c..3ed60ca 100644
--- a/crates/volaris-cli/src/global.rs
+++ b/crates/volaris-cli/src/global.rs
@@ -2,38 +2,47 @@ pub mod parameters;
 pub mod states;
 pub mod structs;
 
+// unlike `println!`, this doesn't panic if the output can't be written; what is only said in
+// passing (`info!`, `warn!`) doesn't end the operation then, the rest does
+pub fn say(text: String) -> std::io::Result<()> {
+    use std::io::Write;
+
+    let mut stdout = std::io::stdout();
+    stdout.write_all(text.as_bytes())?;
+    stdout.flush()
+}
+
 #[macro_export]
 macro_rules! info {
     ($($arg:tt)*) => {
-        println!("[i] {}", format!($($arg)*))
+        $crate::global::say(format!("[i] {}\n", format!($($arg)*))).ok()
     }
 }
 
 #[macro_export]
 macro_rules! error {
     ($($arg:tt)*) => {
-        println!("[!] {}", format!($($arg)*))
+        $crate::global::say(format!("[!] {}\n", format!($($arg)*))).ok()
     }
 }
 
 #[macro_export]
 macro_rules! success {
     ($($arg:tt)*) => {
-        println!("[+] {}", format!($($arg)*))
+        $crate::global::say(format!("[+] {}\n", format!($($arg)*)))
     }
 }
 
 #[macro_export]
 macro_rules! warn {
     ($($arg:tt)*) => {
-        println!("[-] {}", format!($($arg)*))
+        $crate::global::say(format!("[-] {}\n", format!($($arg)*))).ok()
     }
 }
 
 #[macro_export]
 macro_rules! question {
     ($($arg:tt)*) => {
-        print!("[?] {}", format!($($arg)*));
-
+        $crate::global::say(format!("[?] {}", format!($($arg)*)))
     }
 }
diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 4a2880e..20bcc88 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -117,7 +117,9 @@ impl Key {
             Key::User => get_password(pass_state)?,
             Key::Generate(i) => {
                 let passphrase = generate_passphrase(i);
-                warn!("Your generated passphrase is: {}", passphrase.expose());
+                // without having been shown, the passphrase would be lost
+                warn!("Your generated passphrase is: {}", passphrase.expose())
+                    .context("Unable to write the passphrase to stdout")?;
                 let key = Protected::new(passphrase.expose().clone().into_bytes());
                 drop(passphrase);
                 key
diff --git a/crates/volaris-cli/src/subcommands/hashing.rs b/crates/volaris-cli/src/subcommands/hashing.rs
index 3aa1e15..fea147c 100644
--- a/crates/volaris-cli/src/subcommands/hashing.rs
+++ b/crates/volaris-cli/src/subcommands/hashing.rs
@@ -19,7 +19,7 @@ pub fn hash_stream(files: &[String]) -> Result<()> {
             },
         )?;
 
-        success!("{}: {}", input, hash);
+        success!("{}: {}", input, hash).context("Unable to write the hash to stdout")?;
     }
 
     Ok(())
-- 
2.43.0


From 56f47c4d9b3db1f31a1d8aee69c977cd9c1dbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 31/32] fix: don't return from erasing or unpacking a directory
 while some of its threads are still at work

---
 crates/volaris-tools/src/erase_dir.rs | 11 +++++++++--
 crates/volaris-tools/src/unpack.rs    | 11 ++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index d3dd65f..d219aaa 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -79,9 +79,16 @@ where
                 })
                 .map_err(|_| Error::StartThread)
         })
-        .collect::<Result<Vec<_>, _>>()?;
+        .collect::<Vec<_>>();
 
-    handlers.into_iter().try_for_each(|h| h.join().unwrap())?;
+    // whatever fails, no file is still being erased when the result is known
+    #[allow(clippy::needless_collect)]
+    let results = handlers
+        .into_iter()
+        .map(|h| h.and_then(|h| h.join().unwrap()))
+        .collect::<Vec<_>>();
+
+    results.into_iter().collect::<Result<(), _>>()?;
 
     stor.remove_dir_all(req.entry).map_err(|_| Error::RemoveDir)
 }
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 35e1e75..a7d52e4 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -162,11 +162,16 @@ fn unpack_archive<RW: Read + Write + Seek>(
                     .spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
                     .map_err(|_| Error::StartThread)
             })
-            .collect::<Result<Vec<_>, _>>()?;
+            .collect::<Vec<_>>();
 
-        create_dirs_jobs
+        // whatever fails, no directory is still being created when the result is known
+        #[allow(clippy::needless_collect)]
+        let results = create_dirs_jobs
             .into_iter()
-            .try_for_each(|th| th.join().unwrap())?;
+            .map(|th| th.and_then(|th| th.join().unwrap()))
+            .collect::<Vec<_>>();
+
+        results.into_iter().collect::<Result<(), _>>()?;
 
         // 6. create files
         entities
-- 
2.43.0


From 1d97569c5744976f908264754890237a311133d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 32/32] fix: don't wait forever for a named pipe in a packed or
 erased directory

---
 crates/volaris-tools/src/storage.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 2fb938b..359c6af 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -219,7 +219,15 @@ impl Storage<fs::File> for FileStorage {
                 res.map(|e| e.path().to_owned())
                     .map_err(|_| Error::DirEntries)
             })
-            .map(|path| path.and_then(|path| self.read_file(path)))
+            .map(|path| {
+                path.and_then(|path| {
+                    // opening a named pipe would wait for somebody at its other end
+                    match fs::metadata(&path) {
+                        Ok(meta) if meta.is_dir() || meta.is_file() => self.read_file(path),
+                        _ => Err(Error::DirEntries),
+                    }
+                })
+            })
             .collect()
     }
 }
-- 
2.43.0

