From 441d36789362b432973c3f6b3e88ff36f7a42a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 01/18] fix: write key pointers with the width announced by the
 version that is written

---
 oxyroot/src/riofs/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 3e12c81..4646564 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -167,7 +167,7 @@ impl Marshaler for Key {
         trace!(";KEY.marshal.{beg}.cycle:{:?}", self.cycle);
         w.write_i16(self.cycle)?;
 
-        if self.rvers > 1000 {
+        if rvers > 1000 {
             w.write_i64(self.seek_key)?;
             w.write_i64(self.seek_pdir)?;
         } else {
-- 
2.43.0


From dbcf842264357edc67a7facf56c3c5ec98738f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 02/18] fix: reading past the end of a buffer is an error, not
 a panic

---
 oxyroot/src/rbytes/rbuffer.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 955617e..efbba3e 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -27,20 +27,25 @@ impl<'a> Rbuff<'a> {
     // }
 
     fn extract_const_n<const N: usize>(&mut self) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + N)];
-        self.c += N;
-        Ok(buf)
+        self.extract_n(N)
     }
 
     fn extract_as_array<const N: usize>(&mut self) -> Result<[u8; N]> {
-        let buf: [u8; N] = self.p[self.c..(self.c + N)].as_ref().try_into()?;
-        self.c += N;
+        let buf: [u8; N] = self.extract_n(N)?.try_into()?;
         Ok(buf)
     }
 
     fn extract_n(&mut self, n: usize) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + n)];
-        self.c += n;
+        let end = self.c.checked_add(n).filter(|end| *end <= self.p.len());
+        let Some(end) = end else {
+            return Err(Misc(format!(
+                "rbytes: {n} bytes wanted at position {} of a buffer of {} bytes",
+                self.c,
+                self.p.len()
+            )));
+        };
+        let buf = &self.p[self.c..end];
+        self.c = end;
         Ok(buf)
     }
 
@@ -48,8 +53,9 @@ impl<'a> Rbuff<'a> {
     where
         F: FnMut(&u8) -> bool,
     {
-        let m = min(self.c + n, self.p.len());
-        let buf = &self.p[self.c..m];
+        let beg = min(self.c, self.p.len());
+        let m = min(beg.saturating_add(n), self.p.len());
+        let buf = &self.p[beg..m];
         let mut iter = buf.split(pred);
         if let Some(buf) = iter.next() {
             self.c += buf.len() + 1;
-- 
2.43.0


From 1212a696b135ae3b021439bd7f3b5c5b7541c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 03/18] fix: skip_version tests the 16-bit byte-count mark of a
 version, not the 32-bit one

---
 oxyroot/src/rbytes/rbuffer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index efbba3e..52bc87c 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -1,4 +1,6 @@
-use crate::rbytes::consts::{kByteCountMask, kClassMask, kMapOffset, kNewClassTag, kNullTag};
+use crate::rbytes::consts::{
+    kByteCountMask, kByteCountVMask, kClassMask, kMapOffset, kNewClassTag, kNullTag,
+};
 use crate::rbytes::rbuffer::RBufferRefsItem::Func;
 use crate::rbytes::Error::Misc;
 use crate::rbytes::Result;
@@ -496,7 +498,7 @@ impl<'a> RBuffer<'a> {
     pub(crate) fn skip_version(&mut self, class: &str) -> Result<()> {
         let version = self.read_i16()?;
 
-        if ((version as i64) & kByteCountMask) != 0 {
+        if ((version as i64) & kByteCountVMask) != 0 {
             self.read_u16()?;
             self.read_u16()?;
         }
-- 
2.43.0


From 73ef6bb1a8319191cdfd09b9de1bfa4eafd20f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 04/18] fix: reject TNamed and TMap records of a version newer
 than the one implemented

---
 oxyroot/src/rbase/named.rs | 3 ++-
 oxyroot/src/rcont/tmap.rs  | 4 +++-
 oxyroot/src/rvers.rs       | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/rbase/named.rs b/oxyroot/src/rbase/named.rs
index eef1fac..254fc22 100644
--- a/oxyroot/src/rbase/named.rs
+++ b/oxyroot/src/rbase/named.rs
@@ -1,6 +1,6 @@
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::wbuffer::WBuffer;
-use crate::rbytes::{RVersioner, Unmarshaler};
+use crate::rbytes::{ensure_maximum_supported_version, RVersioner, Unmarshaler};
 use crate::root::traits::Object;
 use crate::{rbase, Marshaler};
 use crate::{root, rvers};
@@ -49,6 +49,7 @@ impl Named {
 impl Unmarshaler for Named {
     fn unmarshal(&mut self, r: &mut RBuffer) -> crate::rbytes::Result<()> {
         let hdr = r.read_header(self.class())?;
+        ensure_maximum_supported_version(hdr.vers, rvers::NAMED, self.class())?;
 
         {
             // r.read_object(&mut self.obj)?;
diff --git a/oxyroot/src/rcont/tmap.rs b/oxyroot/src/rcont/tmap.rs
index cb812d9..08e4530 100644
--- a/oxyroot/src/rcont/tmap.rs
+++ b/oxyroot/src/rcont/tmap.rs
@@ -1,7 +1,8 @@
+use crate::rbytes::ensure_maximum_supported_version;
 use crate::root::traits;
 use crate::rtypes::factory::{Factory, FactoryBuilder};
 use crate::rtypes::FactoryItemRead;
-use crate::{rbase, Object, RBuffer, Unmarshaler};
+use crate::{rbase, rvers, Object, RBuffer, Unmarshaler};
 use log::trace;
 use std::collections::HashMap;
 
@@ -60,6 +61,7 @@ impl traits::Named for TMap {
 impl Unmarshaler for TMap {
     fn unmarshal(&mut self, r: &mut RBuffer) -> crate::rbytes::Result<()> {
         let hdr = r.read_header(self.class())?;
+        ensure_maximum_supported_version(hdr.vers, rvers::MAP, self.class())?;
 
         if hdr.vers > 2 {
             r.read_object(&mut self.obj)?;
diff --git a/oxyroot/src/rvers.rs b/oxyroot/src/rvers.rs
index dff59d7..9be77c1 100644
--- a/oxyroot/src/rvers.rs
+++ b/oxyroot/src/rvers.rs
@@ -61,7 +61,8 @@ pub const CLONES_ARRAY: i16 = 4;
 pub const LIST: i16 = 5;
 // HashList                 = 0  // ROOT version for THashList
 // HashTable                = 0  // ROOT version for THashTable
-// Map                      = 3  // ROOT version for TMap
+/// ROOT version for TMap
+pub const MAP: i16 = 3;
 /// ROOT version for TObjArray
 pub const OBJ_ARRAY: i16 = 3;
 // RefArray                 = 1  // ROOT version for TRefArray
-- 
2.43.0


From 2eafb9750bcaca804dc199d4385085ff39af597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 05/18] fix: RootFile::close flushes the buffered writer and
 reports a failed flush

---
 oxyroot/src/riofs/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9fb9554..9346694 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -129,6 +129,11 @@ impl RootFileWriter {
         self.writer.as_mut().expect("ERROR").write_all(buf)?;
         Ok(())
     }
+
+    pub(crate) fn flush(&mut self) -> Result<()> {
+        self.writer.as_mut().expect("ERROR").flush()?;
+        Ok(())
+    }
 }
 
 // impl Clone for RootFileWriter {
@@ -357,6 +362,7 @@ impl RootFile {
         self.write_streamer_info()?;
         self.write_free_segments()?;
         self.write_header()?;
+        self.writer()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 163299b5cb18f5c91eb509d8c7e35d009704c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 06/18] fix: Key::new announces the pointer width its length
 was computed for

---
 oxyroot/src/riofs/key.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 4646564..c487e9e 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -227,14 +227,15 @@ impl Key {
             ..Default::default()
         };
         key.n_bytes = key.obj_len + key.key_len;
+        // the width of the pointers was decided by key_len_for, before the record is allocated
+        if has_big_pointers(f) {
+            key.rvers += 1000
+        }
         let eof = f.end();
         if obj_len > 0 {
             key.seek_key = eof;
             f.set_end(key.seek_key + key.n_bytes as i64)?;
         }
-        if f.is_big_file() {
-            key.rvers += 1000
-        }
 
         key.seek_pdir = f.dir().seek_dir;
 
@@ -267,7 +268,7 @@ impl Key {
             ..Default::default()
         };
 
-        if f.is_big_file() {
+        if has_big_pointers(f) {
             key.rvers += 1000;
         }
 
@@ -315,7 +316,7 @@ impl Key {
         };
         key.n_bytes = key.key_len;
 
-        if f.is_big_file() {
+        if has_big_pointers(f) {
             key.rvers += 1000;
         }
 
@@ -359,7 +360,7 @@ impl Key {
             ..Default::default()
         };
 
-        if f.is_big_file() {
+        if has_big_pointers(f) {
             key.rvers += 1000;
         }
         trace!(
@@ -510,10 +511,15 @@ impl Key {
     }
 }
 
+/// Whether the keys created now carry 64-bit pointers
+fn has_big_pointers(f: &RootFile) -> bool {
+    f.dir().is_big_file() || f.is_big_file()
+}
+
 fn key_len_for(name: &str, title: &str, class: &str, f: &RootFile) -> i32 {
     let mut nbytes = 22;
 
-    if f.dir().is_big_file() || f.is_big_file() {
+    if has_big_pointers(f) {
         nbytes += 8;
     }
 
-- 
2.43.0


From 276818cee493ce80898b569dab98a61e50ede129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 07/18] fix: TDirectoryFile writes 64-bit pointers when they do
 not fit in 32 bits

---
 oxyroot/src/riofs/dir.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 6e8a0ca..e73a68b 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -3,6 +3,7 @@ use crate::riofs::file::{RootFile, RootFileReader};
 use crate::rbase::named::Named as ObjNamed;
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
+use crate::riofs::consts::kStartBigFile;
 use crate::riofs::key::Key;
 use crate::riofs::utils::{datetime_to_u32, decode_name_cycle};
 use crate::root::traits::Named;
@@ -436,7 +437,15 @@ impl Unmarshaler for TDirectoryFile {
 impl Marshaler for TDirectoryFile {
     fn marshal(&self, w: &mut WBuffer) -> crate::rbytes::Result<i64> {
         let beg = w.pos();
-        let version = self.dir().rvers;
+        let mut version = self.dir().rvers;
+        if version <= 1000
+            && (self.seek_dir > kStartBigFile
+                || self.seek_parent > kStartBigFile
+                || self.seek_keys > kStartBigFile)
+        {
+            // pointers that do not fit in 32 bits
+            version += 1000;
+        }
         trace!(";TDirectoryFile.marshal.beg:{:?}", beg);
         trace!(";TDirectoryFile.marshal.version:{:?}", version);
         w.write_i16(version)?;
@@ -457,7 +466,7 @@ impl Marshaler for TDirectoryFile {
         );
         w.write_i32(self.n_bytes_name)?;
 
-        if self.is_big_file() {
+        if version > 1000 {
             w.write_i64(self.seek_dir)?;
             w.write_i64(self.seek_parent)?;
             w.write_i64(self.seek_keys)?;
-- 
2.43.0


From 1ec8c965952b2965c2d8c8a585d4f0891dfa844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 08/18] fix: a long entry must not stop the offset table of a
 basket from growing

---
 oxyroot/src/rtree/branch/wbranch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 2b3204b..bebd8ba 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -145,7 +145,8 @@ where
                 let sz_new = basket.wbuf.len();
                 trace!(";WBranch.write.{ident}.sz_new:{:?}", sz_new);
                 let n = (sz_new - sz_old) as i32;
-                if n > basket.basket.nev_size {
+                // with entry offsets, nev_size is the length of the offset table
+                if basket.basket.offsets().is_empty() && n > basket.basket.nev_size {
                     basket.basket.nev_size = n;
                 }
 
-- 
2.43.0


From 6ec087d4eb82a4f2cfba231c92dbf527e44c375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 09/18] fix: a missing array flag in a tree record is an error

---
 oxyroot/src/rtree/tree/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/tree/reader.rs b/oxyroot/src/rtree/tree/reader.rs
index 3ebaac7..fb6eb69 100644
--- a/oxyroot/src/rtree/tree/reader.rs
+++ b/oxyroot/src/rtree/tree/reader.rs
@@ -215,10 +215,10 @@ impl Unmarshaler for ReaderTree {
         if hdr.vers >= 19 {
             self.tree.clusters.ranges = vec![0; nclus as usize];
             self.tree.clusters.sizes = vec![0; nclus as usize];
-            let _ = r.read_i8();
+            let _ = r.read_i8()?;
             r.read_array_i64(&mut self.tree.clusters.ranges)?;
 
-            let _ = r.read_i8();
+            let _ = r.read_i8()?;
             r.read_array_i64(&mut self.tree.clusters.sizes)?;
         }
 
-- 
2.43.0


From 872888dffc7610554e4066a07d8da51973bbdfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:56 +0000
Subject: [PATCH 10/18] fix: a string that is not valid UTF-8 is an error, not
 an empty string

---
 oxyroot/src/rbytes/rbuffer.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 52bc87c..3804704 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -453,20 +453,12 @@ impl<'a> RBuffer<'a> {
 
         // trace!("read_string: buf = {:?}", buf);
 
-        if let Ok(s) = from_utf8(buf) {
-            // trace!("read_string = {}", s);
-            return Ok(s);
-        }
-        Ok("")
+        from_utf8(buf).map_err(|e| Misc(format!("invalid string: {}", e)))
     }
 
     pub fn read_cstring(&mut self, n: usize) -> Result<&'a str> {
         let buf = self.r.extract_until(n, |a| *a == 0)?;
-        if let Ok(s) = from_utf8(buf) {
-            return Ok(s);
-        }
-
-        Ok("")
+        from_utf8(buf).map_err(|e| Misc(format!("invalid string: {}", e)))
     }
 
     pub(crate) fn read_header(&mut self, class: &str) -> crate::rbytes::Result<Header> {
-- 
2.43.0


From 51311c520381d8356715b636c5d058221af0407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 11/18] fix: a file at a long path can be opened again

---
 oxyroot/src/riofs/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index e73a68b..2c24134 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -174,11 +174,11 @@ impl TDirectoryFile {
         dir.dir.named.name = r.read_string()?.to_string();
         dir.dir.named.title = r.read_string()?.to_string();
 
-        if dir.n_bytes_name < 10 || dir.n_bytes_name > 1000 {
+        if dir.n_bytes_name < 10 || dir.n_bytes_name > 10000 {
             return Err(crate::riofs::error::Error::CantReadDirectoryInfo {
                 n_bytes_name_read: dir.n_bytes_name,
                 n_bytes_name_min_allowed: 10,
-                n_bytes_name_max_allowed: 1000,
+                n_bytes_name_max_allowed: 10000,
             });
         }
 
-- 
2.43.0


From 256b897adf314a6116572d9b58092db9b835a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 12/18] fix: decompress data stored as several blocks

---
 oxyroot/src/rcompress.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 44a6ab9..838eb61 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -54,7 +54,7 @@ fn kind_of(buf: &[u8]) -> Kind {
     }
 }
 
-pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
+pub fn decompress(mut dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
     let _beg = 0;
     let mut end = 0;
     let buflen = dst.len() as i64;
@@ -68,11 +68,21 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
         // let _ = src.read_exact(dst)?;
         // let _ = src.read_exact(dst)?;
 
-        let _srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
+        let srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
         let tgtsz = hdr[6] as i64 | (hdr[7] as i64) << 8 | (hdr[8] as i64) << 16;
         // let tgtsz = hdr[6]) | int64(hdr[7])<<8 | int64(hdr[8])<<16
         end += tgtsz;
 
+        if srcsz > src.len() as i64 || end > buflen {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
+
+        // data of more than 16 MB are stored as several blocks
+        let (block, next_blocks) = src.split_at(srcsz as usize);
+        let (target, next_targets) = dst.split_at_mut(tgtsz as usize);
+        src = next_blocks;
+        dst = next_targets;
+
         match kind_of(hdr.as_ref()) {
             Kind::Inherit => {
                 unimplemented!()
@@ -82,20 +92,18 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
             }
 
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
-                return Ok(0);
+                let mut d = ZlibDecoder::new(block);
+                d.read_exact(target)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
+                let mut d = XzDecoder::new(block);
+                d.read_exact(target)?;
             }
             Kind::OldCompression => {
                 unimplemented!()
             }
             Kind::LZ4 => {
-                LZ4_decompress_to_buffer(&src[8..], Some(dst.len() as i32), dst)?;
-                return Ok(0);
+                LZ4_decompress_to_buffer(&block[8..], Some(target.len() as i32), target)?;
                 // let mut d = LZ4Decoder::new(src)?;
                 // d.read_exact(dst.as_mut())?;
             }
-- 
2.43.0


From 65735ae72ea69570bc0c2152fd06ff8cdcc3757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:43 +0000
Subject: [PATCH 13/18] fix: the basket kept in the tree record comes after
 those on disk

---
 oxyroot/src/rtree/branch/tbranch.rs         | 3 ++-
 oxyroot/src/rtree/branch/tbranch_element.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 29f69c5..3abef5d 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -269,7 +269,8 @@ impl TBranch {
             });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            // the basket kept in the record of the tree is the last one
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index be4fe6f..888d3f5 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -437,7 +437,8 @@ impl TBranchElement {
         });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            // the basket kept in the record of the tree is the last one
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 }
-- 
2.43.0


From c8cdbb31359592d2b097a714c9b739789a4e3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 14/18] fix: the title of a branch of bool ends in ROOT's
 letter O, not that of a signed byte

---
 oxyroot/src/rbytes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 4eba0b7..f0d6432 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -225,7 +225,7 @@ macro_rules! impl_marshalers_primitive {
                 }
 
                 if ty == TypeId::of::<bool>() {
-                    return "B".to_string();
+                    return "O".to_string();
                 }
 
                 unimplemented!("Marshaler.root_code for {}", type_name::<Self>())
-- 
2.43.0


From cdc8fbab5af57fc0726993ed0f690b46501c0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 15/18] fix: name the type of Long64_t, ULong64_t and Bool_t
 members of split classes

---
 oxyroot/src/rtree/streamer_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 05f793c..6cf0b55 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -179,8 +179,10 @@ pub(crate) fn _from_leaftype_to_str(leaftype: i32) -> Option<&'static str> {
             EReadWrite::Int => Some("int32_t"),
             EReadWrite::UInt | EReadWrite::Bits | EReadWrite::Counter => Some("uint32_t"),
 
-            EReadWrite::Long => Some("int64_t"),
-            EReadWrite::ULong => Some("uint64_t"),
+            EReadWrite::Long | EReadWrite::Long64 => Some("int64_t"),
+            EReadWrite::ULong | EReadWrite::ULong64 => Some("uint64_t"),
+
+            EReadWrite::Bool => Some("bool"),
 
             EReadWrite::Float => Some("float"),
             EReadWrite::Double => Some("double"),
-- 
2.43.0


From dce337d4aeb071002265503062624482aa967e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:37 +0000
Subject: [PATCH 16/18] fix: nested structs derived with WriteToTree are
 written in their own entry, under the names the reader asks for

---
 oxyroot_derive/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 5d125ac..221a25b 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -827,8 +827,10 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
                     }
                 };
 
-                #new_branch
+                // registered before the branches: a field which is itself a struct gets its values
+                // from this callback, so it has to be called before the one of the field
                 tree.add_callback(Box::new(func));
+                #new_branch
 
                 Ok(())
 
@@ -952,7 +954,13 @@ fn write_new_branch_for_write_to_tree(data: &Data) -> TokenStream {
                     let recv_name = format_ident!("recv_{field_name}");
 
                     quote_spanned! {
-                        f.span() => <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, stringify!(#field_name).into())?;
+                        f.span() => {
+                            let name = match branch_name {
+                                None => stringify!(#field_name).to_string(),
+                                Some(parent) => format!("{}.{}", parent, stringify!(#field_name)),
+                            };
+                            <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, Some(&name))?;
+                        }
                     }
                 });
                 quote!(#(#recurse)*)
-- 
2.43.0


From 51106268c3dc4e5638e48c7e66b7030dd0e13e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:37 +0000
Subject: [PATCH 17/18] fix: find the object of a given cycle instead of ending
 the program

---
 oxyroot/src/riofs/dir.rs   | 11 +----------
 oxyroot/src/riofs/utils.rs |  7 ++++---
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 2c24134..ba7a96c 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -307,16 +307,7 @@ impl TDirectoryFile {
         let mut keys = self
             .keys
             .iter()
-            .filter(|k| {
-                if k.name() == name {
-                    if cycle != 9999 {
-                        todo!();
-                    }
-                    true
-                } else {
-                    false
-                }
-            })
+            .filter(|k| k.name() == name && (cycle == 9999 || k.cycle() == cycle as i32))
             .collect::<Vec<_>>();
 
         let key = match keys.len() {
diff --git a/oxyroot/src/riofs/utils.rs b/oxyroot/src/riofs/utils.rs
index 3c8c819..0c605d5 100644
--- a/oxyroot/src/riofs/utils.rs
+++ b/oxyroot/src/riofs/utils.rs
@@ -6,9 +6,10 @@ pub fn decode_name_cycle(namecycle: &str) -> Result<(&str, u16), Error> {
 
     match toks.len() {
         1 => Ok((toks[0], 9999)),
-        2 => {
-            unimplemented!()
-        }
+        2 => match toks[1].parse() {
+            Ok(cycle) => Ok((toks[0], cycle)),
+            Err(_) => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
+        },
 
         _ => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
     }
-- 
2.43.0


From 2422f73e7782544148930e078ed15e5716bcc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:37 +0000
Subject: [PATCH 18/18] fix: get_tree refuses an object that is no tree instead
 of ending the program

---
 oxyroot/src/riofs/file.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9346694..7e0b762 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -899,7 +899,15 @@ impl RootFile {
 
     pub fn get_tree(&mut self, name: &str) -> Result<ReaderTree> {
         let objet = self.get_object(name)?;
-        let mut objet: ReaderTree = *objet.downcast::<ReaderTree>().expect("");
+        let class = objet.class().to_string();
+        let mut objet: ReaderTree =
+            *objet
+                .downcast::<ReaderTree>()
+                .map_err(|_| Error::KeyClassMismatch {
+                    key: name.to_string(),
+                    key_class: class,
+                    obj_class: "TTree".to_string(),
+                })?;
 
         objet.set_reader(Some(self.reader()?.clone()));
         objet.set_streamer_info(self.sinfos.clone());
-- 
2.43.0

