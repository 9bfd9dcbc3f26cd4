From 05f9f6ea16f50640d48a947a19010dbb9dd1f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 01/50] verif: guarded access to replace, undo and redo of a
 piece table

---
 core/src/editor/piece_table/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 18d6b52..da1f292 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -637,6 +637,22 @@ impl PieceTable {
     }
 }
 
+/// Entry points for the verification harness, compiled only with `--cfg ced_verif`.
+#[cfg(ced_verif)]
+impl PieceTable {
+    pub fn verif_replace(&mut self, start: usize, length: usize, text: String) {
+        self.replace(OffsetRange::new(start, length), text)
+    }
+
+    pub fn verif_undo(&mut self) -> bool {
+        self.undo()
+    }
+
+    pub fn verif_redo(&mut self) -> bool {
+        self.redo()
+    }
+}
+
 impl Default for PieceTable {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 2665b20548b4de454bf17265f9e859e6b75ac942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 02/50] fix: never store empty pieces in a piece table

---
 core/src/editor/piece_table/mod.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index da1f292..22f53e7 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -179,12 +179,14 @@ impl PieceTable {
     pub fn with_text(text: String) -> PieceTable {
         let mut pieces = RBTreeSet::new();
         let newlines = text.match_indices('\n').map(|(i, _)| i).collect();
-        pieces.insert(Piece {
-            offset: 0,
-            start: 0,
-            length: text.len(),
-            original: true,
-        });
+        if !text.is_empty() {
+            pieces.insert(Piece {
+                offset: 0,
+                start: 0,
+                length: text.len(),
+                original: true,
+            });
+        }
         PieceTable {
             original: text.into_bytes(),
             added: Vec::new(),
@@ -486,6 +488,9 @@ impl PieceTable {
     }
 
     pub fn append(&mut self, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         let offset = if let Some(last) = self.pieces.last() {
             let data = last.data();
@@ -514,6 +519,9 @@ impl PieceTable {
     }
 
     pub fn insert(&mut self, offset: usize, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         if let Some(ref mut node) = self.pieces.get_node(&Piece::offset(offset)) {
             let added_start = self.added.len();
@@ -548,6 +556,9 @@ impl PieceTable {
     }
 
     pub fn delete(&mut self, range: &dyn Range) {
+        if range.len() == 0 {
+            return;
+        }
         self.action(Action::Delete);
 
         // special case: deleting exactly the whole content
-- 
2.43.0


From 69e546f3f99d8e5a2dbed426a5e021d349b2f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 03/50] fix: shift the pieces following a deletion of whole
 pieces

---
 core/src/editor/piece_table/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 22f53e7..54fc8af 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -588,9 +588,9 @@ impl PieceTable {
             }
             if let Some(ln) = last_node {
                 self.shift_offset_after(&ln, -(range.len() as i64));
-            } else {
-                start_node.apply(|n| n.offset -= range.len());
-                self.shift_offset_after(&start_node, -(range.len() as i64));
+            } else if let Some(next) = self.pieces.get_node(&Piece::offset(range.end())) {
+                self.shift_offset_after(&next, -(range.len() as i64));
+                next.apply(|p| p.offset -= range.len());
             }
             self.newlines = self
                 .newlines
-- 
2.43.0


From b713ead8259c16cadd8b1aab8cf14a11de15c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 04/50] fix: compute text differences on characters, whatever
 the texts

---
 core/src/editor/diff.rs | 54 +++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index bf70309..4e5c4af 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -7,7 +7,7 @@ pub enum Diff {
     Right(usize),
 }
 
-fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
+fn precompute(b1: &[char], b2: &[char]) -> (usize, usize) {
     let l1 = b1.len();
     let l2 = b2.len();
 
@@ -21,14 +21,14 @@ fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
         end += 1;
     }
 
-    if start == end || end == 0 {
-        (start, None)
-    } else {
-        (start, Some(end))
-    }
+    (start, end)
+}
+
+fn byte_len(chars: &[char]) -> usize {
+    chars.iter().map(|c| c.len_utf8()).sum()
 }
 
-fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
+fn find_lcs<T: Copy + PartialEq>(left: &[T], right: &[T]) -> Vec<T> {
     let el = left.len();
     let er = right.len();
 
@@ -56,8 +56,8 @@ fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
     }
 
     let mut lcs = Vec::new();
-    let mut i = (el - 1) as isize;
-    let mut j = (er - 1) as isize;
+    let mut i = el as isize - 1;
+    let mut j = er as isize - 1;
     while i >= 0 && j >= 0 {
         let idx = i as usize;
         let jdx = j as usize;
@@ -79,22 +79,18 @@ fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
 
 #[allow(clippy::many_single_char_names)]
 pub fn diff(left: &str, right: &str) -> Vec<Diff> {
-    let bleft = left.as_bytes();
-    let bright = right.as_bytes();
+    // compare characters so that no multi-byte one is ever split, lengths are in bytes
+    let cleft: Vec<char> = left.chars().collect();
+    let cright: Vec<char> = right.chars().collect();
     let mut diffs = Vec::new();
 
-    let (start, maybe_end) = precompute(bleft, bright);
+    let (start, end) = precompute(&cleft, &cright);
     if start > 0 {
-        diffs.push(Diff::Both(start));
+        diffs.push(Diff::Both(byte_len(&cleft[..start])));
     }
-    let end = match maybe_end {
-        Some(len) => len,
-        None if start > 0 => return diffs,
-        None => 0,
-    };
-
-    let l = &bleft[start..bleft.len() - end];
-    let r = &bright[start..bright.len() - end];
+
+    let l = &cleft[start..cleft.len() - end];
+    let r = &cright[start..cright.len() - end];
     let lcs = find_lcs(l, r);
     let mut i = 0;
     let mut j = 0;
@@ -104,7 +100,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
     while let Some(&c) = lcs_it.next() {
         len = 0;
         while i < l.len() && l[i] != c {
-            len += 1;
+            len += l[i].len_utf8();
             i += 1;
         }
         if len > 0 {
@@ -113,7 +109,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
 
         len = 0;
         while j < r.len() && r[j] != c {
-            len += 1;
+            len += r[j].len_utf8();
             j += 1;
         }
         if len > 0 {
@@ -123,7 +119,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         len = 0;
         let mut sub_c = c;
         while l[i] == sub_c && r[j] == sub_c {
-            len += 1;
+            len += sub_c.len_utf8();
             i += 1;
             j += 1;
             match lcs_it.next() {
@@ -136,15 +132,15 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         }
     }
 
-    if i < l.len() - 1 {
-        diffs.push(Diff::Left(l.len() - i));
+    if i < l.len() {
+        diffs.push(Diff::Left(byte_len(&l[i..])));
     }
-    if j < r.len() - 1 {
-        diffs.push(Diff::Right(r.len() - j));
+    if j < r.len() {
+        diffs.push(Diff::Right(byte_len(&r[j..])));
     }
 
     if end > 0 {
-        diffs.push(Diff::Both(end));
+        diffs.push(Diff::Both(byte_len(&cleft[cleft.len() - end..])));
     }
     diffs
 }
-- 
2.43.0


From 3081f9bece482c7eca48edd8aa1a8ddc6a144e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 05/50] fix: keep the line index in step with undo and redo

---
 core/src/editor/piece_table/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 54fc8af..d2d1d80 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -243,10 +243,15 @@ impl PieceTable {
         self.last_action = None;
     }
 
+    fn reset_newlines(&mut self) {
+        self.newlines = self.text().match_indices('\n').map(|(i, _)| i).collect();
+    }
+
     fn undo(&mut self) -> bool {
         if let Some(pieces) = self.undos.pop() {
             self.redos.push(self.pieces.clone());
             self.pieces = pieces;
+            self.reset_newlines();
             self.last_action = None;
             true
         } else {
@@ -258,6 +263,7 @@ impl PieceTable {
         if let Some(pieces) = self.redos.pop() {
             self.undos.push(self.pieces.clone());
             self.pieces = pieces;
+            self.reset_newlines();
             self.last_action = None;
             true
         } else {
-- 
2.43.0


From 58a99d37a42ce59a17488380232507b94565ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 06/50] fix: count columns and line lengths in characters
 everywhere

---
 core/src/editor/piece_table/mod.rs | 31 ++++++------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index d2d1d80..40002d7 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -377,18 +377,11 @@ impl PieceTable {
 
         let preceding_lines = self.newlines.range(..offset).collect::<Vec<_>>();
         let lineno = preceding_lines.len() + 1;
-        Some(match preceding_lines.last() {
-            Some(&nli) => {
-                let line = self.line_bytes(lineno).unwrap();
-                let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
-                let col = indices.range(..offset - nli).count();
-                Coords { l: lineno, c: col }
-            }
-            None => Coords {
-                l: lineno,
-                c: offset + 1,
-            },
-        })
+        let line_offset = preceding_lines.last().map_or(0, |&nli| nli + 1);
+        let line = self.line_bytes(lineno).unwrap();
+        let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
+        let col = indices.range(..=offset - line_offset).count();
+        Some(Coords { l: lineno, c: col })
     }
 
     pub fn coord_to_offset(&self, coords: Coords) -> Option<usize> {
@@ -450,19 +443,7 @@ impl PieceTable {
     }
 
     pub fn line_length(&self, index: usize) -> usize {
-        let mut nls = self.newlines.iter().collect::<Vec<_>>();
-        nls.sort_unstable();
-        if nls.is_empty() {
-            self.len()
-        } else if index == 1 {
-            *nls[0]
-        } else if index - 1 < nls.len() {
-            nls[index - 1] - nls[index - 2] - 1
-        } else if index - 1 == nls.len() {
-            self.len() - nls[index - 2] - 1
-        } else {
-            0
-        }
+        self.line_bytes(index).map_or(0, |l| l.graphemes().count())
     }
 
     pub fn longest_line(&self) -> (usize, usize) {
-- 
2.43.0


From 7eba2e9b5ab9f746de60df018a8be2ce79bb3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 07/50] fix: keep navigation inside the text, multi-byte
 characters and empty lines included

---
 core/src/editor/piece_table/mod.rs       |  8 +++-----
 core/src/editor/piece_table/navigator.rs | 26 +++++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 40002d7..ce4c8a1 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -399,15 +399,13 @@ impl PieceTable {
             } else {
                 0
             };
-            let lbs = self
-                .line_bytes(coords.l)
-                .unwrap_or_else(|| panic!("get bytes for line {}", coords.l));
+            let lbs = self.line_bytes(coords.l).unwrap_or_default();
             if coords.c == lbs.graphemes().count() + 1 {
                 // this is the newline character for this line
                 Some(line_offset + lbs.len())
             } else {
                 lbs.grapheme_indices()
-                    .nth(coords.c - 1)
+                    .nth(coords.c.checked_sub(1)?)
                     .map(|(i, _, _)| i)
                     .map(|col| line_offset + col)
             }
@@ -439,7 +437,7 @@ impl PieceTable {
 
     pub fn char_at(&self, coords: impl Into<Coords>) -> Option<String> {
         self.coord_to_offset(coords.into())
-            .map(|offset| self.char_at_offset(offset).unwrap())
+            .and_then(|offset| self.char_at_offset(offset))
     }
 
     pub fn line_length(&self, index: usize) -> usize {
diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index 329cd27..07e2836 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -1,6 +1,4 @@
-use std::cmp::min;
-
-use bstr::ByteSlice;
+use std::cmp::{max, min};
 
 use crate::editor::piece_table::{Coords, PieceTable, Position};
 
@@ -34,13 +32,16 @@ impl Navigator<'_> {
     }
 
     pub fn pos(&self) -> Position {
-        let col_count = self
-            .table
-            .line_bytes(self.cursor.l)
-            .unwrap_or_else(|| panic!("get bytes for line {}", self.cursor.l))
-            .graphemes()
-            .count()
-            + 1;
+        let length = self.table.line_length(self.cursor.l);
+        // only a line terminated by a newline has a position past its last character
+        let newline = Coords {
+            c: length + 1,
+            ..self.cursor
+        };
+        let col_count = match self.table.char_at(newline) {
+            Some(_) => length + 1,
+            None => max(length, 1),
+        };
         let cursor = Coords {
             c: min(col_count, self.target_col),
             ..self.cursor
@@ -66,7 +67,8 @@ impl Navigator<'_> {
             self.target_col = 1;
         } else {
             let offset = self.table.coord_to_offset(self.cursor).unwrap();
-            if let Some(coord) = self.table.offset_to_coord(offset + 1) {
+            let length = self.table.char_at_offset(offset).map_or(1, |c| c.len());
+            if let Some(coord) = self.table.offset_to_coord(offset + length) {
                 self.cursor = coord;
                 self.target_col = coord.c;
             }
@@ -109,7 +111,7 @@ impl Navigator<'_> {
     }
 
     pub fn line_end(&mut self) -> &mut Self {
-        self.cursor.c = self.table.line_length(self.cursor.l);
+        self.cursor.c = max(self.table.line_length(self.cursor.l), 1);
         self.target_col = self.cursor.c;
         self
     }
-- 
2.43.0


From 2e3d5b943ea2f20f3d76b34ceb5f2740cbaf3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 08/50] fix: report unreadable files and reload changed ones as
 they are on disk

---
 core/src/editor/buffer.rs | 87 ++++++++++++++++++---------------------
 core/src/editor/core.rs   | 31 ++++++++++----
 core/src/editor/mod.rs    |  5 ++-
 3 files changed, 65 insertions(+), 58 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index d2341b8..2a596b2 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -1,9 +1,10 @@
+use std::collections::hash_map::DefaultHasher;
 use std::env::current_dir;
-use std::fs::{self, File};
-use std::io::Read;
+use std::fs::File;
+use std::hash::{Hash, Hasher};
+use std::io::{self, Read};
 use std::ops::{Index, Range};
 use std::path::{Path, PathBuf};
-use std::time::SystemTime;
 
 use crate::editor::selection::Selection;
 use crate::editor::view::Focus;
@@ -57,10 +58,26 @@ fn find_shortest_name(sources: &[BufferSource], idx: usize) -> String {
     }
 }
 
+fn read_file(path: &Path) -> io::Result<String> {
+    let mut content = String::new();
+    File::open(path)?.read_to_string(&mut content)?;
+    if !content.ends_with('\n') {
+        content.push('\n');
+    }
+    Ok(content)
+}
+
+fn digest(content: &str) -> u64 {
+    let mut hasher = DefaultHasher::new();
+    content.hash(&mut hasher);
+    hasher.finish()
+}
+
 pub struct Buffer {
     pub source: BufferSource,
     pub content: PieceTable,
-    last_sync: Option<SystemTime>,
+    // digest of the file when it was last read
+    last_sync: Option<u64>,
     modified: bool,
 }
 
@@ -80,29 +97,27 @@ impl Buffer {
     }
 
     pub fn new_file(filename: &Path) -> Buffer {
+        Self::open_file(filename).unwrap()
+    }
+
+    pub fn open_file(filename: &Path) -> io::Result<Buffer> {
         let absolute_path = if filename.is_absolute() {
             filename.to_owned()
         } else {
-            let mut full_path = current_dir().unwrap();
+            let mut full_path = current_dir()?;
             full_path.push(filename);
-            full_path.canonicalize().unwrap()
+            full_path.canonicalize()?
         };
 
-        let mut file = File::open(&absolute_path).unwrap();
-        let mut file_content = String::new();
-        file.read_to_string(&mut file_content).expect("read file");
-        let last_sync = Some(SystemTime::now());
-
-        if !file_content.ends_with('\n') {
-            file_content += "\n";
-        }
+        let file_content = read_file(&absolute_path)?;
+        let last_sync = Some(digest(&file_content));
 
-        Buffer {
+        Ok(Buffer {
             source: BufferSource::File(absolute_path),
             content: PieceTable::with_text(file_content),
             last_sync,
             modified: false,
-        }
+        })
     }
 
     pub fn line_count(&self) -> usize {
@@ -121,40 +136,18 @@ impl Buffer {
         find_shortest_name(sources, idx)
     }
 
-    fn is_synced(&self) -> bool {
-        if let BufferSource::File(ref path) = self.source {
-            let dt_sync = match self.last_sync {
-                Some(dt) => dt,
-                None => return false,
-            };
-            let meta = match fs::metadata(path) {
-                Ok(data) => data,
-                Err(_) => return false,
-            };
-            if !meta.is_file() {
-                return false;
-            }
-            match meta.modified() {
-                Ok(dt_modified) => return dt_modified < dt_sync,
-                Err(_) => return false,
-            }
-        }
-        true
-    }
-
-    pub fn load_from_disk(&mut self) -> bool {
+    pub fn load_from_disk(&mut self) -> io::Result<bool> {
         match self.source {
-            BufferSource::Scratch(_) => true,
+            BufferSource::Scratch(_) => Ok(true),
             BufferSource::File(ref path) => {
-                if !self.is_synced() {
-                    let mut file = File::open(&path).unwrap();
-                    let mut content = String::new();
-                    file.read_to_string(&mut content).expect("read file");
-                    self.content.apply_diff(&content);
-                    self.last_sync = Some(SystemTime::now());
-                    true
+                let content = read_file(path)?;
+                let sync = Some(digest(&content));
+                if self.last_sync == sync {
+                    Ok(false)
                 } else {
-                    false
+                    self.content.apply_diff(&content);
+                    self.last_sync = sync;
+                    Ok(true)
                 }
             }
         }
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 5879fd7..3e1ba10 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    FileNotRead { name: String, error: io::Error },
     ViewNotFound { view_id: String },
 }
 
@@ -125,6 +126,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            FileNotRead { name, error } => write!(f, "could not read file: {}: {}", name, error),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
     }
@@ -327,9 +329,10 @@ impl Core {
         lock!(self).buffers.insert(name.to_owned(), buffer);
     }
 
-    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
-        let buffer = Buffer::new_file(filename);
+    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> io::Result<()> {
+        let buffer = Buffer::open_file(filename)?;
         lock!(self).buffers.insert(buffer_name.to_owned(), buffer);
+        Ok(())
     }
 
     pub fn add_view(&mut self, view: View) {
@@ -413,7 +416,11 @@ impl Core {
         }
     }
 
-    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) {
+    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) -> Result<(), Error> {
+        let file_error = |error| Error::FileNotRead {
+            name: name.to_owned(),
+            error,
+        };
         // TODO check for same file but different name
         let exists = self.buffer_exists(name);
         let notify_change = if scratch {
@@ -422,7 +429,12 @@ impl Core {
             }
             false
         } else if exists {
-            let reloaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
+            let reloaded = lock!(self)
+                .buffers
+                .get_mut(name)
+                .unwrap()
+                .load_from_disk()
+                .map_err(file_error)?;
             if reloaded {
                 self.debug(&format!("reloaded from disk: {}", name));
             }
@@ -433,7 +445,7 @@ impl Core {
                 absolute.push(name);
                 absolute
             };
-            self.open_file(name, &path);
+            self.open_file(name, &path).map_err(file_error)?;
             true
         };
 
@@ -451,6 +463,7 @@ impl Core {
                 .collect();
             self.notify_view_update(client_ids);
         }
+        Ok(())
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
@@ -708,15 +721,15 @@ impl rlua::UserData for Core {
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
-                this.edit(client, &name, true);
-                Ok(())
+                this.edit(client, &name, true)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
-                this.edit(client, &name, scratch);
-                Ok(())
+                this.edit(client, &name, scratch)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut("append_to", |_, this, (buffer, text): (String, String)| {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index d8725f6..a41b35f 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -244,8 +244,9 @@ impl Editor {
         client_id: usize,
         params: &<requests::Edit as requests::Request>::Params,
     ) -> Result<<requests::Edit as requests::Request>::Result, Error> {
-        self.core.edit(client_id, &params.name, params.scratch);
-        Ok(())
+        self.core
+            .edit(client_id, &params.name, params.scratch)
+            .map_err(|e| Error::invalid_request(&e.to_string()))
     }
 
     pub fn command_quit(
-- 
2.43.0


From 176524e2e25910059f9c4c6dc750ca929c4613ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 09/50] fix: bound the memory needed to compare texts

---
 core/src/editor/diff.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index 4e5c4af..6eef352 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -1,5 +1,8 @@
 use std::cmp::max;
 
+// bigger differences are handled as a whole: the table of common lengths is quadratic
+const MAX_LCS_CELLS: usize = 1 << 24;
+
 #[derive(Debug, PartialEq)]
 pub enum Diff {
     Left(usize),
@@ -91,7 +94,11 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
 
     let l = &cleft[start..cleft.len() - end];
     let r = &cright[start..cright.len() - end];
-    let lcs = find_lcs(l, r);
+    let lcs = if l.len().saturating_mul(r.len()) > MAX_LCS_CELLS {
+        Vec::new()
+    } else {
+        find_lcs(l, r)
+    };
     let mut i = 0;
     let mut j = 0;
     let mut len;
-- 
2.43.0


From e40e6316e45acb3c33d9026516082c957d533a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 10/50] fix: extend a selection to the end of its last
 character

---
 core/src/editor/buffer.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index 2a596b2..e44450b 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -159,16 +159,11 @@ impl Buffer {
     }
 
     pub fn selection_range(&self, sel: &Selection) -> Range<usize> {
-        let end_offset = if sel.end() == self.content.max_offset() {
-            sel.end() + 1
-        } else {
-            self.content
-                .navigate(self.content.offset_to_coord(sel.end()))
-                .unwrap()
-                .next()
-                .pos()
-                .offset
-        };
+        let length = self
+            .content
+            .char_at_offset(sel.end())
+            .map_or(1, |c| c.len());
+        let end_offset = sel.end() + length;
         sel.begin()..end_offset
     }
 }
-- 
2.43.0


From 7752597d7898887242e67dbba35e6f0eb64261f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 11/50] fix: highlight selections by characters, in line ranges
 too

---
 core/src/editor/view.rs | 79 ++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 56 deletions(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 17dd5bc..ba8619d 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -5,6 +5,7 @@ use std::ops::Range;
 
 use crate::editor::selection::Selection;
 use crate::editor::Buffer;
+use bstr::ByteSlice;
 use ornament::Decorator;
 use remote::protocol::{
     notifications::{ViewParams, ViewParamsItem, ViewParamsLens},
@@ -192,47 +193,14 @@ impl View {
                     if let Some(ss) = sels {
                         for s in ss {
                             let start = buffer.content.offset_to_coord(s.begin()).unwrap();
-                            let end = {
-                                if s.end() == buffer.content.max_offset() {
-                                    let mut end = buffer.content.offset_to_coord(s.end()).unwrap();
-                                    end.c += 1;
-                                    end
-                                } else {
-                                    buffer
-                                        .content
-                                        .navigate(buffer.content.offset_to_coord(s.end()))
-                                        .unwrap()
-                                        .next()
-                                        .pos()
-                                        .coords
-                                }
-                            };
-                            if start.l == end.l {
-                                let range = (Some(start.c - 1), Some(end.c - 1));
-                                selected
-                                    .entry(start.l - 1)
-                                    .and_modify(|e| e.push(range))
-                                    .or_insert_with(|| vec![range]);
-                            } else if start.l == end.l - 1 && end.c == 1 {
-                                let range = (Some(start.c - 1), None);
+                            let last = buffer.content.offset_to_coord(s.end()).unwrap();
+                            for i in start.l..=last.l {
+                                let from = if i == start.l { start.c - 1 } else { 0 };
+                                let to = if i == last.l { Some(last.c) } else { None };
                                 selected
-                                    .entry(start.l - 1)
-                                    .and_modify(|e| e.push(range))
-                                    .or_insert_with(|| vec![range]);
-                            } else {
-                                for i in start.l..=end.l {
-                                    let range = if i == start.l {
-                                        (Some(start.c - 1), None)
-                                    } else if i == end.l {
-                                        (None, Some(end.c - 1))
-                                    } else {
-                                        (None, None)
-                                    };
-                                    selected
-                                        .entry(i - 1)
-                                        .and_modify(|e| e.push(range))
-                                        .or_insert_with(|| vec![range]);
-                                }
+                                    .entry(i - 1)
+                                    .or_insert_with(Vec::new)
+                                    .push((from, to));
                             }
                         }
                     }
@@ -243,22 +211,21 @@ impl View {
                         .map(|(i, line)| {
                             let l = line.to_owned() + " ";
                             let mut deco = Decorator::with_text(&l);
-                            if let Some(ranges) = selected.get(&i) {
-                                for range in ranges {
-                                    match *range {
-                                        (Some(start), Some(end)) => {
-                                            deco.set(Face::Selection, start..end);
-                                        }
-                                        (Some(start), None) => {
-                                            deco.set(Face::Selection, start..l.len());
-                                        }
-                                        (None, Some(end)) => {
-                                            deco.set(Face::Selection, 0..end);
-                                        }
-                                        (None, None) => {
-                                            deco.set(Face::Selection, 0..l.len());
-                                        }
-                                    }
+                            if let Some(ranges) = selected.get(&(lens.focus.start() + i)) {
+                                // columns are characters, the last one being the trailing blank
+                                let mut bounds: Vec<_> = line
+                                    .as_bytes()
+                                    .grapheme_indices()
+                                    .map(|(i, _, _)| i)
+                                    .collect();
+                                bounds.push(line.len());
+                                for (from, to) in ranges {
+                                    let start = *bounds.get(*from).unwrap_or(&line.len());
+                                    let end = to
+                                        .and_then(|c| bounds.get(c))
+                                        .unwrap_or(&l.len())
+                                        .to_owned();
+                                    deco.set(Face::Selection, start..end);
                                 }
                             }
                             deco.build()
-- 
2.43.0


From 751297ade822c68e21f9e835f0d492b41e824599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 12/50] fix: find the shortest unambiguous name of any path

---
 core/src/editor/buffer.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index e44450b..412d7a0 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -11,20 +11,23 @@ use crate::editor::view::Focus;
 use crate::editor::PieceTable;
 
 fn find_uniq_name(path: &Path, acc: &str, path_set: &[PathBuf]) -> String {
-    let head = path.parent().unwrap();
-    let tail = path.file_name().unwrap();
-    let matches = path_set
+    let (head, tail) = match (path.parent(), path.file_name()) {
+        (Some(head), Some(tail)) => (head, tail),
+        // every component is shared: only the whole path is unambiguous
+        _ => return path.join(acc).display().to_string(),
+    };
+    let matches: Vec<_> = path_set
         .iter()
-        .filter(|x| x.file_name().map_or(false, |x| x.to_str().unwrap() == tail))
-        .count();
-    let mut new_acc = tail.to_str().unwrap().to_owned();
+        .filter(|x| x.file_name() == Some(tail))
+        .collect();
+    let mut new_acc = tail.to_string_lossy().into_owned();
     if !acc.is_empty() {
         new_acc.push('/');
         new_acc.push_str(acc);
     }
-    if matches > 1 {
+    if matches.len() > 1 {
         let mut new_path_set: Vec<PathBuf> = Vec::new();
-        for pb in path_set {
+        for pb in matches {
             let mut new_pb = PathBuf::from(pb);
             if new_pb.pop() {
                 new_path_set.push(new_pb);
-- 
2.43.0


From 296b34c13e8ab9a1c6fd5efaeae9b04afdd38623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 13/50] fix: give the first client selections in every view

---
 core/src/editor/core.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 3e1ba10..728d2e5 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -299,15 +299,16 @@ impl Core {
             } else {
                 let latest_view = state.views.latest_value().unwrap();
                 let mut selections = HashMap::new();
-                selections.insert(
-                    latest_view.borrow().key(),
-                    latest_view
-                        .borrow()
-                        .buffers()
-                        .iter()
-                        .map(|&b| (b.clone(), vec![Selection::new()]))
-                        .collect(),
-                );
+                for view in state.views.values() {
+                    selections.insert(
+                        view.borrow().key(),
+                        view.borrow()
+                            .buffers()
+                            .iter()
+                            .map(|&b| (b.clone(), vec![Selection::new()]))
+                            .collect(),
+                    );
+                }
                 ClientContext {
                     view: Rc::clone(latest_view),
                     selections,
-- 
2.43.0


From c45b10bed286b935c8148871b7e3d57eadf5d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 14/50] fix: delete views and their buffers before showing or
 logging anything

---
 core/src/editor/core.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 728d2e5..8f9e9e1 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -360,31 +360,31 @@ impl Core {
             });
         }
 
-        let view = lock!(self).views.remove(&view_id.to_owned()).unwrap();
-        self.debug(&format!("delete view: {}", view_id));
-        for (_id, context) in lock!(self).clients.iter_mut() {
-            context.selections.remove(view_id);
-        }
-        for buffer in view.borrow().buffers() {
-            let mut has_ref = false;
-            for view in lock!(self).views.values() {
-                if view.borrow().buffers().iter().any(|&b| b == buffer) {
-                    has_ref = true;
-                    break;
+        let mut to_notify = Vec::new();
+        let mut orphans = Vec::new();
+        {
+            let mut state = lock!(self);
+            let view = state.views.remove(&view_id.to_owned()).unwrap();
+            for buffer in view.borrow().buffers() {
+                let has_ref = state
+                    .views
+                    .values()
+                    .any(|view| view.borrow().contains_buffer(buffer));
+                if !has_ref {
+                    state.buffers.remove(buffer);
+                    orphans.push(buffer.to_owned());
                 }
             }
-            if !has_ref {
-                lock!(self).buffers.remove(&buffer.to_owned());
-                self.debug(&format!("delete buffer: {}", buffer));
+            for (_id, context) in state.clients.iter_mut() {
+                context.selections.remove(view_id);
             }
         }
         if lock!(self).views.is_empty() {
-            if lock!(self).buffers.is_empty() {
+            if !self.buffer_exists(BUFFER_SCRATCH) {
                 self.open_scratch(BUFFER_SCRATCH, String::new());
             }
             self.add_view(View::for_buffer(BUFFER_SCRATCH));
         }
-        let mut to_notify = Vec::new();
         let latest_view = Rc::clone(lock!(self).views.latest_value().expect("get latest view"));
         for (id, context) in lock!(self).clients.iter_mut() {
             if context.view.borrow().key() == *view_id {
@@ -392,6 +392,10 @@ impl Core {
                 to_notify.push(*id);
             }
         }
+        self.debug(&format!("delete view: {}", view_id));
+        for buffer in orphans {
+            self.debug(&format!("delete buffer: {}", buffer));
+        }
         self.notify_view_update(to_notify);
         Ok(())
     }
-- 
2.43.0


From bff967ebac302ccb4c7fda670234cce2672fc674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 15/50] fix: register the view created to show a buffer

---
 core/src/editor/core.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 8f9e9e1..7b18dfa 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -481,16 +481,12 @@ impl Core {
             self.notify_view_update(vec![client_id]);
             Ok(())
         } else if self.buffer_exists(view_id) {
-            {
-                let mut state = lock!(self);
-                let view = Rc::new(RefCell::new(View::for_buffer(view_id)));
-                let key = view.borrow().key();
-                let context = state.clients.get_mut(&client_id).unwrap();
-                context.view = Rc::clone(&view);
-                state.views.entry(key).or_insert(view);
+            let view = View::for_buffer(view_id);
+            let key = view.key();
+            if !self.view_exists(&key) {
+                self.add_view(view);
             }
-            self.notify_view_update(vec![client_id]);
-            Ok(())
+            self.view(client_id, &key)
         } else {
             Err(Error::ViewNotFound {
                 view_id: view_id.to_owned(),
-- 
2.43.0


From 59a2ee751fe7a0024a1433eda359b194ee286150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 16/50] fix: forget selections of a buffer removed from a view

---
 core/src/editor/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 7b18dfa..68638df 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -411,7 +411,8 @@ impl Core {
         if old_key != new_key {
             if !new_view.is_empty() {
                 for (_id, context) in lock!(self).clients.iter_mut() {
-                    if let Some(old_sels) = context.selections.remove(&old_key) {
+                    if let Some(mut old_sels) = context.selections.remove(&old_key) {
+                        old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
                         context.selections.insert(new_key.clone(), old_sels);
                     }
                 }
-- 
2.43.0


From a498c3702c1b205e6f861b14dcaa9d46e8e9f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 17/50] fix: keep all selections valid and all clients notified
 when a buffer changes

---
 core/src/editor/core.rs      | 58 +++++++++++++++++++++++-------------
 core/src/editor/selection.rs | 17 +++--------
 2 files changed, 41 insertions(+), 34 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 68638df..1934e4f 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -327,7 +327,9 @@ impl Core {
 
     pub fn open_scratch(&mut self, name: &str, content: String) {
         let buffer = Buffer::new_scratch(name.to_owned(), content);
-        lock!(self).buffers.insert(name.to_owned(), buffer);
+        let mut state = lock!(self);
+        state.buffers.insert(name.to_owned(), buffer);
+        Self::clamp_selections(&mut state, name);
     }
 
     pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> io::Result<()> {
@@ -442,6 +444,7 @@ impl Core {
                 .load_from_disk()
                 .map_err(file_error)?;
             if reloaded {
+                Self::clamp_selections(&mut lock!(self), name);
                 self.debug(&format!("reloaded from disk: {}", name));
             }
             reloaded
@@ -582,25 +585,33 @@ impl Core {
         }
     }
 
-    fn clamp_selections(state: &mut MutexGuard<CoreState>, client_id: usize, bufname: &str) {
-        let max_offset = state.buffers[bufname].content.max_offset();
-        let ctx = state.clients.get_mut(&client_id).unwrap();
-        let view_key = ctx.view.borrow().key();
-        ctx.selections
-            .get_mut(&view_key)
-            .unwrap()
-            .get_mut(bufname)
-            .unwrap()
-            .iter_mut()
-            .for_each(|s| {
-                s.clamp_to(max_offset);
-            });
+    /// Moves the selections of all the clients back to existing characters of a modified buffer.
+    fn clamp_selections(state: &mut MutexGuard<CoreState>, bufname: &str) {
+        let CoreState {
+            buffers, clients, ..
+        } = &mut **state;
+        let content = &buffers[bufname].content;
+        let max_offset = content.max_offset();
+        for (_id, context) in clients.iter_mut() {
+            for sels in context.selections.values_mut() {
+                for s in sels.get_mut(bufname).into_iter().flatten() {
+                    s.clamp_to(max_offset);
+                    if let Some(coords) = content.offset_to_coord(s.anchor) {
+                        s.anchor = content.coord_to_offset(coords).unwrap_or(s.anchor);
+                    }
+                    if let Some(coords) = content.offset_to_coord(s.cursor) {
+                        s.cursor = content.coord_to_offset(coords).unwrap_or(s.cursor);
+                        s.target_col = coords.c;
+                    }
+                }
+            }
+        }
     }
 
     pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
         let mut deleted = Vec::new();
+        let mut modified_buffers = HashSet::new();
         {
-            let mut modified_buffers = HashSet::new();
             let mut state = lock!(self);
             let ctx = &state.clients[&client_id];
             let view_key = ctx.view.borrow().key();
@@ -624,13 +635,15 @@ impl Core {
             }
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
             // XXX in 2021 edition it should be possible to handle both operations in one pass
-            for bufname in modified_buffers {
-                Self::clamp_selections(&mut state, client_id, &bufname);
+            for bufname in &modified_buffers {
+                Self::clamp_selections(&mut state, bufname);
             }
         }
-        if !deleted.is_empty() {
-            self.notify_view_update(vec![client_id]);
-        }
+        let to_notify: HashSet<_> = modified_buffers
+            .iter()
+            .flat_map(|bufname| self.clients_with_buffer(bufname))
+            .collect();
+        self.notify_view_update(to_notify.into_iter().collect());
         deleted
     }
 }
@@ -724,7 +737,10 @@ impl rlua::UserData for Core {
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
-                    .map_err(rlua::Error::external)
+                    .map_err(rlua::Error::external)?;
+                let others = this.clients_with_buffer(&name);
+                this.notify_view_update(others.into_iter().filter(|&id| id != client).collect());
+                Ok(())
             },
         );
         methods.add_method_mut(
diff --git a/core/src/editor/selection.rs b/core/src/editor/selection.rs
index b8f76ba..336979e 100644
--- a/core/src/editor/selection.rs
+++ b/core/src/editor/selection.rs
@@ -37,18 +37,9 @@ impl Selection {
     }
 
     pub fn clamp_to(&mut self, n: usize) -> usize {
-        if n <= self.end() {
-            let delta;
-            if self.anchor < self.cursor {
-                delta = self.cursor - n;
-                self.cursor = n;
-            } else {
-                delta = self.anchor - n;
-                self.anchor = n;
-            }
-            delta
-        } else {
-            0
-        }
+        let delta = self.end().saturating_sub(n);
+        self.anchor = self.anchor.min(n);
+        self.cursor = self.cursor.min(n);
+        delta
     }
 }
-- 
2.43.0


From e8fad87fa5bf647482a315b092a1cf771f131d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 18/50] fix: refuse requests and script calls for clients that
 are not connected

---
 core/src/editor/core.rs | 22 ++++++++++++++++++++++
 core/src/editor/mod.rs  |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 1934e4f..6fef6fb 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    ClientNotFound { id: usize },
     FileNotRead { name: String, error: io::Error },
     ViewNotFound { view_id: String },
 }
@@ -126,6 +127,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            ClientNotFound { id } => write!(f, "client not found: {}", id),
             FileNotRead { name, error } => write!(f, "could not read file: {}: {}", name, error),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
@@ -183,6 +185,14 @@ impl Core {
         lock!(self).buffers.contains_key(name)
     }
 
+    pub fn check_client(&self, id: usize) -> Result<(), Error> {
+        if lock!(self).clients.contains_key(&id) {
+            Ok(())
+        } else {
+            Err(Error::ClientNotFound { id })
+        }
+    }
+
     pub fn buffers(&self) -> Vec<String> {
         lock!(self).buffers.keys().map(String::to_owned).collect()
     }
@@ -700,6 +710,7 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method("get_context", |lua, this, client: usize| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             let context = lock!(this).clients[&client].clone();
             let view_key = context.view.borrow().key();
             let sels = &context.selections[&view_key];
@@ -735,6 +746,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
+                this.check_client(client).map_err(rlua::Error::external)?;
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
                     .map_err(rlua::Error::external)?;
@@ -746,6 +758,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
+                this.check_client(client).map_err(rlua::Error::external)?;
                 this.edit(client, &name, scratch)
                     .map_err(rlua::Error::external)
             },
@@ -756,38 +769,47 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method_mut("move_left", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Left, extend);
             Ok(())
         });
         methods.add_method_mut("move_right", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Right, extend);
             Ok(())
         });
         methods.add_method_mut("move_up", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Up, extend);
             Ok(())
         });
         methods.add_method_mut("move_down", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Down, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_line_begin", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::LineBegin, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_line_end", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::LineEnd, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_begin", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Begin, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_end", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::End, extend);
             Ok(())
         });
         methods.add_method_mut("delete_selection", |_, this, client| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             let deleted = this.delete_selection(client);
             Ok(deleted)
         });
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index a41b35f..d9c03d5 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -217,6 +217,9 @@ impl Editor {
             }
         };
         log::trace!("<- ({}) {}", client_id, msg);
+        if let Err(e) = self.core.check_client(client_id) {
+            return Ok(Response::invalid_request(msg.id, &e.to_string()));
+        }
         match msg.method.as_str() {
             "edit" => response!(msg, |params| self.command_edit(client_id, params)),
             "quit" => Response::new(msg.id.clone(), self.command_quit(client_id)),
-- 
2.43.0


From f19f89f655341a4128d888167f21df21970d52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 19/50] fix: search menu entries for the very characters typed

---
 core/src/editor/menu.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index 8beb8b3..2c2ba50 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -3,7 +3,7 @@ use std::fmt;
 use std::ops::Deref;
 
 use crate::editor::{Editor, EditorInfo};
-use regex::{CaptureLocations, Regex};
+use regex::{CaptureLocations, Regex, RegexBuilder};
 use remote::jsonrpc;
 use remote::protocol::{
     notifications::{MenuParams, MenuParamsEntry},
@@ -150,10 +150,14 @@ impl MenuFilter {
         let elements: Vec<String> = self
             .search
             .split_whitespace()
-            .map(|e| format!("({})", e))
+            .map(|e| format!("({})", regex::escape(e)))
             .collect();
-        let raw_re = format!("(?i){}", elements.join(".*"));
-        Regex::new(&raw_re).unwrap()
+        RegexBuilder::new(&elements.join(".*"))
+            .case_insensitive(true)
+            .dot_matches_new_line(true)
+            .size_limit(usize::MAX)
+            .build()
+            .unwrap()
     }
 
     pub fn filter<T>(&self, items: &[T]) -> Candidates<T>
-- 
2.43.0


From 1ef36380aab53804825ee19de477309162cc08c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 20/50] fix: pass any session name to scripts

---
 core/src/editor/mod.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index d9c03d5..d8ed0bb 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -157,17 +157,10 @@ impl Editor {
     {
         self.lua
             .context(|context| {
-                let env_source = format!(
-                    r#"
-                    env = {{
-                        session = "{session}",
-                        client = "{client}",
-                    }}
-                    "#,
-                    session = self.session_name,
-                    client = client_id,
-                );
-                context.load(&env_source).exec()?;
+                let env = context.create_table()?;
+                env.set("session", self.session_name.as_str())?;
+                env.set("client", client_id.to_string())?;
+                context.globals().set("env", env)?;
                 f(context)
             })
             .map_err(|e| {
-- 
2.43.0


From 488b794595f68cfff14e180625ea4ffbf7d876d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 21/50] fix: read back responses whose result is null

---
 remote/src/jsonrpc.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/remote/src/jsonrpc.rs b/remote/src/jsonrpc.rs
index acc5fe7..ddd76ef 100644
--- a/remote/src/jsonrpc.rs
+++ b/remote/src/jsonrpc.rs
@@ -2,7 +2,7 @@ use std::fmt;
 use std::str::FromStr;
 
 use serde::de::DeserializeOwned;
-use serde::Serialize;
+use serde::{Deserialize, Deserializer, Serialize};
 use serde_json::{from_value, to_string, to_value, Value};
 
 pub type JsonCodingError = serde_json::Error;
@@ -198,11 +198,23 @@ impl fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+// keep a null value apart from an absent one
+fn present<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Serialize, Deserialize)]
 pub struct Response {
     jsonrpc: String,
     pub id: Id,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "present",
+        skip_serializing_if = "Option::is_none"
+    )]
     result: Option<Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     error: Option<Error>,
@@ -227,9 +239,10 @@ impl Response {
     where
         T: DeserializeOwned,
     {
-        Ok(match self.result {
-            Some(ref result) => Ok(from_value(result.clone())?),
-            None => Err(self.error.clone().unwrap()),
+        Ok(match (&self.result, &self.error) {
+            (_, Some(error)) => Err(error.clone()),
+            (Some(result), None) => Ok(from_value(result.clone())?),
+            (None, None) => Ok(from_value(Value::Null)?),
         })
     }
 
-- 
2.43.0


From 4ca25af511c9685fc0a672c9063cf9196db11708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 22/50] fix: parse the names of all the named keys

---
 remote/src/keys.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/remote/src/keys.rs b/remote/src/keys.rs
index d676d25..5f9f330 100644
--- a/remote/src/keys.rs
+++ b/remote/src/keys.rs
@@ -53,7 +53,14 @@ impl FromStr for Key {
         }
 
         match s {
+            "bkspc" => Ok(Key::Backspace),
+            "ret" => Ok(Key::Enter),
             "esc" => Ok(Key::Escape),
+
+            "up" => Ok(Key::Up),
+            "down" => Ok(Key::Down),
+            "left" => Ok(Key::Left),
+            "right" => Ok(Key::Right),
             _ => Err(ParseKeyError {
                 raw_source: s.to_owned(),
             }),
-- 
2.43.0


From 644830960669462d9663f8d87d39fca874d74d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 23/50] fix: accept any IPv4 address and any name as a session
 name

---
 remote/src/session.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 73285fb..41b6b5f 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -9,7 +9,7 @@ use regex::Regex;
 
 lazy_static! {
     static ref RE_ADDR: Regex =
-        Regex::new(r"^@(?P<address>\w+|\d+\.\d\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
+        Regex::new(r"^@(?P<address>\d+\.\d+\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
 }
 
 #[cfg(unix)]
@@ -24,8 +24,14 @@ pub enum ConnectionMode {
 }
 
 impl ConnectionMode {
-    fn is_tcp(s: &str) -> bool {
-        RE_ADDR.is_match(s)
+    fn tcp_address(s: &str) -> Option<SocketAddr> {
+        let caps = RE_ADDR.captures(s)?;
+        let address = caps
+            .name("address")
+            .map(|m| m.as_str())
+            .unwrap_or("127.0.0.1");
+        let port = caps.name("port")?.as_str();
+        format!("{}:{}", address, port).parse().ok()
     }
 }
 
@@ -33,7 +39,10 @@ impl fmt::Display for ConnectionMode {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         use self::ConnectionMode::*;
         match self {
-            Socket(path) => write!(f, "{}", path.file_name().unwrap().to_str().unwrap()),
+            Socket(path) => {
+                let name = path.file_name().unwrap_or_else(|| path.as_os_str());
+                write!(f, "{}", name.to_string_lossy())
+            }
             Tcp(addr) => write!(f, "@{}", addr),
         }
     }
@@ -44,18 +53,9 @@ impl FromStr for ConnectionMode {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use self::ConnectionMode::*;
-        if let Some(caps) = RE_ADDR.captures(s) {
-            let address = caps
-                .name("address")
-                .map(|m| m.as_str())
-                .unwrap_or("127.0.0.1");
-            let port = caps.name("port").unwrap().as_str();
-            let sock_addr = format!("{}:{}", address, port)
-                .parse()
-                .expect("invalid address");
-            Ok(Tcp(sock_addr))
-        } else {
-            Ok(Socket(s.into()))
+        match Self::tcp_address(s) {
+            Some(sock_addr) => Ok(Tcp(sock_addr)),
+            None => Ok(Socket(s.into())),
         }
     }
 }
@@ -73,7 +73,7 @@ impl Session {
     }
 
     pub fn from_name(name: &str) -> Session {
-        let session_name = if ConnectionMode::is_tcp(name) {
+        let session_name = if ConnectionMode::tcp_address(name).is_some() {
             name.to_owned()
         } else {
             let mut session_path = Self::build_root();
-- 
2.43.0


From 90fc9e9ce8e6a18fe9308c505cf9b6487965298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 24/50] fix: handle menus without any entry on the client side

---
 remote/src/connection.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 5c04872..96755cd 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -22,7 +22,7 @@ pub struct Menu {
 
 impl Menu {
     fn select_next(&mut self) {
-        if self.selected < self.entries.len() - 1 {
+        if self.selected + 1 < self.entries.len() {
             self.selected += 1;
         }
     }
@@ -33,8 +33,8 @@ impl Menu {
         }
     }
 
-    fn selected_item(&self) -> &str {
-        &self.entries[self.selected].value
+    fn selected_item(&self) -> Option<&str> {
+        self.entries.get(self.selected).map(|e| e.value.as_str())
     }
 }
 
@@ -197,7 +197,13 @@ impl Connection {
 
     pub fn menu_select(&mut self) {
         if let Some(menu) = self.state().menu {
-            let selected = menu.selected_item();
+            let selected = match menu.selected_item() {
+                Some(item) => item,
+                None => {
+                    log::warn!("menu_select without entry");
+                    return;
+                }
+            };
             let id = self.request_id();
             let choice = if selected.is_empty() {
                 &menu.search
-- 
2.43.0


From 7f18d832c7b044896d940ce23bec3682d7808738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 25/50] fix: report unreadable lines from the server as errors

---
 remote/src/client.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/remote/src/client.rs b/remote/src/client.rs
index e19bb31..158eef2 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -37,8 +37,7 @@ impl Client {
         };
         fn parse_line(x: io::Result<String>) -> Result<ClientEvent, JsonCodingError> {
             log::trace!("polled a new client event");
-            // TODO handle io::Error (eg: closed connection)
-            x.expect("parse line").parse()
+            x.map_err(serde::de::Error::custom)?.parse()
         }
         Ok((
             io::BufReader::new(stream).lines().map(parse_line),
-- 
2.43.0


From 6be5f7ee7e8ee5aa5534aacd205bd16fef141404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 26/50] fix: keep the server running whatever a leaving client
 does

---
 core/src/server.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 6da977e..c69df67 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -106,20 +106,24 @@ impl Server {
                 }
                 Event::Leave(client_id) => {
                     editor.remove_client(client_id);
+                    // already removed when the client did quit before
                     clients
                         .write()
                         .expect("lock client index")
-                        .remove(&client_id)
-                        .expect("remove client from index");
+                        .remove(&client_id);
                     log::info!("client {}: connection closed", client_id);
                     is_leave_event = true;
                 }
                 Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
                     Ok(message) => {
                         let mut index = clients.write().expect("lock client index");
-                        let stream = index.get_mut(&client_id).unwrap();
-                        Self::write_client(client_id, stream, &message)
-                            .expect("send response to client");
+                        if let Some(stream) = index.get_mut(&client_id) {
+                            Self::write_client(client_id, stream, &message).unwrap_or_else(|e| {
+                                log::error!("send response to client {}: {}", client_id, e)
+                            });
+                        } else {
+                            log::warn!("request of client {} after it quit", client_id);
+                        }
                     }
                     Err(e) => log::error!("{}: {:?}", e, raw),
                 },
@@ -128,8 +132,7 @@ impl Server {
                 clients
                     .write()
                     .expect("lock client index")
-                    .remove(&client_id)
-                    .expect("remove client from index");
+                    .remove(&client_id);
                 log::info!("client {}: quit", client_id);
             }
             if clients.read().expect("lock client index").len() == 0 && is_leave_event {
-- 
2.43.0


From 5a08daafa1ee4abfa5c3ff7db78b79c08f2d28da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 27/50] fix: refuse arrays as JSON-RPC messages

---
 remote/src/jsonrpc.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/remote/src/jsonrpc.rs b/remote/src/jsonrpc.rs
index ddd76ef..756c48e 100644
--- a/remote/src/jsonrpc.rs
+++ b/remote/src/jsonrpc.rs
@@ -15,6 +15,19 @@ pub enum Id {
     Null,
 }
 
+// an array holding the fields in the right order is not a message
+fn parse_object<T>(s: &str) -> Result<T, JsonCodingError>
+where
+    T: DeserializeOwned,
+{
+    let message = serde_json::from_str(s)?;
+    if s.trim_start().starts_with('{') {
+        Ok(message)
+    } else {
+        Err(serde::de::Error::custom("not a JSON object"))
+    }
+}
+
 #[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct Request {
     jsonrpc: String,
@@ -58,7 +71,7 @@ impl FromStr for Request {
     type Err = JsonCodingError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        serde_json::from_str(s)
+        parse_object(s)
     }
 }
 
@@ -110,7 +123,7 @@ impl FromStr for Notification {
     type Err = JsonCodingError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        serde_json::from_str(s)
+        parse_object(s)
     }
 }
 
@@ -311,7 +324,7 @@ impl FromStr for Response {
     type Err = JsonCodingError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        serde_json::from_str(s)
+        parse_object(s)
     }
 }
 
@@ -345,7 +358,7 @@ impl FromStr for ClientEvent {
     type Err = JsonCodingError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        serde_json::from_str(s)
+        parse_object(s)
     }
 }
 
-- 
2.43.0


From 10477003308ce0eca01f3b04472a723671023091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 28/50] fix: show a new client its current view

---
 core/src/editor/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 6fef6fb..4a940f1 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -328,6 +328,7 @@ impl Core {
         }
         self.debug(&format!("new client: {}", id));
         self.notifier.info_update(id, info);
+        self.notify_view_update(vec![id]);
     }
 
     pub fn remove_client(&mut self, id: usize) {
-- 
2.43.0


From 84e68bdd7a06edb9f4d2ed4ef2bdfcf08b1fce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 29/50] fix: keep the selections of the clients already showing
 a view

---
 core/src/editor/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 4a940f1..5c94d40 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -426,7 +426,10 @@ impl Core {
                 for (_id, context) in lock!(self).clients.iter_mut() {
                     if let Some(mut old_sels) = context.selections.remove(&old_key) {
                         old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
-                        context.selections.insert(new_key.clone(), old_sels);
+                        context
+                            .selections
+                            .entry(new_key.clone())
+                            .or_insert(old_sels);
                     }
                 }
                 self.add_view(new_view);
-- 
2.43.0


From 8228ac3fb63ac13d93b3947ffbf4da3e86f3e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 30/50] fix: survive connections reset in the middle of a line

---
 core/src/server.rs   | 12 +++++-------
 remote/src/client.rs | 13 ++++++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index c69df67..1ef90b7 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -146,15 +146,13 @@ impl Server {
         stream: ServerStream,
         sender: Sender<Event>,
     ) -> io::Result<()> {
-        let mut lines = io::BufReader::new(stream).lines();
-        while let Some(line) = lines.next().await {
-            if line.is_err() {
-                // connection reset
-                break;
-            }
+        let mut lines = io::BufReader::new(stream).split(b'\n');
+        // an error is a reset connection
+        while let Some(Ok(bytes)) = lines.next().await {
+            let line = String::from_utf8_lossy(&bytes).into_owned();
             log::trace!("read event for {}: {:?}", client_id, line);
             sender
-                .send(Event::Message((client_id, line.unwrap())))
+                .send(Event::Message((client_id, line)))
                 .await
                 .unwrap_or_else(|e| log::error!("{}", e));
         }
diff --git a/remote/src/client.rs b/remote/src/client.rs
index 158eef2..1080c4c 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -7,8 +7,8 @@ use futures_lite::*;
 pub type ClientEventResult = Result<ClientEvent, JsonCodingError>;
 
 pub type ClientEventStream = stream::Map<
-    io::Lines<io::BufReader<ServerStream>>,
-    fn(io::Result<String>) -> ClientEventResult,
+    io::Split<io::BufReader<ServerStream>>,
+    fn(io::Result<Vec<u8>>) -> ClientEventResult,
 >;
 
 pub struct Client {
@@ -35,12 +35,15 @@ impl Client {
                 let _ = writer.write_all(format!("{}\n", message).as_bytes()).await;
             }
         };
-        fn parse_line(x: io::Result<String>) -> Result<ClientEvent, JsonCodingError> {
+        fn parse_line(x: io::Result<Vec<u8>>) -> Result<ClientEvent, JsonCodingError> {
             log::trace!("polled a new client event");
-            x.map_err(serde::de::Error::custom)?.parse()
+            let bytes = x.map_err(serde::de::Error::custom)?;
+            String::from_utf8(bytes)
+                .map_err(serde::de::Error::custom)?
+                .parse()
         }
         Ok((
-            io::BufReader::new(stream).lines().map(parse_line),
+            io::BufReader::new(stream).split(b'\n').map(parse_line),
             request_loop,
         ))
     }
-- 
2.43.0


From df7ccbd1b46a2ae95e7a850a59dc8aaf4dbc3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 31/50] fix: print every notification of the standalone mode

---
 core/src/clients.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index fff920c..dd2c4d3 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -14,6 +14,15 @@ pub fn start_standalone(filenames: &[&str]) {
     let (tx, rx) = bounded(100);
     let mut editor = Editor::new("", tx);
 
+    // before anything is sent: a full channel blocks the editor
+    let printer = thread::spawn(move || {
+        while let Ok(bm) = future::block_on(rx.recv()) {
+            if bm.should_notify(CLIENT_ID) {
+                println!("{}", &bm.message);
+            }
+        }
+    });
+
     editor.add_client(CLIENT_ID);
     for fname in filenames {
         let params = EditParams {
@@ -24,13 +33,6 @@ pub fn start_standalone(filenames: &[&str]) {
             .command_edit(CLIENT_ID, &params)
             .map_err(|err| log::error!("could not open file '{}': {}", fname, err));
     }
-    thread::spawn(move || loop {
-        if let Ok(bm) = future::block_on(rx.recv()) {
-            if bm.should_notify(CLIENT_ID) {
-                println!("{}", &bm.message);
-            }
-        }
-    });
 
     let stdin = std::io::stdin();
     for maybe_line in stdin.lock().lines() {
@@ -44,6 +46,10 @@ pub fn start_standalone(filenames: &[&str]) {
     }
 
     editor.remove_client(CLIENT_ID);
+
+    // close the channel, then wait for what it still holds to be printed
+    drop(editor);
+    let _ = printer.join();
 }
 
 pub struct StdioClient {
-- 
2.43.0


From d753ce8260f63b29a90b8f94479786c2a7f60cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 32/50] fix: stop reading requests from an unreadable standard
 input

---
 core/src/clients.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index dd2c4d3..8d54b39 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -41,7 +41,13 @@ pub fn start_standalone(filenames: &[&str]) {
                 Ok(response) => println!("{}", &response),
                 Err(e) => eprintln!("{}: {:?}", e, line),
             },
-            Err(e) => eprintln!("failed to read line: {}", e),
+            Err(e) => {
+                eprintln!("failed to read line: {}", e);
+                // anything else than a line which is no text happens again
+                if e.kind() != io::ErrorKind::InvalidData {
+                    break;
+                }
+            }
         }
     }
 
@@ -77,7 +83,12 @@ impl StdioClient {
                             Ok(msg) => requests_tx.send(msg).await.expect("send request"),
                             Err(e) => log::error!("invalid message: {}: {}", e, line),
                         },
-                        Err(e) => log::error!("failed to read line from stdin: {}", e),
+                        Err(e) => {
+                            log::error!("failed to read line from stdin: {}", e);
+                            if e.kind() != io::ErrorKind::InvalidData {
+                                break;
+                            }
+                        }
                     }
                 }
             })
-- 
2.43.0


From 9edf0c0c7fc7ecb9e1e13b4b5ad89abd947075d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 33/50] fix: end every message of the json mode with a newline

---
 core/src/clients.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 8d54b39..b2f2314 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -97,7 +97,10 @@ impl StdioClient {
             ex.spawn(request_loop).detach();
             while let Some(event) = events.next().await {
                 match event {
-                    Ok(msg) => stdout.write_all(msg.to_string().as_bytes()).await?,
+                    Ok(msg) => {
+                        stdout.write_all(format!("{}\n", msg).as_bytes()).await?;
+                        stdout.flush().await?;
+                    }
                     Err(e) => log::error!("invalid event: {}", e),
                 }
             }
-- 
2.43.0


From ba3d6a252913b1d45d9a97f58ccd9dfe9e5cb05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 34/50] fix: pass strings with NUL characters through the C
 interface

---
 remote-ffi/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 5d419de..3471c57 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -20,7 +20,8 @@ macro_rules! raw {
 #[macro_export]
 macro_rules! cstring {
     ($e:expr) => {
-        std::ffi::CString::new($e)
+        // C strings hold no NUL
+        std::ffi::CString::new($e.replace('\0', "\u{fffd}"))
             .expect("failed to encode string")
             .into_raw()
     };
-- 
2.43.0


From 2d1e0c82b6df490a714dfafd45f91e6492945439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 35/50] fix: deliver hints, errors and other events through the
 C interface instead of aborting

---
 remote-ffi/src/event.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/remote-ffi/src/event.rs b/remote-ffi/src/event.rs
index f45b703..12407a1 100644
--- a/remote-ffi/src/event.rs
+++ b/remote-ffi/src/event.rs
@@ -5,7 +5,7 @@ use crate::text::CedTextIterator;
 use crate::{cstring, raw, IndexedIterator};
 use remote::protocol::{
     notifications::{MenuParamsEntry, StatusParamsItem, ViewParamsItem, ViewParamsLens},
-    Text,
+    Text, TextFragment,
 };
 use remote::ConnectionEvent;
 
@@ -32,6 +32,14 @@ pub enum CedEvent {
     View {
         items: *mut ViewIterator,
     },
+    ConnErr {
+        message: *const c_char,
+    },
+    /// Lines are separated by newlines.
+    Hint {
+        text: *mut CedTextIterator,
+    },
+    Noop,
 }
 
 impl From<ConnectionEvent> for CedEvent {
@@ -40,7 +48,18 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::Echo(text) => CedEvent::Echo {
                 message: raw!(CedTextIterator::from(&text)),
             },
-            ConnectionEvent::Hint(_hint) => todo!(),
+            ConnectionEvent::Hint(hint) => {
+                let mut text: Vec<TextFragment> = Vec::new();
+                for (i, line) in hint.text.iter().enumerate() {
+                    if i > 0 {
+                        text.extend(Text::from("\n").iter().cloned());
+                    }
+                    text.extend(line.iter().cloned());
+                }
+                CedEvent::Hint {
+                    text: raw!(CedTextIterator::from(&text)),
+                }
+            }
             ConnectionEvent::Info(client, session) => CedEvent::Info {
                 client: cstring!(client),
                 session: cstring!(session),
@@ -58,8 +77,10 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::View(view) => CedEvent::View {
                 items: raw!(ViewIterator::from(&view)),
             },
-            ConnectionEvent::ConnErr(_msg) => todo!(),
-            ConnectionEvent::Noop => todo!(),
+            ConnectionEvent::ConnErr(msg) => CedEvent::ConnErr {
+                message: cstring!(msg),
+            },
+            ConnectionEvent::Noop => CedEvent::Noop,
         }
     }
 }
-- 
2.43.0


From f9ecc96fe1c6b84b7b54a975ef562d4c9f1b73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 36/50] fix: report a failed connection through the C interface
 instead of aborting

---
 core/src/tui.rs              |  2 +-
 remote-ffi/src/connection.rs |  8 +++++++-
 remote/src/connection.rs     | 10 +++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 6d6bedb..3df42f9 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -132,7 +132,7 @@ impl Term {
             })
             .detach();
 
-            let (mut messages, request_loop) = self.connection.connect().await;
+            let (mut messages, request_loop) = self.connection.connect().await.expect("connect");
             ex.spawn(request_loop).detach();
             let messages_tx = tx.clone();
             ex.spawn(async move {
diff --git a/remote-ffi/src/connection.rs b/remote-ffi/src/connection.rs
index a2a7afb..3d4b7c9 100644
--- a/remote-ffi/src/connection.rs
+++ b/remote-ffi/src/connection.rs
@@ -26,7 +26,13 @@ pub unsafe extern "C" fn ced_connection_create(session: *const c_char) -> *mut C
     }
 
     let connection = Connection::new(session);
-    let (events, request_loop) = future::block_on(connection.connect());
+    let (events, request_loop) = match future::block_on(connection.connect()) {
+        Ok(streams) => streams,
+        Err(err) => {
+            set_last_error(err);
+            return ptr::null_mut();
+        }
+    };
     std::thread::spawn(|| future::block_on(request_loop));
     let (tx, rx) = mpsc::channel();
     std::thread::spawn(move || {
diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 96755cd..98c867d 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -147,13 +147,13 @@ impl Connection {
 
     pub async fn connect(
         &self,
-    ) -> (
+    ) -> io::Result<(
         ConnectionEventStream<impl FnMut(ClientEventResult) -> ConnectionEvent>,
         impl Future<Output = ()>,
-    ) {
+    )> {
         let ctx_lock = self.state_lock.clone();
-        let (events, request_loop) = self.client.run().await.unwrap();
-        (
+        let (events, request_loop) = self.client.run().await?;
+        Ok((
             events.map(move |ev| match ev {
                 Ok(e) => {
                     let mut ctx = ctx_lock.write().unwrap();
@@ -162,7 +162,7 @@ impl Connection {
                 Err(e) => ConnectionEvent::ConnErr(e.to_string()),
             }),
             request_loop,
-        )
+        ))
     }
 
     fn request_id(&mut self) -> Id {
-- 
2.43.0


From 0c41684ffba78e750d23fa80f6559bdbfeedf9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 37/50] fix: leave the standard output alone and stop reading
 once destroyed in the C interface

---
 remote-ffi/src/connection.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/remote-ffi/src/connection.rs b/remote-ffi/src/connection.rs
index 3d4b7c9..e71ee15 100644
--- a/remote-ffi/src/connection.rs
+++ b/remote-ffi/src/connection.rs
@@ -38,8 +38,9 @@ pub unsafe extern "C" fn ced_connection_create(session: *const c_char) -> *mut C
     std::thread::spawn(move || {
         let sync_events = stream::block_on(events);
         for ev in sync_events {
-            if let Err(err) = tx.send(ev) {
-                dbg!(&err.0);
+            if tx.send(ev).is_err() {
+                // destroyed
+                break;
             }
         }
     });
@@ -67,10 +68,8 @@ pub unsafe extern "C" fn ced_connection_next_event<'a>(p: *mut CedConnection) ->
     //     }
     // }
     if let Ok(ev) = handle.events.recv_timeout(Duration::from_secs(5)) {
-        println!("<-- {:?}", ev);
         Box::into_raw(Box::new(CedEvent::from(ev)))
     } else {
-        println!("<-- None");
         ptr::null_mut()
     }
 }
-- 
2.43.0


From e7928a2a5ddddf43a819d8503468c033393d0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 38/50] fix: keep the last error when the buffer of the C
 interface is too small

---
 remote-ffi/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 3471c57..cf447a9 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -110,10 +110,12 @@ pub unsafe extern "C" fn ced_last_error_message(buffer: *mut c_char, length: c_i
     };
 
     let message = last_error.to_string();
-    let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
-    if message.len() >= buffer.len() {
+    if message.len() as c_int >= length {
+        // still pending, for a big enough buffer
+        set_last_error(last_error);
         return -2;
     }
+    let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
     ptr::copy_nonoverlapping(message.as_ptr(), buffer.as_mut_ptr(), message.len());
     buffer[message.len()] = 0;
 
-- 
2.43.0


From 0a33a08527ec5de6406fdd562ada26133ae09511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 39/50] fix: draw any view on terminals of any size

---
 core/src/tui.rs | 52 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 3df42f9..3db84aa 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -11,7 +11,7 @@ use crossterm::{
     Result as CTResult,
 };
 use futures_lite::*;
-use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, TextFragment};
+use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, Text, TextFragment};
 use remote::{Connection, ConnectionEvent, Menu, Session};
 
 fn logline(msg: impl std::fmt::Display) {
@@ -68,6 +68,32 @@ fn format_text(tf: &TextFragment) -> String {
     }
 }
 
+// Control characters must never reach the terminal, which would interpret them.
+fn printable(c: char) -> char {
+    match c {
+        '\t' => ' ',
+        c if c.is_control() => '\u{fffd}',
+        c => c,
+    }
+}
+
+fn fit_str(text: &str, width: usize) -> String {
+    text.chars().take(width).map(printable).collect()
+}
+
+fn fit(text: &Text, mut width: usize) -> Text {
+    let mut fragments = Vec::new();
+    for tf in text {
+        let text = fit_str(&tf.text, width);
+        width -= text.chars().count();
+        fragments.push(TextFragment {
+            text,
+            face: tf.face.clone(),
+        });
+    }
+    fragments.into()
+}
+
 #[derive(Debug)]
 enum Event {
     DrawHint(HintParams),
@@ -188,28 +214,22 @@ impl Term {
         let state = self.connection.state();
 
         queue!(stdout, Clear(ClearType::All))?;
-        let mut i = 0;
+        let width = width as usize;
+        let display_size = height.saturating_sub(1) as usize;
         let mut content = Vec::new();
         'outer: for item in &state.view {
-            let buffer = &item.buffer;
-            let coords = format!("{}:{}", item.start, item.end);
-            let padding = "-".repeat(width as usize - 5 - buffer.len() - coords.len());
-            content.push(format!("-[{}][{}]{}", buffer, coords, padding));
-            i += 1;
+            if content.len() == display_size {
+                break;
+            }
+            let header = format!("-[{}][{}:{}]", item.buffer, item.start, item.end);
+            content.push(format!("{:-<1$}", fit_str(&header, width), width));
 
             for lens in &item.lenses {
                 for line in &lens.lines {
-                    if i == (height - 1) {
+                    if content.len() == display_size {
                         break 'outer;
                     }
-                    let rendered = line.render(format_text);
-                    let line_view = if line.text_len() > width as usize {
-                        &rendered[..width as usize]
-                    } else {
-                        &rendered
-                    };
-                    content.push(line_view.to_string());
-                    i += 1;
+                    content.push(fit(line, width).render(format_text));
                 }
             }
         }
-- 
2.43.0


From 124548df4af2e78b9d197974ab6ac667dfe34153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 40/50] fix: draw any message and status on terminals of any
 size

---
 core/src/tui.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 3db84aa..418b2c6 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -322,20 +322,21 @@ impl Term {
             .map(|item| item.text.plain())
             .collect::<Vec<String>>()
             .join("·");
-        let text = if echo.text_len() >= width as usize {
-            echo.render(format_text)
-        } else if echo.text_len() + status.len() >= width as usize {
-            let skip = echo.text_len() - width as usize + 1;
-            format!("{} {}", echo.render(format_text), &status[skip..])
+        let width = width as usize;
+        let echo = fit(&echo, width);
+        let available = width - echo.plain().chars().count();
+        let status_len = status.chars().count();
+        let status_view: String = if status_len < available {
+            format!("{:>1$}", fit_str(&status, status_len), available)
+        } else if available > 0 {
+            // only keep the end of the status
+            let skip = status_len + 1 - available;
+            let end: String = status.chars().skip(skip).collect();
+            format!(" {}", fit_str(&end, available))
         } else {
-            let padding = width as usize - echo.text_len() - status.len();
-            format!(
-                "{}{}{}",
-                echo.render(format_text),
-                " ".repeat(padding),
-                status
-            )
+            String::new()
         };
+        let text = echo.render(format_text) + &status_view;
         queue!(
             stdout,
             cursor::MoveTo(0, height),
-- 
2.43.0


From 19c15e8d65335e413cbddf7d567ecf828d4bd9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 41/50] fix: draw any menu on terminals of any size

---
 core/src/tui.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 418b2c6..328c447 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -268,31 +268,27 @@ impl Term {
     fn draw_menu(&mut self, menu: &Menu) -> CTResult<()> {
         let mut stdout = io::stdout();
         let (width, height) = self.last_size;
-        let title = format!("{}:{}", menu.title, menu.search);
-        let padding = " ".repeat(width as usize - title.len());
+        let width = width as usize;
+        let title = fit_str(&format!("{}:{}", menu.title, menu.search), width);
 
         queue!(
             stdout,
             Clear(ClearType::All),
             cursor::MoveTo(0, 0),
-            PrintStyledContent(style(title + &padding).reverse())
+            PrintStyledContent(style(format!("{:1$}", title, width)).reverse())
         )?;
         {
-            let display_size = (height - 1) as usize;
+            let display_size = height.saturating_sub(1) as usize;
             for i in 0..menu.entries.len() {
                 if i == display_size {
                     break;
                 }
-                let item = &menu.entries[i].text.render(|tf| match tf.face {
+                let text = fit(&menu.entries[i].text, width);
+                let item_view = text.render(|tf| match tf.face {
                     Face::Match => style(&tf.text).underlined().to_string(),
                     _ => tf.text.to_owned(),
                 });
 
-                let item_view = if item.len() > width as usize {
-                    &item[..width as usize]
-                } else {
-                    &item
-                };
                 let item_print = if i == menu.selected {
                     PrintStyledContent(style(item_view).reverse())
                 } else {
-- 
2.43.0


From f992b7ca024c9d3610fd518d1fafb39ca2b11c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 42/50] fix: draw any hint on terminals of any size

---
 core/src/tui.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 328c447..c2165bc 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -244,21 +244,20 @@ impl Term {
         let mut stdout = io::stdout();
         let (width_w, height_w) = self.last_size;
 
-        let width_h = hint.text[0].plain().chars().count();
-        let x = width_w - width_h as u16;
-        let mut y = height_w - hint.text.len() as u16;
-        for line in &hint.text {
-            // TODO clamp to screen size (or less?)
-            let text = line.render(format_text);
+        let width_w = width_w as usize;
+        let widths = hint.text.iter().map(|line| line.plain().chars().count());
+        let width_h = widths.max().unwrap_or(0).min(width_w);
+        let height_h = hint.text.len().min(height_w as usize);
+        let x = (width_w - width_h) as u16;
+        let mut y = height_w - height_h as u16;
+        for line in hint.text.iter().take(height_h) {
+            let text = fit(line, width_h).render(format_text);
             queue!(
                 stdout,
                 cursor::MoveTo(x, y),
                 PrintStyledContent(style(text).reverse())
             )?;
             y += 1;
-            if y == height_w {
-                break;
-            }
         }
 
         stdout.flush()?;
-- 
2.43.0


From 05a7a5eada9645acb1eb6eee9f22f7d1de4e14f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 43/50] fix: show the errors of the terminal client

---
 core/src/tui.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index c2165bc..48823ff 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -150,7 +150,7 @@ impl Term {
                             tx.send(Event::Resize((w, h))).await.expect("send event")
                         }
                         Err(e) => tx
-                            .send(Event::Error(format!("\"event read: {}\"", e)))
+                            .send(Event::Error(format!("event read: {}", e)))
                             .await
                             .expect("send event"),
                     }
@@ -205,7 +205,11 @@ impl Term {
     }
 
     fn error(&mut self, message: &str) {
-        self.connection.exec(&format!("editor:error({})", message));
+        // nothing can be shown as long as the server has not told who we are
+        if let Ok(client) = self.connection.state().client.parse::<usize>() {
+            self.connection
+                .exec(&format!("editor:error({}, {:?})", client, message));
+        }
     }
 
     fn draw_view(&mut self) -> CTResult<()> {
-- 
2.43.0


From de07f0da55af52564ab5abdd7b7738dc54aaa54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 44/50] fix: run the terminal client in directories where
 log.txt cannot be written

---
 core/src/tui.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 48823ff..732701c 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -17,11 +17,10 @@ use remote::{Connection, ConnectionEvent, Menu, Session};
 fn logline(msg: impl std::fmt::Display) {
     use std::fs::OpenOptions;
 
-    let mut file = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("log.txt")
-        .expect("open file");
+    let mut file = match OpenOptions::new().create(true).append(true).open("log.txt") {
+        Ok(file) => file,
+        Err(_) => return,
+    };
 
     if let Err(e) = writeln!(file, "{}", msg) {
         eprintln!("Couldn't write to file: {}", e);
-- 
2.43.0


From e71e0d6f387375bef63b9676185b5c84ee6a10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 45/50] fix: show the last character of full menu entries

---
 core/src/tui.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 732701c..f6ca6b2 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -299,8 +299,8 @@ impl Term {
                 queue!(
                     stdout,
                     cursor::MoveTo(0, 1 + i as u16),
-                    item_print,
-                    Clear(ClearType::UntilNewLine)
+                    Clear(ClearType::UntilNewLine),
+                    item_print
                 )?;
             }
         }
-- 
2.43.0


From 6bfcbb8857afcce57dd1d74c3596c16075553591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 46/50] fix: keep showing a menu which has nothing to select

---
 core/src/tui.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index f6ca6b2..21a83fe 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -380,7 +380,10 @@ impl Term {
                     key: Key::Enter, ..
                 } => {
                     self.connection.menu_select();
-                    self.draw_view()?;
+                    // the menu stays when it has nothing to select
+                    if self.connection.state().menu.is_none() {
+                        self.draw_view()?;
+                    }
                 }
                 KeyEvent { key: Key::Up, .. } => {
                     self.connection.action_menu_select_previous();
-- 
2.43.0


From a5179787e8957ce457906cb5e736e35ad9f21734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:58 +0000
Subject: [PATCH 47/50] fix: keep every character typed in a menu before the
 server answers

---
 core/src/tui.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 21a83fe..4e076b2 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -1,3 +1,4 @@
+use std::collections::VecDeque;
 use std::io::{self, Write};
 
 use async_channel::bounded;
@@ -108,6 +109,8 @@ pub struct Term {
     connection: Connection,
     exit_pending: bool,
     last_size: (u16, u16),
+    // searches the server has not answered yet
+    searches: VecDeque<String>,
 }
 
 impl Term {
@@ -117,6 +120,7 @@ impl Term {
             connection: Connection::new(session),
             exit_pending: false,
             last_size: terminal::size().expect("get terminal"),
+            searches: VecDeque::new(),
         };
         logline("new connection");
         for fname in filenames {
@@ -184,7 +188,12 @@ impl Term {
                 logline(format!("new event: {:?}", event));
                 use Event::*;
                 match event {
-                    DrawMenu(menu) => self.draw_menu(&menu).expect("draw menu"),
+                    DrawMenu(menu) => {
+                        if self.searches.pop_front().as_ref() != Some(&menu.search) {
+                            self.searches.clear();
+                        }
+                        self.draw_menu(&menu).expect("draw menu")
+                    }
                     DrawView => self.draw_view().expect("draw view"),
                     DrawHint(h) => self.draw_hint(&h).expect("draw hint"),
                     DrawStatus => self.draw_status(true).expect("draw view"),
@@ -363,6 +372,13 @@ impl Term {
         self.connection.menu(command, search);
     }
 
+    fn refine_menu(&mut self, menu: &Menu, change: impl FnOnce(&mut String)) {
+        let mut search = self.searches.back().unwrap_or(&menu.search).clone();
+        change(&mut search);
+        self.do_menu(&menu.command, &search);
+        self.searches.push_back(search);
+    }
+
     fn handle_input(&mut self, value: impl Into<ToKey>) -> CTResult<()> {
         let key = match value.into().0 {
             Some(k) => k,
@@ -373,12 +389,14 @@ impl Term {
                 KeyEvent {
                     key: Key::Escape, ..
                 } => {
+                    self.searches.clear();
                     self.connection.action_menu_cancel();
                     self.draw_view()?;
                 }
                 KeyEvent {
                     key: Key::Enter, ..
                 } => {
+                    self.searches.clear();
                     self.connection.menu_select();
                     // the menu stays when it has nothing to select
                     if self.connection.state().menu.is_none() {
@@ -397,19 +415,13 @@ impl Term {
                 }
                 KeyEvent {
                     key: Key::Char(c), ..
-                } => {
-                    let mut search = menu.search;
-                    search.push(c);
-                    self.do_menu(&menu.command, &search)
-                }
+                } => self.refine_menu(&menu, |search| search.push(c)),
                 KeyEvent {
                     key: Key::Backspace,
                     ..
-                } => {
-                    let mut search = menu.search;
+                } => self.refine_menu(&menu, |search| {
                     search.pop();
-                    self.do_menu(&menu.command, &search)
-                }
+                }),
                 _ => {}
             }
         } else {
-- 
2.43.0


From e1fdfebe3a64cd749bf1220c7065a39caad9adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:07 +0000
Subject: [PATCH 48/50] fix: highlight the whole selected entry of menus

---
 core/src/tui.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 4e076b2..6a955f1 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -295,21 +295,22 @@ impl Term {
                     break;
                 }
                 let text = fit(&menu.entries[i].text, width);
-                let item_view = text.render(|tf| match tf.face {
-                    Face::Match => style(&tf.text).underlined().to_string(),
-                    _ => tf.text.to_owned(),
+                let item_view = text.render(|tf| {
+                    let mut content = style(&tf.text);
+                    if tf.face == Face::Match {
+                        content = content.underlined();
+                    }
+                    if i == menu.selected {
+                        content = content.reverse();
+                    }
+                    content.to_string()
                 });
 
-                let item_print = if i == menu.selected {
-                    PrintStyledContent(style(item_view).reverse())
-                } else {
-                    PrintStyledContent(style(item_view))
-                };
                 queue!(
                     stdout,
                     cursor::MoveTo(0, 1 + i as u16),
                     Clear(ClearType::UntilNewLine),
-                    item_print
+                    Print(item_view)
                 )?;
             }
         }
-- 
2.43.0


From d2a61026611bddef2cd56d562ba28f6a26e74638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:07 +0000
Subject: [PATCH 49/50] fix: keep messages and hints in reverse video whatever
 their faces

---
 core/src/tui.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 6a955f1..0c4340d 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -68,6 +68,13 @@ fn format_text(tf: &TextFragment) -> String {
     }
 }
 
+fn format_reversed(tf: &TextFragment) -> String {
+    match tf.face {
+        Face::Error => style(&tf.text).red().reverse().to_string(),
+        _ => style(&tf.text).reverse().to_string(),
+    }
+}
+
 // Control characters must never reach the terminal, which would interpret them.
 fn printable(c: char) -> char {
     match c {
@@ -263,12 +270,8 @@ impl Term {
         let x = (width_w - width_h) as u16;
         let mut y = height_w - height_h as u16;
         for line in hint.text.iter().take(height_h) {
-            let text = fit(line, width_h).render(format_text);
-            queue!(
-                stdout,
-                cursor::MoveTo(x, y),
-                PrintStyledContent(style(text).reverse())
-            )?;
+            let text = fit(line, width_h).render(format_reversed);
+            queue!(stdout, cursor::MoveTo(x, y), Print(text))?;
             y += 1;
         }
 
@@ -344,11 +347,11 @@ impl Term {
         } else {
             String::new()
         };
-        let text = echo.render(format_text) + &status_view;
         queue!(
             stdout,
             cursor::MoveTo(0, height),
-            PrintStyledContent(style(text).reverse())
+            Print(echo.render(format_reversed)),
+            PrintStyledContent(style(status_view).reverse())
         )?;
 
         if flush {
-- 
2.43.0


From 5892d9bc7f5ac0063e28dc7ea462d93ca13c1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 50/50] fix: keep quiet when a key is typed while the
 connection is lost

---
 core/src/tui.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 0c4340d..a8319da 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -151,18 +151,15 @@ impl Term {
                 let mut reader = EventStream::new();
                 while let Some(event) = reader.next().await {
                     logline(format!("new input: {:?}", event));
-                    match event {
-                        Ok(ev @ CEvent::Key(_)) => {
-                            tx.send(Event::Input(ev)).await.expect("send event")
-                        }
-                        Ok(CEvent::Mouse(_)) => {}
-                        Ok(CEvent::Resize(w, h)) => {
-                            tx.send(Event::Resize((w, h))).await.expect("send event")
-                        }
-                        Err(e) => tx
-                            .send(Event::Error(format!("event read: {}", e)))
-                            .await
-                            .expect("send event"),
+                    let event = match event {
+                        Ok(ev @ CEvent::Key(_)) => Event::Input(ev),
+                        Ok(CEvent::Mouse(_)) => continue,
+                        Ok(CEvent::Resize(w, h)) => Event::Resize((w, h)),
+                        Err(e) => Event::Error(format!("event read: {}", e)),
+                    };
+                    // the connection may be lost in the meantime
+                    if tx.send(event).await.is_err() {
+                        break;
                     }
                 }
             })
-- 
2.43.0

