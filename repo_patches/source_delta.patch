From d90db876c74a1f107f681c89f7fae2b77391df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 01/13] fix: treat CRLF as a line break when resolving
 positions

A CRLF pair is a single grapheme cluster, so comparing clusters against
a lone newline never advanced the line. Lines of CRLF documents could not
be addressed, and undoing an insert containing one removed unrelated data.
---
 src/buffer/cursor.rs     | 2 +-
 src/buffer/gap_buffer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 47859a1..f7bf274 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -191,7 +191,7 @@ impl Cursor {
         let mut line = 0;
         let mut length = 0;
         for c in self.data.borrow().to_string().graphemes(true) {
-            if c == "\n" {
+            if c == "\n" || c == "\r\n" {
                 line += 1;
                 length = 0;
             } else {
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 6719287..e9c6d09 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -216,7 +216,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme == "\n" || grapheme == "\r\n" {
                 line += 1;
                 line_offset = 0;
             } else {
@@ -239,7 +239,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme == "\n" || grapheme == "\r\n" {
                 line += 1;
                 line_offset = 0;
             } else {
-- 
2.43.0


From 0fb90f9a7f1f061431171250cd0710b2aa1476b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 02/13] fix: resolve positions across grapheme clusters
 spanning the gap

Segmenting either side of the gap in isolation split clusters that span it,
so the same contents mapped to different positions depending on where prior
edits had left the gap.
---
 src/buffer/gap_buffer.rs | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index e9c6d09..63c11e0 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -205,37 +205,21 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
-        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
+        // Grapheme clusters can span the gap, so the halves
+        // surrounding it have to be segmented as a whole.
+        let data = self.to_string();
         let mut line = 0;
         let mut line_offset = 0;
 
-        for (offset, grapheme) in (*first_half).grapheme_indices(true) {
-            // Check to see if we've found the position yet.
-            if line == position.line && line_offset == position.offset {
-                return Some(offset);
-            }
-
-            // Advance the line and offset characters.
-            if grapheme == "\n" || grapheme == "\r\n" {
-                line += 1;
-                line_offset = 0;
-            } else {
-                line_offset += 1;
-            }
-        }
-
-        // We didn't find the position *within* the first half, but it could
-        // be right after it, which means it's right at the start of the gap.
-        if line == position.line && line_offset == position.offset {
-            return Some(self.gap_start + self.gap_length);
-        }
-
-        // We haven't reached the position yet, so we'll move on to the other half.
-        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
-        for (offset, grapheme) in (*second_half).grapheme_indices(true) {
+        for (offset, grapheme) in data.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(self.gap_start + self.gap_length + offset);
+                // Offsets at or beyond the gap need to account for it.
+                return Some(if offset < self.gap_start {
+                    offset
+                } else {
+                    offset + self.gap_length
+                });
             }
 
             // Advance the line and offset characters.
@@ -247,7 +231,7 @@ impl GapBuffer {
             }
         }
 
-        // We didn't find the position *within* the second half, but it could
+        // We didn't find the position *within* the data, but it could
         // be right after it, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
             return Some(self.data.len());
-- 
2.43.0


From 15756f2cd53aeb600567c7eb5c65cf5319b978e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 03/13] fix: undo edits that merge with surrounding grapheme
 clusters

Reversing an insert or delete relied on positions, which no longer address
the affected content once it has been merged with the clusters around it:
undoing the insertion of a combining mark would remove the text after it.
---
 src/buffer/gap_buffer.rs       | 39 +++++++++++++++++++----
 src/buffer/operation/delete.rs | 17 ++++++-----
 src/buffer/operation/insert.rs | 56 ++++++++++++----------------------
 3 files changed, 61 insertions(+), 51 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 63c11e0..d398e3a 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -56,6 +56,13 @@ impl GapBuffer {
     /// assert_eq!("my changed buffer data", buffer.to_string());
     /// ```
     pub fn insert(&mut self, data: &str, position: &Position) {
+        if let Some(offset) = self.content_offset(position) {
+            self.insert_at(data, offset);
+        }
+    }
+
+    // Inserts data at a byte offset in the contents (the gap isn't counted).
+    pub(crate) fn insert_at(&mut self, data: &str, content_offset: usize) {
         // Ensure we have the capacity to insert this data.
         if data.len() > self.gap_length {
             // We're about to add space to the end of the buffer, so move the gap
@@ -76,15 +83,16 @@ impl GapBuffer {
             }
         }
 
-        let offset = match self.find_offset(position) {
-            Some(o) => o,
-            None => return,
-        };
-
-        self.move_gap(offset);
+        self.move_gap_to_content(content_offset);
         self.write_to_gap(data);
     }
 
+    // Removes data at a byte offset in the contents (the gap isn't counted).
+    pub(crate) fn remove_at(&mut self, content_offset: usize, length: usize) {
+        self.move_gap_to_content(content_offset);
+        self.gap_length += length;
+    }
+
     /// Returns the specified range of data from the buffer.
     /// If any part of the range does not exist, a none value will be returned.
     ///
@@ -203,6 +211,17 @@ impl GapBuffer {
         self.find_offset(position).is_some()
     }
 
+    // Maps a position to its byte offset in the contents (the gap isn't counted).
+    pub(crate) fn content_offset(&self, position: &Position) -> Option<usize> {
+        self.find_offset(position).map(|offset| {
+            if offset > self.gap_start {
+                offset - self.gap_length
+            } else {
+                offset
+            }
+        })
+    }
+
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
         // Grapheme clusters can span the gap, so the halves
@@ -240,6 +259,14 @@ impl GapBuffer {
         None
     }
 
+    fn move_gap_to_content(&mut self, content_offset: usize) {
+        if content_offset > self.gap_start {
+            self.move_gap(content_offset + self.gap_length);
+        } else {
+            self.move_gap(content_offset);
+        }
+    }
+
     fn move_gap(&mut self, offset: usize) {
         // We don't need to move any data if the buffer is at capacity.
         if self.gap_length == 0 {
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 4b5fec3..43f4510 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -4,15 +4,17 @@ use std::clone::Clone;
 
 /// A reversible buffer delete operation.
 ///
-/// Deletes the content at the specified range. Tracks the deleted content and specified
-/// range, and reverses the operation by (trivially) inserting the deleted content at
-/// the start of the specified range.
+/// Deletes the content at the specified range. Tracks the deleted content, its byte
+/// offset, and specified range, and reverses the operation by (trivially) inserting
+/// the deleted content at said offset. Positions can't be used to do so, as the content
+/// surrounding the range may have been merged into a single grapheme cluster.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the starting position of this operation when it is run or reversed.
 #[derive(Clone)]
 pub struct Delete {
     content: Option<String>,
+    offset: Option<usize>,
     range: Range,
 }
 
@@ -20,6 +22,7 @@ impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
         // Fetch and store the content we're about to delete.
         self.content = buffer.data.borrow().read(&self.range);
+        self.offset = buffer.data.borrow().content_offset(&self.range.start());
 
         // Delete the data.
         buffer.data.borrow_mut().delete(&self.range);
@@ -31,11 +34,8 @@ impl Operation for Delete {
     }
 
     fn reverse(&mut self, buffer: &mut Buffer) {
-        if let Some(ref content) = self.content {
-            buffer
-                .data
-                .borrow_mut()
-                .insert(content, &self.range.start());
+        if let (Some(content), Some(offset)) = (&self.content, self.offset) {
+            buffer.data.borrow_mut().insert_at(content, offset);
 
             // Run the change callback, if present.
             if let Some(ref callback) = buffer.change_callback {
@@ -54,6 +54,7 @@ impl Delete {
     pub fn new(range: Range) -> Delete {
         Delete {
             content: None,
+            offset: None,
             range,
         }
     }
diff --git a/src/buffer/operation/insert.rs b/src/buffer/operation/insert.rs
index 17d707b..97c9626 100644
--- a/src/buffer/operation/insert.rs
+++ b/src/buffer/operation/insert.rs
@@ -1,14 +1,14 @@
 use crate::buffer::operation::Operation;
-use crate::buffer::{Buffer, Position, Range};
+use crate::buffer::{Buffer, Position};
 use std::clone::Clone;
 use std::convert::Into;
-use unicode_segmentation::UnicodeSegmentation;
 
 /// A reversible buffer insert operation.
 ///
-/// Inserts the provided content at the specified position. Tracks both, and reverses
-/// the operation by calculating the content's start and end positions (range), relative
-/// to its inserted location, and removing said range from the underlying buffer.
+/// Inserts the provided content at the specified position. Tracks both, along with the
+/// byte offset at which the content landed, and reverses the operation by removing that
+/// many bytes from there. Positions can't be used to do so, as the inserted content may
+/// have been merged into the grapheme clusters surrounding it.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the position of this operation when it is run or reversed.
@@ -16,10 +16,12 @@ use unicode_segmentation::UnicodeSegmentation;
 pub struct Insert {
     content: String,
     position: Position,
+    offset: Option<usize>,
 }
 
 impl Operation for Insert {
     fn run(&mut self, buffer: &mut Buffer) {
+        self.offset = buffer.data.borrow().content_offset(&self.position);
         buffer
             .data
             .borrow_mut()
@@ -31,38 +33,14 @@ impl Operation for Insert {
         }
     }
 
-    // We need to calculate the range of the inserted content.
-    // The start of the range corresponds to the cursor position at the time of the insert,
-    // which we've stored. Finding the end of the range requires that we dig into the content.
     fn reverse(&mut self, buffer: &mut Buffer) {
-        // The line count of the content tells us the line number for the end of the
-        // range (just add the number of new lines to the starting line).
-        let line_count = self.content.chars().filter(|&c| c == '\n').count() + 1;
-        let end_line = self.position.line + line_count - 1;
-
-        let end_offset = if line_count == 1 {
-            // If there's only one line, the range starts and ends on the same line, and so its
-            // offset needs to take the original insertion location into consideration.
-            self.position.offset + self.content.graphemes(true).count()
-        } else {
-            // If there are multiple lines, the end of the range doesn't
-            // need to consider the original insertion location.
-            match self.content.split('\n').last() {
-                Some(line) => line.graphemes(true).count(),
-                None => return,
-            }
-        };
-
-        // Now that we have the required info,
-        // build the end position and total range.
-        let end_position = Position {
-            line: end_line,
-            offset: end_offset,
-        };
-        let range = Range::new(self.position, end_position);
-
-        // Remove the content we'd previously inserted.
-        buffer.data.borrow_mut().delete(&range);
+        // Remove the content we'd previously inserted, if it was.
+        if let Some(offset) = self.offset {
+            buffer
+                .data
+                .borrow_mut()
+                .remove_at(offset, self.content.len());
+        }
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -78,7 +56,11 @@ impl Operation for Insert {
 impl Insert {
     /// Creates a new empty insert operation.
     pub fn new(content: String, position: Position) -> Insert {
-        Insert { content, position }
+        Insert {
+            content,
+            position,
+            offset: None,
+        }
     }
 }
 
-- 
2.43.0


From 08d0abd173716c996d7d41623696ff65fea5e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 04/13] fix: make deletes that extend out of bounds undoable

The gap buffer clamps ranges whose end is out of bounds, but the content
tracked for undo was read using the range as-is, which yields nothing.
---
 src/buffer/operation/delete.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 43f4510..aba70d2 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -20,13 +20,19 @@ pub struct Delete {
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
-        // Fetch and store the content we're about to delete.
-        self.content = buffer.data.borrow().read(&self.range);
+        let previous_data = buffer.data();
         self.offset = buffer.data.borrow().content_offset(&self.range.start());
 
         // Delete the data.
         buffer.data.borrow_mut().delete(&self.range);
 
+        // Store the content we've deleted. We can't read it using the range, as
+        // that may extend beyond the end of its last line, or the buffer itself.
+        let deleted_length = previous_data.len() - buffer.data().len();
+        self.content = self
+            .offset
+            .map(|offset| previous_data[offset..offset + deleted_length].to_string());
+
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
             callback(self.range.start())
-- 
2.43.0


From 3d3830d391bdc84a4fce6c9dbabd57086e503c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 05/13] fix: account for open operation groups when undoing and
 redoing

Undoing an open group discarded it, so it could not be re-applied and redo
would instead re-apply whatever had been undone before it. Redoing with
operations in an open group re-applied operations that these supersede.
---
 src/buffer/mod.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9ad7a25..ce3133c 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -21,7 +21,7 @@ mod range;
 mod token;
 
 use self::operation::history::History;
-use self::operation::{Operation, OperationGroup};
+use self::operation::OperationGroup;
 use crate::errors::*;
 use std::cell::RefCell;
 use std::default::Default;
@@ -241,21 +241,12 @@ impl Buffer {
     /// assert_eq!("", buffer.data());
     /// ```
     pub fn undo(&mut self) {
-        // Look for an operation to undo. First, check if there's an open, non-empty
-        // operation group. If not, try taking the last operation from the buffer history.
-        let operation: Option<Box<dyn Operation>> = match self.operation_group.take() {
-            Some(group) => {
-                if group.is_empty() {
-                    self.history.previous()
-                } else {
-                    Some(Box::new(group))
-                }
-            }
-            None => self.history.previous(),
-        };
+        // Close the open operation group, if there is one, adding it to the history (or
+        // dropping it, if it's empty) so that it's reversed and can be re-applied.
+        self.end_operation_group();
 
         // If we found an eligible operation, reverse it.
-        if let Some(mut op) = operation {
+        if let Some(mut op) = self.history.previous() {
             op.reverse(self);
         }
     }
@@ -277,12 +268,25 @@ impl Buffer {
     /// assert_eq!("scribe", buffer.data());
     /// ```
     pub fn redo(&mut self) {
+        // Operations in an open group supersede any that were previously undone.
+        if self.has_open_operations() {
+            return;
+        }
+
         // Look for an operation to apply.
         if let Some(mut op) = self.history.next() {
             op.run(self);
         }
     }
 
+    // Whether or not there's an open operation group with operations in it.
+    fn has_open_operations(&self) -> bool {
+        self.operation_group
+            .as_ref()
+            .map(|group| !group.is_empty())
+            .unwrap_or(false)
+    }
+
     /// Tries to read the specified range from the buffer.
     ///
     /// # Examples
-- 
2.43.0


From 23b9e760c17f99a66e6d70596167dd87577663fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 06/13] fix: always consider buffers without paths as modified

As documented; clearing the path of a buffer that was in sync with its
file left it flagged as unmodified.
---
 src/buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index ce3133c..21e3d79 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -374,7 +374,7 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark()
+        self.path.is_none() || !self.history.at_mark()
     }
 
     /// The number of lines in the buffer, including trailing newlines.
-- 
2.43.0


From b511b2b33b87e9867b3c238af9020374a5129f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 07/13] fix: account for open operation groups in the modified
 flag

Operations in an open group aren't in the history yet, so a buffer was seen
as unmodified despite them, and saving or reloading it marked a point in the
history that precedes them: undoing the group then left it flagged as
unmodified, with content that differs from its file.
---
 src/buffer/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 21e3d79..8d4890d 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -190,7 +190,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_history();
 
         Ok(())
     }
@@ -279,6 +279,17 @@ impl Buffer {
         }
     }
 
+    // Marks the current point in the history, splitting the open
+    // operation group, if there is one, so that this point exists.
+    fn mark_history(&mut self) {
+        if self.has_open_operations() {
+            self.end_operation_group();
+            self.start_operation_group();
+        }
+
+        self.history.mark();
+    }
+
     // Whether or not there's an open operation group with operations in it.
     fn has_open_operations(&self) -> bool {
         self.operation_group
@@ -374,7 +385,7 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        self.path.is_none() || !self.history.at_mark()
+        self.path.is_none() || self.has_open_operations() || !self.history.at_mark()
     }
 
     /// The number of lines in the buffer, including trailing newlines.
@@ -423,7 +434,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_history();
 
         Ok(())
     }
-- 
2.43.0


From f203b0a1c59dff73eb1ef16dbfb60faef2cbcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 08/13] fix: return grapheme-based positions from buffer
 searches

Result offsets were byte-based, rather than grapheme cluster-based, which is
the convention applied throughout the rest of the library.
---
 src/buffer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 8d4890d..5308e4c 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -32,6 +32,7 @@ use std::ops::Fn;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use syntect::parsing::SyntaxReference;
+use unicode_segmentation::UnicodeSegmentation;
 
 /// A feature-rich wrapper around an underlying gap buffer.
 ///
@@ -343,8 +344,8 @@ impl Buffer {
         let mut results = Vec::new();
 
         for (line, data) in self.data().lines().enumerate() {
-            for (offset, _) in data.char_indices() {
-                let haystack = &data[offset..];
+            for (offset, (index, _)) in data.grapheme_indices(true).enumerate() {
+                let haystack = &data[index..];
 
                 // Check haystack length before slicing it and comparing bytes with needle.
                 if haystack.len() >= needle.len()
-- 
2.43.0


From 3d1c36f87d9c8acc099d053e6a4be147ad60fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 09/13] fix: measure distances in grapheme clusters

Offsets were byte-based, so adding the distance of a string with non-ASCII
content to a position pointed beyond the end of that string.
---
 src/buffer/distance.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer/distance.rs b/src/buffer/distance.rs
index bf20d9a..2f22f26 100644
--- a/src/buffer/distance.rs
+++ b/src/buffer/distance.rs
@@ -1,3 +1,5 @@
+use unicode_segmentation::UnicodeSegmentation;
+
 /// A vector value representing a span in a buffer. Unlike the
 /// Range type, whose two positions are absolutes, a Distance
 /// is meant to be used relative to a Position.
@@ -25,7 +27,11 @@ impl Distance {
     pub fn of_str(from: &str) -> Distance {
         Distance {
             lines: from.chars().filter(|&c| c == '\n').count(),
-            offset: from.split('\n').last().map(|l| l.len()).unwrap_or(0),
+            offset: from
+                .split('\n')
+                .last()
+                .map(|l| l.graphemes(true).count())
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From 55ac7f3dc83512df656711c00df987f74657fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 10/13] fix: don't overflow when deleting to the maximum line

Looking for the line following the end of an out of bounds range overflowed
when the range ends at usize::MAX, a handy way of saying 'everything after'.
---
 src/buffer/gap_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index d398e3a..528d6e9 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -173,7 +173,7 @@ impl GapBuffer {
                 // The end of the range doesn't exist; check
                 // if it's on the last line in the file.
                 let start_of_next_line = Position {
-                    line: range.end().line + 1,
+                    line: range.end().line.saturating_add(1),
                     offset: 0,
                 };
 
-- 
2.43.0


From f76f3f712d4f9aabc1416bc8379e6b8be1542ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 11/13] fix: flag buffers as modified when writing to their
 file fails

A failed write leaves a truncated file behind, while the buffer, if it was
in sync with the file beforehand, was still seen as unmodified.
---
 src/buffer/mod.rs               | 4 ++++
 src/buffer/operation/history.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 5308e4c..db7870a 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -186,6 +186,10 @@ impl Buffer {
             File::create(PathBuf::new())?
         };
 
+        // Opening the file truncates it; should writing to it fail,
+        // the buffer won't be in sync with it at any point.
+        self.history.clear_mark();
+
         // We use to_string here because we don't want to write the gap contents.
         file.write_all(self.data().to_string().as_bytes())?;
 
diff --git a/src/buffer/operation/history.rs b/src/buffer/operation/history.rs
index 288199b..a274c96 100644
--- a/src/buffer/operation/history.rs
+++ b/src/buffer/operation/history.rs
@@ -64,6 +64,10 @@ impl History {
         self.marked_position = Some(self.previous.len())
     }
 
+    pub fn clear_mark(&mut self) {
+        self.marked_position = None
+    }
+
     pub fn at_mark(&self) -> bool {
         if let Some(position) = self.marked_position {
             self.previous.len() == position
-- 
2.43.0


From 299acfc2dd6c95866eeb378eebf284a0ee7306d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 12/13] fix: don't drift token positions past clusters that
 span tokens

Counting clusters token by token counted those spanning a token boundary
more than once, offsetting all of the line's subsequent token positions.
---
 src/buffer/token/token_iterator.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index ad84584..bc88aeb 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -3,7 +3,7 @@ use crate::errors::*;
 use crate::util::LineIterator;
 use std::cmp;
 use syntect::parsing::{ParseState, ScopeStack, ScopeStackOp, SyntaxReference, SyntaxSet};
-use unicode_segmentation::UnicodeSegmentation;
+use unicode_segmentation::GraphemeCursor;
 
 pub struct TokenIterator<'a> {
     scopes: ScopeStack,
@@ -100,9 +100,16 @@ impl<'a> TokenIterator<'a> {
 
                     // The event/current offsets are byte-based, but
                     // position offsets should be grapheme cluster-based.
-                    self.current_position.offset += line[self.current_byte_offset..end_of_token]
-                        .graphemes(true)
-                        .count();
+                    // Clusters can span tokens, so they need to be found
+                    // using the entire line, rather than just the token.
+                    let mut boundaries =
+                        GraphemeCursor::new(self.current_byte_offset, line.len(), true);
+                    while let Ok(Some(boundary)) = boundaries.next_boundary(line, 0) {
+                        if boundary > end_of_token {
+                            break;
+                        }
+                        self.current_position.offset += 1;
+                    }
 
                     self.current_byte_offset = event_offset;
                 }
-- 
2.43.0


From 08f0f3688be0ec6f62afb3156254199733bb2f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 13/13] fix: don't overflow at maximum cursor positions

Cursors can be set to any position, including ones that are out of bounds.
Deleting at, or moving from, the maximum offset or line overflowed.
---
 src/buffer/cursor.rs           | 4 ++--
 src/buffer/operation/delete.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index f7bf274..4d3cb12 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -112,7 +112,7 @@ impl Cursor {
     /// Increments the cursor line. The location is bounds-checked against
     /// the data and the cursor will not be updated if it is out-of-bounds.
     pub fn move_down(&mut self) {
-        let target_line = self.line + 1;
+        let target_line = self.line.saturating_add(1);
         let new_position = Position {
             line: target_line,
             offset: self.sticky_offset,
@@ -158,7 +158,7 @@ impl Cursor {
     pub fn move_right(&mut self) {
         let new_position = Position {
             line: self.line,
-            offset: self.offset + 1,
+            offset: self.offset.saturating_add(1),
         };
         self.move_to(new_position);
     }
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index aba70d2..41bf576 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -86,7 +86,7 @@ impl Buffer {
         // the current offset and delete the character to the right.
         let mut end = Position {
             line: self.cursor.line,
-            offset: self.cursor.offset + 1,
+            offset: self.cursor.offset.saturating_add(1),
         };
 
         // If there isn't a character to the right,
@@ -94,7 +94,7 @@ impl Buffer {
         // of the next line. If it doesn't exist, that's okay;
         // these values are bounds-checked by delete() anyway.
         if !self.data.borrow().in_bounds(&end) {
-            end.line += 1;
+            end.line = end.line.saturating_add(1);
             end.offset = 0;
         }
 
-- 
2.43.0

