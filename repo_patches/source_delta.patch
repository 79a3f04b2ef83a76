From 668ada38dd96137621b9f8fff64526c4ed399b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 1/5] fix: escape special characters in file names so that they
 can be parsed

Newlines, tabs, NULs and carriage returns were written as a backslash
followed by the raw character, which broke the header line apart and
which the parser rejects.
---
 src/patch/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8b166bf..a6e40e4 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -147,6 +147,17 @@ const ESCAPED_CHARS: &[char] = &['\n', '\t', '\0', '\r', '\"', '\\'];
 #[allow(clippy::byte_char_slices)]
 const ESCAPED_CHARS_BYTES: &[u8] = &[b'\n', b'\t', b'\0', b'\r', b'\"', b'\\'];
 
+/// Returns the character which follows the backslash when escaping one of the `ESCAPED_CHARS`
+fn escape_byte(b: u8) -> u8 {
+    match b {
+        b'\n' => b'n',
+        b'\t' => b't',
+        b'\0' => b'0',
+        b'\r' => b'r',
+        b => b,
+    }
+}
+
 impl Filename<'_, str> {
     fn needs_to_be_escaped(&self) -> bool {
         self.0.contains(ESCAPED_CHARS)
@@ -167,9 +178,10 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
             w.write_all(b"\"")?;
             for b in self.0.as_ref().as_ref() {
                 if ESCAPED_CHARS_BYTES.contains(b) {
-                    w.write_all(b"\\")?;
+                    w.write_all(&[b'\\', escape_byte(*b)])?;
+                } else {
+                    w.write_all(&[*b])?;
                 }
-                w.write_all(&[*b])?;
             }
             w.write_all(b"\"")?;
         } else {
@@ -207,9 +219,12 @@ impl fmt::Display for Filename<'_, str> {
             f.write_char('\"')?;
             for c in self.0.chars() {
                 if ESCAPED_CHARS.contains(&c) {
+                    // All of the escaped characters are ASCII
                     f.write_char('\\')?;
+                    f.write_char(escape_byte(c as u8).into())?;
+                } else {
+                    f.write_char(c)?;
                 }
-                f.write_char(c)?;
             }
             f.write_char('\"')?;
         } else {
-- 
2.43.0


From eadde7ece7552049b0a59525779decc8153f4b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 2/5] fix: keep the function context on the hunk header line

The function context was parsed including the line's newline and was
written after two spaces, so that formatting a parsed patch added an
empty line (read back as a context line) and parsing and formatting
again kept adding spaces.
---
 src/patch/format.rs | 3 +--
 src/patch/parse.rs  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/format.rs b/src/patch/format.rs
index 0c815fc..7e829b8 100644
--- a/src/patch/format.rs
+++ b/src/patch/format.rs
@@ -196,7 +196,6 @@ impl<T: AsRef<[u8]> + ?Sized> HunkDisplay<'_, T> {
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.prefix())?;
             }
-            write!(w, " ")?;
             w.write_all(ctx.as_ref())?;
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.suffix())?;
@@ -227,7 +226,7 @@ impl Display for HunkDisplay<'_, str> {
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.prefix())?;
             }
-            write!(f, " {}", ctx)?;
+            write!(f, "{}", ctx)?;
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.suffix())?;
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 8bc5fb6..c075778 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -237,7 +237,9 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
     let (ranges, function_context) = input
         .split_at_exclusive(" @@")
         .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
-    let function_context = function_context.strip_prefix(" ");
+    let function_context = function_context
+        .strip_prefix(" ")
+        .map(|context| context.strip_suffix("\n").unwrap_or(context));
 
     let (range1, range2) = ranges
         .split_at_exclusive(" ")
-- 
2.43.0


From 765beaf7bbd2c9fe7ffd08a3d82eaec295cfbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 3/5] fix: reject hunk ranges whose end overflows

Parsing such a patch or asking for the end of the range panicked, or
wrapped around in release builds, in which case overlapping hunks were
accepted.
---
 src/patch/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index c075778..bf9f587 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -258,7 +258,7 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
 }
 
 fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
-    let (start, len) = if let Some((start, len)) = s.split_at_exclusive(",") {
+    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(",") {
         (
             start
                 .parse()
@@ -274,6 +274,11 @@ fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
         )
     };
 
+    // The end of the range must be representable
+    if start.checked_add(len).is_none() {
+        return Err(ParsePatchError::new("can't parse range"));
+    }
+
     Ok(HunkRange::new(start, len))
 }
 
-- 
2.43.0


From 1208c5273dafddabfdf7b0c3e0897d7f13c1aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 4/5] fix: apply hunks without new lines at the stated position

The start of an empty range is the number of the line before it, so a
hunk that only deletes lines (no context) was searched one line too
early and could delete an equal line elsewhere.
---
 src/apply.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/apply.rs b/src/apply.rs
index 9b971cf..8f7f39b 100644
--- a/src/apply.rs
+++ b/src/apply.rs
@@ -145,7 +145,15 @@ fn find_position<T: PartialEq + ?Sized>(
 ) -> Option<usize> {
     // In order to avoid searching through positions which are out of bounds of the image,
     // clamp the starting position based on the length of the image
-    let pos = std::cmp::min(hunk.new_range().start().saturating_sub(1), image.len());
+    //
+    // The start of an empty range is the line which precedes it instead of its first line
+    let new_range = hunk.new_range();
+    let pos = if new_range.is_empty() {
+        new_range.start()
+    } else {
+        new_range.start().saturating_sub(1)
+    };
+    let pos = std::cmp::min(pos, image.len());
 
     // Create an iterator that starts with 'pos' and then interleaves
     // moving pos backward/foward by one.
-- 
2.43.0


From 446332402d81906d462155f191cfa72e97bce759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 5/5] fix: write conflict markers on their own line

When a side of a conflict ends without a newline the next marker was
appended to its last line.
---
 src/merge/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 83b99fb..2699b5b 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -545,6 +545,11 @@ fn add_conflict_marker(
     marker_len: usize,
     filename: Option<&str>,
 ) {
+    // Markers need to be on their own line even if the previous line wasn't terminated
+    if !output.is_empty() && !output.ends_with('\n') {
+        output.push('\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
@@ -625,6 +630,11 @@ fn add_conflict_marker_bytes(
     marker_len: usize,
     filename: Option<&[u8]>,
 ) {
+    // Markers need to be on their own line even if the previous line wasn't terminated
+    if !output.is_empty() && !output.ends_with(b"\n") {
+        output.push(b'\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
-- 
2.43.0

