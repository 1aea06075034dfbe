From cf545e87c15284ac435ee21cce1bb46eed751eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:22 +0000
Subject: [PATCH 1/6] fix: do not panic on an OBJ object without elements

---
 src/obj.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index caaa91c..4b09096 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1446,10 +1446,13 @@ impl<'a> Parser<'a> {
                         smoothing_group_index,
                     ));
 
-                    material_name_entry_table.push((
-                        (min_element_material_name_index, max_element_material_name_index),
-                        material_name_index,
-                    ));
+                    // An object without elements or `usemtl` statements has no geometries.
+                    if !material_names.is_empty() {
+                        material_name_entry_table.push((
+                            (min_element_material_name_index, max_element_material_name_index),
+                            material_name_index,
+                        ));
+                    }
 
                     break;
                 }
-- 
2.43.0


From 96c5d1fc7502149f8064ea179fcbf89353115196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:22 +0000
Subject: [PATCH 2/6] fix: resolve negative OBJ indices relative to the latest
 entry

A negative index was added to the wrong end of the range, so that it was
always out of range, and subtracting the smallest integer overflowed.
---
 src/obj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 4b09096..0979516 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -881,7 +881,7 @@ impl<'a> Parser<'a> {
     fn calculate_index(&self, value_range: (usize, usize), parsed_value: isize) -> Result<usize, ParseError> {
         let (min_value, max_value) = value_range;
         let actual_value = if parsed_value <= 0 {
-            max_value as isize - parsed_value
+            max_value as isize + parsed_value
         } else {
             parsed_value - 1
         };
-- 
2.43.0


From 3542e08a15464833067c91a537b6870d729b9065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:22 +0000
Subject: [PATCH 3/6] fix: report invalid indices in lines and faces instead of
 dropping them

The index list of a line or face ended at the first token that was not a
valid index, and that token was consumed without an error, so that an
out of range or malformed index silently truncated the element.
---
 src/obj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 0979516..81fc3df 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -972,9 +972,9 @@ impl<'a> Parser<'a> {
         normal_index_range: (usize, usize),
     ) -> Result<usize, ParseError> {
         let mut indices_parsed = 0;
-        while let Ok(vtn_index) =
-            self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)
-        {
+        while !matches!(self.peek(), Some("\n") | None) {
+            let vtn_index =
+                self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)?;
             vtn_indices.push(vtn_index);
             indices_parsed += 1;
         }
-- 
2.43.0


From 17109088b68a23fd7d300291af34b55acd4ded4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:22 +0000
Subject: [PATCH 4/6] fix: treat CRLF and CR as line endings in OBJ and MTL
 files

The lexer recognized carriage returns as newlines, but passed them on as
tokens of their own that neither parser understands, so that files with
CRLF line endings were rejected, or got a group named "\r".
---
 src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9c252c7..9f20e3d 100755
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -116,7 +116,10 @@ impl<'a> Lexer<'a> {
         match self.peek() {
             Some(&ch) if is_newline(ch) => {
                 self.advance();
-                self.stream.get(start_position..self.stream_position)
+                if ch == b'\r' && self.peek() == Some(&b'\n') {
+                    self.stream_position += 1;
+                }
+                Some(b"\n")
             }
             Some(_) => {
                 let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
-- 
2.43.0


From 1c0e20e374deb48d3082973fde8e6b0d2125bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:24 +0000
Subject: [PATCH 5/6] fix: reject OBJ and MTL statements that lack their name

The newline after a `usemtl`, `o`, `newmtl` or texture map statement
without a name was taken for the name.
---
 src/mtl.rs | 34 ++++++++++++++++++++++++----------
 src/obj.rs | 16 ++++++++++++----
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 186a94b..ad75b51 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -425,6 +425,20 @@ impl<'a> Parser<'a> {
         self.parse_f64()
     }
 
+    /// Advance the token stream one step, returning the name in the stream, or
+    /// nothing at the end of the input.
+    ///
+    /// This function returns an error if the statement ends without a name.
+    fn next_name(&mut self) -> Result<Option<&'a str>, ParseError> {
+        match self.peek() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected a name but got the end of the statement.".to_owned(),
+            ),
+            _ => Ok(self.next()),
+        }
+    }
+
     /// Parse the name of a material's ambient texture map from the input stream.
     fn parse_map_ambient(&mut self) -> Result<Option<&'a str>, ParseError> {
         match self.peek() {
@@ -433,7 +447,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ka")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -450,7 +464,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Kd")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -467,7 +481,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ks")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -484,7 +498,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ke")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -505,7 +519,7 @@ impl<'a> Parser<'a> {
             _ => return Ok(None),
         }
 
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -522,7 +536,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("disp")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -539,7 +553,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_d")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -556,7 +570,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("decal")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -573,7 +587,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ns")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -615,7 +629,7 @@ impl<'a> Parser<'a> {
             }
         }
 
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(st),
             None => self.error(
                 ErrorKind::EndOfFile,
diff --git a/src/obj.rs b/src/obj.rs
index 81fc3df..4654124 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -868,10 +868,16 @@ impl<'a> Parser<'a> {
         match self.peek() {
             Some("o") => {
                 self.expect_tag("o")?;
-                let object_name = self.next_string();
+                let object_name = self.next_string()?;
+                if object_name == "\n" {
+                    return self.error(
+                        ErrorKind::ExpectedTagStatement,
+                        "Expected an object name but got a newline instead.".to_owned(),
+                    );
+                }
                 self.skip_one_or_more_newlines()?;
 
-                object_name
+                Ok(object_name)
             }
             _ => Ok(""),
         }
@@ -1163,7 +1169,8 @@ impl<'a> Parser<'a> {
         smoothing_groups: &mut Vec<SmoothingGroup>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("s")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.peek().filter(|&name| name != "\n") {
+            self.advance();
             if name == "off" {
                 smoothing_groups.push(SmoothingGroup(0));
             } else if let Ok(number) = name.parse::<usize>() {
@@ -1194,7 +1201,8 @@ impl<'a> Parser<'a> {
         material_names: &mut Vec<Option<&'a str>>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("usemtl")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.peek().filter(|&name| name != "\n") {
+            self.advance();
             material_names.push(Some(name));
         } else {
             return self.error(
-- 
2.43.0


From 1813d5ffb9ea346c1eaf5b27283dd2ec3a2e3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:25 +0000
Subject: [PATCH 6/6] fix: report a statement with missing arguments on its own
 line

The newline was consumed, and counted, before the error was generated, so
that the error was reported one line below the statement.
---
 src/mtl.rs | 8 +++++++-
 src/obj.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index ad75b51..2a02d5d 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -317,8 +317,14 @@ impl<'a> Parser<'a> {
     /// Advance the token stream one step, returning the next token in the
     /// stream.
     ///
-    /// This function generates an error is it runs out of input.
+    /// This function generates an error is it runs out of input. It does not
+    /// advance past a newline, such that an error in the statement that ends
+    /// there is reported on the line of the statement.
     fn next_string(&mut self) -> Result<&'a str, ParseError> {
+        if let Some("\n") = self.peek() {
+            return Ok("\n");
+        }
+
         match self.next() {
             Some(st) => Ok(st),
             None => self.error(
diff --git a/src/obj.rs b/src/obj.rs
index 4654124..40e0f1d 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -734,8 +734,14 @@ impl<'a> Parser<'a> {
     /// Advance the token stream one step, returning the next token in the
     /// stream.
     ///
-    /// This function generates an error is it runs out of input.
+    /// This function generates an error is it runs out of input. It does not
+    /// advance past a newline, such that an error in the statement that ends
+    /// there is reported on the line of the statement.
     fn next_string(&mut self) -> Result<&'a str, ParseError> {
+        if let Some("\n") = self.peek() {
+            return Ok("\n");
+        }
+
         match self.next() {
             Some(st) => Ok(st),
             None => self.error(
-- 
2.43.0

