From 5d1f57dd92073f1a25e9a7a4e7b5bd672ff40d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 01/14] fix: comments end at the newline or at the end of the
 input

A '//' comment ended at any control character (for example a TAB), and the
last character of a comment that runs to the end of the input was left in
the token stream.
---
 layout/src/gv/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index aa894de..f846eef 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -118,6 +118,8 @@ impl Lexer {
                 }
                 prev = self.ch;
             }
+            // Unterminated comment: consume the last char.
+            self.read_char();
             return changed;
         }
 
@@ -125,11 +127,13 @@ impl Lexer {
             while self.has_next() {
                 changed = true;
                 self.read_char();
-                if self.ch.is_ascii_control() {
+                if self.ch == '\n' {
                     self.read_char();
                     return changed;
                 }
             }
+            // The comment ends at the end of the file: consume the last char.
+            self.read_char();
         }
         changed
     }
-- 
2.43.0


From 7ee202734a27b99bc29f6af722ca2e6b0a06525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 02/14] fix: do not swallow the character after a negative
 number

---
 layout/src/gv/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index f846eef..3b06bcc 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -234,7 +234,7 @@ impl Lexer {
                             let res = self.read_number();
                             num.push('-');
                             num.push_str(&res[..]);
-                            tok = Token::Identifier(num);
+                            return Token::Identifier(num);
                         } else {
                             tok = Token::Error(self.pos);
                         }
-- 
2.43.0


From 2dacc89df2191855591ef913b895ff314ce726e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 03/14] fix: do not read past the end of empty and unbalanced
 record labels

---
 layout/src/gv/record.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 97a6955..1533d05 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -87,7 +87,7 @@ impl RecordParser {
 
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
-        loop {
+        while self.pos < self.input.len() {
             // Read one char.
             let ch = self.input[self.pos];
 
@@ -119,11 +119,9 @@ impl RecordParser {
                     frame.label.push(ch);
                 }
             }
-            // Are we at the end of the buffer?
-            if self.pos == self.input.len() {
-                return frame.finalize_record();
-            }
         }
+        // We are at the end of the buffer.
+        frame.finalize_record()
     }
 }
 
-- 
2.43.0


From d3af7271cae875b4605a95dc639f001a13b7304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 04/14] fix: do not panic on graphs without nodes

---
 layout/src/topo/layout.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 4f78248..6e804d0 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -143,6 +143,10 @@ impl VisualGraph {
         disable_layout: bool,
         rb: &mut dyn RenderBackend,
     ) {
+        // There is nothing to lay out or to draw in an empty graph.
+        if self.nodes.is_empty() {
+            return;
+        }
         self.lower(disable_opt);
         Placer::new(self).layout(disable_layout);
         self.render(debug_mode, rb);
-- 
2.43.0


From 2f84217c5848f630bf96dd63f3a57d4867da90a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 05/14] fix: each edge of a chain leaves from the port of its
 own source

---
 layout/src/gv/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 95d7494..d3690e6 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -108,6 +108,7 @@ impl GraphBuilder {
         self.init_node_with_name(&e.from.name, false);
 
         let mut prev = &e.from.name;
+        let mut prev_port = &e.from.port;
         for dest in &e.to {
             let curr = &dest.0.name;
             self.init_node_with_name(curr, false);
@@ -120,11 +121,12 @@ impl GraphBuilder {
                 to: curr.clone(),
                 props: prop_list,
                 is_directed: has_arrow,
-                from_port: e.from.port.clone(),
+                from_port: prev_port.clone(),
                 to_port: dest.0.port.clone(),
             };
             self.edges.push(edge);
             prev = curr;
+            prev_port = &dest.0.port;
         }
         self.edge_attr.pop();
     }
-- 
2.43.0


From 85597dbaed35c4675e7642e4ca97d661f085413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 06/14] fix: emit the font styles in a fixed order

---
 layout/src/backends/svg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index a357341..eedb38c 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -4,7 +4,7 @@ use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
 use crate::core::geometry::Point;
 use crate::core::style::StyleAttr;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 static SVG_HEADER: &str =
     r#"<?xml version="1.0" encoding="UTF-8" standalone="no"?>"#;
@@ -56,7 +56,7 @@ pub struct SVGWriter {
     view_size: Point,
     counter: usize,
     // Maps font sizes to their class name and class impl.
-    font_style_map: HashMap<usize, (String, String)>,
+    font_style_map: BTreeMap<usize, (String, String)>,
     // A list of clip regions to generate.
     clip_regions: Vec<String>,
 }
@@ -67,7 +67,7 @@ impl SVGWriter {
             content: String::new(),
             view_size: Point::zero(),
             counter: 0,
-            font_style_map: HashMap::new(),
+            font_style_map: BTreeMap::new(),
             clip_regions: Vec::new(),
         }
     }
-- 
2.43.0


From 3be74008e48e1b432992abe2fe758853dff91304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 07/14] fix: report write errors of save_to_file

---
 layout/src/core/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/utils.rs b/layout/src/core/utils.rs
index f62dd64..7b526ce 100644
--- a/layout/src/core/utils.rs
+++ b/layout/src/core/utils.rs
@@ -6,8 +6,8 @@ use std::fs::File;
 use std::io::{Error, Write};
 
 pub fn save_to_file(filename: &str, content: &str) -> Result<(), Error> {
-    let f = File::create(filename)?;
-    let _ = write!(&f, "{}", content);
+    let mut f = File::create(filename)?;
+    f.write_all(content.as_bytes())?;
     #[cfg(feature = "log")]
     log::info!("Wrote {}", filename);
     Result::Ok(())
-- 
2.43.0


From ab3e8e043ea812e6f25a364a2256f3e54f1adc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 08/14] fix: lines extend the visible area of the image

---
 layout/src/backends/svg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index eedb38c..bba41d4 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -333,6 +333,8 @@ impl RenderBackend for SVGWriter {
         look: &StyleAttr,
         properties: Option<String>,
     ) {
+        self.grow_window(start, Point::zero());
+        self.grow_window(stop, Point::zero());
         let stroke_width = look.line_width;
         let stroke_color = look.line_color;
         let props = properties.unwrap_or_default();
-- 
2.43.0


From 5fc02f400067b5ae43ba8ed8ac6bd4936e5e5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 09/14] fix: large font sizes do not overflow the text height

---
 layout/src/backends/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index bba41d4..db4c182 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -216,7 +216,7 @@ impl RenderBackend for SVGWriter {
 
         let mut content = String::new();
         let cnt = 1 + text.lines().count();
-        let size_y = (cnt * look.font_size) as f64;
+        let size_y = cnt as f64 * look.font_size as f64;
         for line in text.lines() {
             content.push_str(&format!("<tspan x = \"{}\" dy=\"1.0em\">", xy.x));
             content.push_str(&escape_string(line));
-- 
2.43.0


From a81b963b531212fa0c424b43f006d6b93859dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:59 +0000
Subject: [PATCH 10/14] fix: keep the look of an edge label that moves to
 another row

---
 layout/src/topo/placer/move_between_rows.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 9f062cb..032a6ae 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -41,6 +41,9 @@ fn move_label(
         if txt.is_none() {
             return false;
         }
+        // The label takes the look of its edge (font size, color) with it.
+        let look = vg.element(curr).look.clone();
+        vg.element_mut(pred).look = look;
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
         vg.element_mut(pred).resize();
-- 
2.43.0


From 16a0876e1f06fdd361fdd5991b88c94315143df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:46 +0000
Subject: [PATCH 11/14] fix: leave a small gap between the boxes of a row in
 the BK pass

Boxes that touch exactly overlap after rounding, and the verifier then
panics with 'Boxes must not intersect' (for example: rankdir=LR, three
nodes and one with a self edge).
---
 layout/src/topo/placer/bk.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index e4e82d0..297d91d 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -7,6 +7,7 @@ use crate::topo::layout::VisualGraph;
 use std::collections::HashSet;
 
 use super::simple;
+use super::EPSILON;
 
 #[derive(Debug, Clone, Copy)]
 enum OrderLR {
@@ -192,15 +193,16 @@ impl<'a> Scheduler<'a> {
         for elem in v {
             // Record the x coordinate for the vertical.
             self.x_coordinates[elem.get_index()] = center_x;
-            // Update the last x value for the row.
+            // Update the last x value for the row. Keep a small gap, because
+            // boxes that touch may intersect after rounding.
             let level = self.vg.dag.level(*elem);
             let pos = self.vg.pos(*elem);
             if self.order.is_left_to_right() {
                 let side_x = pos.distance_to_right(true);
-                self.last_x_for_row[level] = center_x + side_x;
+                self.last_x_for_row[level] = center_x + side_x + EPSILON;
             } else {
                 let side_x = pos.distance_to_left(true);
-                self.last_x_for_row[level] = center_x - side_x;
+                self.last_x_for_row[level] = center_x - side_x - EPSILON;
             }
             self.sched_idx[level] += 1;
         }
-- 
2.43.0


From 0684aff6aae19b0f47eedb22921053d3c8c155d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:17 +0000
Subject: [PATCH 12/14] fix: arrows may end exactly on the middle of a
 connector

A connector that was moved onto the end of its edge has no direction to
it, and the normalization of the zero vector panicked.
---
 layout/src/core/geometry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 969f440..69a756c 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -240,6 +240,15 @@ pub fn get_passthrough_path_invisible(
     let ar = center.sub(from);
     let rb = to.sub(center);
 
+    // If the shape sits exactly on one of the ends then there is no direction
+    // to that end. Use the direction of the other end.
+    if from == center {
+        return create_vector_of_length(center, center.sub(rb), force);
+    }
+    if to == center {
+        return create_vector_of_length(center, from, force);
+    }
+
     let a_outgoing_edge = normalize_scale_vector(ar.neg(), force);
     let b_outgoing_edge = normalize_scale_vector(rb.neg(), force);
 
-- 
2.43.0


From 404e1435256e145d72f0bc0148946b01665e497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:01 +0000
Subject: [PATCH 13/14] fix: the marker of a parse error points to the error

---
 layout/src/gv/parser/lexer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 3b06bcc..eafe5a3 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -48,10 +48,10 @@ impl Lexer {
 
     pub fn print_error(&self) {
         let mut found_loc = false;
-        let mut since_last_line = 0;
+        let mut since_last_line = 1;
         let mut idx = 0;
-        // Print every char in the file.
-        for ch in self.input.iter() {
+        // Print every char in the file, and end the last line.
+        for ch in self.input.iter().chain(std::iter::once(&'\n')) {
             print!("{}", ch);
             idx += 1;
             if idx == self.pos {
@@ -73,7 +73,9 @@ impl Lexer {
                 }
                 since_last_line = 0;
             }
-            since_last_line += 1;
+            if !found_loc {
+                since_last_line += 1;
+            }
         }
     }
 
-- 
2.43.0


From c5ee63991dc0a600eba83ef03ee8981130013206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:41 +0000
Subject: [PATCH 14/14] fix: searching the graph for a path took exponential
 time

---
 layout/src/adt/dag.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index 9766483..d2ee84d 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -217,12 +217,11 @@ impl DAG {
             return true;
         }
 
-        // Don't step into a cycle.
+        // Don't search the same node again.
         if visited[from.idx] {
             return false;
         }
 
-        // Push to the dfs stack.
         visited[from.idx] = true;
 
         let from_node = &self.nodes[from.idx];
@@ -232,8 +231,6 @@ impl DAG {
             }
         }
 
-        // Pop from the dfs stack.
-        visited[from.idx] = false;
         false
     }
 
-- 
2.43.0

